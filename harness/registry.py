"""What is built and what is run for each property.

quick / thorough: (worker processes, cases per worker, seconds per worker at most)."""

TARGETS = {
    "h_eval": {"harness": ["h_eval.cc"]},
    "h_proto": {"harness": ["h_proto.cc"]},
    "h_vcd": {"harness": ["h_vcd.cc"], "repo": ["tools/vcd/vcd.cc"]},
    "h_debug": {"harness": ["h_debug.cc"], "libs": "-Wl,--allow-multiple-definition"},
    "h_debug_tsan": {"harness": ["h_debug.cc"], "libs": "-Wl,--allow-multiple-definition",
                     "variant": "tsan"},
    "h_watch": {"harness": ["h_watch.cc"], "libs": "-Wl,--allow-multiple-definition"},
    "h_rtl": {"harness": ["h_rtl.cc"], "libs": "-Wl,--allow-multiple-definition"},
    "h_symbol": {"harness": ["h_symbol.cc"]},
    "h_remote": {"harness": ["h_remote.cc"]},
    "h_remote_tsan": {"harness": ["h_remote.cc"], "variant": "tsan"},
    # (sqlite_orm is not installed: harness/standin has a stand-in for it, on the real SQLite)
    "h_replay": {"harness": ["h_replay.cc"], "extra": "-IHARNESS/standin",
                 "repo": ["tools/hgdb-replay/engine.cc", "tools/hgdb-replay/vpi.cc",
                          "tools/hgdb-replay/vcd_db.cc", "tools/hgdb-replay/vpi_dummy.cc",
                          "tools/vcd/vcd.cc"],
                 "repo_extra": "-IHARNESS/standin -ITREE/tools/vcd",
                 "libs": "-lsqlite3"},
    "h_live": {"harness": ["h_live.cc"], "extra": "-IHARNESS/standin",
               "repo": ["tools/hgdb-replay/engine.cc", "tools/hgdb-replay/vpi.cc",
                        "tools/hgdb-replay/vcd_db.cc", "tools/vcd/vcd.cc"],
               "repo_extra": "-IHARNESS/standin -ITREE/tools/vcd",
               "libs": "-lsqlite3 -Wl,--allow-multiple-definition"},
    "h_tool": {"harness": ["h_tool.cc"], "extra": "-DVERSION_NUMBER=0 -IHARNESS/standin",
               "repo": ["tools/hgdb-replay/engine.cc", "tools/hgdb-replay/vpi.cc",
                        "tools/hgdb-replay/vcd_db.cc", "tools/hgdb-replay/vpi_dummy.cc",
                        "tools/vcd/vcd.cc"],
               "repo_extra": "-IHARNESS/standin -ITREE/tools/vcd",
               "libs": "-lsqlite3"},
    "h_sqlite": {"harness": ["h_sqlite.cc"], "extra": "-DPBT_SQLITE -IHARNESS/standin",
                 "repo": ["src/db.cc", "src/symbol.cc"],
                 "repo_extra": "-DPBT_SQLITE -IHARNESS/standin", "libs": "-lsqlite3"},
    "h_rewrite": {"harness": ["h_rewrite.cc"],
                  "extra": "-DPBT_SQLITE -DVERSION_NUMBER=0 -IHARNESS/standin",
                  "repo": ["tools/vcd/vcd.cc"], "libs": "-lsqlite3"},
    "h_dbtool": {"harness": ["h_dbtool.cc"],
                 "extra": "-DPBT_SQLITE -DVERSION_NUMBER=0 -IHARNESS/standin",
                 "repo": ["src/db.cc", "src/symbol.cc"],
                 "repo_extra": "-DPBT_SQLITE -IHARNESS/standin", "libs": "-lsqlite3"},
    "h_python": {"harness": ["h_python.cc"],
                 "extra": "-DPBT_BINDINGS=TREE/bindings/python -DPBT_WORKER=HARNESS/pyworker.py"},
    "h_server": {"harness": ["h_server.cc"]},
    "h_server_tsan": {"harness": ["h_server.cc"], "variant": "tsan"},
    "h_session": {"harness": ["h_session.cc"], "libs": "-Wl,--allow-multiple-definition"},
    "h_session_tsan": {"harness": ["h_session.cc"], "libs": "-Wl,--allow-multiple-definition",
                       "variant": "tsan"},
}

CHECKS = {
    "C01": {
        "rule": "distinct expression texts (with at least one operator, or judged by the reference parser); distinct by text",
        "props": [
            {"target": "h_eval", "prop": "eval_ast", "quick": (8, 20000, 60),
             "thorough": (8, 1000000, 600)},
            {"target": "h_eval", "prop": "eval_string", "quick": (8, 20000, 60),
             "thorough": (8, 1000000, 600)},
            {"target": "h_eval", "prop": "eval_algebra", "quick": (8, 5000, 60),
             "thorough": (8, 300000, 600)},
        ],
    },
    "C02": {
        "rule": "distinct messages that exercise a request's members or a specific damage; distinct by message text",
        "props": [
            {"target": "h_proto", "prop": "proto_request", "quick": (8, 10000, 60),
             "thorough": (8, 500000, 600)},
            {"target": "h_proto", "prop": "proto_bad_request", "quick": (8, 10000, 60),
             "thorough": (8, 500000, 600)},
            {"target": "h_proto", "prop": "proto_any_text", "quick": (8, 10000, 60),
             "thorough": (8, 500000, 600)},
        ],
    },
    "C03": {
        "rule": "distinct documents written or read with at least one data member; distinct by text",
        "props": [
            {"target": "h_proto", "prop": "proto_response", "quick": (8, 10000, 60),
             "thorough": (8, 500000, 600)},
            {"target": "h_proto", "prop": "proto_symbol_request", "quick": (8, 5000, 60),
             "thorough": (8, 500000, 600)},
            {"target": "h_proto", "prop": "proto_symbol_response", "quick": (8, 10000, 60),
             "thorough": (8, 500000, 600)},
            {"target": "h_proto", "prop": "proto_symbol_any", "quick": (8, 10000, 60),
             "thorough": (8, 500000, 600)},
        ],
    },
    "C04": {
        "rule": "sym_query: tables with at least two statements; sym_path: path mappings that change at least one path; distinct by table text",
        "props": [
            {"target": "h_symbol", "prop": "sym_query", "quick": (8, 2000, 60),
             "thorough": (8, 200000, 600)},
            {"target": "h_symbol", "prop": "sym_path", "quick": (8, 4000, 30),
             "thorough": (8, 200000, 200)},
        ],
    },
    "C05": {
        "rule": "every damaged or arbitrary document; distinct by text",
        "props": [
            {"target": "h_symbol", "prop": "sym_any", "quick": (8, 2000, 60),
             "thorough": (8, 200000, 600)},
        ],
    },
    "C06": {
        "rule": "tables written with at least one scope entry; distinct by the written text",
        "props": [
            {"target": "h_symbol", "prop": "sym_writer", "quick": (8, 2000, 60),
             "thorough": (8, 200000, 600)},
        ],
    },
    "C07": {
        "rule": "histories with at least one stop; distinct by design, trace and requests",
        "props": [
            {"target": "h_debug", "prop": "dbg_continue", "quick": (8, 3000, 60),
             "thorough": (8, 500000, 600)},
            {"target": "h_debug", "prop": "dbg_threads", "quick": (8, 500, 60),
             "thorough": (8, 100000, 400)},
            {"target": "h_debug_tsan", "prop": "dbg_races", "quick": (8, 400, 40),
             "thorough": (8, 10000, 300)},
        ],
    },
    "C08": {
        "rule": "histories with at least one stop; distinct by design, trace and requests",
        "props": [
            {"target": "h_debug", "prop": "dbg_time", "quick": (8, 3000, 60),
             "thorough": (8, 500000, 900)},
        ],
    },
    "C09": {
        "rule": "histories with at least one stop; distinct by design, trace and requests",
        "props": [
            {"target": "h_debug", "prop": "dbg_frames", "quick": (8, 3000, 60),
             "thorough": (8, 500000, 900)},
        ],
    },
    "C10": {
        "rule": "histories with at least one stop; distinct by design, trace and requests",
        "props": [
            {"target": "h_debug", "prop": "dbg_data", "quick": (8, 3000, 60),
             "thorough": (8, 500000, 900)},
        ],
    },
    "C11": {
        "rule": "dbg_monitor: histories with at least one stop, distinct by design, trace and requests; mon_watch: histories in which a watched value is reported, distinct by history",
        "props": [
            {"target": "h_debug", "prop": "dbg_monitor", "quick": (8, 3000, 60),
             "thorough": (8, 500000, 900)},
            {"target": "h_watch", "prop": "mon_watch", "quick": (8, 3000, 60),
             "thorough": (8, 300000, 600)},
        ],
    },
    "C12": {
        "rule": "histories with at least one stop; distinct by design, trace and requests",
        "props": [
            {"target": "h_debug", "prop": "dbg_requests", "quick": (8, 3000, 60),
             "thorough": (8, 500000, 900)},
        ],
    },
    "C13": {
        "rule": "designs with at least one signal, or callback histories; distinct by design and operations",
        "props": [
            {"target": "h_rtl", "prop": "rtl_names", "quick": (8, 10000, 60),
             "thorough": (8, 500000, 600)},
            {"target": "h_rtl", "prop": "rtl_places", "quick": (8, 5000, 60),
             "thorough": (8, 300000, 400)},
            {"target": "h_rtl", "prop": "rtl_callbacks", "quick": (8, 5000, 60),
             "thorough": (8, 300000, 400)},
        ],
    },
    "C14": {
        "rule": "vcd_read: files with at least one variable, timestamp and value change; vcd_cut and vcd_damaged: every file; distinct by text",
        "props": [
            {"target": "h_vcd", "prop": "vcd_read", "quick": (8, 5000, 60),
             "thorough": (8, 500000, 600)},
            {"target": "h_vcd", "prop": "vcd_cut", "quick": (8, 5000, 60),
             "thorough": (8, 500000, 600)},
            {"target": "h_vcd", "prop": "vcd_damaged", "quick": (8, 5000, 60),
             "thorough": (8, 500000, 600)},
        ],
    },
    "C15": {
        "rule": "routing and storms: histories in which a message was delivered; lock: histories with a release before or after the wait; distinct by operations",
        "props": [
            {"target": "h_server", "prop": "srv_routing", "quick": (8, 500, 40),
             "thorough": (8, 30000, 400)},
            {"target": "h_server", "prop": "srv_storm", "quick": (8, 200, 40),
             "thorough": (8, 15000, 400)},
            {"target": "h_server_tsan", "prop": "srv_races", "quick": (8, 60, 40),
             "thorough": (8, 5000, 300)},
            {"target": "h_server", "prop": "srv_lock", "quick": (8, 500, 30),
             "thorough": (8, 50000, 200)},
            {"target": "h_session", "prop": "srv_session", "quick": (8, 200, 50),
             "thorough": (8, 20000, 400)},
            {"target": "h_session_tsan", "prop": "srv_session_races", "quick": (8, 40, 40),
             "thorough": (8, 5000, 300)},
        ],
    },
    "C16": {
        "rule": "rem_query: tables with at least two statements; rem_gone: connections that end after at least one answer; rem_many: queries of several threads; rem_connect: addresses without a table; distinct by table, queries and faults",
        "props": [
            {"target": "h_remote", "prop": "rem_query", "quick": (8, 60, 60),
             "thorough": (8, 10000, 600)},
            {"target": "h_remote", "prop": "rem_gone", "quick": (8, 200, 60),
             "thorough": (8, 20000, 600)},
            {"target": "h_remote", "prop": "rem_many", "quick": (8, 200, 60),
             "thorough": (8, 20000, 600)},
            {"target": "h_remote_tsan", "prop": "rem_races", "quick": (8, 50, 60),
             "thorough": (8, 5000, 600)},
            {"target": "h_remote", "prop": "rem_connect", "quick": (8, 50, 60),
             "thorough": (8, 2000, 300)},
        ],
    },
    "C17": {
        "rule": "dumps with more than two signals and more than two time steps; distinct by the text of the dump",
        "props": [
            {"target": "h_replay", "prop": "rep_db", "quick": (8, 300, 60),
             "thorough": (8, 50000, 600)},
            {"target": "h_replay", "prop": "rep_vpi", "quick": (8, 300, 60),
             "thorough": (8, 50000, 600)},
            {"target": "h_replay", "prop": "rep_client", "quick": (8, 300, 60),
             "thorough": (8, 50000, 600)},
            {"target": "h_replay", "prop": "rep_engine", "quick": (8, 300, 60),
             "thorough": (8, 50000, 600)},
        ],
    },
    "C18": {
        "rule": "tables with at least two breakpoints; distinct by breakpoints, variables and assignments",
        "props": [
            {"target": "h_sqlite", "prop": "sql_query", "quick": (8, 1000, 60),
             "thorough": (8, 100000, 600)},
        ],
    },
    "C19": {
        "rule": "histories with at least one stop; distinct by design, trace, options and requests",
        "props": [
            {"target": "h_debug", "prop": "dbg_startup", "quick": (8, 3000, 60),
             "thorough": (8, 500000, 900)},
        ],
    },
    "C20": {
        "rule": "rew_rename: waveforms with values in time of which a variable is renamed; rew_damaged: every waveform; distinct by waveform and table",
        "props": [
            {"target": "h_rewrite", "prop": "rew_rename", "quick": (8, 1000, 60),
             "thorough": (8, 100000, 600)},
            {"target": "h_rewrite", "prop": "rew_damaged", "quick": (8, 1000, 60),
             "thorough": (8, 100000, 600)},
        ],
    },
    "C21": {
        "rule": "py_client: sessions with at least one request; py_provider: tables with at least two statements; py_table: tables with at least two statements; py_instances: tables with an instance; distinct by requests or table",
        "props": [
            {"target": "h_python", "prop": "py_client", "quick": (8, 1000, 60),
             "thorough": (8, 100000, 600)},
            {"target": "h_python", "prop": "py_provider", "quick": (8, 100, 60),
             "thorough": (8, 10000, 600)},
            {"target": "h_python", "prop": "py_table", "quick": (8, 500, 60),
             "thorough": (8, 50000, 600)},
            {"target": "h_python", "prop": "py_instances", "quick": (8, 100, 30),
             "thorough": (8, 2000, 100)},
        ],
    },
    "C22": {
        "rule": "sessions with at least one stop; distinct by design, trace and requests",
        "props": [
            {"target": "h_live", "prop": "live_stops", "quick": (8, 1000, 60),
             "thorough": (8, 100000, 900)},
            {"target": "h_live", "prop": "live_data", "quick": (8, 1000, 60),
             "thorough": (8, 100000, 900)},
        ],
    },
    "C23": {
        "rule": "sessions with at least two queries that have an answer; distinct by commands and table",
        "props": [
            {"target": "h_dbtool", "prop": "tool_query", "quick": (8, 1000, 60),
             "thorough": (8, 100000, 600)},
        ],
    },
    "C24": {
        "rule": "tool_replay: sessions with at least two stops; tool_refused: every case; distinct by arguments, waveform and table",
        "props": [
            {"target": "h_tool", "prop": "tool_replay", "quick": (8, 150, 60),
             "thorough": (8, 10000, 600)},
            {"target": "h_tool", "prop": "tool_refused", "quick": (4, 20, 20),
             "thorough": (4, 40, 60)},
        ],
    },
}
