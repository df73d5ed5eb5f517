// dbgdriver.hh - the debugger, end to end: generated designs, traces and client histories against
// the reference model of dbgmodel.hh.
//
// The debugger runs unchanged on top of three stand-ins: the simulator (dbgworld.hh, behind the
// VPI), the websocket server (messages are handed over as function calls) and the lock that holds
// the simulation while the client is in control (instead of blocking, it plays the client). So a
// history is a sequence of choices, and every message is compared with the model.
#pragma once
#include "dbgmodel.hh"
#include "debug.hh"
#include "sim.hh"
#include <fstream>
#include <iostream>

namespace hgdb {
// defined in sim.cc, declared in no header that can be used here
Debugger *initialize_hgdb_runtime_vpi(std::unique_ptr<AVPIProvider> vpi, bool start_server);
}  // namespace hgdb

namespace dbg {

struct EndOfRun {};

struct Sent {
    bool broadcast;
    uint64_t conn;
    std::string text;
};

struct Driver;
static Driver *g = nullptr;

struct Weights {
    // resuming
    unsigned cont = 6, over = 3, back = 0, reverse = 0, jump = 0;
    // requests while in control
    unsigned add_loc = 4, rm_loc = 2, add_id = 2, rm_id = 1, data = 0, monitor = 0, set = 1, eval = 1,
             option = 1, info = 1, bad = 0, stop = 0, disconnect = 0, assert_ = 0;
    unsigned pauses = 30;
    unsigned edges = 6;
    // start-up options, and clients that connect again
    bool startup = false;
    unsigned reconnect = 0;
};

struct EnvBreakpoint {
    std::string name, text;
    bool valid = false;
    std::string file;
    uint32_t line = 0, col = 0;
    std::optional<Expr> e;
    std::string cond;
};

static const std::vector<std::string> plain_env = {"DEBUG_PORT", "DEBUG_LOG", "DEBUG_DISABLE_BLOCKING",
                                                   "DEBUG_DATABASE_FILENAME", "DEBUG_PERF_COUNT"};
static void clear_env() {
    for (auto const &n : plain_env) unsetenv(n.c_str());
    for (unsigned i = 0; i < 12; i++) unsetenv(("DEBUG_BREAKPOINT" + std::to_string(i)).c_str());
}

struct Driver {
    pbt::Src &s;
    const Weights &w;
    Design d;
    Sim *sim = nullptr;
    std::unique_ptr<Model> model;
    hgdb::Debugger *debugger = nullptr;

    std::mutex m;
    std::condition_variable cv;
    std::function<void(const std::string &, uint64_t)> on_message;
    std::function<void()> on_disconnect;
    bool server_up = false;
    bool ready = false;
    bool waiting = false;
    bool stopped = false;
    bool detached = false;
    bool connected = false;
    bool forgiving = false;  // requests outside the model were made: only answers are judged
    std::vector<Sent> out;
    unsigned pauses = 0, frames = 0;
    uint64_t token = 0;
    enum Phase { Initial, Running, InEval } phase = Initial;
    bool edge_paused = false;
    unsigned multi = 0, reversals = 0;
    // start-up
    std::vector<EnvBreakpoint> env;
    std::optional<uint16_t> port_used;
    std::set<std::string> tables;      // names of symbol tables that can be read
    std::vector<std::string> asked;    // symbol tables that were asked for
    bool dead = false;                 // there is no symbol table
    bool pretty = false, verilator = false, held_at_start = true;
    unsigned connects = 0;

    Driver(pbt::Src &s, const Weights &w) : s(s), w(w) {}
    virtual ~Driver() = default;

    // ---------------------------------------------------------------- requests
    void drained(const std::string &when) {
        if (!out.empty()) s.fail("unexpected message " + when + ": " + out[0].text);
    }
    jv::V request(const std::string &type, jv::V payload, bool log = true) {
        auto tok = "t" + std::to_string(token++);
        uint64_t conn = s.draw(3);
        auto msg = jv::V::obj();
        msg.set("request", true);
        msg.set("type", type);
        msg.set("token", tok);
        msg.set("payload", payload);
        auto text = jv::str(msg);
        if (log) s.say("> " + type + " " + jv::str(payload));
        out.clear();
        on_message(text, conn);
        if (w.startup) drop_env_answers();
        s.require(out.size() == 1, "number of answers to " + text + ": " + std::to_string(out.size()));
        auto x = out[0];
        out.clear();
        s.require(!x.broadcast, "the answer to " + text + " was broadcast: " + x.text);
        s.eq(x.conn, conn, "connection the answer went to");
        if (w.startup)
            s.require((x.text.find('\n') != std::string::npos) == pretty, "layout of the answer " + x.text);
        auto v = jv::parse_or_fail(s, x.text, "answer");
        auto *t = v.get("token");
        s.require(t && t->is(jv::V::Str) && t->s == tok, "token in the answer to " + text + ": " + x.text);
        s.require(v.get("request") && v.at("request").is(jv::V::Bool) && !v.at("request").b,
                  "not marked as an answer: " + x.text);
        s.require(v.get("status") && v.at("status").is(jv::V::Str) &&
                      (v.at("status").s == "success" || v.at("status").s == "error"),
                  "status of the answer: " + x.text);
        return v;
    }
    bool success(const jv::V &v) { return v.at("status").s == "success"; }
    void ok(const jv::V &v, const std::string &what) {
        s.require(success(v), what + " was refused: " + jv::str(v));
    }
    void refused(const jv::V &v, const std::string &what) {
        s.require(!success(v), what + " was not refused: " + jv::str(v));
    }
    void command(const std::string &c, std::optional<uint64_t> time = std::nullopt) {
        auto p = jv::V::obj();
        p.set("command", c);
        if (time) p.set("time", *time);
        auto v = request("command", p);
        if (!time) ok(v, c);
        last = v;
    }
    jv::V last;

    // names that mean one thing at all these statements
    std::vector<std::string> names(const std::vector<const BP *> &bps) {
        std::map<std::string, unsigned> n;
        for (auto *b : bps) {
            std::set<std::string> mine;
            auto const &t = d.stmt(*b);
            for (auto const &g : d.kind(*b).values()) mine.insert(g);
            for (auto const &g : d.kind(*b).gen)
                if (g.rtl && !d.kind(*b).group(g.value)) mine.insert(g.name);
            for (auto const &v : t.vars) {
                if (v.name[0] == 's' || v.delay || (v.rtl && d.kind(*b).group(v.value)))
                    mine.erase(v.name);
                else
                    mine.insert(v.name);
            }
            for (auto const &x : mine) n[x]++;
        }
        std::vector<std::string> r;
        for (auto const &[k, c] : n)
            if (c == bps.size()) r.push_back(k);
        // a signal by its full name, or one of an instance below
        if (s.chance(10)) {
            auto const &o = s.pick(d.bps);
            auto const &i = d.insts[o.inst];
            r.push_back(d.full(s.pick(d.namespaces(i.top)), i) + "." + s.pick(d.kind(o).values()));
        }
        if (bps.size() == 1 && s.chance(30)) {
            auto const &me = d.insts[bps[0]->inst];
            for (auto const &i : d.insts)
                if (i.name.rfind(me.name + ".", 0) == 0)
                    r.push_back(i.name.substr(me.name.size() + 1) + "." + s.pick(d.kinds[i.kind].values()));
        }
        if (s.chance(10)) r.push_back("$instance");
        if (s.chance(10)) r.push_back("$time");
        return r;
    }
    void condition(const std::vector<const BP *> &bps, std::optional<Expr> &e, std::string &text) {
        if (!s.chance(40)) return;
        e = gen_expr(s, names(bps), 2);
        text = e->text();
    }

    // ----------------------------------------------------------------- actions
    void add_location() {
        auto const &b = s.pick(d.bps);
        auto const &t = d.stmt(b);
        auto p = jv::V::obj();
        p.set("filename", t.file);
        p.set("line_num", t.line);
        uint32_t col = s.chance(30) ? t.col : 0;
        if (col || s.chance(20)) p.set("column_num", col);
        p.set("action", "add");
        std::vector<const BP *> hit;
        for (auto const &o : d.bps) {
            auto const &x = d.stmt(o);
            if (x.file == t.file && x.line == t.line && (col == 0 || x.col == col)) hit.push_back(&o);
        }
        if (too_many(hit)) return;
        std::optional<Expr> e;
        std::string text;
        condition(hit, e, text);
        if (e) p.set("condition", text);
        ok(request("breakpoint", p), "breakpoint");
        for (auto *o : hit) model->add_normal(*o, e, text);
    }
    // equal positions in the execution order are only kept apart for few breakpoints
    bool too_many(const std::vector<const BP *> &bps) {
        if (d.ns.size() == 1) return false;
        unsigned n = 0;
        for (auto *b : bps) n += d.namespaces(d.insts[b->inst].top).size();
        return model->entries.size() + n > 15;
    }
    void remove_location() {
        auto const &b = s.pick(d.bps);
        auto const &t = d.stmt(b);
        auto p = jv::V::obj();
        p.set("filename", t.file);
        p.set("line_num", t.line);
        uint32_t col = s.chance(30) ? t.col : 0;
        if (col) p.set("column_num", col);
        p.set("action", "remove");
        ok(request("breakpoint", p), "breakpoint removal");
        for (auto const &o : d.bps) {
            auto const &x = d.stmt(o);
            if (x.file == t.file && x.line == t.line && (col == 0 || x.col == col))
                model->remove(o.id, 1);
        }
    }
    void add_id() {
        auto const &b = s.pick(d.bps);
        if (too_many({&b})) return;
        auto p = jv::V::obj();
        p.set("id", b.id);
        p.set("action", "add");
        std::optional<Expr> e;
        std::string text;
        condition({&b}, e, text);
        if (e) p.set("condition", text);
        ok(request("breakpoint-id", p), "breakpoint by id");
        model->add_normal(b, e, text);
    }
    void remove_id() {
        auto const &b = s.pick(d.bps);
        auto p = jv::V::obj();
        p.set("id", b.id);
        p.set("action", "remove");
        ok(request("breakpoint-id", p), "breakpoint removal by id");
        model->remove(b.id, 1);
    }
    std::optional<uint32_t> pick_ns(const std::string &top, jv::V &p, bool must) {
        auto n = d.namespaces(top);
        if (n.size() > 1 || s.chance(30)) {
            if (!must && n.size() > 1 && s.chance(10)) return std::nullopt;
            auto x = s.pick(n);
            p.set("namespace_id", x);
            return x;
        }
        return n[0];
    }
    void data() {
        auto p = jv::V::obj();
        switch (s.weighted({6, 2, 1, 1})) {
            case 0:
            case 3: {
                bool info = false;
                std::vector<std::pair<const BP *, std::string>> c;
                for (auto const &b : d.bps)
                    for (auto const &[v, l] : d.kind(b).assigns)
                        if (!l.empty()) c.emplace_back(&b, v);
                if (c.empty()) return;
                auto [b, var] = s.pick(c);
                if (model->entries.size() + d.kind(*b).assigns.at(var).size() > 15) return;
                if (s.chance(15)) info = true;
                p.set("action", info ? "info" : "add");
                p.set("var_name", var);
                p.set("breakpoint-id", b->id);
                std::vector<const BP *> at;
                for (auto const &a : d.kind(*b).assigns.at(var))
                    for (auto const &o : d.bps)
                        if (o.inst == b->inst && o.stmt == a.stmt) at.push_back(&o);
                std::optional<Expr> e;
                std::string text;
                condition(at, e, text);
                if (e) p.set("condition", text);
                auto n = pick_ns(d.insts[b->inst].top, p, false);
                auto v = request("data-breakpoint", p);
                if (!n) {
                    refused(v, "a data breakpoint that could be in several namespaces");
                    return;
                }
                ok(v, "data breakpoint");
                if (!info) model->add_data(*b, var, *n, e, text);
                break;
            }
            case 1: {
                auto const &b = s.pick(d.bps);
                p.set("action", "remove");
                p.set("breakpoint-id", b.id);
                auto n = pick_ns(d.insts[b.inst].top, p, true);
                ok(request("data-breakpoint", p), "data breakpoint removal");
                model->remove_data(b.id, *n);
                break;
            }
            case 2: {
                p.set("action", "clear");
                ok(request("data-breakpoint", p), "clearing the data breakpoints");
                model->clear_data();
                break;
            }
        }
    }
    // a variable for monitors and set-value: fills in the request, gives namespace and signal
    struct Target {
        std::optional<uint32_t> ns;
        int sig = -1;
    };
    // the same name with other marks for its parts
    std::string respell(const std::string &n) {
        std::string r;
        for (auto c : n)
            if (c == '.' || c == '[') {
                r += '.';
            } else if (c != ']') {
                r += c;
            }
        return s.chance(30) ? r : n;
    }
    Target target(jv::V &p) {
        Target t;
        auto const &b = s.pick(d.bps);
        auto const &i = d.insts[b.inst];
        auto const &k = d.kind(b);
        auto how = s.draw(3);
        if (how == 0) {
            // the full name in the symbol table
            auto g = s.pick(k.values());
            p.set("var_name", i.name + "." + g);
            auto n = d.namespaces(i.top);
            if (n[0] != 0 || s.chance(50)) {
                auto x = s.pick(n);
                p.set("namespace_id", x);
                t.ns = x;
            } else {
                t.ns = 0;
            }
            t.sig = model->sig(*t.ns, b.inst, g);
        } else if (how == 1) {
            std::vector<std::pair<std::string, std::string>> c;
            for (auto const &v : d.stmt(b).vars)
                if (v.rtl && v.name[0] == 'v' && !k.group(v.value)) c.emplace_back(v.name, v.value);
            if (c.empty()) return t;
            auto [n, r] = s.pick(c);
            p.set("var_name", respell(n));
            p.set("breakpoint_id", b.id);
            if (s.chance(20)) p.set("instance_id", i.id);
            t.ns = pick_ns(i.top, p, false);
            t.sig = model->sig(t.ns ? *t.ns : d.namespaces(i.top)[0], b.inst, r);
        } else {
            std::vector<std::pair<std::string, std::string>> c;
            for (auto const &v : k.gen)
                if (v.rtl && !k.group(v.value)) c.emplace_back(v.name, v.value);
            if (c.empty()) return t;
            auto [n, r] = s.pick(c);
            p.set("var_name", respell(n));
            p.set("instance_id", i.id);
            t.ns = pick_ns(i.top, p, false);
            t.sig = model->sig(t.ns ? *t.ns : d.namespaces(i.top)[0], b.inst, r);
        }
        return t;
    }
    void monitor() {
        auto p = jv::V::obj();
        std::vector<std::pair<uint32_t, uint64_t>> have;
        for (uint32_t n = 0; n < model->monitors.size(); n++)
            for (auto const &x : model->monitors[n]) have.emplace_back(n, x.id);
        if (!have.empty() && s.chance(30)) {
            auto [n, id] = s.pick(have);
            p.set("action_type", "remove");
            p.set("track_id", id);
            if (n != 0 || s.chance(50)) p.set("namespace_id", n);
            ok(request("monitor", p), "monitor removal");
            auto &l = model->monitors[n];
            for (auto it = l.begin(); it != l.end(); it++)
                if (it->id == id) {
                    l.erase(it);
                    break;
                }
            return;
        }
        p.set("action_type", "add");
        auto type = s.pick<std::string>({"breakpoint", "clock_edge", "changed"});
        p.set("monitor_type", type);
        auto t = target(p);
        if (t.sig < 0) return;
        auto v = request("monitor", p);
        if (!t.ns) {
            refused(v, "a monitor that could be in several namespaces");
            return;
        }
        ok(v, "monitor");
        auto const &pl = v.at("payload");
        s.require(pl.get("track_id") && pl.get("namespace_id"), "monitor answer " + jv::str(v));
        s.eq(pl.at("namespace_id").u, *t.ns, "namespace of the monitor");
        auto id = pl.at("track_id").u;
        auto &l = model->monitors[*t.ns];
        for (auto const &x : l) {
            if (x.type == type && x.sig == t.sig) {
                s.eq(id, x.id, "track id of a signal that is monitored already");
                return;
            }
            s.require(x.id != id, "track id in use: " + jv::str(v));
        }
        l.push_back({id, type, t.sig, std::nullopt});
    }
    void set_value() {
        auto p = jv::V::obj();
        auto t = target(p);
        if (t.sig < 0) return;
        auto width = sim->obj(t.sig)->width;
        uint64_t mask = width >= 64 ? ~0ull >> 1 : width == 32 ? 0x7fffffffu : (1ull << width) - 1;
        auto val = (s.chance(30) ? s.bits(63) : s.draw(4)) & mask;
        p.set("value", val);
        auto v = request("set-value", p);
        if (!t.ns) {
            refused(v, "a value that could be set in several namespaces");
            return;
        }
        // the simulator has no name for a part of a signal
        if (!settable() || t.sig >= Sim::slice_base) {
            refused(v, "a value that cannot be set");
            s.require(model->over == sim->over, "a value that cannot be set was set");
            return;
        }
        ok(v, "set-value");
        model->over[t.sig] = val;
        auto *o = sim->obj(t.sig);
        s.eq(sim->raw(sim->cur, sim->over, t.sig), val, "value of " + o->full + " in the simulator");
        s.require(model->over == sim->over, "set-value changed another signal");
    }
    void evaluate() {
        auto const &b = s.pick(d.bps);
        auto const &i = d.insts[b.inst];
        auto p = jv::V::obj();
        bool at_bp = s.chance(60);
        Expr e;
        if (at_bp) {
            e = gen_expr(s, names({&b}), 2);
        } else {
            std::vector<std::string> n;
            n = d.kind(b).values();
            for (auto const &x : d.kind(b).gen)
                if (x.rtl && !d.kind(b).group(x.value)) n.push_back(x.name);
            e = gen_expr(s, n, 2);
        }
        p.set("expression", e.text());
        std::vector<std::string> used;
        e.syms(used);
        bool by_inst = std::find(used.begin(), used.end(), "$instance") != used.end();
        if (at_bp) p.set("breakpoint_id", b.id);
        if (!at_bp || by_inst || s.chance(20)) p.set("instance_id", i.id);
        auto ns = d.namespaces(i.top);
        uint32_t n;
        if (ns.size() > 1 || s.chance(30)) {
            n = s.pick(ns);
            p.set("namespace_id", n);
        } else {
            n = ns[0];
        }
        auto v = request("evaluation", p);
        ok(v, "evaluation");
        auto want = e.eval([&](const std::string &x) {
            auto r = model->lookup(n, at_bp ? &b : nullptr, b.inst, x);
            return r ? *r : 0;
        });
        s.require(v.at("payload").get("result"), "no result: " + jv::str(v));
        s.eq(v.at("payload").at("result").s, std::to_string(want), "value of " + e.text());
    }
    void option() {
        auto p = jv::V::obj();
        unsigned n = 1 + s.draw(2);
        for (unsigned i = 0; i < n; i++) {
            auto name = s.pick<std::string>({"use_hex_str", "single_thread_mode", "use_signal_cache",
                                             "pause_at_posedge", "detach_after_disconnect", "perf_count"});
            p.set(name, s.coin());
        }
        ok(request("option-change", p), "option-change");
        for (auto const &[k, v] : p.o) options[k] = v.b;
        apply_options();
    }
    std::map<std::string, bool> options = {{"use_hex_str", false},
                                           {"single_thread_mode", false},
                                           {"use_signal_cache", false},
                                           {"pause_at_posedge", false},
                                           {"detach_after_disconnect", false},
                                           {"perf_count", false},
                                           {"log_enabled", false}};
    void apply_options() {
        model->hex = options["use_hex_str"];
        model->single_thread = options["single_thread_mode"];
        model->pause_edge = options["pause_at_posedge"];
        model->detach_opt = options["detach_after_disconnect"];
        pretty = options["log_enabled"];
    }
    void info() {
        auto p = jv::V::obj();
        switch (s.draw(6)) {
            case 0: {
                p.set("command", "breakpoints");
                auto v = request("debugger-info", p);
                ok(v, "debugger-info");
                std::set<std::string> got, want;
                for (auto const &x : v.at("payload").at("breakpoints").a)
                    got.insert(std::to_string(x.at("id").u) + " " + std::to_string(x.at("type").u) + " " +
                               x.at("filename").s + ":" + std::to_string(x.at("line_num").u) + ":" +
                               std::to_string(x.at("column_num").u) +
                               (x.get("var") ? " " + x.at("var").s : ""));
                for (auto const &e : model->entries) {
                    auto const &t = d.stmt(*d.bp(e->id));
                    want.insert(std::to_string(e->id) + " " + std::to_string(e->type) + " " + t.file + ":" +
                                std::to_string(t.line) + ":" + std::to_string(t.col) +
                                (e->assign ? " " + e->assign->rtl : ""));
                }
                same(got, want, "breakpoints listed");
                break;
            }
            case 1: {
                p.set("command", "options");
                auto v = request("debugger-info", p);
                ok(v, "debugger-info");
                for (auto const &[k, x] : options) {
                    auto *y = v.at("payload").at("options").get(k);
                    s.require(y && y->is(jv::V::Bool), "option " + k + " in " + jv::str(v));
                    s.eq(y->b, x, "option " + k);
                }
                break;
            }
            case 2: {
                p.set("command", "design");
                auto v = request("debugger-info", p);
                ok(v, "debugger-info");
                auto *x = v.at("payload").get("design");
                s.require(x && x->is(jv::V::Object), "design in " + jv::str(v));
                // every namespace is listed, and nothing else
                std::set<std::string> got, want;
                for (auto const &[def, inst] : x->o)
                    for (auto const &[path, id] : inst.o)
                        got.insert(def + " " + path + " " + std::to_string(id.u));
                for (unsigned i = 0; i < d.ns.size(); i++)
                    want.insert(d.ns[i].def + " " + d.ns[i].prefix + " " + std::to_string(i));
                same(got, want, "design mapping");
                break;
            }
            case 3: {
                p.set("command", "filename");
                auto v = request("debugger-info", p);
                ok(v, "debugger-info");
                std::set<std::string> got, want;
                for (auto const &x : v.at("payload").at("filenames").a) got.insert(x.s);
                for (auto const &b : d.bps) want.insert(d.stmt(b).file);
                same(got, want, "files");
                break;
            }
            case 4: {
                p.set("command", "status");
                auto v = request("debugger-info", p);
                ok(v, "debugger-info");
                break;
            }
            default: {
                auto const &t = d.stmt(s.pick(d.bps));
                p.set("filename", t.file);
                uint32_t line = 0, col = 0;
                if (s.chance(60)) p.set("line_num", line = t.line);
                if (line && s.chance(40)) p.set("column_num", col = t.col);
                auto v = request("bp-location", p);
                ok(v, "bp-location");
                std::multiset<std::string> got, want;
                for (auto const &x : v.at("payload").a)
                    got.insert(std::to_string(x.at("id").u) + " " + x.at("filename").s + ":" +
                               std::to_string(x.at("line_num").u) + ":" +
                               std::to_string(x.at("column_num").u));
                for (auto const &b : d.bps) {
                    auto const &x = d.stmt(b);
                    if (x.file == t.file && (!line || x.line == line) && (!col || x.col == col))
                        want.insert(std::to_string(b.id) + " " + x.file + ":" + std::to_string(x.line) +
                                    ":" + std::to_string(x.col));
                }
                same(got, want, "statements at a location");
                break;
            }
        }
    }
    template <typename C>
    void same(const C &got, const C &want, const std::string &what) {
        s.checked();
        if (got == want) return;
        std::string o = what + ": ";
        if (got.size() > 12 || want.size() > 12) {
            std::vector<std::string> x, y;
            std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(x));
            std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(y));
            o += "not expected {";
            for (auto const &i : x) o += " [" + i + "]";
            o += " }, missing {";
            for (auto const &i : y) o += " [" + i + "]";
            s.fail(o + " }");
        }
        o += "got {";
        for (auto const &x : got) o += " [" + x + "]";
        o += " }, expected {";
        for (auto const &x : want) o += " [" + x + "]";
        s.fail(o + " }");
    }
    // requests that cannot be granted: an error, and nothing happens
    void bad() {
        auto p = jv::V::obj();
        uint64_t nobody = 5000 + s.draw(3) * 1000;
        auto const &b = s.pick(d.bps);
        switch (s.draw(12)) {
            case 0:
                p.set("id", nobody);
                p.set("action", "add");
                refused(request("breakpoint-id", p), "an unknown breakpoint");
                break;
            case 1:
                p.set("filename", d.stmt(b).file);
                p.set("line_num", nobody);
                p.set("action", "add");
                refused(request("breakpoint", p), "a breakpoint where there is no statement");
                break;
            case 2:
                p.set("action", "add");
                p.set("var_name", s.coin() ? "w0" : "nothing");
                p.set("breakpoint-id", nobody);
                refused(request("data-breakpoint", p), "a data breakpoint at an unknown breakpoint");
                break;
            case 3:
                p.set("action", s.coin() ? "add" : "info");
                p.set("var_name", "nothing");
                p.set("breakpoint-id", b.id);
                refused(request("data-breakpoint", p), "a data breakpoint on an unknown variable");
                break;
            case 4: {
                p.set("action_type", "add");
                p.set("monitor_type", s.pick<std::string>({"breakpoint", "clock_edge", "changed"}));
                p.set("var_name", "nothing");
                auto c = s.draw(3);
                if (c == 1) p.set("breakpoint_id", s.coin() ? nobody : b.id);
                if (c == 2) p.set("instance_id", s.coin() ? nobody : d.insts[b.inst].id);
                refused(request("monitor", p), "a monitor on an unknown variable");
                break;
            }
            case 5: {
                p.set("var_name", "nothing");
                p.set("value", 1);
                auto c = s.draw(3);
                if (c == 1) p.set("breakpoint_id", s.coin() ? nobody : b.id);
                if (c == 2) p.set("instance_id", s.coin() ? nobody : d.insts[b.inst].id);
                refused(request("set-value", p), "setting an unknown variable");
                break;
            }
            case 6:
                p.set("expression", s.pick<std::string>({"nothing + 1", "1 +", "s0 s1", ""}));
                if (s.coin()) p.set("breakpoint_id", s.coin() ? nobody : b.id);
                refused(request("evaluation", p), "a faulty expression");
                break;
            case 7: {
                // a data breakpoint that makes no sense must leave nothing behind
                std::vector<std::pair<const BP *, std::string>> c;
                for (auto const &x : d.bps)
                    for (auto const &[v, l] : d.kind(x).assigns)
                        if (!l.empty()) c.emplace_back(&x, v);
                if (c.empty()) return;
                auto [x, var] = s.pick(c);
                p.set("action", s.coin() ? "add" : "info");
                p.set("var_name", var);
                p.set("breakpoint-id", x->id);
                p.set("condition", s.pick<std::string>({"nothing", "1 +", "nothing == 2"}));
                pick_ns(d.insts[x->inst].top, p, true);
                refused(request("data-breakpoint", p), "a data breakpoint with a faulty condition");
                break;
            }
            case 8:
                p.set("id", nobody);
                p.set("action", "remove");
                request("breakpoint-id", p);
                break;
            case 9:
                p.set("action_type", "remove");
                p.set("track_id", nobody);
                request("monitor", p);
                break;
            case 10: {
                // a faulty condition never stops anything
                bool there = false;
                for (auto const &e : model->entries) there = there || e->id == b.id;
                if (there) return;
                p.set("id", b.id);
                p.set("action", "add");
                p.set("condition", s.pick<std::string>({"nothing", "1 +", "nothing == 2"}));
                request("breakpoint-id", p);
                break;
            }
            case 11: {
                // requests that miss what they need
                static const std::vector<std::string> types = {
                    "breakpoint", "breakpoint-id", "connection", "bp-location", "command",    "debugger-info",
                    "path-mapping", "evaluation",  "monitor",    "set-value",   "data-breakpoint"};
                auto const &type = s.pick(types);
                if (s.coin()) p.set("nothing", nobody);
                if (s.chance(30) && type != "bp-location" && type != "connection") p.set("filename", d.stmt(b).file);
                if (s.chance(30) && type != "set-value") p.set("var_name", "w0");
                if (s.chance(30) && (type == "command" || type == "debugger-info")) p.set("command", "jum");
                refused(request(type, p), "a request without what it needs");
                break;
            }
        }
    }
    void action() {
        switch (s.weighted({w.add_loc, w.rm_loc, w.add_id, w.rm_id, w.data, w.monitor, w.set, w.eval,
                            w.option, w.info, w.bad})) {
            case 0:
                return add_location();
            case 1:
                return remove_location();
            case 2:
                return add_id();
            case 3:
                return remove_id();
            case 4:
                return data();
            case 5:
                return monitor();
            case 6:
                if (phase == InEval) set_value();
                return;
            case 7:
                return evaluate();
            case 8:
                return option();
            case 9:
                return info();
            default:
                return bad();
        }
    }
    void actions(unsigned max) {
        unsigned n = s.draw(max + 1);
        for (unsigned i = 0; i < n; i++) action();
    }

    // -------------------------------------------------------------- judgement
    void check_monitors(std::vector<std::tuple<uint32_t, uint64_t, int64_t>> want, size_t from,
                        const std::string &when) {
        std::multiset<std::string> got, exp;
        for (size_t i = from; i < out.size(); i++) {
            auto v = jv::parse_or_fail(s, out[i].text, "message");
            s.require(out[i].broadcast && v.get("type") && v.at("type").s == "monitor",
                      "message " + when + ": " + out[i].text);
            auto const &p = v.at("payload");
            got.insert(std::to_string(p.at("namespace_id").u) + "/" + std::to_string(p.at("track_id").u) +
                       "=" + p.at("value").s);
        }
        bool judge = true;
        for (auto const &[n, id, v] : want) {
            if (model->hex && v < 0) judge = false;
            char buf[40];
            snprintf(buf, sizeof buf, model->hex ? "0x%llX" : "%lld", static_cast<long long>(v));
            exp.insert(std::to_string(n) + "/" + std::to_string(id) + "=" + buf);
        }
        if (judge)
            same(got, exp, "monitored values " + when);
        else
            s.eq(got.size(), exp.size(), "number of monitored values " + when);
        if (!exp.empty()) s.label("monitor");
    }
    void check_frame(const std::vector<Scope> &want) {
        s.require(!out.empty(), "no message at a stop; expected breakpoint " + std::to_string(want[0].id));
        auto v = jv::parse_or_fail(s, out[0].text, "frame");
        s.require(out[0].broadcast && v.get("type") && v.at("type").s == "breakpoint",
                  "message at a stop: " + out[0].text);
        auto const &p = v.at("payload");
        auto key = [](uint64_t id, uint64_t ns, const std::string &type) {
            return std::to_string(id) + "@" + std::to_string(ns) + " " + type;
        };
        std::multiset<std::string> got, exp;
        for (auto const &i : p.at("instances").a)
            got.insert(key(i.at("breakpoint_id").u, i.at("namespace_id").u, i.at("bp_type").s));
        for (auto const &x : want) exp.insert(key(x.id, x.ns, x.type));
        s.say("< stop at edge " + std::to_string(model->cur) + ": " + std::to_string(want[0].id) + "@" +
              std::to_string(want[0].ns) + (want.size() > 1 ? " and more" : ""));
        same(got, exp, "stop at time " + std::to_string(p.at("time").u) + " (expected time " +
                           std::to_string(sim->time_of(model->cur)) + ")");
        s.eq(p.at("time").u, sim->time_of(model->cur), "time of the stop");
        auto const &t = d.stmt(*d.bp(want[0].id));
        s.eq(p.at("filename").s, t.file, "file of the stop");
        s.eq(p.at("line_num").u, t.line, "line of the stop");
        s.eq(p.at("column_num").u, t.col, "column of the stop");
        for (auto const &x : want) {
            auto const &b = *d.bp(x.id);
            auto const &inst = d.insts[b.inst];
            for (auto const &i : p.at("instances").a) {
                if (i.at("breakpoint_id").u != x.id || i.at("namespace_id").u != x.ns) continue;
                s.eq(i.at("instance_id").u, inst.id, "instance id");
                s.eq(i.at("instance_name").s, d.full(x.ns, inst), "instance name");
                auto loc = model->locals(x);
                auto gen = model->gens(x);
                std::set<std::string> got_names, exp_names;
                for (auto const &[k, val] : i.at("local").o) got_names.insert(k);
                for (auto const &[k, val] : loc) exp_names.insert(k);
                same(got_names, exp_names, "local variables of breakpoint " + std::to_string(x.id));
                for (auto const &[k, val] : loc)
                    if (val)
                        s.eq(i.at("local").at(k).s, *val, "local variable " + k + " of " + d.full(x.ns, inst) +
                                                              " at breakpoint " + std::to_string(x.id));
                got_names.clear();
                exp_names.clear();
                for (auto const &[k, val] : i.at("generator").o) got_names.insert(k);
                for (auto const &[k, val] : gen) exp_names.insert(k);
                same(got_names, exp_names, "generator variables of " + d.full(x.ns, inst));
                for (auto const &[k, val] : gen)
                    s.eq(i.at("generator").at(k).s, val,
                         "generator variable " + k + " of " + d.full(x.ns, inst));
            }
        }
        frames++;
        if (want.size() > 1) multi++;
    }

    // the simulation is held: the client is in control
    void on_wait() {
        {
            std::unique_lock l(m);
            cv.wait(l, [&] { return server_up; });
        }
        if (phase == Initial) {
            s.require(held_at_start, "held at the start although this is switched off");
            connected = true;
            if (w.startup)
                at_start();
            else
                connect();
        } else {
            s.require(phase == InEval, "the simulation is held while nothing is evaluated");
            arrive();
        }
        waiting = true;
        if (++pauses > w.pauses) throw EndOfRun{};
        if (w.startup && s.chance(w.reconnect)) {
            connect_again();
            while (dead && s.chance(90)) connect_again();
        }
        if (dead) {
            without_table();
        } else {
            actions(phase == Initial ? 6 : 3);
        }
        resume();
        if (!ready) throw EndOfRun{};
        waiting = false;
    }
    void arrive() {
        if (model->pause_edge && !edge_paused && !in_loop) {
            edge_paused = true;
            s.say("< held at edge " + std::to_string(model->cur));
            drained("when held at a clock edge");
            s.label("held-at-edge");
            return;
        }
        if (!in_loop) {
            model->start_eval();
            in_loop = true;
        }
        auto stop = model->next_stop();
        if (!stop) {
            std::string o = out.empty() ? "" : out[0].text;
            s.fail("stopped where nothing is due (edge " + std::to_string(model->cur) + "): " + o);
        }
        s.eq(sim->cur, model->cur, "clock edge the simulation is at");
        check_frame(*stop);
        check_monitors(model->monitor_values("breakpoint"), 1, "at a stop");
        out.clear();
    }
    bool in_loop = false;

    void resume() {
        if (dead) {
            // nothing but the end, or a table after all
            if (phase != Initial && s.coin()) return resume(s.coin() && model->detach_opt ? 6 : 5);
            connect_to(true);
        }
        resume(s.weighted({w.cont, w.over, w.back, w.reverse, phase == Initial ? 0 : w.jump,
                           phase == Initial ? 0 : w.stop, phase == Initial ? 0 : w.disconnect}));
    }
    void resume(size_t c) {
        switch (c) {
            case 0:
                command("continue");
                model->set_mode(Mode::Continue);
                break;
            case 1:
                command("step_over");
                model->set_mode(Mode::StepOver);
                break;
            case 2:
                command("step_back");
                model->set_mode(Mode::StepBack);
                s.label("step-back");
                break;
            case 3:
                command("reverse_continue");
                model->set_mode(Mode::Reverse);
                s.label("reverse");
                break;
            case 4: {
                auto t = sim->edges[s.draw(sim->edges.size())].time + s.draw(3);
                command("jump", t);
                bool r = model->rewind(t);
                s.eq(success(last), r, "outcome of a jump");
                s.label(r ? "jump" : "jump-refused");
                break;
            }
            case 5: {
                s.say("> stop");
                auto p = jv::V::obj();
                p.set("command", "stop");
                request("command", p, false);
                s.require(sim->finished, "stop did not end the simulation");
                s.require(ready, "stop left the simulation held");
                s.require(!watching(), "stop left clock callbacks behind");
                model->set_mode(Mode::None);
                model->entries.clear();
                stopped = true;
                s.label("stop");
                break;
            }
            case 6: {
                s.say("> all clients disconnect");
                out.clear();
                on_disconnect();
                if (!model->detach_opt) {
                    s.require(!ready, "a disconnect let the simulation run");
                    command("continue");
                    model->set_mode(Mode::Continue);
                    break;
                }
                s.require(ready, "the simulation is held after all clients have left");
                s.require(!watching(), "clock callbacks after all clients have left");
                model->set_mode(Mode::None);
                detached = true;
                left_now = phase == InEval;
                s.label("detach");
                break;
            }
        }
        s.require(ready, "the simulation is still held");
    }
    void connect() {
        auto p = jv::V::obj();
        p.set("db_filename", "unused");
        ok(request("connection", p), "connection");
        connected = true;
        s.require(watching(), "no callback on the clock");
    }
    // ---- start-up and connections
    void drop_env_answers() {
        // (answers to the breakpoints of the environment go to nobody)
        std::erase_if(out, [](const Sent &m) { return !m.broadcast && m.conn == std::numeric_limits<uint64_t>::max(); });
    }
    void set(const std::string &name, const std::string &value) {
        setenv(name.c_str(), value.c_str(), 1);
        s.say("$ " + name + "=" + value);
    }
    void options_of_start() {
        clear_env();
        tables = {"a.json", "/x/b.db"};
        sim->args = {"simv"};
        auto arg = [&](const std::string &a) {
            sim->args.push_back(a);
            s.say("$ simv " + a);
        };
        static const std::vector<std::string> names = {
            "RTLMock", "Chronologic Simulation VCS Release ", "xmsim(64)", "Icarus Verilog", "ModelSim SE", "Verilator"};
        sim->product = names[s.weighted({5, 2, 1, 1, 1, 2})];
        if (sim->product == "Verilator" && (d.ns.size() > 1 || d.insts.size() < 2)) sim->product = "RTLMock";
        verilator = sim->product == "Verilator";
        sim->verilator = verilator;
        s.say("simulator " + sim->product);
        // those that are not meant for the debugger
        static const std::vector<std::string> other = {
            "-sv_seed", "+DEBUG_PORTS=12", "+define+DEBUG_PORT=4000", "DEBUG_PORT=4", "+define+DEBUG_LOG",
            "+NO_DEBUG_DISABLE_BLOCKING", "+DEBUG_DISABLE_BLOCKINGS", "+DEBUG_LOGS=1", "+", ""};
        while (s.chance(40)) arg(s.pick(other));
        want_port = 8888;
        std::string port;
        if (s.chance(30)) {
            want_port = static_cast<uint16_t>(1024 + s.draw(60000));
            port = std::to_string(want_port);
        } else if (s.chance(10)) {
            port = s.pick<std::string>({"port", "", "99999999999999999999999999"});
        }
        if (want_port != 8888 || !port.empty()) arg("+DEBUG_PORT=" + port);
        while (s.chance(20)) arg(s.pick(other));
        switch (s.weighted({90, 3, 3, 3})) {
            case 1:
                arg("+DEBUG_LOG=1");
                pretty = true;
                break;
            case 2:
                arg("+DEBUG_LOG");
                pretty = true;
                break;
            case 3:
                set("DEBUG_LOG", s.pick<std::string>({"1", ""}));
                pretty = true;
                break;
        }
        switch (s.weighted({8, 1, 1})) {
            case 1:
                arg("+DEBUG_DISABLE_BLOCKING");
                held_at_start = false;
                break;
            case 2:
                set("DEBUG_DISABLE_BLOCKING", s.pick<std::string>({"1", ""}));
                held_at_start = false;
                break;
        }
        dead = true;
        if (s.chance(25)) {
            bool good = s.chance(80);
            set("DEBUG_DATABASE_FILENAME", good ? "a.json" : "no.json");
            dead = !good;
        }
        // breakpoints; after a gap there are no more
        unsigned n = s.chance(60) ? 1 + s.draw(4) : 0;
        size_t entries = 0;
        unsigned at = 0;
        bool gap = false;
        for (unsigned i = 0; i < n; i++) {
            EnvBreakpoint x;
            if (s.chance(10)) {
                gap = true;
                at++;
            }
            x.name = "DEBUG_BREAKPOINT" + std::to_string(at++);
            if (s.chance(25)) {
                x.text = s.pick<std::string>({"", "/src/a.py", "/src/a.py:", "/src/a.py:x", "/src/a.py:1:y", "@", "@s0",
                                              "/src/a.py:1:2:3", "/src/none.py:1", "/src/a.py:999", ":"});
            } else {
                auto const &b = s.pick(d.bps);
                auto const &t = d.stmt(b);
                x.valid = true;
                x.file = t.file;
                x.line = t.line;
                x.col = s.chance(30) ? t.col : 0;
                x.text = t.file + ":" + std::to_string(t.line);
                if (x.col || s.chance(10)) x.text += ":" + std::to_string(x.col);
                std::vector<const BP *> hit;
                for (auto const &o : d.bps) {
                    auto const &y = d.stmt(o);
                    if (y.file == t.file && y.line == t.line && (x.col == 0 || y.col == x.col)) hit.push_back(&o);
                }
                for (auto *o : hit) entries += d.namespaces(d.insts[o->inst].top).size();
                if (d.ns.size() > 1 && entries > 8) continue;
                std::optional<Expr> e;
                condition(hit, e, x.cond);
                x.e = e;
                if (e)
                    x.text += "@" + x.cond;
                else if (s.chance(20))
                    x.text += "@";
            }
            set(x.name, x.text);
            if (!gap) env.push_back(x);
        }
        if (!env.empty()) s.label("environment-breakpoints");
    }
    uint16_t want_port = 8888;
    Design all;
    bool delays = false;
    // what a new table leaves of the state
    void fresh() {
        dead = false;
        model->entries.clear();
        model->mode = Mode::Continue;
        model->current.reset();
        for (auto const &x : env) {
            if (!x.valid) continue;
            for (auto const &o : d.bps) {
                auto const &t = d.stmt(o);
                if (t.file == x.file && t.line == x.line && (x.col == 0 || t.col == x.col))
                    model->add_normal(o, x.e, x.cond);
            }
        }
    }
    // another table for the same design: other ids, perhaps fewer statements
    void another_table() {
        if (s.coin()) return;
        s.label("another-table");
        model->entries.clear();  // (they refer to the table)
        std::vector<uint32_t> ids;
        bool free = !delays;
        for (auto const &m : model->monitors) free = free && m.empty();
        if (free && all.ns.size() > 1) {
            // perhaps not all of the designs, so that the namespaces change
            d = all;
            std::set<std::string> tops;
            for (auto const &n : d.ns) tops.insert(n.def);
            if (tops.size() > 1 && s.coin()) {
                s.label("other-namespaces");
                auto keep = d.ns[0].def;
                std::vector<unsigned> to(d.insts.size(), ~0u);
                std::vector<Inst> insts;
                for (unsigned i = 0; i < d.insts.size(); i++)
                    if (d.insts[i].top == keep) {
                        to[i] = static_cast<unsigned>(insts.size());
                        insts.push_back(d.insts[i]);
                    }
                d.insts = insts;
                std::erase_if(d.bps, [&](const BP &b) { return to[b.inst] == ~0u; });
                for (auto &b : d.bps) b.inst = to[b.inst];
                std::erase_if(d.ns, [&](const NS &n) { return n.def != keep; });
            }
            model->monitors.clear();
            model->monitors.resize(d.ns.size());
            model->watches.clear();
            model->watches.resize(d.ns.size());
        }
        while (d.bps.size() > 1 && s.chance(30)) d.bps.erase(d.bps.begin() + static_cast<long>(s.draw(d.bps.size())));
        for (auto const &b : d.bps) ids.push_back(b.id);
        s.shuffle(ids);
        d.bp_index.clear();
        for (unsigned i = 0; i < d.bps.size(); i++) {
            d.bps[i].id = ids[i];
            d.bps[i].order = i;
            d.bp_index[ids[i]] = i;
        }
        ids.clear();
        for (auto const &i : d.insts) ids.push_back(i.id);
        s.shuffle(ids);
        for (unsigned i = 0; i < d.insts.size(); i++) d.insts[i].id = ids[i];
        s.say(describe(d));
    }
    void connect_to(bool good) {
        auto p = jv::V::obj();
        auto name = good ? s.pick<std::string>({"a.json", "/x/b.db"}) : "no.json";
        p.set("db_filename", name);
        if (good) another_table();
        asked.clear();
        auto v = request("connection", p);
        s.require(asked == std::vector<std::string>{name}, "another symbol table was read than " + name);
        if (good) {
            ok(v, "connection");
            if (connects++) s.label("connected-again");
            if (!verilator) s.require(watching(), "no callback on the clock");
            if (detached) s.label("attached-again");
            detached = false;
            fresh();
        } else {
            refused(v, "a connection to a symbol table that is not there");
            s.label("no-table");
            dead = true;
            model->entries.clear();
            model->current.reset();
        }
    }
    void connect_again() { connect_to(s.chance(75)); }
    void without_table() {
        unsigned n = s.draw(3);
        for (unsigned i = 0; i < n; i++) {
            auto const &b = s.pick(d.bps);
            auto p = jv::V::obj();
            std::string type;
            switch (s.draw(7)) {
                case 0:
                    type = "breakpoint";
                    p.set("filename", d.stmt(b).file);
                    p.set("line_num", d.stmt(b).line);
                    p.set("action", s.pick<std::string>({"add", "remove"}));
                    break;
                case 1:
                    type = "breakpoint-id";
                    p.set("id", b.id);
                    p.set("action", s.pick<std::string>({"add", "remove"}));
                    break;
                case 2:
                    type = "command";
                    p.set("command", s.pick<std::string>({"continue", "step_over", "step_back", "reverse_continue"}));
                    break;
                case 3:
                    type = "bp-location";
                    p.set("filename", d.stmt(b).file);
                    break;
                case 4:
                    type = "debugger-info";
                    p.set("command", s.pick<std::string>({"breakpoints", "filename"}));
                    break;
                case 5:
                    type = "evaluation";
                    p.set("scope", "");
                    p.set("is_context", true);
                    p.set("breakpoint_id", b.id);
                    p.set("expression", "1 + 1");
                    break;
                default:
                    type = "data-breakpoint";
                    p.set("action", "clear");
                    break;
            }
            bool was = ready;
            refused(request(type, p), type + " without a symbol table");
            s.require(ready == was, "the simulation is let go without a symbol table");
        }
    }
    void at_start() {
        drop_env_answers();
        drained("at the start");
        s.require(port_used && *port_used == want_port,
                  "port " + (port_used ? std::to_string(*port_used) : "none") + " instead of " + std::to_string(want_port));
        if (dead && s.coin()) without_table();
        if (dead || s.coin()) connect_again();
    }
    void between_edges() {
        if (!s.chance(w.reconnect)) return;
        if (s.chance(30) && model->detach_opt && !detached) {
            s.say("> all clients disconnect");
            out.clear();
            on_disconnect();
            s.require(!watching(), "clock callbacks after all clients have left");
            model->set_mode(Mode::None);
            detached = true;
            s.label("detach");
        } else {
            connect_again();
        }
        if (dead) without_table();
    }

    // ---- the simulator; a waveform can take its place
    virtual void arrange() {}
    virtual std::unique_ptr<hgdb::AVPIProvider> provider(std::unique_ptr<Sim> own) { return own; }
    virtual bool settable() { return true; }
    virtual void started() {}
    virtual bool watching() { return sim->watching(); }
    virtual void end_simulation() { sim->fire(cbEndOfSimulation, nullptr, 0); }
    virtual void simulate() {
        sim->fire(cbStartOfSimulation, nullptr, 0);
        s.require(connected == held_at_start, held_at_start ? "the simulation did not wait for the client"
                                                            : "the simulation was held at the start");
        if (!held_at_start) {
            std::unique_lock l(m);
            cv.wait(l, [&] { return server_up; });
            l.unlock();
            at_start();
            s.label("not-held");
        }
        phase = Running;
        for (unsigned guard = 0; guard < 60; guard++) {
            if (sim->finished) break;
            auto next = sim->cur + 1;
            if (next >= static_cast<int>(sim->edges.size())) break;
            if (w.startup && !stopped) between_edges();
            if (!stopped && !detached && !dead) {
                actions(1);
                if (w.assert_ && s.chance(w.assert_)) assertion();
            }
            sim->go(next);
            model->go(next);
            auto *clk = sim->clock_objs[sim->edges[static_cast<size_t>(next)].clock];
            phase = InEval;
            edge_paused = false;
            in_loop = false;
            drained("before a clock edge");
            if (verilator)
                sim->fire(cbNextSimTime, nullptr, 0);
            else
                sim->fire(cbValueChange, clk, 1);
            end_of_edge();
            phase = Running;
            sim->fire(cbValueChange, clk, 0);
            drained("at a falling clock edge");
        }
    }
    void run(const Shape &shape) {
        d = gen_design(s, shape);
        all = d;
        delays = shape.delays;
        auto own = std::make_unique<Sim>();
        sim = own.get();
        sim->build(d);
        sim->gen_trace(s, 1 + s.draw(w.edges));
        sim->can_rewind = s.chance(60);
        sim->args = {"simv", "+DEBUG_NO_DB"};
        arrange();
        s.say(describe(d));
        std::string text = "trace:";
        for (unsigned e = 0; e <= sim->edges.size() && sim->sig_objs.size() < 20; e++) {
            text += e ? "\n @" + std::to_string(sim->edges[e - 1].time) : "\n init";
            for (unsigned i = 0; i < sim->sig_objs.size(); i++)
                text += " " + sim->sig_objs[i]->full.substr(3) + "=" + std::to_string(sim->values[e][i]);
        }
        s.say(text + (sim->can_rewind ? "\n time can go back" : ""));
        if (w.startup) options_of_start();
        options["log_enabled"] = pretty;
        model = std::make_unique<Model>(d, *sim);
        g = this;
        if (sim->product.find("VCS") != std::string::npos) {
            model->detach_opt = true;
            options["detach_after_disconnect"] = true;
        }
        // keep the simulator alive: the debugger owns it otherwise
        debugger = hgdb::initialize_hgdb_runtime_vpi(provider(std::move(own)), false);
        keep = debugger->rtl_clients()[0]->vpi();
        started();
        if (!w.startup) debugger->initialize_db(std::make_unique<ModelDB>(d));
        if (w.startup && !dead) fresh();
        try {
            simulate();
        } catch (const EndOfRun &) {
        }
        g = nullptr;
        ready = true;
        s.label("frames-" + std::string(frames == 0 ? "0" : frames < 4 ? "few" : "many"));
        if (multi) s.label("threads");
        if (model->rewound) s.label("rewound");
        if (d.ns.size() > 1) s.label("namespaces");
    }
    std::shared_ptr<hgdb::AVPIProvider> keep;
    void end_of_edge() {
        if (dead && !in_loop) {
            drained("without a symbol table");
            return;
        }
        if (detached || stopped) {
            // the values of monitored signals at the end of the clock edge that was being evaluated
            if (left_now && !stopped && !in_loop) model->start_eval();
            if (left_now) model->monitor_values("changed");
            left_now = false;
            std::erase_if(out, [](const Sent &m) { return m.text.find("\"monitor\"") != std::string::npos; });
            drained("after the debugger was detached");
            return;
        }
        if (!in_loop) {
            s.require(!model->pause_edge || edge_paused || edge_option_late, "not held at the clock edge");
            model->start_eval();
            in_loop = true;
        }
        auto stop = model->next_stop();
        if (stop)
            s.fail("did not stop at edge " + std::to_string(model->cur) + ": expected breakpoint " +
                   std::to_string((*stop)[0].id) + "@" + std::to_string((*stop)[0].ns));
        s.eq(sim->cur, model->cur, "clock edge the simulation is at");
        auto want = model->monitor_values("clock_edge");
        auto more = model->monitor_values("changed");
        want.insert(want.end(), more.begin(), more.end());
        check_monitors(want, 0, "at the end of a clock edge");
        out.clear();
    }
    bool edge_option_late = false;
    bool left_now = false;  // the clients left during the evaluation of this edge
    void assert_call(Obj *where, const std::string &in, std::optional<uint32_t> at, std::optional<uint32_t> column) {
        auto *call = sim->mk(Obj::TfCall, "", "", nullptr);
        if (where) sim->mk(Obj::Arg, "", "", call)->target = where;
        if (!in.empty()) {
            auto *file = sim->mk(Obj::Arg, "", "", call);
            file->const_type = vpiStringConst;
            file->sval = in;
        }
        for (auto v : {at, column}) {
            if (!v) continue;
            auto *x = sim->mk(Obj::Arg, "", "", call);
            x->const_type = vpiIntConst;
            x->ival = *v;
        }
        sim->tf_call = call;
        s.require(sim->have_tf, "no system task registered");
        sim->tf.calltf(sim->tf.user_data);
        sim->tf_call = nullptr;
    }
    // a call that makes no sense changes nothing
    void bad_assertion(const Stmt &t, uint32_t n) {
        auto *scope = sim->by_name.at(d.ns[n].prefix);
        auto c = s.draw(5);
        s.say("an assertion that makes no sense (" + std::to_string(c) + ")");
        if (c == 0) assert_call(nullptr, t.file, t.line, std::nullopt);
        if (c == 1) assert_call(scope, "", t.line, std::nullopt);
        if (c == 2) assert_call(scope, t.file, std::nullopt, std::nullopt);
        if (c == 3) assert_call(scope, t.file, t.line + 5000, std::nullopt);
        if (c == 4) {
            auto *other = sim->mk(Obj::Module, "nowhere", "nowhere", nullptr);
            other->def = "nowhere";
            assert_call(other, t.file, t.line, std::nullopt);
        }
        drained("after an assertion that makes no sense");
    }
    void assertion() {
        auto const &b = s.pick(d.bps);
        auto const &t = d.stmt(b);
        // the debugger takes the first statement of the location
        const BP *first = nullptr;
        bool col = s.coin() && t.col;
        for (auto const &o : d.bps) {
            auto const &x = d.stmt(o);
            if (x.file == t.file && x.line == t.line && (!col || x.col == t.col)) {
                first = &o;
                break;
            }
        }
        auto ns = d.namespaces(d.insts[first->inst].top);
        auto n = s.pick(ns);
        for (auto const &e : model->entries)
            if (e->id == first->id && e->type == 4) return;
        if (model->entries.size() > 14) return;
        if (s.chance(15)) return bad_assertion(t, n);
        s.say("assertion fails at " + t.file + ":" + std::to_string(t.line) + " in " + d.ns[n].prefix);
        assert_call(sim->by_name.at(d.ns[n].prefix), t.file, t.line, col ? std::optional(t.col) : std::nullopt);
        model->add_assert(*first, n);
        s.label("assert");
    }
    void finish() {
        if (!sim) return;
        ready = true;
        if (debugger) {
            end_simulation();
            debugger = nullptr;
        }
    }
};

static Driver *owner = nullptr;

template <typename D = Driver>
static void run_driver(pbt::Src &s, const Weights &w, const Shape &shape) {
    D d(s, w);
    owner = &d;
    struct Quiet {
        std::streambuf *o = nullptr, *e = nullptr;
        ~Quiet() {
            if (o) std::cout.rdbuf(o);
            if (e) std::cerr.rdbuf(e);
        }
    } quiet;
    if (w.startup) {
        quiet.o = std::cout.rdbuf(nullptr);
        quiet.e = std::cerr.rdbuf(nullptr);
    }
    try {
        d.run(shape);
    } catch (...) {
        g = nullptr;
        d.finish();
        owner = nullptr;
        throw;
    }
    d.finish();
    owner = nullptr;
    if (d.frames >= 1) s.nontrivial(s.text_);
}

}  // namespace dbg

// ---------------------------------------------------------------------------------- stand-ins
namespace hgdb {
DebugServer::DebugServer() {}
DebugServer::DebugServer(bool) {}
void DebugServer::run(uint16_t port) {
    auto *d = dbg::owner;
    if (!d) return;
    std::lock_guard l(d->m);
    d->port_used = port;
    d->server_up = true;
    d->cv.notify_all();
}
void DebugServer::stop() {}
void DebugServer::send(const std::string &p) {
    if (dbg::g) dbg::g->out.push_back({true, 0, p});
}
void DebugServer::send(const std::string &p, const std::string &) {
    if (dbg::g) dbg::g->out.push_back({true, 0, p});
}
void DebugServer::send(const std::string &p, uint64_t c) {
    if (dbg::g) dbg::g->out.push_back({false, c, p});
}
void DebugServer::set_on_message(const std::function<void(const std::string &, uint64_t)> &f) {
    if (dbg::owner) dbg::owner->on_message = f;
}
void DebugServer::set_on_call_client_disconnect(const std::function<void(void)> &f) {
    if (dbg::owner) dbg::owner->on_disconnect = f;
}
void DebugServer::add_to_topic(const std::string &, uint64_t) {}
void DebugServer::remove_from_topic(const std::string &, uint64_t) {}

std::unique_ptr<SymbolTableProvider> create_symbol_table(const std::string &name) {
    auto *d = dbg::owner;
    if (!d) return nullptr;
    d->asked.push_back(name);
    if (!d->tables.count(name)) return nullptr;
    return std::make_unique<dbg::ModelDB>(d->d);
}

void RuntimeLock::wait() {
    auto *d = dbg::owner;
    if (!d) return;
    if (d->ready || !dbg::g) {
        d->ready = false;
        return;
    }
    d->on_wait();
    d->ready = false;
}
void RuntimeLock::ready() {
    if (dbg::owner) dbg::owner->ready = true;
}
}  // namespace hgdb

// the simulator's own VPI is never used, except to ask whether there is one
extern "C" {
PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info) { return 0; }
void vpi_get_value(vpiHandle, p_vpi_value) {}
PLI_INT32 vpi_get(PLI_INT32, vpiHandle) { return 0; }
vpiHandle vpi_iterate(PLI_INT32, vpiHandle) { return nullptr; }
vpiHandle vpi_scan(vpiHandle) { return nullptr; }
char *vpi_get_str(PLI_INT32, vpiHandle) { return nullptr; }
vpiHandle vpi_handle_by_name(char *, vpiHandle) { return nullptr; }
vpiHandle vpi_handle_by_index(vpiHandle, PLI_INT32) { return nullptr; }
void vpi_get_time(vpiHandle, p_vpi_time) {}
vpiHandle vpi_register_cb(p_cb_data) { return nullptr; }
PLI_INT32 vpi_remove_cb(vpiHandle) { return 0; }
PLI_INT32 vpi_release_handle(vpiHandle) { return 0; }
PLI_INT32 vpi_control(PLI_INT32, ...) { return 0; }
vpiHandle vpi_put_value(vpiHandle, p_vpi_value, p_vpi_time, PLI_INT32) { return nullptr; }
vpiHandle vpi_register_systf(p_vpi_systf_data) { return nullptr; }
vpiHandle vpi_handle(PLI_INT32, vpiHandle) { return nullptr; }
}

