// hgdb-db: what the tool prints is what the symbol table it loaded answers.
// The tool's own source is compiled in and run through its command line and its prompt.
#include <unistd.h>

#define main dbtool_main
#include "../tools/hgdb-db/hgdb-db.cc"
#undef main

#include "symquery.hh"

namespace {

struct File {
    std::string name;
    File() {
        name = "/dev/shm/pbt_dbt_XXXXXX";
        int fd = mkstemp(name.data());
        if (fd < 0) {
            name = "/tmp/pbt_dbt_XXXXXX";
            fd = mkstemp(name.data());
        }
        if (fd < 0) throw std::runtime_error("mkstemp");
        close(fd);
    }
    File(const File &) = delete;
    ~File() {
        unlink(name.c_str());
        unlink((name + "-journal").c_str());
    }
    void put(const std::string &text) const { std::ofstream(name) << text; }
};

// a table kept in SQLite
std::string gen_sqlite(Src &s, const std::string &file) {
    using namespace hgdb;
    auto db = init_debug_db(file);
    db.sync_schema();
    db.begin_transaction();
    std::string said;
    uint32_t insts = static_cast<uint32_t>(s.range(1, 3)), bps = static_cast<uint32_t>(s.range(1, 6)),
             vars = static_cast<uint32_t>(s.range(1, 4));
    auto name = [&]() { return s.pick<std::string>({"a", "b", "x", "arr[0]", "io.in", "y"}); };
    for (uint32_t i = 0; i < insts; i++) store_instance(db, i, i ? "top.i" + std::to_string(i) : "top");
    for (uint32_t i = 0; i < vars; i++) store_variable(db, i, s.pick<std::string>({"a", "b", "sig_1", "4", "42"}), s.coin());
    for (uint32_t i = 0; i < bps; i++) {
        auto in = static_cast<uint32_t>(s.draw(insts));
        auto f = s.pick<std::string>({"a.cc", "b.cc", "dir/a.cc"});
        auto line = static_cast<uint32_t>(s.range(1, 4)), col = static_cast<uint32_t>(s.range(0, 2));
        auto cond = s.pick<std::string>({"", "a", "a && b"});
        store_breakpoint(db, i, in, f, line, col, cond);
        said += f + ":" + std::to_string(line) + ":" + std::to_string(col) + "@" + std::to_string(in) + cond + ";";
        for (size_t k = s.range(0, 2); k-- > 0;) {
            auto n = name();
            auto v = static_cast<uint32_t>(s.draw(vars));
            store_context_variable(db, n, i, v);
            said += n + "=" + std::to_string(v) + ";";
        }
        if (s.chance(40)) {
            auto n = name();
            store_assignment(db, n, n, i, s.pick<std::string>({"", "x"}));
            said += "=>" + n + ";";
        }
    }
    for (uint32_t i = 0; i < insts; i++)
        for (size_t k = s.range(0, 2); k-- > 0;) {
            auto n = name();
            store_generator_variable(db, n, i, static_cast<uint32_t>(s.draw(vars)), "");
            said += "gen " + n + ";";
        }
    db.commit();
    return said;
}

// what was printed: the lines that belong to a list or a record, without their indentation
using Lines = std::vector<std::string>;

std::string trim(const std::string &t) {
    auto a = t.find_first_not_of(" \t\r\n");
    if (a == std::string::npos) return "";
    return t.substr(a, t.find_last_not_of(" \t\r\n") - a + 1);
}
void put(Lines &l, const std::string &key, const std::string &value) { l.push_back(trim("- " + key + ": " + value)); }

Lines printed(const std::string &out) {
    Lines r;
    std::istringstream in(out);
    std::string line;
    while (std::getline(in, line)) {
        line = trim(line);
        if (!line.empty() && line[0] == '[') {
            auto e = line.find("]:");
            if (e == std::string::npos) continue;
            r.push_back("[" + trim(line.substr(1, e - 1)) + "]");
            line = trim(line.substr(e + 2));
            // a plain entry, not a record
            if (line.rfind("- ", 0) != 0) {
                r.back() += " " + line;
                continue;
            }
        }
        if (line.rfind("- ", 0) == 0) {
            auto c = line.find(':');
            if (c == std::string::npos) continue;
            put(r, line.substr(2, c - 2), trim(line.substr(c + 1)));
        }
    }
    return r;
}
std::string show(const Lines &l) {
    std::string r;
    for (auto const &x : l) r += x + "|";
    return r;
}

void record(Lines &l, const hgdb::BreakPoint &b) {
    put(l, "id", std::to_string(b.id));
    put(l, "filename", b.filename);
    put(l, "line", std::to_string(b.line_num));
    if (b.instance_id) put(l, "instance", std::to_string(*b.instance_id));
    if (b.column_num) put(l, "column", std::to_string(b.column_num));
    if (!b.condition.empty()) put(l, "condition", b.condition);
}
std::string index(size_t i) { return "[" + std::to_string(i) + "]"; }

struct Loaded {
    std::string path, said;
    // what the table answers, asked directly
    std::unique_ptr<hgdb::SymbolTableProvider> db;
    std::vector<uint32_t> bps;
    std::vector<std::string> vars;
};

struct Step {
    std::string line;
    enum Kind { None, Text, List, Nothing } kind = None;  // Nothing: an answer that is not an entry
    Lines want;
    std::string text, what;
};

bool number(const std::string &t, uint64_t most, uint64_t &v) {
    if (t.empty() || t.size() > 15 || t.find_first_not_of("0123456789") != std::string::npos) return false;
    v = std::stoull(t);
    return v <= most;
}

Step gen_query(Src &s, Loaded *at) {
    Step r;
    auto *db = at ? at->db.get() : nullptr;
    auto any_bp = [&]() {
        return !at || at->bps.empty() || s.chance(10) ? static_cast<uint32_t>(s.draw(50)) : s.pick(at->bps);
    };
    auto kind = s.draw(8);
    r.kind = Step::List;
    switch (kind) {
        case 0:
        case 1: {
            auto id = kind ? any_bp() : static_cast<uint32_t>(s.draw(6));
            r.line = std::string("instance ") + (kind ? "bp-id " : "id ") + std::to_string(id);
            r.kind = Step::Text;
            if (!db) break;
            auto n = kind ? db->get_instance_name_from_bp(id) : db->get_instance_name(id);
            if (n) r.text = *n;
            break;
        }
        case 2: {
            r.line = "instance list";
            if (!db) break;
            auto n = db->get_instance_names();
            for (size_t i = 0; i < n.size(); i++) r.want.push_back(trim(index(i) + " " + n[i]));
            break;
        }
        case 3: {
            auto id = any_bp();
            r.line = "breakpoint id " + std::to_string(id);
            if (!db) break;
            if (auto b = db->get_breakpoint(id)) record(r.want, *b);
            break;
        }
        case 4: {
            std::string f = "a.cc";
            uint32_t line = 1, col = 1;
            if (db) {
                if (auto b = db->get_breakpoint(any_bp())) {
                    f = b->filename;
                    line = b->line_num;
                    col = b->column_num;
                }
            }
            if (s.chance(20)) line = static_cast<uint32_t>(s.range(1, 9));
            if (s.chance(20)) col = static_cast<uint32_t>(s.range(1, 4));
            if (s.chance(5)) f = "none.cc";
            auto parts = s.draw(3);
            auto lt = std::to_string(line), ct = std::to_string(col);
            if (s.chance(8)) lt = s.pick<std::string>({"x", "1x", "-1", std::to_string(4294967296ULL + line), "99999999999999999999"});
            if (s.chance(8)) ct = s.pick<std::string>({"y", "2y", std::to_string(4294967296ULL + col)});
            if (lt == "0") lt = "1";
            auto text = f;
            if (parts > 0) text += ":" + lt;
            if (parts > 1) text += ":" + ct;
            r.line = "breakpoint where " + (s.coin() || f.find(' ') != std::string::npos ? "\"" + text + "\"" : text);
            uint64_t l = 0, c = 0;
            bool ok = (parts < 1 || number(lt, UINT32_MAX, l)) && (parts < 2 || number(ct, UINT32_MAX, c));
            if (!ok) {
                r.kind = Step::Nothing;
                break;
            }
            if (!db) break;
            auto bps = parts == 0   ? db->get_breakpoints(f)
                       : parts == 1 ? db->get_breakpoints(f, static_cast<uint32_t>(l))
                                    : db->get_breakpoints(f, static_cast<uint32_t>(l), static_cast<uint32_t>(c));
            for (size_t i = 0; i < bps.size(); i++) {
                r.want.push_back(index(i));
                record(r.want, bps[i]);
            }
            if (parts > 0 && bps.size() > 1) s.label("several breakpoints at a place");
            break;
        }
        case 5:
        case 6: {
            auto id = kind == 5 ? any_bp() : static_cast<uint32_t>(s.draw(6));
            r.line = std::string(kind == 5 ? "context" : "generator") + " id " + std::to_string(id);
            if (!db) break;
            auto put_all = [&](auto const &vars) {
                for (size_t i = 0; i < vars.size(); i++) {
                    r.want.push_back(index(i));
                    put(r.want, "name", vars[i].first.name);
                    put(r.want, "value", vars[i].second.value);
                }
            };
            if (kind == 5) {
                put_all(db->get_context_variables(id));
            } else {
                put_all(db->get_generator_variable(id));
            }
            break;
        }
        default: {
            auto id = any_bp();
            auto var = at && !at->vars.empty() && s.chance(70) ? s.pick(at->vars) : s.pick<std::string>({"a", "b", "c", "x", "io.in"});
            if (var.find_first_of(" \"") != std::string::npos) var = "a";
            r.line = "assign get " + var + " " + std::to_string(id);
            if (!db) break;
            size_t i = 0;
            for (auto const &[bp, name, cond] : db->get_assigned_breakpoints(var, id)) {
                auto b = db->get_breakpoint(bp);
                if (!b) continue;
                r.want.push_back(index(i++));
                put(r.want, "name", name);
                if (!cond.empty()) put(r.want, "condition", cond);
                put(r.want, "var", "");
                record(r.want, *b);
            }
        }
    }
    r.what = r.line.substr(0, r.line.find(' ', r.line.find(' ') + 1));
    if (!db) r.kind = Step::Nothing;
    return r;
}

void prop_tool(Src &s) {
    // ---- the files
    std::vector<std::unique_ptr<File>> files;
    std::vector<Loaded> tables;
    size_t n = s.range(1, 2);
    for (size_t i = 0; i < n; i++) {
        auto f = std::make_unique<File>();
        Loaded l;
        l.path = f->name;
        if (s.chance(70)) {
            auto w = gen_table(s);
            f->put(w.text);
            l.said = w.text;
            for (auto const &st : w.t.stmts)
                for (auto const &x : st)
                    for (auto const &v : x.entry->vars) l.vars.push_back(v.name);
        } else if (s.chance(80)) {
            l.said = gen_sqlite(s, f->name);
            l.vars = {"a", "b", "x", "arr[0]", "io.in", "y"};
            s.say(l.said);
            s.label("SQLite");
        } else {
            l.said = s.pick<std::string>({"", "{", "[]", "{\"generator\": 3}", "no table"});
            f->put(l.said);
            s.say("damaged: " + l.said);
        }
        l.db = hgdb::create_symbol_table(f->name);
        if (l.db) l.bps = l.db->execution_bp_orders();
        files.push_back(std::move(f));
        tables.push_back(std::move(l));
    }
    // ---- the session
    Loaded *at = nullptr;
    std::vector<std::string> argv{"hgdb-db"};
    auto choose = [&]() -> std::string {
        at = nullptr;
        auto k = s.draw(10);
        if (k == 0) return "/nonexistent/table.json";
        if (k == 1) return s.pick<std::string>({"tcp:", "tcp:localhost:x"});
        auto &l = tables[s.draw(tables.size())];
        if (l.db) at = &l;
        return l.path;
    };
    if (s.chance(70)) argv.push_back(choose());
    std::vector<Step> steps;
    std::string in, said;  // the menu entered
    size_t count = s.range(1, 12), answered = 0;
    for (size_t i = 0; i < count; i++) {
        Step st;
        if (s.chance(argv.size() > 1 ? 10 : 30)) {
            st.line = "load " + choose();
        } else {
            st = gen_query(s, at);
            // the same from inside its menu
            auto menu = st.line.substr(0, st.line.find(' '));
            if (s.chance(25)) {
                steps.push_back({});
                if (!in.empty()) {
                    steps.back().line = "hgdb";
                    steps.push_back({});
                }
                steps.back().line = in = menu;
            }
            if (in == menu && s.chance(70)) st.line = st.line.substr(menu.size() + 1);
            if (!st.want.empty() || !st.text.empty()) answered++;
        }
        steps.push_back(st);
    }
    if (s.coin()) {
        steps.push_back({});
        steps.back().line = "exit";
    }
    auto &typed = cli::Typed::get();
    typed.lines.clear();
    for (auto const &st : steps) {
        typed.lines.push_back(st.line);
        auto l = st.line;
        for (size_t k = 0; k < tables.size(); k++)
            if (auto p = l.find(tables[k].path); p != std::string::npos)
                l = l.substr(0, p) + "<" + std::to_string(k) + ">";
        said += l + "; ";
    }
    s.say((argv.size() > 1 ? "started with a table: " : "started without: ") + said);
    if (answered >= 2) s.nontrivial(said + tables[0].said);
    std::string out;
    int status;
    {
        std::ostringstream to;
        struct Back {
            std::streambuf *b;
            ~Back() { std::cout.rdbuf(b); }
        } back{std::cout.rdbuf(to.rdbuf())};
        std::vector<char *> words;
        for (auto &w : argv) words.push_back(w.data());
        status = dbtool_main(static_cast<int>(words.size()), words.data());
        out = to.str();
    }
    s.eq(status, 0, "the tool ends with success");
    // ---- the answers
    size_t from = 0;
    for (auto const &st : steps) {
        auto to = out.find(cli::Typed::mark, from);
        s.require(to != std::string::npos, "the tool stopped before " + st.line);
        auto text = out.substr(from, to - from);
        from = to + 1;
        auto where = "'" + st.line + "' printed:\n" + text;
        if (st.kind == Step::None) continue;
        s.require(text.find("wrong command") == std::string::npos, "the tool refused a command: " + where);
        if (st.kind == Step::Text) {
            s.eq(trim(text), trim(st.text), "answer to " + st.line + " of the output " + out);
        } else {
            auto got = printed(text);
            s.checked();
            if (got != st.want) s.fail("the table answers " + show(st.want) + "\n" + where);
            if (st.kind == Step::Nothing) s.require(!trim(text).empty(), "nothing was said about it: " + where);
        }
    }
    for (auto const &st : steps)
        if (st.kind != Step::None && !(st.want.empty() && st.text.empty())) s.label("answered: " + st.what);
}

}  // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, {{{.name = "tool_query"}, prop_tool}});
}
