// symcheck.hh - every query of a symbol table against the table it was made from.
#pragma once
#include "symgen.hh"

#include "db.hh"
#include "eval.hh"
#include "json.hh"

using pbt::Src;
using sym::Entry;
using sym::Stmt;
using sym::Table;
using sym::Var;
using Provider = hgdb::SymbolTableProvider;
using Json = hgdb::JSONSymbolTableProvider;

namespace {  // NOLINT: one user per binary

std::string show(const std::vector<Var> &v) {
    std::string r;
    for (auto const &x : v) r += "[" + x.str() + "]";
    return r;
}

std::vector<Var> to_vars(const std::vector<Provider::ContextVariableInfo> &in) {
    std::vector<Var> r;
    for (auto const &[c, v] : in)
        r.push_back({c.name, v.value, v.is_rtl, c.type == 1, c.type == 1 ? c.depth : 1});
    return r;
}

// value of a condition; conditions of the generator are over a, b and c
int64_t truth(Src &s, const std::string &cond, const std::map<std::string, int64_t> &env) {
    if (cond.empty()) return 1;
    hgdb::DebugExpression e(cond);
    s.require(e.correct(), "condition '" + cond + "' cannot be evaluated");
    for (auto const &n : e.symbols()) {
        s.require(env.count(n), "condition '" + cond + "' has an unknown symbol " + n);
        e.set_value(n, env.at(n));
    }
    return e.eval() != 0;
}

bool groups_match(const std::vector<Var> &got, const std::vector<std::vector<Var>> &groups) {
    size_t at = 0;
    for (auto const &g : groups) {
        if (at + g.size() > got.size()) return false;
        std::vector<Var> a(got.begin() + static_cast<long>(at),
                           got.begin() + static_cast<long>(at + g.size())),
            b = g;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (!(a == b)) return false;
        at += g.size();
    }
    return at == got.size();
}

std::string flat(const std::vector<std::vector<Var>> &groups) {
    std::string r;
    for (auto const &g : groups) r += "{" + show(g) + "}";
    return r;
}

std::string full_rtl(const std::string &inst, const std::string &value) {
    // a name that starts at the top may belong to another instance
    if (value == inst || value.rfind(inst.substr(0, inst.find('.')) + ".", 0) == 0) return value;
    return inst + "." + value;
}

std::optional<int64_t> signal(const std::string &name) {
    auto h = pbt::fnv(name.data(), name.size());
    if (h % 7 == 0) return std::nullopt;
    return static_cast<int64_t>(h / 7 % 5);
}

// the name a source name resolves to in an instance; nullopt: it does not
std::optional<std::string> resolve_instance(const Table &t, const sym::Instance &i,
                                            const std::string &name) {
    for (auto const &v : t.modules[i.module].vars)
        if (sym::same_name(v.name, name) || v.value == name)
            return v.rtl ? full_rtl(i.name, v.value) : v.value;
    return std::nullopt;
}

struct Checker {
    Src &s;
    const Table &t;
    Provider &p;
    bool signals = false;
    std::map<std::string, uint64_t> inst_id;
    std::map<uint64_t, size_t> inst_of;                 // instance id -> index
    std::map<uint32_t, std::pair<size_t, size_t>> bps;  // id -> instance, statement
    std::map<std::pair<size_t, size_t>, uint32_t> bp_id;

    void instances() {
        auto names = p.get_instance_names();
        std::multiset<std::string> got(names.begin(), names.end()), want;
        for (auto const &i : t.instances) want.insert(i.name);
        s.require(got == want, "instance names differ: " + std::to_string(got.size()) +
                                   " reported, the design has " + std::to_string(want.size()));
        for (size_t k = 0; k < t.instances.size(); k++) {
            auto const &i = t.instances[k];
            auto id = p.get_instance_id(i.name);
            s.require(id.has_value(), "instance " + i.name + " is not found");
            s.require(!inst_of.count(*id), "two instances have the same id: " + i.name);
            inst_id[i.name] = *id;
            inst_of[*id] = k;
            auto n = p.get_instance_name(static_cast<uint32_t>(*id));
            s.require(n.has_value() && *n == i.name, "the id of " + i.name + " names " +
                                                         (n ? *n : std::string("nothing")));
            auto gv = p.get_generator_variable(static_cast<uint32_t>(*id));
            std::vector<Var> g;
            for (auto const &[a, b] : gv) g.push_back({a.name, b.value, b.is_rtl, false, 1});
            std::vector<Var> w;
            for (auto v : t.modules[i.module].vars) {
                v.delay = false;
                v.depth = 1;
                w.push_back(v);
            }
            s.require(g == w, "generator variables of " + i.name + ": " + show(g) + ", expected " +
                                  show(w));
            for (auto const &v : t.modules[i.module].vars) {
                for (auto const &q : {v.name, v.value}) {
                    auto r = p.resolve_scoped_name_instance(q, *id);
                    auto e = resolve_instance(t, i, q);
                    s.require(r == e, "'" + q + "' in " + i.name + " resolves to " +
                                          (r ? *r : std::string("nothing")) + ", expected " +
                                          (e ? *e : std::string("nothing")));
                }
            }
        }
        for (auto const &n : std::vector<std::string>{"", ".", "nowhere", t.instances[0].name + ".no",
                                                      t.instances[0].name + "x"}) {
            if (inst_id.count(n)) continue;
            s.require(!p.get_instance_id(n), "there is no instance '" + n + "'");
        }
        uint32_t unknown = 0;
        while (inst_of.count(unknown)) unknown++;
        s.require(!p.get_instance_name(unknown), "there is no instance with this id");
        s.require(p.get_generator_variable(unknown).empty(), "variables of no instance");
        s.require(!p.resolve_scoped_name_instance("a", unknown), "a name in no instance");
    }

    std::string at(const Stmt &x) {
        return x.filename + ":" + std::to_string(x.entry->line) + ":" +
               std::to_string(x.entry->col);
    }

    void conds(const std::string &got, const Stmt &x, const std::string &extra = "") {
        for (int k = 0; k < 6; k++) {
            std::map<std::string, int64_t> env;
            for (auto const &n : {"a", "b", "c"}) env[n] = static_cast<int64_t>(s.draw(3));
            int64_t want = 1;
            for (auto const &c : x.conds) want = want && truth(s, c, env);
            if (!extra.empty()) {
                // an index expression: <symbol> == <number>
                auto i = extra.find(" == ");
                auto n = extra.substr(0, i);
                if (!env.count(n)) env[n] = static_cast<int64_t>(s.draw(5));
                want = want && env[n] == std::stoll(extra.substr(i + 4));
            }
            s.require(truth(s, got, env) == want,
                      "condition of " + at(x) + " is '" + got + "', which is " +
                          (want ? "false" : "true") + " where the conditions around it are " +
                          (want ? "all true" : "not all true"));
        }
    }

    void breakpoints() {
        auto order = p.execution_bp_orders();
        std::set<uint32_t> ids(order.begin(), order.end());
        s.require(ids.size() == order.size(), "a breakpoint id is twice in the execution order");
        std::vector<size_t> next(t.instances.size());
        for (auto id : order) {
            auto bp = p.get_breakpoint(id);
            s.require(bp.has_value(), "breakpoint " + std::to_string(id) + " does not exist");
            s.require(bp->id == id, "another id than asked for");
            s.require(bp->instance_id && inst_of.count(*bp->instance_id), "unknown instance");
            auto inst = inst_of[*bp->instance_id];
            auto by_id = p.get_instance_id(static_cast<uint64_t>(id));
            s.require(by_id && *by_id == *bp->instance_id, "instance of a breakpoint");
            auto nm = p.get_instance_name_from_bp(id);
            s.require(nm && *nm == t.instances[inst].name, "instance name of a breakpoint");
            auto const &st = t.stmts[t.instances[inst].module];
            auto k = next[inst]++;
            s.require(k < st.size(), "more breakpoints in " + t.instances[inst].name +
                                         " than statements");
            auto const &x = st[k];
            s.require(bp->filename == x.filename && bp->line_num == x.entry->line &&
                          bp->column_num == x.entry->col,
                      "statement " + std::to_string(k) + " of " + t.instances[inst].name +
                          " in execution order is " + bp->filename + ":" +
                          std::to_string(bp->line_num) + ":" + std::to_string(bp->column_num) +
                          ", expected " + at(x));
            conds(bp->condition, x);
            bps[id] = {inst, k};
            bp_id[{inst, k}] = id;
        }
        for (size_t i = 0; i < next.size(); i++)
            s.require(next[i] == t.stmts[t.instances[i].module].size(),
                      "statements without a breakpoint in " + t.instances[i].name);
        uint32_t unknown = 0;
        while (bps.count(unknown)) unknown++;
        s.require(!p.get_breakpoint(unknown), "no such breakpoint");
        s.require(!p.get_instance_id(static_cast<uint64_t>(unknown)), "no such breakpoint");
        s.require(p.get_context_variables(unknown).empty(), "no such breakpoint");
        s.require(p.get_assigned_breakpoints("a", unknown).empty(), "no such breakpoint");
    }

    void locations() {
        std::vector<std::string> files = {"/src/a.cc", "/src/b.cc", "/other/a.cc", "a.cc",
                                          "b.scala",   "/x/a.cc",   "dir/c.cc",    "c.cc",
                                          "/y/b.scala", "/y/dir/c.cc"};
        size_t rounds = 6;
        for (size_t r = 0; r < rounds; r++) {
            auto const &f = s.pick(files);
            uint32_t line = s.chance(15) ? 0 : static_cast<uint32_t>(s.range(1, 9));
            uint32_t col = s.chance(60) ? 0 : static_cast<uint32_t>(s.range(1, 4));
            std::vector<hgdb::BreakPoint> got;
            switch (s.draw(3)) {
                case 0:
                    got = p.get_breakpoints(f, line, col);
                    break;
                case 1:
                    col = 0;
                    got = p.get_breakpoints(f, line);
                    break;
                default:
                    line = col = 0;
                    got = p.get_breakpoints(f);
            }
            std::set<uint32_t> have, want;
            for (auto const &b : got) {
                s.require(have.insert(b.id).second, "a breakpoint is returned twice");
                s.require(bps.count(b.id), "unknown id");
                auto const &[i, k] = bps[b.id];
                auto const &x = t.stmts[t.instances[i].module][k];
                s.require(b.filename == x.filename && b.line_num == x.entry->line &&
                              b.column_num == x.entry->col && b.instance_id &&
                              inst_of[*b.instance_id] == i,
                          "breakpoint " + std::to_string(b.id) + " found by location is " +
                              b.filename + ":" + std::to_string(b.line_num) + ", by id it is " +
                              at(x));
                conds(b.condition, x);
            }
            for (auto const &[id, w] : bps) {
                auto const &x = t.stmts[t.instances[w.first].module][w.second];
                if (!sym::same_file(f, x.filename)) continue;
                if (line && line != x.entry->line) continue;
                if (line && col && col != x.entry->col) continue;
                want.insert(id);
            }
            s.require(have == want, "breakpoints at " + f + ":" + std::to_string(line) + ":" +
                                        std::to_string(col) + ": " + std::to_string(have.size()) +
                                        " found, expected " + std::to_string(want.size()));
        }
        std::set<std::string> have, want;
        for (auto const &n : p.get_filenames()) have.insert(n);
        std::set<size_t> mods;
        for (auto const &i : t.instances) mods.insert(i.module);
        std::function<void(const Entry &)> walk = [&](const Entry &e) {
            if (!e.filename.empty() && e.kind == sym::Block) want.insert(e.filename);
            for (auto const &k : e.kids) walk(*k);
        };
        for (auto m : mods)
            for (auto const &e : t.modules[m].scope) walk(*e);
        s.require(have == want, "source files of the design");
    }

    void contexts() {
        if (signals) p.set_get_symbol_value([](const std::string &n) { return signal(n); });
        for (auto const &[id, w] : bps) {
            auto const &inst = t.instances[w.first];
            auto const &x = t.stmts[inst.module][w.second];
            auto index_value = [&](const Var &v) -> std::optional<int64_t> {
                if (!signals) return std::nullopt;
                auto n = resolve_instance(t, inst, v.value);
                if (!n) return std::nullopt;
                return signal(*n);
            };
            auto got = to_vars(p.get_context_variables(id));
            auto want = sym::context(x.entry, false, index_value);
            s.require(groups_match(got, want), "variables visible at " + at(x) + " are " +
                                                   show(got) + ", expected " + flat(want));
            auto delayed = to_vars(p.get_context_delayed_variables(id));
            auto dwant = sym::context(x.entry, true, index_value);
            s.require(groups_match(delayed, dwant), "delayed variables at " + at(x) + " are " +
                                                        show(delayed) + ", expected " +
                                                        flat(dwant));
            // names resolve to the newest variable of that name
            for (auto const &g : want) {
                for (auto const &q : g) {
                    auto r = p.resolve_scoped_name_breakpoint(q.name, id);
                    std::set<std::string> ok;
                    for (auto it = want.rbegin(); it != want.rend() && ok.empty(); ++it)
                        for (auto const &v : *it)
                            if (sym::same_name(v.name, q.name) || v.value == q.name)
                                ok.insert(v.rtl ? full_rtl(inst.name, v.value) : v.value);
                    s.require(r && ok.count(*r), "'" + q.name + "' at " + at(x) + " resolves to " +
                                                     (r ? *r : std::string("nothing")) +
                                                     ", expected " + *ok.begin());
                }
            }
            auto none = p.resolve_scoped_name_breakpoint("no_such_name", id);
            s.require(!none, "an unknown name resolves");
            // constants: the newest one of a name
            auto statics = p.get_context_static_values(id);
            std::map<std::string, std::set<int64_t>> sw;
            for (auto it = want.rbegin(); it != want.rend(); ++it) {
                std::map<std::string, std::set<int64_t>> here;
                for (auto const &v : *it) {
                    if (v.rtl || v.value.empty()) continue;
                    if (v.value.find_first_not_of("0123456789") != std::string::npos) continue;
                    errno = 0;
                    auto n = strtoll(v.value.c_str(), nullptr, 10);
                    if (errno) continue;
                    here[v.name].insert(n);
                }
                for (auto const &[n, v] : here) sw.emplace(n, v);
            }
            s.eq(statics.size(), sw.size(), "number of constants at " + at(x));
            for (auto const &[n, v] : statics)
                s.require(sw.count(n) && sw[n].count(v), "constant " + n + " at " + at(x));
        }
    }

    void assigned() {
        if (bps.empty()) return;
        for (int r = 0; r < 4; r++) {
            auto it = bps.begin();
            std::advance(it, static_cast<long>(s.draw(bps.size())));
            auto const &inst = t.instances[it->second.first];
            auto const &st = t.stmts[inst.module];
            std::vector<std::string> names = {"a", "io.in", "nothing", "arr[0]", "", "x.3"};
            for (auto const &x : st)
                for (auto const &v : x.entry->vars) {
                    names.push_back(v.name);
                    if (!x.entry->idx.empty()) {
                        auto k = std::to_string(s.draw(12));
                        names.push_back(v.name + "." + k);
                        names.push_back(v.name + "[" + k + "]");
                    }
                }
            auto const &q = s.pick(names);
            auto got = p.get_assigned_breakpoints(q, it->first);
            std::map<uint32_t, std::tuple<std::set<std::string>, std::string, size_t>> want;
            auto qt = sym::tokens(q, "[].");
            for (size_t k = 0; k < st.size(); k++) {
                auto const &e = *st[k].entry;
                if (e.kind != sym::Assign) continue;
                std::set<std::string> values;
                std::string cond;
                bool hit = false;
                if (!e.idx.empty() && !qt.empty()) {
                    auto head = qt;
                    auto last = head.back();
                    head.pop_back();
                    if (sym::tokens(e.vars[0].name, "[].") == head && !last.empty() &&
                        last.find_first_not_of("0123456789") == std::string::npos &&
                        last.size() < 9) {
                        auto n = std::stoul(last);
                        for (auto const &x : e.idx) {
                            if (x.min <= n && n <= x.max) {
                                values.insert(e.vars[0].value + "[" + std::to_string(n) + "]");
                                cond = x.var.value + " == " + std::to_string(n);
                                hit = true;
                                break;
                            }
                        }
                    }
                }
                if (!hit)
                    for (auto const &v : e.vars)
                        if (sym::tokens(v.name, "[].") == qt) {
                            values.insert(v.value);
                            hit = true;
                        }
                if (hit) want[bp_id.at({it->second.first, k})] = {values, cond, k};
            }
            std::set<uint32_t> seen;
            for (auto const &[id, value, cond] : got) {
                s.require(seen.insert(id).second, "an assignment is returned twice");
                s.require(want.count(id), "breakpoint " + std::to_string(id) + " does not assign '" +
                                              q + "'");
                auto const &[values, extra, k] = want[id];
                s.require(values.count(value), "'" + q + "' assigned at " + at(st[k]) + " is " +
                                                   value + ", expected " + *values.begin());
                bool simple = extra.empty();
                if (!simple) {
                    auto n = extra.substr(0, extra.find(" == "));
                    simple = hgdb::DebugExpression(n).correct() &&
                             hgdb::DebugExpression(n).symbols().size() == 1 &&
                             n.find_first_of(" []().") == std::string::npos;
                }
                if (simple) conds(cond, st[k], extra);
            }
            s.eq(seen.size(), want.size(), "number of assignments of '" + q + "' in " + inst.name);
        }
    }

    void attributes() {
        for (auto const &n : {"clock", "other", "none"}) {
            std::vector<std::string> want;
            for (auto const &[a, v] : t.attributes)
                if (a == n) want.push_back(v);
            s.require(p.get_annotation_values(n) == want, std::string("attribute ") + n);
        }
    }

    // the client knows a directory of the table under another name
    void mapped() {
        std::map<std::string, std::string> m;
        m["/home/me"] = s.pick<std::string>({"/src", "/other"});
        if (s.chance(30)) m["/home/you"] = m["/home/me"] == "/src" ? "/other" : "/src";
        auto client = [&](const std::string &f) {
            for (auto const &[a, b] : m)
                if (f.rfind(b + "/", 0) == 0) return a + f.substr(b.size());
            return f;
        };
        struct Loc {
            std::string file;
            uint32_t line, col;
            std::set<uint32_t> by_line, by_col, by_file;
        };
        auto ids = [&](const std::vector<hgdb::BreakPoint> &l) {
            std::set<uint32_t> r;
            for (auto const &b : l) r.insert(b.id);
            return r;
        };
        std::map<uint32_t, Loc> locs;
        size_t n = 0;
        for (auto const &[id, where] : bps) {
            if (n++ >= 12) break;
            auto b = p.get_breakpoint(id);
            if (!b) continue;
            locs[id] = {b->filename, b->line_num, b->column_num, ids(p.get_breakpoints(b->filename, b->line_num)),
                        ids(p.get_breakpoints(b->filename, b->line_num, b->column_num)),
                        ids(p.get_breakpoints(b->filename))};
        }
        p.set_src_mapping(m);
        for (auto const &[id, l] : locs) {
            auto f = client(l.file);
            auto text = f + ":" + std::to_string(l.line) + " (" + l.file + " in the table)";
            auto b = p.get_breakpoint(id);
            s.require(b && b->filename == f, "breakpoint at " + text + " is reported in " + (b ? b->filename : "none"));
            for (auto const &x : p.get_breakpoints(f, l.line))
                s.require(x.filename == client(l.file) || x.filename.find('/') == std::string::npos ||
                              x.filename[0] != '/',
                          "a breakpoint of " + text + " is reported in " + x.filename);
            s.require(ids(p.get_breakpoints(f, l.line)) == l.by_line, "breakpoints at " + text);
            s.require(ids(p.get_breakpoints(f, l.line, l.col)) == l.by_col, "breakpoints at a column of " + text);
            s.require(ids(p.get_breakpoints(f)) == l.by_file, "breakpoints in the file of " + text);
        }
        p.set_src_mapping({});
    }

    void all() {
        instances();
        breakpoints();
        locations();
        contexts();
        assigned();
        attributes();
        mapped();
    }
};

// everything the table answers, as text
std::string dump(Provider &p) {
    if (p.bad()) return "bad";
    std::ostringstream o;
    auto names = p.get_instance_names();
    std::sort(names.begin(), names.end());
    std::map<uint64_t, std::string> inst;
    for (auto const &n : names) {
        o << "instance " << n;
        auto id = p.get_instance_id(n);
        if (!id) {
            o << " ?\n";
            continue;
        }
        inst[*id] = n;
        for (auto const &[g, v] : p.get_generator_variable(static_cast<uint32_t>(*id)))
            o << " " << g.name << "=" << v.value << (v.is_rtl ? "" : "!");
        o << "\n";
    }
    std::map<std::string, std::string> per;
    size_t count = 0;
    for (auto id : p.execution_bp_orders()) {
        if (++count > 400) break;
        auto bp = p.get_breakpoint(id);
        if (!bp) continue;
        std::ostringstream l;
        l << "  " << bp->filename << ":" << bp->line_num << ":" << bp->column_num << " if "
          << bp->condition << " sees " << show(to_vars(p.get_context_variables(id))) << " delayed "
          << show(to_vars(p.get_context_delayed_variables(id))) << "\n";
        std::map<std::string, int64_t> st;
        for (auto const &[k, v] : p.get_context_static_values(id)) st[k] = v;
        for (auto const &[k, v] : st) l << "    " << k << "=" << v << "\n";
        for (auto const &q : {"a", "arr[0]", "x.1", ""}) {
            for (auto const &[i, v, c] : p.get_assigned_breakpoints(q, id))
                l << "    assigns " << q << " " << v << " if " << c << "\n";
            auto r = p.resolve_scoped_name_breakpoint(q, id);
            l << "    " << q << " is " << (r ? *r : "?") << "\n";
        }
        per[inst[*bp->instance_id]] += l.str();
    }
    for (auto const &[n, l] : per) o << n << "\n" << l;
    auto files = p.get_filenames();
    std::set<std::string> fs(files.begin(), files.end());
    for (auto const &f : fs) o << "file " << f << " " << p.get_breakpoints(f).size() << "\n";
    for (auto const &a : p.get_annotation_values("clock")) o << "clock " << a << "\n";
    o << p.get_breakpoints("/src/a.cc", 3).size() << " " << p.get_breakpoints("a.cc", 2, 1).size()
      << "\n";
    (void)p.get_instance_id("");
    (void)p.get_all_array_names();
    return o.str();
}

struct TempFile {
    char name[32] = "/tmp/pbt_sym_XXXXXX";
    explicit TempFile(const std::string &text) {
        int fd = mkstemp(name);
        if (fd < 0) throw std::runtime_error("mkstemp");
        size_t off = 0;
        while (off < text.size()) {
            auto n = write(fd, text.data() + off, text.size() - off);
            if (n <= 0) break;
            off += static_cast<size_t>(n);
        }
        close(fd);
    }
    ~TempFile() { unlink(name); }
};
}  // namespace
