// Symbol tables: a model, a generator of JSON documents, and what the queries must answer.
#pragma once
#include <memory>
#include <optional>
#include <set>

#include "jv.hh"
#include "pbt.hh"

namespace sym {

using jv::V;
using pbt::Src;

struct Var {
    std::string name, value;
    bool rtl = true, delay = false;
    uint32_t depth = 1;
    bool operator<(const Var &o) const {
        return std::tie(name, value, rtl, delay, depth) <
               std::tie(o.name, o.value, o.rtl, o.delay, o.depth);
    }
    bool operator==(const Var &o) const { return !(*this < o) && !(o < *this); }
    std::string str() const {
        return name + "=" + value + (rtl ? " rtl" : " const") +
               (delay ? " delay " + std::to_string(depth) : "");
    }
};

struct Index {
    Var var;
    uint32_t min = 0, max = 0;
};

// in the order in which entries at the same place are taken
enum Kind { None, Decl, Block, Assign };

struct Entry {
    Kind kind = None;
    uint32_t line = 0, col = 0;
    std::string cond, filename;
    std::vector<Var> vars;  // one as generated; several after merging
    std::vector<Index> idx;
    std::vector<std::shared_ptr<Entry>> kids;
    Entry *parent = nullptr;
};

struct Module {
    std::string name, cond;
    std::vector<Var> vars;
    std::vector<std::shared_ptr<Entry>> scope;
    std::vector<std::pair<std::string, size_t>> insts;
};

struct Instance {
    std::string name;  // full
    size_t module;
    int parent = -1;
};

// a source statement a breakpoint can be set at
struct Stmt {
    size_t module;
    const Entry *entry;
    std::string filename;
    std::vector<std::string> conds;  // inner to outer
};

struct Table {
    std::vector<Module> modules;
    std::vector<size_t> tops;
    std::vector<std::pair<std::string, std::string>> attributes;
    bool reorder = true, say_reorder = false;
    std::string generator;

    // derived
    std::vector<Instance> instances;
    std::vector<std::vector<Stmt>> stmts;  // per module, in execution order
};

inline std::vector<std::string> tokens(const std::string &s, const std::string &delim) {
    std::vector<std::string> out;
    std::string cur;
    for (char c : s) {
        if (delim.find(c) != std::string::npos) {
            if (!cur.empty()) out.push_back(cur);
            cur.clear();
        } else {
            cur += c;
        }
    }
    if (!cur.empty()) out.push_back(cur);
    return out;
}

inline bool same_name(const std::string &a, const std::string &b) {
    return tokens(a, "[].") == tokens(b, "[].");
}

inline std::shared_ptr<Entry> copy(const Entry &e, Entry *parent) {
    auto r = std::make_shared<Entry>(e);
    r->parent = parent;
    r->kids.clear();
    for (auto const &k : e.kids) r->kids.push_back(copy(*k, r.get()));
    return r;
}

inline void normalise(Entry &b) {
    if (b.kind != Block) return;
    for (auto &k : b.kids) normalise(*k);
    std::stable_sort(b.kids.begin(), b.kids.end(), [](auto const &x, auto const &y) {
        return std::tie(x->line, x->col, x->kind) < std::tie(y->line, y->col, y->kind);
    });
    if (!b.kids.empty()) b.line = b.kids[0]->line;
    std::vector<std::shared_ptr<Entry>> out;
    for (auto &k : b.kids) {
        if (!out.empty()) {
            auto &p = out.back();
            if ((k->kind == Decl || k->kind == Assign) && p->kind == k->kind &&
                p->line == k->line && p->col == k->col && p->cond == k->cond && p->idx.empty() &&
                k->idx.empty()) {
                p->vars.insert(p->vars.end(), k->vars.begin(), k->vars.end());
                continue;
            }
        }
        out.push_back(k);
    }
    b.kids = out;
}

inline void collect(const Entry &e, size_t module, std::string filename,
                    std::vector<std::string> conds, std::vector<Stmt> &out) {
    if (!e.cond.empty()) conds.insert(conds.begin(), e.cond);
    if (e.kind == Block) {
        if (!e.filename.empty()) filename = e.filename;
        for (auto const &k : e.kids) collect(*k, module, filename, conds, out);
    } else if (e.line > 0) {
        out.push_back({module, &e, filename, conds});
    }
}

inline void instantiate(Table &t, size_t module, const std::string &name, int parent) {
    int me = static_cast<int>(t.instances.size());
    t.instances.push_back({name, module, parent});
    for (auto const &[n, m] : t.modules[module].insts) instantiate(t, m, name + "." + n, me);
}

// what the documents means: instances, statements in execution order
inline void derive(Table &t) {
    t.instances.clear();
    t.stmts.assign(t.modules.size(), {});
    for (auto m : t.tops) instantiate(t, m, t.modules[m].name, -1);
    for (size_t m = 0; m < t.modules.size(); m++) {
        for (auto &e : t.modules[m].scope) {
            e = copy(*e, nullptr);
            if (t.reorder) normalise(*e);
            std::vector<std::string> conds;
            if (!t.modules[m].cond.empty()) conds.push_back(t.modules[m].cond);
            collect(*e, m, "", conds, t.stmts[m]);
        }
    }
}

// variables visible at a statement: those of the statements before it, in its block and in the
// blocks around it, oldest first; one group per statement
inline std::vector<std::vector<Var>> context(
    const Entry *e, bool delay_only,
    const std::function<std::optional<int64_t>(const Var &)> &index_value) {
    std::vector<std::vector<Var>> groups;
    for (auto const *n = e; n && n->parent; n = n->parent) {
        auto const &kids = n->parent->kids;
        size_t i = 0;
        while (kids[i].get() != n) i++;
        while (i > 0) {
            auto const &p = *kids[--i];
            if (p.kind != Decl && p.kind != Assign) continue;
            std::vector<Var> g;
            if (!delay_only) {
                if (p.idx.empty()) {
                    g = p.vars;
                } else {
                    for (auto const &x : p.idx) {
                        auto v = x.var.rtl ? index_value(x.var) : std::nullopt;
                        if (!v) continue;
                        g.push_back({p.vars[0].name + "." + std::to_string(*v),
                                     p.vars[0].value + "[" + std::to_string(*v) + "]", true,
                                     x.var.delay, 1});
                    }
                }
            } else if (p.kind == Decl) {
                for (auto const &v : p.vars)
                    if (v.delay) g.push_back(v);
            } else {
                bool add = p.vars[0].delay;
                for (auto const &x : p.idx) add = add || (x.var.rtl && x.var.delay);
                if (add) g = p.vars;
            }
            if (!g.empty()) groups.push_back(g);
        }
    }
    std::reverse(groups.begin(), groups.end());
    return groups;
}

inline std::string base_name(const std::string &p) {
    auto i = p.rfind('/');
    return i == std::string::npos ? p : p.substr(i + 1);
}

inline bool same_file(const std::string &query, const std::string &ref) {
    if (ref.empty()) return false;
    if (query == ref) return true;
    if (ref[0] == '/') return false;
    return base_name(query) == ref;
}

// ---- generation

struct GenOptions {
    bool odd_strings = false;  // any characters in names, values, conditions
    bool indices = true;
    bool delays = true;
    size_t max_modules = 4;
    std::vector<std::string> cond_signals = {"a", "b", "c"};
};

struct Gen {
    Src &s;
    GenOptions opt;
    size_t serial = 0;

    std::string file() {
        return s.pick<std::string>({"/src/a.cc", "/src/b.cc", "/other/a.cc", "a.cc", "b.scala",
                                    "dir/c.cc"});
    }
    std::string text(const std::string &normal) {
        if (!opt.odd_strings || !s.chance(25)) return normal;
        return normal + jv::gen_string(s);
    }
    std::string cond() {
        auto const &v = opt.cond_signals;
        auto const &x = s.pick(v);
        auto const &y = s.pick(v);
        switch (s.draw(8)) {
            case 0:
                return x;
            case 1:
                return "!" + x;
            case 2:
                return x + " == " + std::to_string(s.draw(3));
            case 3:
                return x + " || " + y;
            case 4:
                return x + " && " + y;
            case 5:
                return "(" + x + " || " + y + ") && !" + s.pick(v);
            case 6:
                return x + " < " + y + " || " + s.pick(v);
            default:
                return x + " != " + y;
        }
    }
    std::vector<Var> seen;
    // now and then a variable that differs from an earlier one in one respect only
    Var var() {
        if (!seen.empty() && s.chance(25)) {
            Var v = s.pick(seen);
            auto other = fresh_var();
            switch (s.draw(4)) {
                case 0:
                    v.name = other.name;
                    break;
                case 1:
                    if (other.rtl == v.rtl) v.value = other.value;
                    break;
                case 2:
                    v.rtl = v.delay = false;
                    v.depth = Var{}.depth;
                    break;
                default:
                    if (v.delay) v.depth = v.depth % 9 + 1;
            }
            return v;
        }
        seen.push_back(fresh_var());
        return seen.back();
    }
    Var fresh_var() {
        Var v;
        v.name = s.pick<std::string>({"a", "b", "c", "x", "arr[0]", "arr.0", "arr.1", "io.in",
                                      "io.out", "bundle.x.y", "m0", "top"});
        v.name = text(v.name);
        v.rtl = !s.chance(30);
        if (v.rtl) {
            v.value = s.pick<std::string>({"a", "b", "c", "a_0", "io_in", "sig.x", "arr[1]", "m0_a",
                                           "m1x", "reg_x[3]"});
        } else {
            switch (s.draw(4)) {
                case 0:
                    v.value = std::to_string(s.draw(100));
                    break;
                case 1:
                    v.value = std::to_string(s.bits(63));
                    break;
                case 2:
                    v.value = s.pick<std::string>({"", "hello", "-1", "1.5", "0x10", "007"});
                    break;
                default:
                    v.value = text("v");
            }
        }
        if (opt.delays && v.rtl && s.chance(15)) {
            v.delay = true;
            v.depth = s.chance(50) ? 1 : static_cast<uint32_t>(s.range(1, 9));
        }
        return v;
    }
    std::shared_ptr<Entry> entry(unsigned depth, const Module &m) {
        auto e = std::make_shared<Entry>();
        size_t k = s.weighted({3, 3, depth < 3 ? 3u : 0u, 3});
        e->kind = static_cast<Kind>(k);
        e->line = static_cast<uint32_t>(s.chance(5) ? s.draw(2) * 1000 : s.range(1, 9));
        if (s.chance(40)) e->col = static_cast<uint32_t>(s.range(1, 4));
        if (s.chance(35)) e->cond = cond();
        if (e->kind == Block) {
            if (s.chance(30)) e->filename = file();
            if (s.chance(40)) e->line = 0;
            size_t n = s.len(0, 6);
            for (size_t i = 0; i < n; i++) {
                e->kids.push_back(entry(depth + 1, m));
                e->kids.back()->parent = e.get();
            }
        } else if (e->kind != None) {
            e->vars.push_back(var());
            if (e->kind == Assign && opt.indices && s.chance(15)) {
                size_t n = s.range(1, 2);
                for (size_t i = 0; i < n; i++) {
                    Index x;
                    x.var = !m.vars.empty() && s.chance(70) ? s.pick(m.vars) : var();
                    x.min = static_cast<uint32_t>(s.draw(3));
                    x.max = x.min + static_cast<uint32_t>(s.draw(8));
                    e->idx.push_back(x);
                }
            }
        }
        return e;
    }
    Table table() {
        Table t;
        t.generator = "gen";
        size_t n = s.range(1, static_cast<int64_t>(opt.max_modules));
        t.modules.resize(n);
        std::vector<bool> used(n);
        for (size_t i = 0; i < n; i++) {
            auto &m = t.modules[i];
            m.name = s.chance(80) ? "m" + std::to_string(i) : "m" + std::to_string(i) + "x";
            size_t nv = s.len(0, 4);
            for (size_t k = 0; k < nv; k++) m.vars.push_back(var());
            if (s.chance(5)) m.cond = cond();
            size_t blocks = s.len(0, 3);
            for (size_t k = 0; k < blocks; k++) {
                auto b = std::make_shared<Entry>();
                b->kind = Block;
                b->filename = file();
                if (s.chance(20)) b->cond = cond();
                if (s.chance(30)) b->line = static_cast<uint32_t>(s.draw(9));
                size_t kids = s.len(0, 8);
                for (size_t j = 0; j < kids; j++) {
                    b->kids.push_back(entry(1, m));
                    b->kids.back()->parent = b.get();
                }
                m.scope.push_back(b);
            }
            if (i + 1 < n) {
                size_t ni = s.len(0, 3);
                for (size_t k = 0; k < ni; k++) {
                    size_t target = i + 1 + s.draw(n - i - 1);
                    m.insts.push_back({"i" + std::to_string(k), target});
                    used[target] = true;
                }
            }
        }
        for (size_t i = 0; i < n; i++)
            if (!used[i] && (i == 0 || s.chance(70))) t.tops.push_back(i);
        size_t na = s.len(0, 3);
        for (size_t i = 0; i < na; i++)
            t.attributes.push_back({s.pick<std::string>({"clock", "other"}),
                                    text(s.pick<std::string>({"m0.clk", "clk", "x"}))});
        if (s.chance(30)) {
            t.say_reorder = true;
            t.reorder = s.coin();
        }
        return t;
    }
};

// ---- writing; the layout is generated as well
struct Writer {
    Src &s;
    bool plain = false;  // no references, fixed member order
    std::vector<std::pair<Var, std::string>> refs;

    V obj(std::vector<std::pair<std::string, V>> members) {
        if (!plain && s.chance(20)) s.shuffle(members);
        V v;
        v.t = V::Object;
        v.o = std::move(members);
        return v;
    }
    V inline_var(const Var &v) {
        std::vector<std::pair<std::string, V>> m = {
            {"name", V(v.name)}, {"value", V(v.value)}, {"rtl", V(v.rtl)}};
        if (v.delay) {
            m.push_back({"type", V("delay")});
            if (v.depth != 1 || s.coin()) m.push_back({"depth", V(static_cast<int64_t>(v.depth))});
        } else if (!plain && s.chance(5)) {
            m.push_back({"type", V("normal")});
        }
        return obj(std::move(m));
    }
    V var(const Var &v) {
        if (!plain && s.chance(30)) {
            for (auto const &[rv, id] : refs)
                if (rv == v) return V(id);
            auto id = s.coin() ? std::to_string(refs.size()) : "id" + std::to_string(refs.size());
            refs.push_back({v, id});
            return V(id);
        }
        return inline_var(v);
    }
    V entry(const Entry &e) {
        static const char *types[] = {"none", "decl", "block", "assign"};
        std::vector<std::pair<std::string, V>> m = {{"type", V(types[e.kind])}};
        if (e.line || e.kind == Decl || e.kind == Assign || s.chance(20))
            m.push_back({"line", V(static_cast<int64_t>(e.line))});
        if (e.col) m.push_back({"column", V(static_cast<int64_t>(e.col))});
        if (!e.cond.empty()) m.push_back({"condition", V(e.cond)});
        if (!e.filename.empty()) m.push_back({"filename", V(e.filename)});
        if (e.kind == Block) {
            V k;
            k.t = V::Array;
            for (auto const &x : e.kids) k.push(entry(*x));
            m.push_back({"scope", k});
        }
        if (!e.vars.empty()) m.push_back({"variable", var(e.vars[0])});
        if (!e.idx.empty()) {
            V k;
            k.t = V::Array;
            for (auto const &x : e.idx)
                k.push(obj({{"var", var(x.var)},
                            {"min", V(static_cast<int64_t>(x.min))},
                            {"max", V(static_cast<int64_t>(x.max))}}));
            m.push_back({"indices", k});
        }
        return obj(std::move(m));
    }
    V module(const Table &t, const Module &x) {
        std::vector<std::pair<std::string, V>> m = {{"type", V("module")}, {"name", V(x.name)}};
        if (!x.cond.empty()) m.push_back({"condition", V(x.cond)});
        V scope, vars, insts;
        scope.t = vars.t = insts.t = V::Array;
        for (auto const &e : x.scope) scope.push(entry(*e));
        for (auto const &v : x.vars) vars.push(var(v));
        for (auto const &[n, i] : x.insts)
            insts.push(obj({{"name", V(n)}, {"module", V(t.modules[i].name)}}));
        m.push_back({"scope", scope});
        m.push_back({"variables", vars});
        if (!x.insts.empty() || s.coin()) m.push_back({"instances", insts});
        return obj(std::move(m));
    }
    V document(const Table &t) {
        refs.clear();
        V table, top;
        table.t = V::Array;
        std::vector<size_t> order;
        for (size_t i = 0; i < t.modules.size(); i++) order.push_back(i);
        if (!plain && s.chance(30)) s.shuffle(order);
        for (auto i : order) table.push(module(t, t.modules[i]));
        if (t.tops.size() == 1 && s.coin()) {
            top = V(t.modules[t.tops[0]].name);
        } else {
            top.t = V::Array;
            for (auto i : t.tops) top.push(V(t.modules[i].name));
        }
        std::vector<std::pair<std::string, V>> m = {{"generator", V(t.generator)},
                                                    {"table", table}, {"top", top}};
        if (!refs.empty() || s.chance(10)) {
            V vars;
            vars.t = V::Array;
            for (auto const &[v, id] : refs) {
                auto x = inline_var(v);
                x.set("id", V(id));
                vars.push(x);
            }
            m.push_back({"variables", vars});
        }
        if (!t.attributes.empty() || s.chance(10)) {
            V a;
            a.t = V::Array;
            for (auto const &[n, v] : t.attributes)
                a.push(obj({{"name", V(n)}, {"value", V(v)}}));
            m.push_back({"attributes", a});
        }
        if (t.say_reorder) m.push_back({"reorder", V(t.reorder)});
        return obj(std::move(m));
    }
};

}  // namespace sym
