// dbgworld.hh - a generated design, its symbol table and its simulation.
//
//   Expr      conditions, with their text and their meaning
//   Design    kinds of modules, their instances, statements, variables, the execution order
//   ModelDB   the symbol table of a Design, as a SymbolTableProvider
//   Sim       a simulator for the Design behind the VPI: fixed values at each clock edge, value
//             overrides, callbacks, and (if the case wants it) going back in time
#pragma once
#include <condition_variable>
#include <cstdarg>
#include <deque>
#include <mutex>

#include "jv.hh"
#include "pbt.hh"
#include "rtl.hh"
#include "symbol.hh"
#include "sv_vpi_user.h"

namespace dbg {

// ------------------------------------------------------------------------------- expressions
struct Expr {
    enum Op { Const, Sym, Not, And, Or, Eq, Ne, Lt, Gt, Le, Ge, Add, Sub, BitAnd, BitOr, Xor } op = Const;
    int64_t c = 1;
    std::string sym;
    std::vector<Expr> k;

    template <typename F>
    int64_t eval(const F &f) const {
        auto a = [&]() { return k[0].eval(f); };
        auto b = [&]() { return k[1].eval(f); };
        switch (op) {
            case Const:
                return c;
            case Sym:
                return f(sym);
            case Not:
                return !a();
            case And:
                return a() && b();
            case Or:
                return a() || b();
            case Eq:
                return a() == b();
            case Ne:
                return a() != b();
            case Lt:
                return a() < b();
            case Gt:
                return a() > b();
            case Le:
                return a() <= b();
            case Ge:
                return a() >= b();
            case Add:
                return static_cast<int64_t>(static_cast<uint64_t>(a()) + static_cast<uint64_t>(b()));
            case Sub:
                return static_cast<int64_t>(static_cast<uint64_t>(a()) - static_cast<uint64_t>(b()));
            case BitAnd:
                return a() & b();
            case BitOr:
                return a() | b();
            case Xor:
                return a() ^ b();
        }
        return 0;
    }
    static const char *name(Op op) {
        static const char *n[] = {"",   "",   "!",  "&&", "||", "==", "!=", "<", ">",
                                  "<=", ">=", "+",  "-",  "&",  "|",  "^"};
        return n[op];
    }
    // every operand that is itself an operation is put in parentheses; the whole is not
    std::string text(bool top = true) const {
        if (op == Const) return std::to_string(c);
        if (op == Sym) return sym;
        if (op == Not) return "!" + k[0].text(false);
        auto s = k[0].text(false) + " " + name(op) + " " + k[1].text(false);
        return top ? s : "(" + s + ")";
    }
    void syms(std::vector<std::string> &out) const {
        if (op == Sym) out.push_back(sym);
        for (auto const &e : k) e.syms(out);
    }
};

inline Expr gen_expr(pbt::Src &s, const std::vector<std::string> &names, unsigned depth) {
    Expr e;
    size_t w = depth == 0 ? s.weighted({names.empty() ? 0u : 5u, 1u})
                          : s.weighted({names.empty() ? 0u : 3u, 1u, 1u, 6u});
    if (names.empty() && w == 0) w = 1;
    if (w == 0) {
        e.op = Expr::Sym;
        e.sym = s.pick(names);
    } else if (w == 1) {
        e.c = static_cast<int64_t>(s.draw(4));
    } else if (w == 2) {
        e.op = Expr::Not;
        e.k = {gen_expr(s, names, depth - 1)};
    } else {
        e.op = static_cast<Expr::Op>(Expr::And + s.weighted({4, 5, 4, 2, 2, 2, 1, 1, 2, 1, 2, 1, 1}));
        e.k.push_back(gen_expr(s, names, depth - 1));
        e.k.push_back(gen_expr(s, names, depth - 1));
    }
    return e;
}

// ------------------------------------------------------------------------------------ design
struct Sig {
    std::string name;
    unsigned width = 1;
    bool reg = false;
};

struct Var {
    std::string name;
    std::string value;  // RTL name in the instance, or a constant
    bool rtl = true;
    unsigned delay = 0;  // 0: the present value
};

struct Stmt {
    std::string file;
    uint32_t line = 1, col = 0;
    std::string cond;  // text, empty for always
    Expr cond_e;
    std::vector<std::string> trigger;
    std::vector<Var> vars;
};

struct Assign {
    unsigned stmt;     // in the kind
    std::string rtl;   // what is assigned
    std::string cond;  // data condition, may be empty
    Expr cond_e;
};

// an array or a structure: its elements are signals named after it, e.g. "s4[1]" or "s4.m1"
struct Group {
    std::string name;
    bool structure = false;
    std::vector<std::string> labels;
    std::string elem(size_t i) const {
        return structure ? name + "." + labels[i] : name + "[" + labels[i] + "]";
    }
};

struct Slice {
    std::string name, base;  // "s0[3:1]"
    unsigned hi = 0, lo = 0;
};

struct Kind {
    std::string name;
    std::vector<Sig> sigs;  // those that have values: elements, not arrays
    std::vector<Group> groups;
    std::vector<Slice> slices;
    std::vector<Var> gen;
    std::vector<Stmt> stmts;
    std::map<std::string, std::vector<Assign>> assigns;  // source variable -> assignments

    const Group *group(const std::string &n) const {
        for (auto const &g : groups)
            if (g.name == n) return &g;
        return nullptr;
    }
    // what a variable shows: its elements
    std::vector<std::pair<std::string, std::string>> expand(const Var &v) const {
        auto *g = v.rtl ? group(v.value) : nullptr;
        if (!g) return {{v.name, v.value}};
        std::vector<std::pair<std::string, std::string>> r;
        for (size_t i = 0; i < g->labels.size(); i++)
            r.emplace_back(v.name + "." + g->labels[i], g->elem(i));
        return r;
    }
    // everything that has one value
    std::vector<std::string> values() const {
        std::vector<std::string> r;
        for (auto const &g : sigs) r.push_back(g.name);
        for (auto const &x : slices) r.push_back(x.name);
        return r;
    }
};

struct Inst {
    uint32_t id;
    std::string name;  // in the symbol table
    unsigned kind;
    std::string top;
    std::string path;  // below the top, "" for the top itself
};

struct BP {
    uint32_t id;
    unsigned inst;  // index
    unsigned stmt;
    unsigned order;
};

struct NS {
    std::string def;
    std::string prefix;  // full name of the top instance
};

struct Design {
    std::vector<Kind> kinds;
    std::vector<Inst> insts;
    std::vector<BP> bps;  // in execution order
    std::vector<NS> ns;   // as the debugger finds them
    std::vector<std::string> clock_annotation;
    std::vector<std::string> clocks;  // full names
    std::map<uint32_t, unsigned> bp_index;

    const Stmt &stmt(const BP &b) const { return kinds[insts[b.inst].kind].stmts[b.stmt]; }
    const Kind &kind(const BP &b) const { return kinds[insts[b.inst].kind]; }
    const BP *bp(uint32_t id) const {
        auto it = bp_index.find(id);
        return it == bp_index.end() ? nullptr : &bps[it->second];
    }
    const Inst *inst(uint32_t id) const {
        for (auto const &i : insts)
            if (i.id == id) return &i;
        return nullptr;
    }
    std::vector<uint32_t> namespaces(const std::string &top) const {
        std::vector<uint32_t> r;
        for (unsigned i = 0; i < ns.size(); i++)
            if (ns[i].def == top) r.push_back(i);
        return r;
    }
    std::string full(uint32_t n, const Inst &i) const {
        return ns[n].prefix + (i.path.empty() ? "" : "." + i.path);
    }
};

struct Shape {
    bool many = false;      // many instances of one statement (threads)
    bool data = false;      // assignments
    bool delays = false;
    bool frames = false;    // more variables
    bool one_top = false;
    bool single = false;    // the top exists once
    bool flat = false;      // no arrays and structures
};

inline Design gen_design(pbt::Src &s, const Shape &sh) {
    Design d;
    unsigned nk = sh.many ? 1 : 1 + s.draw(2);
    for (unsigned i = 0; i < nk; i++) {
        Kind k;
        k.name = "kind" + std::to_string(i);
        unsigned nsig = 2 + s.draw(4);
        for (unsigned j = 0; j < nsig; j++) {
            Sig g;
            g.name = "s" + std::to_string(j);
            g.width = s.pick<unsigned>({1, 2, 3, 8, 1, 4, 13, 31, 32, 33, 48, 64});
            g.reg = s.coin();
            k.sigs.push_back(g);
        }
        if (!sh.flat && s.chance(35)) {
            unsigned n = 1 + s.draw(2);
            for (unsigned j = 0; j < n; j++) {
                Group g;
                g.name = "s" + std::to_string(nsig + j);
                g.structure = s.coin();
                Sig e = s.pick(k.sigs);
                unsigned m = 1 + s.draw(3);
                for (unsigned q = 0; q < m; q++) {
                    g.labels.push_back((g.structure ? "m" : "") + std::to_string(q));
                    if (g.structure) e = k.sigs[s.draw(nsig)];
                    e.name = g.elem(q);
                    k.sigs.push_back(e);
                }
                k.groups.push_back(g);
            }
        }
        if (s.chance(35)) {
            for (auto const &g : k.sigs) {
                if (g.width < 2 || !s.chance(50)) continue;
                Slice x;
                x.base = g.name;
                x.hi = s.draw(g.width);
                x.lo = s.draw(x.hi + 1);
                x.name = g.name + "[" + std::to_string(x.hi) + ":" + std::to_string(x.lo) + "]";
                k.slices.push_back(x);
            }
        }
        auto names = k.values();
        std::vector<std::string> plain;
        for (auto const &n : names)
            if (n.find_first_of("[.") == std::string::npos) plain.push_back(n);
        // what a variable is: one value, or several
        auto what = [&]() {
            if (!k.groups.empty() && s.chance(35)) return s.pick(k.groups).name;
            return s.pick(names);
        };
        // a source variable may be a part of another
        auto part = [&]() {
            return s.chance(85) ? "" : s.pick<std::string>({".f", "[1]", ".f.g", "[0][2]", ".f[0]"});
        };
        unsigned ng = s.draw(sh.frames ? 4 : 2);
        for (unsigned j = 0; j < ng; j++) {
            Var v;
            v.name = "g" + std::to_string(j) + part();
            v.rtl = !s.chance(40);
            v.value = v.rtl ? what() : s.pick<std::string>({"3", "0", "hello", "17"});
            k.gen.push_back(v);
        }
        unsigned nst = 1 + s.draw(sh.many ? 3 : 5);
        uint32_t line = 0;
        for (unsigned j = 0; j < nst; j++) {
            Stmt t;
            t.file = i == 0 && s.chance(80) ? "/src/a.py" : "/src/b.py";
            // several statements on a line, with or without columns
            if (j == 0 || !s.chance(25)) line += 1 + s.draw(3);
            t.line = line;
            t.col = s.chance(30) ? 1 + s.draw(3) : 0;
            unsigned nv = s.draw(sh.frames ? 6 : 3);
            std::vector<std::string> usable = names;
            for (unsigned q = 0; q < nv; q++) {
                Var v;
                v.name = "v" + std::to_string(q) + part();
                v.rtl = !s.chance(20);
                if (v.rtl) {
                    v.value = what();
                    if (sh.delays && s.chance(50)) v.delay = 1 + s.draw(3);
                    // a front name that is the name of another signal
                    if (sh.frames && s.chance(15)) {
                        auto n = s.pick(plain);
                        bool free = true;
                        for (auto const &o : t.vars) free = free && o.name != n;
                        if (free) v.name = n;
                    }
                } else {
                    v.value = std::to_string(s.draw(5));
                }
                t.vars.push_back(v);
            }
            // names that mean one thing only
            for (auto const &v : t.vars) {
                if (v.delay || (v.rtl && k.group(v.value))) continue;
                if (v.name[0] == 'v') usable.push_back(v.name);
            }
            std::vector<std::string> ok;
            for (auto const &n : usable) {
                bool shadowed = false;
                for (auto const &v : t.vars)
                    if (v.name == n && v.name[0] == 's') shadowed = true;
                if (!shadowed) ok.push_back(n);
            }
            if (s.chance(45)) {
                t.cond_e = gen_expr(s, ok, 2);
                t.cond = t.cond_e.text();
            }
            if (s.chance(20)) {
                unsigned nt = 1 + s.draw(2);
                for (unsigned q = 0; q < nt; q++) {
                    auto n = s.pick(names);
                    if (std::find(t.trigger.begin(), t.trigger.end(), n) == t.trigger.end())
                        t.trigger.push_back(n);
                }
            }
            k.stmts.push_back(t);
        }
        if (sh.data) {
            // source variables w0, w1: each is assigned at some statements, to RTL names of its own
            unsigned nw = 1 + s.draw(2);
            std::vector<std::string> pool = names;
            for (unsigned q = 0; q < nw && !pool.empty(); q++) {
                unsigned nr = 1 + s.draw(std::min<size_t>(pool.size(), 2));
                std::vector<std::string> mine(pool.begin(), pool.begin() + nr);
                pool.erase(pool.begin(), pool.begin() + nr);
                auto &list = k.assigns["w" + std::to_string(q)];
                unsigned na = 1 + s.draw(3);
                for (unsigned x = 0; x < na; x++) {
                    Assign a;
                    a.stmt = s.draw(k.stmts.size());
                    a.rtl = s.pick(mine);
                    bool dup = false;
                    for (auto const &o : list) dup = dup || o.stmt == a.stmt;
                    if (dup) continue;
                    if (s.chance(25)) {
                        a.cond_e = gen_expr(s, names, 1);
                        a.cond = a.cond_e.text();
                    }
                    list.push_back(a);
                }
            }
        }
        d.kinds.push_back(k);
    }
    // instances
    std::vector<std::string> tops = {"top"};
    if (!sh.one_top && s.chance(25)) tops.push_back("other");
    uint32_t id = s.draw(3);
    for (auto const &t : tops) {
        std::vector<std::string> paths = {""};
        if (sh.many) {
            unsigned n = 30 + s.draw(40);
            for (unsigned i = 0; i < n; i++) paths.push_back("u" + std::to_string(i));
        } else {
            if (s.chance(60)) paths.push_back("a");
            if (s.chance(40)) paths.push_back("b");
            if (s.chance(25)) paths.push_back("a.x");
        }
        for (auto const &p : paths) {
            Inst i;
            i.id = id;
            id += 1 + s.draw(2);
            i.top = t;
            i.path = p;
            i.name = t + (p.empty() ? "" : "." + p);
            i.kind = s.draw(d.kinds.size());
            d.insts.push_back(i);
        }
    }
    // variables of one instance that are signals of another, by their full names
    for (unsigned k = 0; k < d.kinds.size(); k++) {
        std::set<std::string> in;
        for (auto const &i : d.insts)
            if (i.kind == k) in.insert(i.top);
        if (in.size() != 1 || !s.chance(30)) continue;
        std::vector<std::string> all;
        for (auto const &i : d.insts)
            if (i.top == *in.begin())
                for (auto const &n : d.kinds[i.kind].values()) all.push_back(i.name + "." + n);
        auto replace = [&](Var &v) {
            if (v.rtl && s.chance(30)) v.value = s.pick(all);
        };
        for (auto &v : d.kinds[k].gen) replace(v);
        for (auto &t : d.kinds[k].stmts)
            for (auto &v : t.vars) replace(v);
    }
    // execution order
    for (unsigned i = 0; i < d.insts.size(); i++)
        for (unsigned j = 0; j < d.kinds[d.insts[i].kind].stmts.size(); j++) {
            BP b;
            b.inst = i;
            b.stmt = j;
            b.id = 0;
            d.bps.push_back(b);
        }
    auto how = sh.many ? 1 : s.draw(3);
    if (how == 1) {
        std::stable_sort(d.bps.begin(), d.bps.end(), [&](const BP &x, const BP &y) {
            auto kx = d.insts[x.inst].kind, ky = d.insts[y.inst].kind;
            return std::make_pair(kx, x.stmt) < std::make_pair(ky, y.stmt);
        });
    } else if (how == 2) {
        s.shuffle(d.bps);
    }
    std::vector<uint32_t> ids;
    for (unsigned i = 0; i < d.bps.size(); i++) ids.push_back(i + (s.chance(10) ? 2000 : 0));
    if (s.chance(40)) s.shuffle(ids);
    for (unsigned i = 0; i < d.bps.size(); i++) {
        d.bps[i].id = ids[i];
        d.bps[i].order = i;
        d.bp_index[ids[i]] = i;
    }
    // where the tops sit in the test bench; the debugger looks breadth first
    auto add = [&](const std::string &def, const std::string &prefix) { d.ns.push_back({def, prefix}); };
    if (s.chance(20) && tops.size() > 1) {
        add("other", "tb.o");
        add("top", "tb.dut");
    } else {
        add("top", "tb.dut");
        if (!sh.many && !sh.single && s.chance(35)) add("top", "tb.dut2");
        if (tops.size() > 1) add("other", "tb.o");
    }
    if (!sh.many && !sh.single && s.chance(12)) add("top", "tb.w.dut");
    // the clock
    auto const &n0 = d.ns[0];
    switch (s.draw(4)) {
        case 0:
            d.clock_annotation = {n0.def + ".clk"};
            d.clocks = {n0.prefix + ".clk"};
            break;
        case 1:
            d.clock_annotation = {n0.def + ".clk", n0.def + ".clk_b"};
            d.clocks = {n0.prefix + ".clk", n0.prefix + ".clk_b"};
            break;
        case 2:
            d.clocks = {n0.prefix + "." + s.pick<std::string>({"clk", "clock", "clk_in", "CLK"})};
            break;
        default:
            d.clocks = {"tb.clk"};
            break;
    }
    return d;
}

inline std::string describe(const Design &d) {
    std::string o;
    for (auto const &k : d.kinds) {
        o += k.name + ":";
        for (auto const &g : k.sigs) o += " " + g.name + ":" + std::to_string(g.width);
        for (auto const &g : k.slices) o += " (" + g.name + ")";
        for (auto const &v : k.gen) o += " gen " + v.name + "=" + v.value;
        o += "\n";
        unsigned n = 0;
        for (auto const &t : k.stmts) {
            o += "  stmt" + std::to_string(n++) + " " + t.file + ":" + std::to_string(t.line) + ":" +
                 std::to_string(t.col) + " if (" + t.cond + ")";
            for (auto const &x : t.trigger) o += " @" + x;
            for (auto const &v : t.vars)
                o += " " + v.name + (v.rtl ? "=" : ":=") + v.value +
                     (v.delay ? "~" + std::to_string(v.delay) : "");
            o += "\n";
        }
        for (auto const &[w, list] : k.assigns)
            for (auto const &a : list)
                o += "  " + w + " assigned at stmt" + std::to_string(a.stmt) + " as " + a.rtl +
                     " if (" + a.cond + ")\n";
    }
    for (auto const &i : d.insts)
        o += "inst " + std::to_string(i.id) + " " + i.name + " " + d.kinds[i.kind].name + "\n";
    o += "order:";
    for (auto const &b : d.bps)
        o += " " + std::to_string(b.id) + "=" + d.insts[b.inst].name + "/stmt" + std::to_string(b.stmt);
    o += "\nnamespaces:";
    for (auto const &n : d.ns) o += " " + n.def + "@" + n.prefix;
    o += "\nclocks:";
    for (auto const &c : d.clocks) o += " " + c;
    if (!d.clock_annotation.empty()) o += " (annotated)";
    return o;
}

// ------------------------------------------------------------------------------ symbol table
class ModelDB : public hgdb::SymbolTableProvider {
public:
    explicit ModelDB(const Design &d) : d(d) {}

    hgdb::BreakPoint make(const BP &b) const {
        hgdb::BreakPoint r;
        auto const &t = d.stmt(b);
        r.id = b.id;
        r.instance_id = std::make_unique<uint32_t>(d.insts[b.inst].id);
        r.filename = t.file;
        r.line_num = t.line;
        r.column_num = t.col;
        r.condition = t.cond;
        for (auto const &x : t.trigger) r.trigger += (r.trigger.empty() ? "" : " ") + x;
        return r;
    }
    std::vector<hgdb::BreakPoint> get_breakpoints(const std::string &f, uint32_t l) override {
        return get_breakpoints(f, l, 0);
    }
    std::vector<hgdb::BreakPoint> get_breakpoints(const std::string &f, uint32_t l,
                                                  uint32_t c) override {
        std::vector<hgdb::BreakPoint> r;
        for (auto const &b : d.bps) {
            auto const &t = d.stmt(b);
            if (t.file == f && t.line == l && (c == 0 || t.col == c)) r.push_back(make(b));
        }
        return r;
    }
    std::vector<hgdb::BreakPoint> get_breakpoints(const std::string &f) override {
        std::vector<hgdb::BreakPoint> r;
        for (auto const &b : d.bps)
            if (d.stmt(b).file == f) r.push_back(make(b));
        return r;
    }
    std::optional<hgdb::BreakPoint> get_breakpoint(uint32_t id) override {
        if (auto *b = d.bp(id)) return make(*b);
        return std::nullopt;
    }
    std::optional<std::string> get_instance_name(uint32_t id) override {
        if (auto *i = d.inst(id)) return i->name;
        return std::nullopt;
    }
    std::optional<uint64_t> get_instance_id(const std::string &n) override {
        for (auto const &i : d.insts)
            if (i.name == n) return i.id;
        return std::nullopt;
    }
    std::optional<uint64_t> get_instance_id(uint64_t bp) override {
        if (auto *b = d.bp(static_cast<uint32_t>(bp))) return d.insts[b->inst].id;
        return std::nullopt;
    }
    std::vector<std::string> get_filenames() override {
        std::set<std::string> r;
        for (auto const &b : d.bps) r.insert(d.stmt(b).file);
        return {r.begin(), r.end()};
    }
    std::vector<ContextVariableInfo> get_context_variables(uint32_t id) override {
        std::vector<ContextVariableInfo> r;
        auto *b = d.bp(id);
        if (!b) return r;
        uint32_t vid = 0;
        for (auto const &v : d.stmt(*b).vars) {
            hgdb::ContextVariable c;
            c.name = v.name;
            c.breakpoint_id = std::make_unique<uint32_t>(id);
            c.variable_id = std::make_unique<uint32_t>(vid);
            c.type = v.delay ? 1 : 0;
            c.depth = v.delay;
            hgdb::Variable x;
            x.id = vid++;
            x.value = v.value;
            x.is_rtl = v.rtl;
            r.emplace_back(std::move(c), x);
        }
        return r;
    }
    std::vector<GeneratorVariableInfo> get_generator_variable(uint32_t id) override {
        std::vector<GeneratorVariableInfo> r;
        auto *i = d.inst(id);
        if (!i) return r;
        uint32_t vid = 1000;
        for (auto const &v : d.kinds[i->kind].gen) {
            hgdb::GeneratorVariable g;
            g.name = v.name;
            g.instance_id = std::make_unique<uint32_t>(id);
            g.variable_id = std::make_unique<uint32_t>(vid);
            hgdb::Variable x;
            x.id = vid++;
            x.value = v.value;
            x.is_rtl = v.rtl;
            r.emplace_back(std::move(g), x);
        }
        return r;
    }
    std::vector<std::string> get_instance_names() override {
        std::vector<std::string> r;
        for (auto const &i : d.insts) r.push_back(i.name);
        return r;
    }
    std::vector<std::string> get_annotation_values(const std::string &n) override {
        return n == "clock" ? d.clock_annotation : std::vector<std::string>{};
    }
    std::vector<std::string> get_all_array_names() override { return {}; }
    std::vector<std::tuple<uint32_t, std::string, std::string>> get_assigned_breakpoints(
        const std::string &var, uint32_t id) override {
        std::vector<std::tuple<uint32_t, std::string, std::string>> r;
        auto *b = d.bp(id);
        if (!b) return r;
        auto const &k = d.kind(*b);
        auto it = k.assigns.find(var);
        if (it == k.assigns.end()) return r;
        for (auto const &a : it->second)
            for (auto const &o : d.bps)
                if (o.inst == b->inst && o.stmt == a.stmt) r.emplace_back(o.id, a.rtl, a.cond);
        return r;
    }
    std::vector<uint32_t> execution_bp_orders() override {
        std::vector<uint32_t> r;
        for (auto const &b : d.bps) r.push_back(b.id);
        return r;
    }
    bool bad() const override { return false; }

private:
    const Design &d;
};

// --------------------------------------------------------------------------------- simulator
struct Obj {
    enum K { Module, Signal, Group, Slice, Clock, TfCall, Arg, Cb, Iter } k = Module;
    std::string name, full, def;
    unsigned width = 1;
    bool reg = false;
    int index = -1;  // of the signal in the values
    bool structure = false;
    unsigned lo = 0;  // of a slice; kids: the signal
    std::vector<Obj *> kids;
    Obj *parent = nullptr;
    // arguments of a system task
    int const_type = 0;
    int64_t ival = 0;
    std::string sval;
    Obj *target = nullptr;
    // iteration
    size_t pos = 0;
    // callback
    s_cb_data cb{};
    bool removed = false;
};

struct Edge {
    uint64_t time;
    unsigned clock;
};

class Sim : public hgdb::AVPIProvider {
public:
    const Design *d = nullptr;
    std::deque<Obj> objs;
    std::unordered_map<std::string, Obj *> by_name;
    std::vector<Obj *> roots;
    std::vector<Obj *> sig_objs;
    // parts of signals, which the simulator has no names for; their indices begin at slice_base
    static constexpr int slice_base = 1 << 20;
    std::vector<Obj *> slice_objs;
    std::unordered_map<std::string, Obj *> slice_by_name;
    std::vector<Obj *> clock_objs;
    std::vector<Edge> edges;
    std::vector<std::vector<uint64_t>> values;  // [edge + 1][signal]; first: before any edge
    int cur = -1;                               // edge
    std::map<int, uint64_t> over;               // overrides of the present edge
    bool can_rewind = false;
    bool finished = false;
    bool verilator = false;
    unsigned finishes = 0;
    std::vector<std::string> args;
    std::vector<char *> argv;
    std::string product = "RTLMock", version = "1.0";
    std::vector<Obj *> cbs;
    Obj *tf_call = nullptr;
    s_vpi_systf_data tf{};
    bool have_tf = false;
    uint64_t rewinds = 0;
    std::deque<std::string> strs;
    uint64_t start_time = 0;
    int late = 0;  // 1: what changes at this edge has changed (a waveform that is replayed from there)
    std::mutex m;

    Obj *mk(Obj::K k, const std::string &name, const std::string &full, Obj *parent) {
        objs.emplace_back();
        auto *o = &objs.back();
        o->k = k;
        o->name = name;
        o->full = full;
        o->parent = parent;
        if (parent) parent->kids.push_back(o);
        if (!full.empty()) by_name[full] = o;
        return o;
    }
    Obj *module(const std::string &full, const std::string &def) {
        auto it = by_name.find(full);
        if (it != by_name.end()) {
            if (!def.empty()) it->second->def = def;
            return it->second;
        }
        auto dot = full.rfind('.');
        Obj *parent = nullptr;
        if (dot != std::string::npos) parent = module(full.substr(0, dot), "");
        auto *o = mk(Obj::Module, dot == std::string::npos ? full : full.substr(dot + 1), full, parent);
        o->def = def.empty() ? "mod_" + o->name : def;
        if (!parent) roots.push_back(o);
        return o;
    }
    void build(const Design &design) {
        d = &design;
        module("tb", "testbench");
        for (auto const &n : d->ns)
            if (n.prefix.find('.') == n.prefix.rfind('.')) module(n.prefix, n.def);
        for (unsigned n = 0; n < d->ns.size(); n++)
            for (auto const &i : d->insts) {
                if (i.top != d->ns[n].def) continue;
                auto full = d->full(n, i);
                auto *mod = module(full, i.path.empty() ? i.top : d->kinds[i.kind].name);
                auto const &kind = d->kinds[i.kind];
                std::map<std::string, std::pair<Obj *, std::string>> part;
                for (auto const &g : kind.groups) {
                    auto *o = mk(Obj::Group, g.name, full + "." + g.name, mod);
                    o->structure = g.structure;
                    o->width = static_cast<unsigned>(g.labels.size());
                    for (size_t q = 0; q < g.labels.size(); q++)
                        part[g.elem(q)] = {o, g.structure ? g.labels[q] : g.elem(q)};
                }
                for (auto const &g : kind.sigs) {
                    auto it = part.find(g.name);
                    auto *o = mk(Obj::Signal, it == part.end() ? g.name : it->second.second,
                                 full + "." + g.name, it == part.end() ? mod : it->second.first);
                    o->width = g.width;
                    o->reg = g.reg;
                    o->index = static_cast<int>(sig_objs.size());
                    sig_objs.push_back(o);
                }
                for (auto const &x : kind.slices) {
                    objs.emplace_back();
                    auto *o = &objs.back();
                    o->k = Obj::Slice;
                    o->full = full + "." + x.name;
                    o->width = x.hi - x.lo + 1;
                    o->lo = x.lo;
                    o->target = by_name.at(full + "." + x.base);
                    o->index = slice_base + static_cast<int>(slice_objs.size());
                    slice_objs.push_back(o);
                    slice_by_name[o->full] = o;
                }
            }
        for (auto const &c : d->clocks) {
            auto *mod = module(c.substr(0, c.rfind('.')), "");
            auto *o = mk(Obj::Clock, c.substr(c.rfind('.') + 1), c, mod);
            clock_objs.push_back(o);
        }
    }
    void gen_trace(pbt::Src &s, unsigned n) {
        uint64_t t = s.chance(15) ? (1ull << 32) - 20 : 1 + s.draw(10);
        for (unsigned i = 0; i < n; i++) {
            edges.push_back({t, static_cast<unsigned>(s.draw(clock_objs.size()))});
            t += 1 + s.draw(10);
        }
        values.resize(n + 1);
        for (unsigned e = 0; e <= n; e++) {
            values[e].resize(sig_objs.size());
            for (unsigned g = 0; g < sig_objs.size(); g++) {
                auto w = sig_objs[g]->width;
                uint64_t mask = w >= 64 ? ~0ull : (1ull << w) - 1;
                if (e && s.chance(45))
                    values[e][g] = values[e - 1][g];
                else
                    values[e][g] = (s.chance(15) ? s.bits(w) : s.draw(4)) & mask;
            }
        }
    }
    const Obj *obj(int index) const {
        return index >= slice_base ? slice_objs[static_cast<size_t>(index - slice_base)]
                                   : sig_objs[static_cast<size_t>(index)];
    }
    // a signal or a part of one, by its full name
    const Obj *valued(const std::string &full) const {
        auto it = by_name.find(full);
        if (it != by_name.end()) return it->second;
        auto s = slice_by_name.find(full);
        return s == slice_by_name.end() ? nullptr : s->second;
    }
    uint64_t raw(int edge, const std::map<int, uint64_t> &ov, int index) const {
        if (index >= slice_base) {
            auto *x = obj(index);
            auto v = raw(edge, ov, x->target->index) >> x->lo;
            return x->width >= 64 ? v : v & ((1ull << x->width) - 1);
        }
        auto it = ov.find(index);
        if (it != ov.end()) return it->second;
        return values[static_cast<size_t>(edge + 1 + late)][static_cast<size_t>(index)];
    }
    uint64_t time_of(int edge) const { return edge < 0 || late ? start_time : edges[static_cast<size_t>(edge)].time; }
    void go(int edge) {
        if (edge != cur) over.clear();
        cur = edge;
        if (late) late = 0;  // others may read it
    }
    // where time t leads to, -2 if nowhere
    int rewind_target(uint64_t t, const std::set<unsigned> &clocks) const {
        if (!can_rewind) return -2;
        for (int i = static_cast<int>(edges.size()) - 1; i >= 0; i--)
            if (edges[static_cast<size_t>(i)].time < t && clocks.count(edges[static_cast<size_t>(i)].clock))
                return i;
        return -2;
    }

    // -------- VPI
    static Obj *o(vpiHandle h) { return reinterpret_cast<Obj *>(h); }
    static vpiHandle h(Obj *x) { return reinterpret_cast<vpiHandle>(x); }
    char *keep(const std::string &x) {
        std::lock_guard g(m);
        strs.push_back(x);
        if (strs.size() > 1000) strs.pop_front();
        return const_cast<char *>(strs.back().c_str());
    }

    void vpi_get_value(vpiHandle handle, p_vpi_value v) override {
        auto *x = o(handle);
        v->value.integer = 0;
        if (!x) return;
        int64_t val = 0;
        if (x->k == Obj::Signal)
            val = raw(cur, over, x->index);
        else if (x->k == Obj::Clock)
            val = 1;
        else if (x->k == Obj::Arg) {
            if (v->format == vpiStringVal) {
                v->value.str = keep(x->sval);
                return;
            }
            val = x->ival;
        }
        if (v->format == vpiIntVal)
            v->value.integer = static_cast<PLI_INT32>(static_cast<uint32_t>(val));
        else if (v->format == vpiBinStrVal) {
            std::string b;
            for (auto i = x->width; i > 0; i--) b += (static_cast<uint64_t>(val) >> (i - 1)) & 1 ? '1' : '0';
            v->value.str = keep(b);
        } else
            v->value.str = keep(std::to_string(val));
    }
    PLI_INT32 vpi_get(PLI_INT32 p, vpiHandle handle) override {
        auto *x = o(handle);
        if (!x) return vpiUndefined;
        if (p == vpiType) {
            switch (x->k) {
                case Obj::Module:
                    return vpiModule;
                case Obj::Signal:
                    return x->reg ? vpiReg : vpiNet;
                case Obj::Group:
                    return x->structure ? vpiStructVar : vpiRegArray;
                case Obj::Clock:
                    return vpiNet;
                case Obj::Arg:
                    return x->target ? vpiModule : vpiConstant;
                default:
                    return vpiUndefined;
            }
        }
        if (p == vpiSize) {
            if (x->k == Obj::Signal || x->k == Obj::Clock || x->k == Obj::Group) return static_cast<PLI_INT32>(x->width);
            return vpiUndefined;
        }
        if (p == vpiConstType && x->k == Obj::Arg) return x->const_type;
        if (p == vpiVector) return x->width > 1;
        return vpiUndefined;
    }
    vpiHandle vpi_iterate(PLI_INT32 type, vpiHandle ref) override {
        std::vector<Obj *> list;
        auto *x = o(ref);
        if (type == vpiModule) {
            for (auto *c : x ? x->kids : roots)
                if (c->k == Obj::Module) list.push_back(c);
        } else if (type == vpiNet || type == vpiReg) {
            if (x)
                for (auto *c : x->kids)
                    if ((c->k == Obj::Signal && c->reg == (type == vpiReg)) ||
                        (c->k == Obj::Clock && type == vpiNet))
                        list.push_back(c);
        } else if (type == (x && x->structure ? vpiMember : vpiRange) && x && x->k == Obj::Group) {
            list = x->kids;
        } else if (type == vpiArgument && x && x->k == Obj::TfCall) {
            list = x->kids;
        }
        if (list.empty()) return nullptr;
        std::lock_guard g(m);
        objs.emplace_back();
        auto *it = &objs.back();
        it->k = Obj::Iter;
        it->kids = list;
        return h(it);
    }
    vpiHandle vpi_scan(vpiHandle it) override {
        auto *x = o(it);
        if (!x || x->pos >= x->kids.size()) return nullptr;
        return h(x->kids[x->pos++]);
    }
    char *vpi_get_str(PLI_INT32 p, vpiHandle handle) override {
        auto *x = o(handle);
        if (!x) return nullptr;
        if (x->k == Obj::Arg && x->target) x = x->target;
        if (p == vpiName) return keep(x->name);
        if (p == vpiFullName) return keep(x->full);
        if (p == vpiDefName) return keep(x->def);
        return nullptr;
    }
    vpiHandle vpi_handle_by_name(char *name, vpiHandle) override {
        auto it = by_name.find(name);
        return it == by_name.end() ? nullptr : h(it->second);
    }
    vpiHandle vpi_handle_by_index(vpiHandle p, PLI_INT32 i) override {
        auto *x = o(p);
        if (!x || x->k != Obj::Group || x->structure || i < 0 || static_cast<size_t>(i) >= x->kids.size())
            return nullptr;
        return h(x->kids[static_cast<size_t>(i)]);
    }
    PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info info) override {
        argv.clear();
        for (auto &a : args) argv.push_back(const_cast<char *>(a.c_str()));
        info->argc = static_cast<PLI_INT32>(argv.size());
        info->argv = argv.data();
        info->product = const_cast<char *>(product.c_str());
        info->version = const_cast<char *>(version.c_str());
        return 1;
    }
    void vpi_get_time(vpiHandle, p_vpi_time t) override {
        auto v = time_of(cur);
        t->high = static_cast<PLI_UINT32>(v >> 32);
        t->low = static_cast<PLI_UINT32>(v);
    }
    vpiHandle vpi_register_cb(p_cb_data data) override {
        std::lock_guard g(m);
        objs.emplace_back();
        auto *c = &objs.back();
        c->k = Obj::Cb;
        c->cb = *data;
        cbs.push_back(c);
        return h(c);
    }
    PLI_INT32 vpi_remove_cb(vpiHandle handle) override {
        o(handle)->removed = true;
        return 1;
    }
    PLI_INT32 vpi_release_handle(vpiHandle) override { return 1; }
    PLI_INT32 vpi_control(PLI_INT32 op, ...) override {
        if (op == vpiFinish) {
            finished = true;
            finishes++;
        }
        return 1;
    }
    vpiHandle vpi_put_value(vpiHandle handle, p_vpi_value v, p_vpi_time, PLI_INT32) override {
        auto *x = o(handle);
        if (!x || x->k != Obj::Signal || (v->format != vpiIntVal && v->format != vpiBinStrVal))
            return reinterpret_cast<vpiHandle>(~0ull);
        uint64_t mask = x->width >= 64 ? ~0ull : (1ull << x->width) - 1;
        uint64_t val = 0;
        if (v->format == vpiIntVal)
            val = static_cast<uint32_t>(v->value.integer);
        else
            for (auto *c = v->value.str; *c; c++) val = val << 1 | (*c == '1');
        over[x->index] = val & mask;
        return nullptr;
    }
    vpiHandle vpi_register_systf(p_vpi_systf_data data) override {
        tf = *data;
        have_tf = true;
        std::lock_guard g(m);
        objs.emplace_back();
        return h(&objs.back());
    }
    vpiHandle vpi_handle(int type, vpiHandle) override {
        return type == vpiSysTfCall && tf_call ? h(tf_call) : nullptr;
    }
    bool vpi_rewind(rewind_data *r) override {
        std::set<unsigned> c;
        for (auto *x : r->clock_signals)
            for (unsigned i = 0; i < clock_objs.size(); i++)
                if (clock_objs[i] == o(x)) c.insert(i);
        auto t = rewind_target(r->time, c);
        if (t == -2) return false;
        rewinds++;
        go(t);
        return true;
    }
    bool has_defname() override { return !verilator; }

    // -------- running it
    // calls the callbacks of one kind; value: of the clock
    void fire(int reason, Obj *obj, int value) {
        auto list = cbs;
        for (auto *c : list) {
            if (c->removed || c->cb.reason != reason) continue;
            if (reason == cbValueChange && o(c->cb.obj) != obj) continue;
            s_cb_data data = c->cb;
            s_vpi_value v{};
            v.format = vpiIntVal;
            v.value.integer = value;
            s_vpi_time t{};
            t.type = vpiSimTime;
            auto now = time_of(cur);
            t.high = static_cast<PLI_UINT32>(now >> 32);
            t.low = static_cast<PLI_UINT32>(now);
            data.value = &v;
            data.time = &t;
            data.cb_rtn(&data);
        }
    }
    bool watching() const {
        for (auto *c : cbs)
            if (!c->removed && c->cb.reason == cbValueChange) return true;
        return false;
    }
};

}  // namespace dbg
