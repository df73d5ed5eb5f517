// dbgmodel.hh - reference model of the debugger: what a client sees, for every history.
//
// The model is a plain sequential program over the Design, with its own position in the trace
// and its own value overrides; it shares nothing with the code under test but the Sim's tables.
#pragma once
#include "dbgworld.hh"

namespace dbg {

enum class Mode { Continue, StepOver, StepBack, Reverse, None };

struct Watch {
    std::optional<int64_t> last;
};

struct Entry {
    uint32_t id = 0;
    uint32_t ns = 0;
    int type = 1;  // 1 normal, 2 data, 4 assert
    std::optional<Expr> user;
    bool user_only = false;       // assertion: the statement's own condition does not count
    const Assign *assign = nullptr;
    std::string user_text;
    bool evaluated = false;
    std::map<std::string, int64_t> seen;  // trigger values
    std::shared_ptr<Watch> watch;
};

struct Scope {
    uint32_t id, ns;
    std::string type;
};

struct MonitorM {
    uint64_t id;
    std::string type;
    int sig;  // index
    std::optional<int64_t> last;
};

struct Delayed {
    std::deque<int64_t> fifo;
    std::optional<int64_t> value;
};

struct Model {
    const Design &d;
    const Sim &sim;
    int cur = -1;
    std::map<int, uint64_t> over;
    std::set<unsigned> clocks;  // clocks the debugger knows

    std::vector<std::unique_ptr<Entry>> entries;  // in order
    Mode mode = Mode::Continue;
    std::optional<unsigned> current;  // order of the current statement

    // options
    bool single_thread = false, hex = false, pause_edge = false, detach_opt = false;
    std::map<std::string, bool> plain_options;

    std::vector<std::vector<MonitorM>> monitors;               // per namespace
    std::vector<std::map<std::string, std::shared_ptr<Watch>>> watches;  // rtl full name
    std::map<std::tuple<uint32_t, int, unsigned>, Delayed> delayed;
    bool rewound = false;

    Model(const Design &d, const Sim &sim) : d(d), sim(sim) {
        for (unsigned i = 0; i < sim.clock_objs.size(); i++) clocks.insert(i);
        monitors.resize(d.ns.size());
        watches.resize(d.ns.size());
    }

    // ------------------------------------------------------------------ values
    int64_t value(int index) const {
        auto v = sim.raw(cur, over, index);
        // 32-bit signals are signed
        if (index < Sim::slice_base && sim.obj(index)->width == 32) return static_cast<int32_t>(static_cast<uint32_t>(v));
        return static_cast<int64_t>(v);
    }
    int sig(uint32_t ns, unsigned inst, const std::string &name) const {
        // of the instance, or by a name that starts at the top
        auto const &top = d.insts[inst].top;
        auto *o = sim.valued(name.rfind(top + ".", 0) == 0 ? d.ns[ns].prefix + name.substr(top.size())
                                                           : d.full(ns, d.insts[inst]) + "." + name);
        return o ? o->index : -1;
    }
    // what a name means at a statement
    std::optional<int64_t> lookup(uint32_t ns, const BP *b, unsigned inst, const std::string &n) const {
        if (n == "$time") return static_cast<int64_t>(sim.time_of(cur));
        if (n == "$instance") return d.insts[inst].id;
        if (b) {
            auto const &vars = d.stmt(*b).vars;
            for (auto it = vars.rbegin(); it != vars.rend(); it++)
                if (it->name == n) {
                    if (!it->rtl) return std::stoll(it->value);
                    return value(sig(ns, inst, it->value));
                }
        }
        for (auto const &g : d.kinds[d.insts[inst].kind].gen)
            if (g.name == n && g.rtl) return value(sig(ns, inst, g.value));
        auto i = sig(ns, inst, n);
        if (i >= 0) return value(i);
        if (auto *o = sim.valued(n)) return value(o->index);
        return std::nullopt;
    }
    bool holds(const Expr &e, uint32_t ns, const BP *b, unsigned inst) const {
        return e.eval([&](const std::string &n) {
            auto v = lookup(ns, b, inst, n);
            return v ? *v : 0;
        }) != 0;
    }
    bool enabled(const BP &b, uint32_t ns) const {
        auto const &t = d.stmt(b);
        return t.cond.empty() || holds(t.cond_e, ns, &b, b.inst);
    }
    void go(int edge) {
        if (edge != cur) over.clear();
        cur = edge;
    }
    bool rewind(uint64_t t) {
        auto e = sim.rewind_target(t, clocks);
        if (e == -2) return false;
        go(e);
        rewound = true;
        return true;
    }

    // ------------------------------------------------------------- breakpoints
    unsigned order(const Entry &e) const { return d.bp(e.id)->order; }
    void insert(std::unique_ptr<Entry> e) {
        auto o = order(*e);
        auto it = entries.begin();
        while (it != entries.end() && order(**it) <= o) it++;
        entries.insert(it, std::move(e));
    }
    void add_normal(const BP &b, const std::optional<Expr> &user, const std::string &text) {
        bool found = false;
        for (auto &e : entries)
            if (e->id == b.id && e->type == 1) {
                e->user = user;
                e->user_text = text;
                found = true;
            }
        if (found) return register_delayed(b);
        for (auto n : d.namespaces(d.insts[b.inst].top)) {
            auto e = std::make_unique<Entry>();
            e->id = b.id;
            e->ns = n;
            e->user = user;
            e->user_text = text;
            insert(std::move(e));
        }
        register_delayed(b);
    }
    void remove(uint32_t id, int type) {
        entries.erase(std::remove_if(entries.begin(), entries.end(),
                                     [&](auto const &e) { return e->id == id && e->type == type; }),
                      entries.end());
        if (type == 2) drop_watches();
    }
    void remove_data(uint32_t id, uint32_t ns) {
        entries.erase(std::remove_if(entries.begin(), entries.end(),
                                     [&](auto const &e) {
                                         return e->id == id && e->type == 2 && e->ns == ns;
                                     }),
                      entries.end());
        drop_watches();
    }
    void add_assert(const BP &b, uint32_t ns) {
        auto e = std::make_unique<Entry>();
        e->id = b.id;
        e->ns = ns;
        e->type = 4;
        e->user_only = true;
        insert(std::move(e));
    }
    // a data breakpoint on a source variable at a statement, in one namespace
    void add_data(const BP &at, const std::string &var, uint32_t ns, const std::optional<Expr> &user,
                  const std::string &text) {
        auto const &list = d.kind(at).assigns.at(var);
        auto base = d.full(ns, d.insts[at.inst]) + ".";
        auto &w = watches[ns];
        std::vector<const BP *> at_bp;
        for (auto const &a : list) {
            const BP *b = nullptr;
            for (auto const &o : d.bps)
                if (o.inst == at.inst && o.stmt == a.stmt) b = &o;
            at_bp.push_back(b);
        }
        // the order in which the symbol table lists them: per assignment
        for (size_t i = 0; i < list.size(); i++) {
            auto const &a = list[i];
            bool have = false;
            for (auto const &e : entries)
                if (e->type == 2 && e->id == at_bp[i]->id && e->ns == ns && e->assign->rtl == a.rtl &&
                    e->assign->cond == a.cond && e->user_text == text)
                    have = true;
            std::shared_ptr<Watch> p;
            for (auto const &o : list) {
                auto it = w.find(base + o.rtl);
                if (it != w.end()) p = it->second;
            }
            if (!p) p = std::make_shared<Watch>();
            if (!w.count(base + a.rtl)) w[base + a.rtl] = p;
            if (have) continue;
            auto e = std::make_unique<Entry>();
            e->id = at_bp[i]->id;
            e->ns = ns;
            e->type = 2;
            e->user = user;
            e->user_text = text;
            e->assign = &a;
            e->watch = w[base + a.rtl];
            insert(std::move(e));
        }
    }
    void drop_watches() {
        for (unsigned n = 0; n < watches.size(); n++) {
            auto &w = watches[n];
            for (auto it = w.begin(); it != w.end();) {
                bool used = false;
                for (auto const &e : entries)
                    if (e->type == 2 && e->ns == n &&
                        d.full(n, d.insts[d.bp(e->id)->inst]) + "." + e->assign->rtl == it->first)
                        used = true;
                it = used ? std::next(it) : w.erase(it);
            }
        }
    }
    void clear_data() {
        entries.erase(std::remove_if(entries.begin(), entries.end(),
                                     [&](auto const &e) { return e->type == 2; }),
                      entries.end());
        drop_watches();
    }
    void register_delayed(const BP &b) {
        for (auto n : d.namespaces(d.insts[b.inst].top))
            for (auto const &v : d.stmt(b).vars) {
                if (!v.delay || !v.rtl) continue;
                for (auto const &[front, rtl] : d.kind(b).expand(v)) {
                    auto g = sig(n, b.inst, rtl);
                    auto key = std::make_tuple(n, g, v.delay);
                    if (delayed.count(key)) continue;
                    delayed[key].fifo.push_back(value(g));
                }
            }
    }

    // -------------------------------------------------------------- evaluation
    bool hit(Entry &e) {
        auto const *b = d.bp(e.id);
        bool ok = (e.user_only || enabled(*b, e.ns)) && (!e.user || holds(*e.user, e.ns, b, b->inst));
        if (e.assign && !e.assign->cond.empty()) ok = ok && holds(e.assign->cond_e, e.ns, b, b->inst);
        bool trigger = d.stmt(*b).trigger.empty();
        for (auto const &t : d.stmt(*b).trigger) {
            auto v = value(sig(e.ns, b->inst, t));
            auto it = e.seen.find(t);
            if (it == e.seen.end() || it->second != v) trigger = true;
            e.seen[t] = v;
        }
        if (!ok || !trigger) return false;
        if (e.type == 2) {
            auto v = value(sig(e.ns, b->inst, e.assign->rtl));
            bool changed = !e.watch->last || *e.watch->last != v;
            e.watch->last = v;
            return changed;
        }
        return true;
    }
    static bool forward(Mode m) { return m != Mode::Reverse && m != Mode::StepBack; }
    void set_mode(Mode m) {
        if (m == mode) return;
        mode = m;
        for (auto &e : entries) {
            if (!current)
                e->evaluated = false;
            else
                e->evaluated = forward(m) ? order(*e) <= *current : order(*e) >= *current;
        }
    }
    void start_eval() {
        entries.erase(std::remove_if(entries.begin(), entries.end(),
                                     [&](auto const &e) { return e->type == 4 && e->evaluated; }),
                      entries.end());
        for (auto &e : entries) e->evaluated = false;
        current.reset();
        for (auto &[key, x] : delayed) {
            auto depth = std::get<2>(key);
            x.value.reset();
            if (x.fifo.size() == depth) x.value = x.fifo.front();
            x.fifo.push_back(value(std::get<1>(key)));
            if (x.fifo.size() > depth) x.fifo.pop_front();
        }
    }
    const std::string &text(const Entry &e) const {
        static const std::string one = "1";
        if (e.user_only) return one;
        auto const &c = d.stmt(*d.bp(e.id)).cond;
        return c.empty() ? one : c;
    }
    bool same_line(const Entry &x, const Entry &y) const {
        auto const &a = d.stmt(*d.bp(x.id)), &b = d.stmt(*d.bp(y.id));
        return a.file == b.file && a.line == b.line && a.col == b.col;
    }
    std::vector<Entry *> group(size_t ref, int dir) {
        std::vector<Entry *> g = {entries[ref].get()};
        auto &r = *entries[ref];
        if (!single_thread && (dir > 0 ? r.type == 1 : r.type != 2)) {
            for (auto i = static_cast<int64_t>(ref) + dir;
                 i >= 0 && i < static_cast<int64_t>(entries.size()); i += dir) {
                auto &e = *entries[static_cast<size_t>(i)];
                if (!same_line(e, r)) break;
                if (e.type == 2 || e.evaluated) continue;
                if (d.bp(e.id)->inst != d.bp(r.id)->inst && text(e) == text(r)) g.push_back(&e);
            }
        }
        for (auto *e : g) e->evaluated = true;
        current = order(r);
        return g;
    }

    // One stop: what is shown, or nothing when the evaluation of this edge is over.
    std::optional<std::vector<Scope>> next_stop() {
        for (unsigned guard = 0; guard < 1000000; guard++) {
            switch (mode) {
                case Mode::None:
                    return std::nullopt;
                case Mode::Continue: {
                    std::optional<size_t> ref;
                    for (size_t i = 0; i < entries.size() && !ref; i++)
                        if (!entries[i]->evaluated && (!current || order(*entries[i]) >= *current)) ref = i;
                    if (!ref) return std::nullopt;
                    if (auto r = judge(group(*ref, 1)); !r.empty()) return r;
                    break;
                }
                case Mode::Reverse: {
                    if (entries.empty()) return std::nullopt;
                    auto find = [&]() {
                        std::optional<size_t> ref;
                        for (size_t i = entries.size(); i-- > 0 && !ref;)
                            if (!entries[i]->evaluated && (!current || order(*entries[i]) <= *current))
                                ref = i;
                        return ref;
                    };
                    auto ref = find();
                    if (!ref) {
                        if (rewind(sim.time_of(cur))) {
                            current.reset();
                            for (auto &e : entries) e->evaluated = false;
                            ref = find();
                        } else {
                            // the beginning: stay at the first one and go on from there
                            mode = Mode::Continue;
                            for (auto &e : entries) e->evaluated = false;
                            ref = 0;
                            if (auto r = judge(group(*ref, 1)); !r.empty()) return r;
                            break;
                        }
                    }
                    if (auto r = judge(group(*ref, -1)); !r.empty()) return r;
                    break;
                }
                case Mode::StepOver: {
                    unsigned o = current ? *current + 1 : 0;
                    if (o >= d.bps.size()) return std::nullopt;
                    current = o;
                    if (auto r = statement(o); !r.empty()) return r;
                    break;
                }
                case Mode::StepBack: {
                    if (!current) return std::nullopt;
                    if (*current > 0) {
                        current = *current - 1;
                    } else if (rewind(sim.time_of(cur))) {
                        current = static_cast<unsigned>(d.bps.size() - 1);
                    } else {
                        mode = Mode::StepOver;
                        current = 0;
                    }
                    if (auto r = statement(*current); !r.empty()) return r;
                    break;
                }
            }
        }
        throw pbt::Fail{"the model does not come to an end"};
    }
    std::vector<Scope> judge(const std::vector<Entry *> &g) {
        std::vector<Scope> r;
        for (auto *e : g)
            if (hit(*e)) r.push_back({e->id, e->ns, e->type == 2 ? "data" : "normal"});
        return r;
    }
    std::vector<Scope> statement(unsigned o) {
        std::vector<Scope> r;
        auto const &b = d.bps[o];
        for (auto n : d.namespaces(d.insts[b.inst].top))
            if (enabled(b, n)) r.push_back({b.id, n, "normal"});
        return r;
    }

    // ---------------------------------------------------------------- contents
    std::string show(int index) const { return show(value(index), sim.obj(index)->width); }
    std::string show(int64_t v, unsigned width) const {
        if (!hex || width == 1) return std::to_string(hex ? (v & 1) : v);
        char buf[64];
        uint64_t mask = width >= 64 ? ~0ull : (1ull << width) - 1;
        snprintf(buf, sizeof buf, "0x%0*llX", static_cast<int>((width + 3) / 4),
                 static_cast<unsigned long long>(static_cast<uint64_t>(v) & mask));
        return buf;
    }
    // nullopt: not judged
    std::map<std::string, std::optional<std::string>> locals(const Scope &s) const {
        std::map<std::string, std::optional<std::string>> r;
        auto const &b = *d.bp(s.id);
        for (auto const &v : d.stmt(b).vars) {
            if (!v.rtl) {
                r[v.name] = v.value;
                continue;
            }
            for (auto const &[front, rtl] : d.kind(b).expand(v)) {
                auto g = sig(s.ns, b.inst, rtl);
                if (!v.delay) {
                    r[front] = show(g);
                    continue;
                }
                if (rewound) {
                    r[front] = std::nullopt;
                    continue;
                }
                auto it = delayed.find(std::make_tuple(s.ns, g, v.delay));
                if (it == delayed.end() || !it->second.value)
                    r[front] = "ERROR";
                else
                    r[front] = show(*it->second.value, sim.obj(g)->width);
            }
        }
        return r;
    }
    std::map<std::string, std::string> gens(const Scope &s) const {
        std::map<std::string, std::string> r;
        auto const &b = *d.bp(s.id);
        for (auto const &v : d.kind(b).gen) {
            if (!v.rtl) r[v.name] = v.value;
            else
                for (auto const &[front, rtl] : d.kind(b).expand(v)) r[front] = show(sig(s.ns, b.inst, rtl));
        }
        return r;
    }

    // ---------------------------------------------------------------- monitors
    uint64_t monitor_value(const MonitorM &m) const { return static_cast<uint64_t>(value(m.sig)); }
    // (namespace, track id, value); value is not judged when negative and hexadecimal
    std::vector<std::tuple<uint32_t, uint64_t, int64_t>> monitor_values(const std::string &type) {
        std::vector<std::tuple<uint32_t, uint64_t, int64_t>> r;
        for (uint32_t n = 0; n < monitors.size(); n++)
            for (auto &m : monitors[n]) {
                if (m.type != type) continue;
                auto v = value(m.sig);
                if (type == "changed") {
                    if (m.last && *m.last == v) continue;
                    m.last = v;
                }
                r.emplace_back(n, m.id, v);
            }
        return r;
    }
};

}  // namespace dbg
