// hgdb-rewrite-vcd: the rewritten waveform is the same waveform with the table's names.
// The tool's own source is compiled in and run through its command line.
#include <unistd.h>

#define main rewrite_main
#include "../tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc"
#undef main

#include "pbt.hh"

using pbt::Src;

namespace {

using Path = std::vector<std::string>;

std::string dotted(const Path &p) {
    std::string r;
    for (auto const &x : p) r += (r.empty() ? "" : ".") + x;
    return r;
}
Path split(const std::string &s) {
    Path r;
    std::string w;
    for (char c : s + ".") {
        if (c != '.') {
            w += c;
        } else if (!w.empty()) {
            r.push_back(w);
            w.clear();
        }
    }
    return r;
}
std::string lower(std::string s) {
    for (auto &c : s) c = static_cast<char>(tolower(c));
    return s;
}

struct File {
    std::string name;
    explicit File(const std::string &text = "") {
        name = "/dev/shm/pbt_rew_XXXXXX";
        int fd = mkstemp(name.data());
        if (fd < 0) {
            name = "/tmp/pbt_rew_XXXXXX";
            fd = mkstemp(name.data());
        }
        if (fd < 0) throw std::runtime_error("mkstemp");
        for (size_t off = 0; off < text.size();) {
            auto k = write(fd, text.data() + off, text.size() - off);
            if (k <= 0) break;
            off += static_cast<size_t>(k);
        }
        close(fd);
    }
    ~File() {
        unlink(name.c_str());
        unlink((name + "-journal").c_str());
    }
    std::string text() const {
        std::ifstream f(name);
        std::ostringstream ss;
        ss << f.rdbuf();
        return ss.str();
    }
};

struct Ran {
    int status = 0;
    std::string out, err;
};
Ran run_tool(const std::string &vcd, const std::string &db) {
    File out;
    std::vector<std::string> words = {"hgdb-rewrite-vcd", "-i", vcd, "-d", db, "-o", out.name};
    std::vector<char *> argv;
    for (auto &w : words) argv.push_back(w.data());
    std::ostringstream err;
    auto *old = std::cerr.rdbuf(err.rdbuf());
    struct Back {
        std::streambuf *b;
        ~Back() { std::cerr.rdbuf(b); }
    } back{old};
    Ran r;
    r.status = rewrite_main(static_cast<int>(argv.size()), argv.data());
    r.out = out.text();
    r.err = err.str();
    return r;
}

// ---- an independent reader: what a waveform says
struct Var {
    Path scope;
    std::string type, width, id, name, slice;
    std::string key() const { return id + " " + slice; }
    std::string decl() const { return type + " " + width + " " + id + " " + slice; }
    std::string full() const { return dotted(scope) + (scope.empty() ? "" : ".") + name; }
};
struct Wave {
    std::vector<std::string> meta;             // keyword and words
    std::map<std::string, std::string> scopes;  // path -> type
    std::vector<Path> order;                    // of the scopes
    std::vector<Var> vars;
    std::vector<std::string> history;  // times and values in order
    std::string bad;
};

Wave read_wave(const std::string &text) {
    Wave w;
    std::istringstream in(text);
    std::string t;
    Path at;
    bool body = false;
    auto until_end = [&]() {
        Path r;
        std::string x;
        while (in >> x) {
            if (x == "$end") return r;
            r.push_back(x);
        }
        w.bad = "a section is not closed";
        return r;
    };
    while (in >> t) {
        if (!body) {
            if (t == "$scope") {
                auto x = until_end();
                if (x.size() != 2) {
                    w.bad = "scope of " + std::to_string(x.size()) + " words";
                    return w;
                }
                at.push_back(x[1]);
                auto p = dotted(at);
                if (w.scopes.count(p)) w.bad = "two scopes " + p;
                w.scopes[p] = x[0];
                w.order.push_back(at);
            } else if (t == "$upscope") {
                if (!until_end().empty() || at.empty()) w.bad = "upscope";
                if (!at.empty()) at.pop_back();
            } else if (t == "$var") {
                auto x = until_end();
                if (x.size() != 4 && x.size() != 5) {
                    w.bad = "variable of " + std::to_string(x.size()) + " words";
                    return w;
                }
                w.vars.push_back({at, x[0], x[1], x[2], x[3], x.size() == 5 ? x[4] : ""});
            } else if (t == "$enddefinitions") {
                if (!until_end().empty()) w.bad = "enddefinitions";
                if (!at.empty()) w.bad = "scope is not closed";
                body = true;
            } else if (t == "$date" || t == "$version" || t == "$timescale" || t == "$comment") {
                auto x = until_end();
                std::string m = t;
                for (auto const &y : x) m += " " + y;
                w.meta.push_back(m);
            } else {
                w.bad = "word " + t + " among the definitions";
            }
        } else if (t[0] == '#') {
            w.history.push_back(t);
        } else if (t[0] == '$') {
            if (t == "$comment") until_end();
            // (the tool leaves out the $end of a dump section)
            else if (t != "$end")
                w.history.push_back(t);
        } else if (t[0] == 'b' || t[0] == 'B') {
            std::string id;
            if (!(in >> id)) w.bad = "value without an identifier";
            w.history.push_back(lower(t) + " " + id);
        } else {
            w.history.push_back(std::string(1, static_cast<char>(tolower(t[0]))) + t.substr(1));
        }
    }
    if (!body) w.bad = "no end of the definitions";
    return w;
}

// what hgdb's own reader takes from it: every value with its time
std::vector<std::string> own_history(Src &s, const std::string &text) {
    std::istringstream in(text);
    hgdb::vcd::VCDParser p(in);
    std::vector<std::string> r;
    p.set_value_change([&](const hgdb::vcd::VCDValue &v) {
        r.push_back(std::to_string(v.time) + " " + v.identifier + "=" + lower(v.value));
    });
    p.set_on_time_change([&](uint64_t t) { r.push_back(std::to_string(t)); });
    if (!p.parse()) s.fail("hgdb's reader refuses the rewritten file: " + p.error_message());
    return r;
}

// ---- generator
struct Scope {
    std::string name, type;
    std::vector<std::unique_ptr<Scope>> kids;
    std::vector<Var> vars;
    Scope *up = nullptr;
    Scope *kid(const std::string &n) {
        for (auto &k : kids)
            if (k->name == n) return k.get();
        return nullptr;
    }
    Path path() const {
        Path r = up ? up->path() : Path{};
        r.push_back(name);
        return r;
    }
};

struct Gv {
    std::string inst, rtl, name;
    bool is_rtl;
};

struct Gen {
    Src &s;
    std::vector<std::unique_ptr<Scope>> roots;
    std::vector<Scope *> all;
    std::vector<std::string> meta;
    std::string body;
    std::vector<std::string> ids;
    std::map<uint32_t, std::string> insts;
    std::vector<Gv> gvs;
    unsigned uniq = 0;

    explicit Gen(Src &src) : s(src) {}

    Scope *add(Scope *up, const std::string &name, const std::string &type) {
        auto n = std::make_unique<Scope>();
        n->name = name;
        n->type = type;
        n->up = up;
        auto *r = n.get();
        (up ? up->kids : roots).push_back(std::move(n));
        all.push_back(r);
        return r;
    }
    void fill(Scope *sc) {
        static const std::vector<std::string> names = {"a", "b", "c", "io_a_b", "io_a_c", "a[0]", "a[1]",
                                                       "x.y", "clk", "io", "data"};
        size_t n = s.len(1, 6);
        for (size_t i = 0; i < n; i++) {
            Var v;
            v.name = s.pick(names);
            if (std::any_of(sc->vars.begin(), sc->vars.end(), [&](auto &o) { return o.name == v.name; })) continue;
            v.type = s.pick<std::string>({"wire", "reg", "integer", "parameter", "logic"});
            auto width = s.chance(60) ? 1 : s.range(1, 70);
            v.width = std::to_string(width);
            if (ids.empty() || s.chance(70)) {
                std::string id;
                for (size_t k = ids.size();; k /= 94) {
                    id += static_cast<char>(33 + k % 94);
                    if (k < 94) break;
                }
                ids.push_back(id);
                v.id = id;
                if (s.chance(40)) v.slice = "[" + std::to_string(width - 1) + ":0]";
            } else {
                // another name of a signal: told apart by the slice
                v.id = s.pick(ids);
            }
            if (v.slice.empty() && (v.id != ids.back() || !ids_used.insert(v.id).second)) {
                uniq++;
                v.slice = "[" + std::to_string(width + uniq * 100) + ":" + std::to_string(uniq * 100) + "]";
            }
            ids_used.insert(v.id);
            v.scope = sc->path();
            sc->vars.push_back(v);
        }
    }
    std::set<std::string> ids_used;

    void tree(Scope *sc, unsigned depth) {
        static const std::vector<std::string> names = {"dut", "inst1", "inst2", "sub", "io", "child2", "u"};
        size_t n = s.len(0, depth > 3 ? 0 : 3);
        for (size_t i = 0; i < n; i++) {
            auto name = s.pick(names);
            if (s.chance(75)) name += std::to_string(all.size());
            if (sc->kid(name)) continue;
            auto *k = add(sc, name, s.pick<std::string>({"module", "module", "begin", "struct", "fork"}));
            fill(k);
            tree(k, depth + 1);
        }
    }
    static void write(std::string &o, const Scope *sc) {
        o += "$scope " + sc->type + " " + sc->name + " $end\n";
        for (auto const &v : sc->vars) {
            o += "$var " + v.type + " " + v.width + " " + v.id + " " + v.name + (v.slice.empty() ? "" : " ") + v.slice +
                 " $end\n";
        }
        for (auto const &k : sc->kids) write(o, k.get());
        o += "$upscope $end\n";
    }
    void value() {
        if (ids.empty()) return;
        auto id = s.pick(ids);
        if (s.coin()) {
            body += std::string(1, "01xzXZ"[s.draw(s.chance(20) ? 6 : 2)]) + id + "\n";
        } else {
            std::string v;
            size_t n = s.len(1, 20);
            for (size_t i = 0; i < n; i++) v += "01xzX"[s.draw(s.chance(85) ? 2 : 5)];
            body += (s.chance(10) ? "B" : "b") + v + " " + id + "\n";
        }
        values++;
    }
    size_t values = 0, times = 0;
    void history() {
        uint64_t t = 0;
        size_t n = s.len(2, 20);
        for (size_t i = 0; i < n; i++) {
            switch (s.weighted({10, 6, 2, 1})) {
                case 0:
                    value();
                    break;
                case 1:
                    t += s.chance(5) ? s.bits(40) : s.draw(20);
                    body += "#" + std::to_string(t) + "\n";
                    times++;
                    break;
                case 2: {
                    body += s.pick<std::string>({"$dumpvars", "$dumpall", "$dumpon", "$dumpoff"}) + "\n";
                    size_t m = s.len(0, 6);
                    for (size_t j = 0; j < m; j++) value();
                    body += "$end\n";
                    // (the tool leaves out the $end, so that only a time can follow)
                    t += s.draw(20);
                    body += "#" + std::to_string(t) + "\n";
                    times++;
                    break;
                }
                default:
                    body += "$comment 0! #7 $end\n";
            }
        }
    }
    void make() {
        size_t n = s.len(0, 4);
        for (size_t i = 0; i < n; i++) {
            std::string m = s.pick<std::string>({"$date", "$version", "$timescale", "$comment"});
            size_t k = s.len(0, 4);
            for (size_t j = 0; j < k; j++) m += " " + s.pick<std::string>({"Feb", "1ns", "10,", "$var", "2021", "x:y"});
            meta.push_back(m);
        }
        size_t r = s.chance(25) ? 2 : 1;
        for (size_t i = 0; i < r; i++) {
            auto *root = add(nullptr, i ? "$unit" : s.pick<std::string>({"top", "TOP", "child2"}), "module");
            fill(root);
            tree(root, 0);
        }
        history();
        table();
    }
    std::string text() {
        std::string o;
        for (auto const &m : meta) o += m + " $end\n";
        for (auto const &r : roots) write(o, r.get());
        return o + "$enddefinitions $end\n" + body;
    }

    void table() {
        // the design is somewhere in the hierarchy; its name there need not be the table's
        if (s.chance(4)) return;
        auto *design = s.pick(all);
        std::string top = s.chance(50) ? design->name : s.pick<std::string>({"child2", "mod", "dut"});
        std::vector<std::pair<std::string, Scope *>> at = {{top, design}};
        if (s.chance(95)) {
            size_t n = s.len(0, 5);
            for (size_t i = 0; i < n; i++) {
                auto [name, sc] = s.pick(at);
                if (sc && !sc->kids.empty() && !s.chance(4)) {
                    auto *k = s.pick(sc->kids).get();
                    at.push_back({name + "." + k->name, k});
                } else if (s.chance(10)) {
                    at.push_back({name + ".gone", nullptr});
                }
            }
        }
        std::vector<std::pair<std::string, Scope *>> used;
        for (auto &a : at) {
            if (std::any_of(used.begin(), used.end(), [&](auto &o) { return o.first == a.first; })) continue;
            used.push_back(a);
            uint32_t id = s.chance(80) ? static_cast<uint32_t>(insts.size()) : static_cast<uint32_t>(s.draw(1000));
            while (insts.count(id)) id++;
            insts.emplace(id, a.first);
        }
        static const std::vector<std::string> to = {"io.a.b", "io.a.c", "x", "a", "b", "abc[0]", "abc[1]", "sub.v",
                                                    "io_a_b", "inst1.q", "a.b.c.d"};
        size_t n = s.len(1, 12);
        for (size_t i = 0; i < n; i++) {
            auto &[name, sc] = s.pick(used);
            std::string rtl = s.pick<std::string>({"a", "b", "io_a_b", "sub.a", "nothing", "x.y"});
            if (sc && !s.chance(10)) {
                // a variable there, or in a scope below
                auto *from = sc;
                std::string prefix;
                while (!from->kids.empty() && s.chance(25)) {
                    from = s.pick(from->kids).get();
                    prefix += from->name + ".";
                }
                if (!from->vars.empty()) rtl = prefix + s.pick(from->vars).name;
            }
            gvs.push_back({name, rtl, s.pick(to), !s.chance(10)});
        }
    }
    void store(const std::string &file) {
        auto db = hgdb::init_debug_db(file);
        db.sync_schema();
        for (auto const &[id, name] : insts) hgdb::store_instance(db, id, name);
        uint32_t v = 0;
        for (auto const &g : gvs) {
            hgdb::store_variable(db, v, g.rtl, g.is_rtl);
            uint32_t owner = 0;
            for (auto const &[id, name] : insts)
                if (name == g.inst) owner = id;
            hgdb::store_generator_variable(db, g.name, owner, v);
            v++;
        }
    }
    std::string show() const {
        std::string r;
        for (auto const &[id, n] : insts) r += "instance " + std::to_string(id) + " " + n + "\n";
        for (auto const &g : gvs) r += g.inst + ": " + g.name + " is " + g.rtl + (g.is_rtl ? "" : " (constant)") + "\n";
        return r;
    }

    // ---- what the names of the table stand for
    // the scopes the table's top instance can be, judging by its longest instance name; none: cannot
    // be told
    std::vector<std::optional<Scope *>> designs() {
        std::vector<std::optional<Scope *>> r;
        if (insts.empty()) return {nullptr};
        size_t longest = 0;
        for (auto const &[id, n] : insts) longest = std::max(longest, n.size());
        for (auto const &[id, n] : insts) {
            if (n.size() != longest) continue;
            auto p = split(n);
            if (p.size() == 1) {
                Scope *best = nullptr;
                for (auto &root : roots)
                    for (auto &k : root->kids)
                        if (!best || k->vars.size() > best->vars.size()) best = k.get();
                r.push_back(best ? best : roots[0].get());
                continue;
            }
            std::vector<Scope *> found;
            for (auto *a : all) {
                if (a->name != p[1]) continue;
                auto *x = a;
                for (size_t i = 2; i < p.size() && x; i++) x = x->kid(p[i]);
                if (x) found.push_back(a);
            }
            if (found.size() == 1)
                r.push_back(found[0]->up);
            else
                r.push_back(std::nullopt);
        }
        return r;
    }
    // the names each variable may get
    std::map<std::string, std::set<std::string>> names(Scope *design) {
        std::map<std::string, std::set<std::string>> r;
        if (!design) return r;
        for (auto const &g : gvs) {
            if (!g.is_rtl) continue;
            auto p = split(g.inst);
            auto *sc = design;
            for (size_t i = 1; i < p.size() && sc; i++) sc = sc->kid(p[i]);
            if (!sc) continue;
            auto w = split(g.rtl);
            auto *in = sc;
            size_t i = 0;
            for (; i + 1 < w.size() && in->kid(w[i]); i++) in = in->kid(w[i]);
            auto rest = dotted(Path(w.begin() + static_cast<long>(i), w.end()));
            for (auto const &v : in->vars)
                if (v.name == rest) r[v.key()].insert(dotted(sc->path()) + "." + g.name);
        }
        return r;
    }
};

// empty when the output is what the table's names make of the input
std::string judge(Gen &g, const Wave &in, const Wave &out, Scope *design, size_t *renamed) {
    if (!out.bad.empty()) return "the output is not a waveform: " + out.bad;
    if (in.meta != out.meta) return "date, version, timescale or comments differ";
    if (in.history != out.history) {
        size_t i = 0;
        while (i < in.history.size() && i < out.history.size() && in.history[i] == out.history[i]) i++;
        return "history differs at item " + std::to_string(i) + ": input '" +
               (i < in.history.size() ? in.history[i] : "nothing") + "', output '" +
               (i < out.history.size() ? out.history[i] : "nothing") + "'";
    }
    auto names = g.names(design);
    std::map<std::string, Var> got;
    for (auto const &v : out.vars)
        if (!got.emplace(v.key(), v).second) return "variable " + v.full() + " (" + v.key() + ") is there twice";
    if (out.vars.size() != in.vars.size())
        return "the input has " + std::to_string(in.vars.size()) + " variables, the output " +
               std::to_string(out.vars.size());
    auto scopes = in.scopes;
    for (auto const &v : in.vars) {
        auto it = got.find(v.key());
        if (it == got.end()) return "variable " + v.full() + " (" + v.key() + ") is lost";
        auto const &o = it->second;
        if (o.decl() != v.decl()) return "variable " + v.full() + " became a " + o.decl() + ", it is a " + v.decl();
        auto n = names.find(v.key());
        if (n == names.end()) {
            if (o.full() != v.full() || o.name != v.name)
                return "variable " + v.full() + " has no other name, it is called " + o.full();
        } else {
            if (!n->second.count(o.full())) {
                std::string want;
                for (auto const &x : n->second) want += " " + x;
                return "variable " + v.full() + " is called " + o.full() + ", the table calls it" + want;
            }
            (*renamed)++;
            auto p = o.scope;
            for (; !p.empty(); p.pop_back()) scopes.emplace(dotted(p), "");
        }
    }
    for (auto const &[p, type] : scopes) {
        auto it = out.scopes.find(p);
        if (it == out.scopes.end()) return "scope " + p + " is lost";
        if (!type.empty() && it->second != type) return "scope " + p + " became a " + it->second;
    }
    for (auto const &[p, type] : out.scopes)
        if (!scopes.count(p)) return "scope " + p + " is new";
    return {};
}

void prop_rewrite(Src &s) {
    Gen g(s);
    g.make();
    auto text = g.text();
    s.say(text);
    s.say(g.show());
    File vcd(text), db;
    g.store(db.name);
    auto in = read_wave(text);
    if (!in.bad.empty()) s.fail("generator: " + in.bad);
    auto r = run_tool(vcd.name, db.name);
    s.checked();
    auto designs = g.designs();
    std::string why;
    for (auto const &d : designs) {
        if (!d) {
            if (r.status != 0 && !r.err.empty()) {
                s.label("design is not found");
                return;
            }
            why = "the design cannot be told in the waveform, but the tool says nothing (status " +
                  std::to_string(r.status) + ")";
            continue;
        }
        if (r.status != 0) {
            why = "refused: " + r.err;
            continue;
        }
        size_t renamed = 0;
        why = judge(g, in, read_wave(r.out), *d, &renamed);
        if (why.empty()) {
            if (renamed && g.values && g.times) s.nontrivial(text + g.show());
            if (renamed) s.label("renamed");
            break;
        }
    }
    if (!why.empty()) {
        s.say("output:\n" + r.out);
        s.fail(why);
    }
    auto a = own_history(s, text), b = own_history(s, r.out);
    s.require(a == b, "hgdb's reader does not read the same history from the rewritten file");
}

// damaged waveforms: the tool ends, with yes or no
void prop_damaged(Src &s) {
    Gen g(s);
    g.make();
    std::istringstream in(g.text());
    std::vector<std::string> w;
    for (std::string x; in >> x;) w.push_back(x);
    size_t n = s.range(1, 4);
    for (size_t i = 0; i < n && !w.empty(); i++) {
        size_t at = s.draw(w.size());
        switch (s.draw(5)) {
            case 0:
                w.erase(w.begin() + static_cast<long>(at));
                break;
            case 1:
                w.insert(w.begin() + static_cast<long>(at), w[s.draw(w.size())]);
                break;
            case 2:
                w[at] = s.pick<std::string>({"#", "#x", "b", "0", "$end", "$var", "$scope", "$upscope", "$dumpvars",
                                             "-1", "$enddefinitions", "r"});
                break;
            case 3:
                std::swap(w[at], w[s.draw(w.size())]);
                break;
            default:
                w.resize(at);
        }
    }
    std::string text;
    for (auto const &x : w) text += x + "\n";
    s.say(text);
    s.say(g.show());
    s.nontrivial(text);
    File vcd(text), db;
    g.store(db.name);
    auto r = run_tool(vcd.name, db.name);
    s.label(r.status ? "refused" : "rewritten");
    s.require(r.status == 0 || !r.err.empty(), "refused without a reason");
}

}  // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv,
                         {{{.name = "rew_rename", .cpu_limit = 4}, prop_rewrite},
                          {{.name = "rew_damaged", .cpu_limit = 4}, prop_damaged}});
}
