// h_sqlite.cc - symbol tables kept in SQLite: what was stored is what every query answers.
#include <sys/stat.h>

#include "schema.hh"

#include "db.hh"
#include "pbt.hh"
#include "symbol.hh"

using pbt::Src;
using Provider = hgdb::SymbolTableProvider;

namespace {

struct Bp {
    uint32_t id, inst, line, col;
    std::string file, cond, trigger;
    std::string str() const {
        return std::to_string(id) + "|" + std::to_string(inst) + "|" + file + "|" + std::to_string(line) + "|" +
               std::to_string(col) + "|" + cond + "|" + trigger;
    }
};
struct Variable {
    uint32_t id;
    std::string value;
    bool rtl;
};
struct Named {
    std::string name;
    uint32_t owner, var;
    bool delay;
};
struct Assign {
    std::string name, value, cond;
    uint32_t bp;
    std::optional<uint32_t> scope;
};

std::string str(const hgdb::BreakPoint &b) {
    return std::to_string(b.id) + "|" + (b.instance_id ? std::to_string(*b.instance_id) : "?") + "|" + b.filename +
           "|" + std::to_string(b.line_num) + "|" + std::to_string(b.column_num) + "|" + b.condition + "|" +
           b.trigger;
}

using Bag = std::multiset<std::string>;
std::string show(const Bag &b) {
    std::string r;
    for (auto &x : b) r += "[" + x + "]";
    return r;
}
void same(Src &s, const Bag &got, const Bag &want, const std::string &what) {
    s.checked();
    if (got != want) s.fail(what + ": got " + show(got) + ", stored " + show(want));
}

struct File {
    std::string name;
    File() {
        char n[] = "/tmp/pbt_sql_XXXXXX";
        int fd = mkstemp(n);
        if (fd < 0) throw std::runtime_error("mkstemp");
        close(fd);
        name = n;
    }
    ~File() {
        unlink(name.c_str());
        unlink((name + "-journal").c_str());
    }
};

void prop_sqlite(Src &s) {
    // ---- contents
    std::map<uint32_t, std::string> insts;
    std::map<uint32_t, Bp> bps;
    std::map<uint32_t, Variable> vars;
    std::vector<Named> context, generator;
    std::vector<std::pair<std::string, std::string>> annotations;
    std::map<uint32_t, std::vector<uint32_t>> scopes;
    std::vector<Assign> assigns;

    auto text = [&]() -> std::string {
        static const std::vector<std::string> pool = {"", "a", "a && !b", "it's", "\"q\"", "100%", "a_b", "x;--", "ü", "A"};
        return s.pick(pool);
    };
    auto fresh = [&](auto &m) {
        auto id = s.chance(20) ? static_cast<uint32_t>(s.bits(31)) : static_cast<uint32_t>(m.size() + s.draw(3));
        while (m.count(id)) id++;
        return id;
    };
    static const std::vector<std::string> pieces = {"t", "a", "inst", "u1", "data"};
    {
        std::vector<std::string> names = {s.pick<std::string>({"top", "t", "mod"})};
        size_t n = s.len(0, 4);
        for (size_t i = 0; i < n; i++) {
            auto name = s.pick(names) + "." + s.pick(pieces);
            if (std::find(names.begin(), names.end(), name) == names.end()) names.push_back(name);
        }
        for (auto &n : names) insts.emplace(fresh(insts), n);
    }
    std::vector<uint32_t> inst_ids;
    for (auto &[id, n] : insts) inst_ids.push_back(id);
    // the paths the table was made with, and where the user has the sources
    struct Map {
        std::string client, db;
    };
    static const std::vector<Map> maps = {{"", ""}, {"/home/u", "/src"}, {"/p", "/p/q"}, {"/src/a", "/src"}};
    bool base_names = s.chance(15);
    auto map = base_names ? maps[0] : s.pick(maps);
    std::vector<std::string> files;
    for (auto n : {"f.py", "g.py", "lib/f.py", "it's.py"})
        files.push_back(base_names ? std::string(n).substr(std::string(n).find('/') == std::string::npos ? 0 : 4)
                                   : (map.db.empty() ? "/w" : map.db) + "/" + n);
    auto client = [&](const std::string &f) {
        return map.db.empty() ? f : map.client + f.substr(map.db.size());
    };
    size_t n = s.len(0, 10);
    for (size_t i = 0; i < n; i++) {
        Bp b;
        b.id = fresh(bps);
        b.inst = s.pick(inst_ids);
        b.file = s.pick(files);
        b.line = static_cast<uint32_t>(s.range(1, 4));
        b.col = static_cast<uint32_t>(s.draw(3));
        b.cond = text();
        b.trigger = s.chance(50) ? "" : s.pick<std::string>({"a", "a b", "clk", "x.y z"});
        bps.emplace(b.id, b);
    }
    std::vector<uint32_t> bp_ids, var_ids;
    for (auto &[id, b] : bps) bp_ids.push_back(id);
    n = s.len(0, 8);
    for (size_t i = 0; i < n; i++) {
        Variable v;
        v.id = fresh(vars);
        v.rtl = s.chance(70);
        v.value = v.rtl ? s.pick<std::string>({"a", "t", "data", "data.t", "b[1]", "arr.0", "u1.x", "atop", "modx"})
                        : text();
        if (v.rtl && s.chance(15)) v.value = insts.begin()->second + "." + v.value;
        vars.emplace(v.id, v);
    }
    for (auto &[id, v] : vars) var_ids.push_back(id);
    static const std::vector<std::string> vnames = {"v", "w", "arr.0", "arr[1]", "it's", "v"};
    if (!var_ids.empty()) {
        n = bp_ids.empty() ? 0 : s.len(0, 8);
        for (size_t i = 0; i < n; i++)
            context.push_back({s.pick(vnames), s.pick(bp_ids), s.pick(var_ids), s.chance(20)});
        n = s.len(0, 6);
        for (size_t i = 0; i < n; i++)
            generator.push_back({s.pick(vnames), s.pick(inst_ids), s.pick(var_ids), false});
    }
    n = s.len(0, 4);
    for (size_t i = 0; i < n; i++)
        annotations.emplace_back(s.pick<std::string>({"clock", "it's", "x"}), s.pick<std::string>({"top.clk", "", "y"}));
    bool scoped = s.coin();
    if (scoped && !bp_ids.empty()) {
        auto all = bp_ids;
        s.shuffle(all);
        size_t at = 0;
        while (at < all.size()) {
            auto k = std::min<size_t>(all.size() - at, s.range(1, 4));
            scopes.emplace(fresh(scopes), std::vector<uint32_t>(all.begin() + at, all.begin() + at + k));
            at += k;
        }
    }
    std::map<uint32_t, uint32_t> scope_of;
    for (auto &[id, ids] : scopes)
        for (auto b : ids) scope_of[b] = id;
    for (auto id : bp_ids) {
        if (!s.chance(60)) continue;
        size_t k = s.chance(20) ? 2 : 1;
        std::set<std::string> used;
        for (size_t i = 0; i < k; i++) {
            Assign a;
            a.name = s.pick<std::string>({"v", "w", "z"});
            if (!used.insert(a.name).second) continue;
            a.value = s.pick<std::string>({"a", "b", "c"});
            a.cond = s.chance(30) ? "a == 1" : "";
            a.bp = id;
            if (scoped) a.scope = scope_of[id];
            assigns.push_back(a);
        }
    }

    // ---- stored the way compilers do it, in any order
    File file;
    {
        auto db = hgdb::init_debug_db(file.name);
        std::vector<std::function<void()>> todo;
        for (auto &[id, name] : insts) todo.push_back([&, id = id, name = name] { store_instance(db, id, name, text()); });
        for (auto &[id, b] : bps)
            todo.push_back([&, b = b] { store_breakpoint(db, b.id, b.inst, b.file, b.line, b.col, b.cond, b.trigger); });
        for (auto &[id, v] : vars) todo.push_back([&, v = v] { store_variable(db, v.id, v.value, v.rtl); });
        for (auto &c : context)
            todo.push_back([&, c = c] { store_context_variable(db, c.name, c.owner, c.var, c.delay); });
        for (auto &g : generator)
            todo.push_back([&, g = g] { store_generator_variable(db, g.name, g.owner, g.var, text()); });
        for (auto &a : annotations) todo.push_back([&, a = a] { store_annotation(db, a.first, a.second); });
        for (auto &[id, ids] : scopes)
            todo.push_back([&, id = id, ids = ids] { store_scope(db, id, ids); });
        for (auto &a : assigns)
            todo.push_back([&, a = a] {
                if (a.scope)
                    store_assignment(db, a.name, a.value, a.bp, a.cond, *a.scope);
                else
                    store_assignment(db, a.name, a.value, a.bp, a.cond);
            });
        s.shuffle(todo);
        for (auto &f : todo) f();
        // storing the same row again changes nothing where the row has a key
        if (!bps.empty() && s.chance(30)) {
            auto &b = bps.begin()->second;
            b.cond = text();
            store_breakpoint(db, b.id, b.inst, b.file, b.line, b.col, b.cond, b.trigger);
        }
    }
    for (auto &[id, b] : bps) s.say("breakpoint " + b.str());
    for (auto &[id, n] : insts) s.say("instance " + std::to_string(id) + " " + n);
    for (auto &[id, v] : vars) s.say("variable " + std::to_string(id) + " " + v.value + (v.rtl ? " rtl" : ""));
    for (auto &c : context)
        s.say("context " + c.name + " bp " + std::to_string(c.owner) + " var " + std::to_string(c.var));
    for (auto &c : generator)
        s.say("generator " + c.name + " inst " + std::to_string(c.owner) + " var " + std::to_string(c.var));
    for (auto &a : assigns)
        s.say("assign " + a.name + " = " + a.value + " bp " + std::to_string(a.bp) + " scope " +
              (a.scope ? std::to_string(*a.scope) : "-"));
    if (bps.size() > 1) s.nontrivial(std::to_string(bps.size()) + show([&] {
        Bag b;
        for (auto &[id, x] : bps) b.insert(x.str());
        for (auto &c : context) b.insert(c.name + std::to_string(c.owner) + "," + std::to_string(c.var));
        for (auto &a : assigns) b.insert(a.name + a.value + std::to_string(a.bp));
        return b;
    }()));

    auto table = hgdb::create_symbol_table(file.name);
    s.require(table && !table->bad(), "the table is refused");
    s.require(dynamic_cast<hgdb::DBSymbolTableProvider *>(table.get()), "not recognised as an SQLite file");
    if (!map.db.empty()) {
        s.label("path mapping");
        table->set_src_mapping({{map.client, map.db}});
    }

    // ---- questions
    auto want_bps = [&](const std::string &f, uint32_t line, uint32_t col) {
        Bag r;
        for (auto [id, b] : bps)
            if (b.file == f && (!line || b.line == line) && (!col || b.col == col)) {
                b.file = client(b.file);
                r.insert(b.str());
            }
        return r;
    };
    auto got_bps = [&](const std::vector<hgdb::BreakPoint> &v) {
        Bag r;
        for (auto &b : v) r.insert(str(b));
        return r;
    };
    std::set<std::string> all_files(files.begin(), files.end());
    all_files.insert(base_names ? "nobody.py" : (map.db.empty() ? "/w" : map.db) + "/nobody.py");
    for (auto &f : all_files) {
        auto ask = client(f);
        // (a table of file names without a place is asked with any place)
        if (base_names && s.coin()) ask = "/any/where/" + f;
        same(s, got_bps(table->get_breakpoints(ask)), want_bps(f, 0, 0), "breakpoints of " + ask);
        for (uint32_t line = 1; line <= 5; line++) {
            same(s, got_bps(table->get_breakpoints(ask, line)), want_bps(f, line, 0),
                 "breakpoints of " + ask + ":" + std::to_string(line));
            for (uint32_t col = 1; col <= 2; col++)
                same(s, got_bps(table->get_breakpoints(ask, line, col)), want_bps(f, line, col),
                     "breakpoints of " + ask + ":" + std::to_string(line) + ":" + std::to_string(col));
        }
    }
    auto value = [&](const Variable &v, const std::string &inst) {
        return !v.rtl || v.value.compare(0, inst.size() + 1, inst + ".") == 0 ? v.value : inst + "." + v.value;
    };
    for (auto [id, b] : bps) {
        auto got = table->get_breakpoint(id);
        s.require(got.has_value(), "breakpoint " + std::to_string(id) + " is not found");
        b.file = client(b.file);
        s.eq(str(*got), b.str(), "breakpoint");
        auto inst = table->get_instance_id(static_cast<uint64_t>(id));
        s.require(inst && *inst == b.inst, "instance of breakpoint " + std::to_string(id));
        s.eq(table->get_instance_name_from_bp(id).value_or("nothing"), insts[b.inst], "instance name of breakpoint");
        Bag g, w;
        for (auto &[c, v] : table->get_context_variables(id))
            g.insert(c.name + "|" + v.value + "|" + std::to_string(v.is_rtl) + "|" + std::to_string(v.id) + "|" +
                     std::to_string(c.type) + "|" + (c.breakpoint_id ? std::to_string(*c.breakpoint_id) : "?"));
        for (auto &c : context)
            if (c.owner == id)
                w.insert(c.name + "|" + value(vars[c.var], insts[b.inst]) + "|" + std::to_string(vars[c.var].rtl) +
                         "|" + std::to_string(c.var) + "|" + std::to_string(c.delay) + "|" + std::to_string(id));
        same(s, g, w, "variables at breakpoint " + std::to_string(id));
    }
    for (auto &[id, name] : insts) {
        s.eq(table->get_instance_name(id).value_or("nothing"), name, "instance");
        auto back = table->get_instance_id(name);
        s.require(back && *back == id, "id of instance " + name);
        Bag g, w;
        for (auto &[c, v] : table->get_generator_variable(id))
            g.insert(c.name + "|" + v.value + "|" + std::to_string(v.is_rtl) + "|" + std::to_string(v.id));
        for (auto &c : generator)
            if (c.owner == id)
                w.insert(c.name + "|" + value(vars[c.var], name) + "|" + std::to_string(vars[c.var].rtl) + "|" +
                         std::to_string(c.var));
        same(s, g, w, "generator variables of " + name);
    }
    uint32_t nobody = 0;
    while (bps.count(nobody) || insts.count(nobody)) nobody++;
    s.require(!table->get_breakpoint(nobody) && !table->get_instance_name(nobody) &&
                  !table->get_instance_id(static_cast<uint64_t>(nobody)) &&
                  table->get_context_variables(nobody).empty() && table->get_generator_variable(nobody).empty() &&
                  !table->get_instance_id(std::string("nobody")) && table->get_assigned_breakpoints("v", nobody).empty(),
              "an id that is not in the table has an answer");
    {
        Bag g, w;
        for (auto &x : table->get_instance_names()) g.insert(x);
        for (auto &[id, x] : insts) w.insert(x);
        same(s, g, w, "instance names");
        std::set<std::string> names;
        for (auto &[id, b] : bps) names.insert(b.file);
        g.clear();
        for (auto &x : table->get_filenames()) g.insert(x);
        same(s, g, Bag(names.begin(), names.end()), "file names");
        for (std::string a : {"clock", "it's", "x", "nothing"}) {
            g.clear();
            w.clear();
            for (auto &x : table->get_annotation_values(a)) g.insert(x);
            for (auto &[n, v] : annotations)
                if (n == a) w.insert(v);
            same(s, g, w, "annotation " + a);
        }
        std::set<std::string> arr;
        for (auto &c : context)
            if (vars[c.var].rtl) arr.insert(value(vars[c.var], insts[bps[c.owner].inst]));
        for (auto &c : generator)
            if (vars[c.var].rtl) arr.insert(value(vars[c.var], insts[c.owner]));
        g.clear();
        for (auto &x : table->get_all_array_names()) g.insert(x);
        same(s, g, Bag(arr.begin(), arr.end()), "names for arrays");
    }
    // order
    auto order = table->execution_bp_orders();
    if (!scopes.empty()) {
        std::vector<uint32_t> want;
        for (auto &[id, ids] : scopes) want.insert(want.end(), ids.begin(), ids.end());
        s.require(order == want, "execution order is not that of the scopes");
    } else {
        s.require(std::set<uint32_t>(order.begin(), order.end()) == std::set<uint32_t>(bp_ids.begin(), bp_ids.end()) &&
                      order.size() == bp_ids.size(),
                  "execution order has other statements than the table");
        for (size_t i = 1; i < order.size(); i++) {
            auto &a = bps[order[i - 1]], &b = bps[order[i]];
            s.require(std::make_pair(a.file, a.line) <= std::make_pair(b.file, b.line),
                      "execution order without scopes is not that of the source");
        }
    }
    // assignments
    for (auto id : bp_ids) {
        std::vector<Assign> own;
        for (auto &a : assigns)
            if (a.bp == id) own.push_back(a);
        std::vector<std::pair<std::string, std::string>> asks = {{"v", ""}, {"w", ""}, {"z", ""}, {"nobody", ""}};
        if (own.size() == 1) {
            asks.push_back({own[0].name, "[2]"});
            asks.push_back({own[0].name, ".f"});
            asks.push_back({own[0].name, "[1].f"});
        }
        for (auto &[name, member] : asks) {
            Bag g, w;
            for (auto &[bp, v, cond] : table->get_assigned_breakpoints(name + member, id))
                g.insert(std::to_string(bp) + "|" + v + "|" + cond);
            for (auto &o : own)
                if (o.name == name)
                    for (auto &a : assigns)
                        if (a.name == name && bps[a.bp].inst == bps[id].inst && (!o.scope || a.scope == o.scope))
                            w.insert(std::to_string(a.bp) + "|" + a.value + member + "|" + a.cond);
            if (w.size() > 1) s.label("several assignments");
            same(s, g, w, "assignments of " + name + member + " as seen from " + std::to_string(id));
        }
    }
    if (scoped) s.label("scopes");
    if (base_names) s.label("file names without a place");
}

}  // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, {{{.name = "sql_query"}, prop_sqlite}});
}
