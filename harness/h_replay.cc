// h_replay.cc - replaying a value change dump: the table made from the file, the simulator
// interface on top of it, and the engine that plays it, against the generated history itself.
#include <sys/stat.h>
#include <sys/stat.h>
#include <utime.h>

#include "../tools/hgdb-replay/engine.hh"
#include "../tools/hgdb-replay/vcd_db.hh"
#include "../tools/hgdb-replay/vpi.hh"
#include "pbt.hh"

using pbt::Src;

namespace {

struct Sig {
    std::string name, ident;
    size_t inst = 0;
    unsigned width = 1;
    std::vector<unsigned> dims;           // of a packed array kept as one wide value
    std::shared_ptr<std::map<uint64_t, std::string>> values;  // as written
};

struct Inst {
    std::string name;
    int parent = -1;
    std::vector<size_t> children, sigs;
};

// IEEE 1364: a shorter value is extended on the left, with 0 for 1
std::string extend(const std::string &raw, unsigned width) {
    if (raw.size() >= width) return raw;
    char c = raw.empty() || raw[0] == '1' ? '0' : raw[0];
    return std::string(width - raw.size(), c) + raw;
}

bool known(const std::string &v) { return v.find_first_of("xz") == std::string::npos; }

std::string strip(const std::string &s) {
    auto p = s.find_first_not_of('0');
    return p == std::string::npos ? "0" : s.substr(p);
}

std::string hex_of(const std::string &bits) {
    std::string r;
    for (size_t end = bits.size(); end > 0; end = end > 4 ? end - 4 : 0) {
        auto nib = bits.substr(end > 4 ? end - 4 : 0, end > 4 ? 4 : end);
        size_t x = std::count(nib.begin(), nib.end(), 'x'), z = std::count(nib.begin(), nib.end(), 'z');
        char c;
        if (x)
            c = x == nib.size() ? 'x' : 'X';
        else if (z)
            c = z == nib.size() ? 'z' : 'Z';
        else
            c = "0123456789ABCDEF"[std::stoul(nib, nullptr, 2)];
        r = c + r;
    }
    return r;
}

struct World {
    Src &s;
    std::vector<Inst> insts;
    std::vector<Sig> sigs;
    std::vector<std::string> order;  // lines of the definitions
    uint64_t last = 0;
    size_t next_ident = 0;
    bool aliased = false, arrays = false, dense = false, glitches = false;

    explicit World(Src &src) : s(src) {}

    std::string ident() {
        // the identifiers of a real dump count up through the printable characters
        size_t n = next_ident++;
        std::string r;
        do {
            r += static_cast<char>(33 + n % 94);
            n /= 94;
        } while (n);
        return r;
    }

    void def(size_t at, unsigned depth, bool clocks) {
        static const std::vector<std::string> names = {"a", "b", "c", "top", "inst", "clk", "d0", "dut"};
        std::set<std::string> used;
        auto fresh = [&](const std::string &base) {
            auto n = base;
            for (int i = 1; used.count(n); i++) n = base + "_" + std::to_string(i);
            used.insert(n);
            return n;
        };
        order.push_back("$scope module " + insts[at].name + " $end");
        size_t n = s.len(1, 6);
        for (size_t i = 0; i < n || (clocks && i < 2); i++) {
            if (depth < 3 && i < n && s.chance(35)) {
                Inst in;
                in.name = fresh(s.pick(names));
                in.parent = static_cast<int>(at);
                insts.push_back(in);
                insts[at].children.push_back(insts.size() - 1);
                def(insts.size() - 1, depth + 1, false);
                continue;
            }
            Sig g;
            g.name = fresh(s.pick(names));
            g.inst = at;
            // an alias of a signal that is there already: a net that goes through a port
            std::vector<size_t> plain;
            for (size_t k = 0; k < sigs.size(); k++)
                if (sigs[k].dims.empty() && sigs[k].inst != at) plain.push_back(k);
            if (!plain.empty() && s.chance(25)) {
                auto &o = sigs[s.pick(plain)];
                g.ident = o.ident;
                g.width = o.width;
                g.values = o.values;
                aliased = true;
            } else {
                g.ident = ident();
                if (clocks && i < 2) {
                    g.width = 1;
                } else if (s.chance(20)) {
                    unsigned el = s.range(1, 9);
                    g.dims.push_back(s.range(1, 4));
                    if (s.coin()) g.dims.push_back(s.range(1, 3));
                    g.width = el;
                    for (auto d : g.dims) g.width *= d;
                    arrays = true;
                } else {
                    g.width = s.chance(40) ? 1 : s.chance(80) ? s.range(2, 40) : s.range(41, 130);
                }
                g.values = std::make_shared<std::map<uint64_t, std::string>>();
            }
            order.push_back("$var " + std::string(s.coin() ? "wire " : "reg ") + std::to_string(g.width) +
                            " " + g.ident + " " + g.name +
                            (g.width > 1 ? " [" + std::to_string(g.width - 1) + ":0]" : "") + " $end");
            sigs.push_back(g);
            insts[at].sigs.push_back(sigs.size() - 1);
        }
        order.push_back("$upscope $end");
    }

    std::string value(const Sig &g, bool unknown) {
        std::string v;
        for (unsigned i = 0; i < g.width; i++)
            v += unknown && s.chance(30) ? (s.coin() ? 'x' : 'z') : (s.coin() ? '1' : '0');
        if (unknown && s.chance(30)) v = std::string(g.width, s.coin() ? 'x' : 'z');
        // a small number now and then: the upper elements of an array are then left out
        if (g.width > 4 && s.chance(30)) v = std::string(g.width - 3, '0') + v.substr(g.width - 3);
        return v;
    }
    // what a simulator writes: leading digits that follow from the extension rule may be left out
    std::string written(const std::string &v) {
        if (v.size() == 1 || s.chance(40)) return v;
        size_t i = 0;
        while (i + 1 < v.size() && extend(v.substr(i + 1), v.size() - i) == v.substr(i)) i++;
        return v.substr(i);
    }

    std::string text;
    void generate(bool roots = false) {
        size_t tops = roots && s.chance(25) ? 2 : 1;
        for (size_t i = 0; i < tops; i++) {
            Inst top;
            top.name = i ? s.pick<std::string>({"glbl", "dut", "a"}) : s.pick<std::string>({"top", "TOP", "tb"});
            insts.push_back(top);
            def(insts.size() - 1, 0, i == 0);
        }
        text = "$timescale 1ns $end\n";
        for (auto &l : order) text += l + "\n";
        text += "$enddefinitions $end\n";
        std::vector<size_t> own;  // one signal for each identifier
        std::set<std::string> seen;
        for (size_t i = 0; i < sigs.size(); i++)
            if (seen.insert(sigs[i].ident).second) own.push_back(i);
        std::map<size_t, std::string> now;
        uint64_t t = 0;
        auto put = [&](size_t i, const std::string &v) {
            auto w = written(v);
            now[i] = v;
            (*sigs[i].values)[t] = w;
            return sigs[i].width == 1 && w.size() == 1 ? w + sigs[i].ident : "b" + w + " " + sigs[i].ident;
        };
        if (s.chance(85)) {
            text += "#0\n$dumpvars\n";
            for (auto i : own)
                if (s.chance(80)) text += put(i, value(sigs[i], s.chance(30))) + "\n";
            text += "$end\n";
        }
        size_t steps = s.len(2, 30);
        bool unit = s.chance(30);
        for (size_t k = 0; k < steps; k++) {
            auto d = unit || s.chance(25) ? 1 : s.range(1, 10);
            t += d;
            if (d == 1) dense = true;
            std::string lines;
            for (size_t j = 0; j < own.size(); j++) {
                auto i = own[j];
                if (j < 2 && sigs[i].width == 1) {
                    // clocks
                    if (j == 1 && s.chance(40)) continue;
                    lines += put(i, now.count(i) && now[i] == "1" ? "0" : "1") + "\n";
                } else if (s.chance(30)) {
                    auto v = value(sigs[i], s.chance(15));
                    if (now.count(i) && now[i] == v) continue;
                    // a glitch: of several values at one time the last one counts
                    if (s.chance(6)) {
                        auto was = now.count(i) ? std::optional(now[i]) : std::nullopt;
                        lines += put(i, value(sigs[i], s.chance(15))) + "\n";
                        if (was) now[i] = *was;
                        glitches = true;
                    }
                    lines += put(i, v) + "\n";
                }
            }
            text += "#" + std::to_string(t) + "\n" + lines;
        }
        last = t;
    }

    std::string path(size_t inst) const {
        auto &i = insts[inst];
        return i.parent < 0 ? i.name : path(static_cast<size_t>(i.parent)) + "." + i.name;
    }
    unsigned depth(size_t inst) const {
        return insts[inst].parent < 0 ? 0 : 1 + depth(static_cast<size_t>(insts[inst].parent));
    }
    std::string full(size_t sig) const { return path(sigs[sig].inst) + "." + sigs[sig].name; }
    std::optional<std::string> at(size_t sig, uint64_t t) const {
        auto &v = *sigs[sig].values;
        auto it = v.upper_bound(t);
        if (it == v.begin()) return std::nullopt;
        return extend(std::prev(it)->second, sigs[sig].width);
    }
};

struct Scratch {
    std::string dir;
    Scratch() {
        char name[] = "/tmp/pbt_rep_XXXXXX";
        if (!mkdtemp(name)) throw std::runtime_error("mkdtemp");
        dir = name;
    }
    ~Scratch() {
        for (auto n : {"/w.vcd", "/w.vcd.db", "/w.vcd.db-journal"}) unlink((dir + n).c_str());
        rmdir(dir.c_str());
    }
    std::string write(const std::string &text) {
        auto name = dir + "/w.vcd";
        std::ofstream f(name);
        f << text;
        return name;
    }
};

std::string show(const std::optional<std::string> &v) { return v ? *v : "nothing"; }

void database(Src &s, World &w, hgdb::waveform::WaveformProvider &db) {
    std::map<uint64_t, size_t> inst_ids, sig_ids;
    std::vector<uint64_t> iid(w.insts.size()), sid(w.sigs.size());
    for (size_t i = 0; i < w.insts.size(); i++) {
        auto id = db.get_instance_id(w.path(i));
        s.require(id.has_value(), "instance " + w.path(i) + " is not found");
        s.require(inst_ids.emplace(*id, i).second,
                  "instance " + w.path(i) + " has the id of " + w.path(inst_ids[*id]));
        iid[i] = *id;
    }
    for (size_t i = 0; i < w.sigs.size(); i++) {
        auto id = db.get_signal_id(w.full(i));
        s.require(id.has_value(), "signal " + w.full(i) + " is not found");
        s.require(sig_ids.emplace(*id, i).second,
                  "signal " + w.full(i) + " has the id of " + w.full(sig_ids[*id]));
        sid[i] = *id;
    }
    for (auto name : {std::string("nobody"), w.path(0) + ".nobody", w.full(0) + ".x", std::string(),
                      std::string(".")}) {
        s.require(!db.get_instance_id(name), "there is no instance " + name);
        s.require(!db.get_signal_id(name), "there is no signal " + name);
    }
    s.eq(db.top_instance_id(), iid[0], "top instance");
    for (size_t i = 0; i < w.insts.size(); i++) {
        std::multiset<std::string> got, want;
        for (auto &c : db.get_child_instances(iid[i]))
            got.insert(std::to_string(c.id) + " " + c.name);
        for (auto c : w.insts[i].children)
            want.insert(std::to_string(iid[c]) + " " + w.insts[c].name);
        s.require(got == want, "children of " + w.path(i));
        got.clear();
        want.clear();
        for (auto &g : db.get_instance_signals(iid[i]))
            got.insert(std::to_string(g.id) + " " + g.name + " " + std::to_string(g.width));
        for (auto g : w.insts[i].sigs)
            want.insert(std::to_string(sid[g]) + " " + w.sigs[g].name + " " +
                        std::to_string(w.sigs[g].width));
        s.require(got == want, "signals of " + w.path(i));
        s.eq(show(db.get_instance(iid[i])), w.insts[i].name, "name of instance " + w.path(i));
        s.eq(db.get_full_instance_name(iid[i]), w.path(i), "full name of instance");
    }
    for (size_t i = 0; i < w.sigs.size(); i++) {
        auto g = db.get_signal(sid[i]);
        s.require(g && g->name == w.sigs[i].name && g->width == w.sigs[i].width && g->id == sid[i],
                  "signal " + w.full(i));
        s.eq(db.get_full_signal_name(sid[i]), w.full(i), "full name of signal");
        std::vector<uint64_t> times = {0, 1, w.last, w.last + 1};
        for (int k = 0; k < 4; k++) times.push_back(s.draw(w.last + 2));
        auto &vals = *w.sigs[i].values;
        for (auto t : times) {
            auto v = db.get_signal_value(sid[i], t);
            if (v) v = extend(*v, w.sigs[i].width);
            s.eq(show(v), show(w.at(i, t)), "value of " + w.full(i) + " at " + std::to_string(t));
            auto it = vals.upper_bound(t);
            auto next = db.get_next_value_change_time(sid[i], t);
            s.require(it == vals.end() ? !next : next && *next == it->first,
                      "next change of " + w.full(i) + " after " + std::to_string(t));
            if (w.sigs[i].width == 1) {
                auto low = vals.lower_bound(t);
                std::optional<uint64_t> want;
                while (low != vals.begin()) {
                    --low;
                    if (low->second == "1") {
                        want = low->first;
                        break;
                    }
                }
                s.require(db.get_prev_value_change_time(sid[i], t, "1") == want,
                          "previous change of " + w.full(i) + " to 1 before " + std::to_string(t));
            }
        }
    }
    // the place of a design whose instances have unique names below the top
    {
        std::vector<size_t> deep;
        for (size_t i = 0; i < w.insts.size(); i++)
            if (w.depth(i) >= 1) deep.push_back(i);
        if (!deep.empty()) {
            auto i = s.pick(deep);
            auto levels = s.range(1u, w.depth(i));
            auto above = i;
            std::string tail;
            for (unsigned k = 0; k < levels; k++) {
                tail = "." + w.insts[above].name + tail;
                above = static_cast<size_t>(w.insts[above].parent);
            }
            size_t same = 0;
            for (size_t o = 0; o < w.insts.size(); o++) {
                auto p = "." + w.path(o);
                if (p.size() >= tail.size() && p.substr(p.size() - tail.size()) == tail) same++;
            }
            if (same == 1) {
                auto [def, place] = db.compute_instance_mapping({"gen", "gen" + tail});
                s.label("placed");
                s.eq(def, "gen", "top of the design with gen" + tail);
                s.eq(place, w.path(above) + ".", "place of the design with gen" + tail);
            }
        }
    }
    for (uint64_t id : {uint64_t(100000), uint64_t(w.sigs.size() + w.insts.size())}) {
        s.require(!db.get_signal(id) && !db.get_instance(id) && !db.get_signal_value(id, w.last) &&
                      db.get_child_instances(id).empty() && db.get_instance_signals(id).empty() &&
                      !db.get_next_value_change_time(id, 0),
                  "an id that was never given out has an answer");
    }
}

void labels(Src &s, World &w) {
    s.say(w.text);
    if (w.sigs.size() > 2 && w.last > 2) s.nontrivial(w.text);
    if (w.aliased) s.label("aliased signal");
    if (w.arrays) s.label("packed array");
    if (w.glitches) s.label("several values at one time");
    if (w.dense) s.label("changes in consecutive time units");
}

void prop_db(Src &s) {
    World w(s);
    w.generate(true);
    labels(s, w);
    Scratch dir;
    auto name = dir.write(w.text);
    bool keep = s.chance(40);
    // (a waveform that must not be written has no converted file beside it)
    bool fixed = keep && s.chance(15);
    if (fixed) chmod(name.c_str(), 0444);
    {
        hgdb::vcd::VCDDatabase db(name, keep);
        database(s, w, db);
    }
    s.eq(access((name + ".db").c_str(), F_OK) == 0, keep && !fixed, "converted file beside the waveform");
    if (keep) {
        // opened again: the converted file answers
        s.label("converted file");
        hgdb::vcd::VCDDatabase db(name, s.coin());
        database(s, w, db);
    }
}

using hgdb::replay::ReplayVPIProvider;

char *c(std::string &s) { return s.data(); }

std::unique_ptr<ReplayVPIProvider> provider(Scratch &dir, World &w) {
    return std::make_unique<ReplayVPIProvider>(
        std::make_unique<hgdb::vcd::VCDDatabase>(dir.write(w.text)));
}

// the names a symbol table has for the elements of an array, and where each is in the value
struct Element {
    std::string dotted, indexed;
    unsigned lo, width;
};
std::vector<Element> elements(const World &w, size_t sig) {
    auto &g = w.sigs[sig];
    std::vector<Element> out = {{w.full(sig), w.full(sig), 0, g.width}};
    for (auto d : g.dims) {
        std::vector<Element> next;
        for (auto &e : out)
            for (unsigned i = 0; i < d; i++)
                next.push_back({e.dotted + "." + std::to_string(i), e.indexed + "[" + std::to_string(i) + "]",
                                e.lo + e.width / d * i, e.width / d});
        out = next;
    }
    return out;
}

void value_of(Src &s, ReplayVPIProvider &vpi, vpiHandle h, const std::optional<std::string> &want,
              const std::string &what) {
    s_vpi_value v{};
    v.format = vpiIntVal;
    vpi.vpi_get_value(h, &v);
    uint32_t num = 0;
    if (want && known(*want))
        for (auto ch : want->size() > 32 ? want->substr(want->size() - 32) : *want)
            num = num << 1 | static_cast<uint32_t>(ch - '0');
    // only values that fit an integer are asked for as one
    if (!want || want->size() <= 32)
        s.eq(static_cast<uint32_t>(v.value.integer), num, what + " as a number");
    v = {};
    v.format = vpiHexStrVal;
    vpi.vpi_get_value(h, &v);
    s.require(v.value.str != nullptr, what + ": no text");
    std::string hex = v.value.str;
    v = {};
    v.format = vpiBinStrVal;
    vpi.vpi_get_value(h, &v);
    s.require(v.value.str != nullptr, what + ": no text");
    std::string bin = v.value.str;
    if (!want) {
        s.eq(strip(hex), "0", what + ", which has no value yet, in hex");
        s.eq(strip(bin), "0", what + ", which has no value yet, in binary");
        return;
    }
    s.eq(extend(bin, want->size()), *want, what + " in binary");
    if (known(*want)) {
        s.eq(strip(hex), strip(hex_of(*want)), what + " in hex");
    } else {
        // digits that are written in full
        auto full = hex_of(*want);
        size_t n = std::min<size_t>(bin.size() / 4, hex.size());
        s.require(hex.size() <= full.size(), what + " in hex: too long: " + hex);
        s.eq(hex.substr(hex.size() - n), full.substr(full.size() - n), what + " in hex, last digits");
    }
}

void prop_vpi(Src &s) {
    World w(s);
    w.generate();
    labels(s, w);
    Scratch dir;
    auto vpi = provider(dir, w);
    std::map<std::string, vpiHandle> seen;
    if (s.coin()) {
        // some names are looked up before the design is walked
        for (size_t i = 0; i < w.sigs.size(); i++)
            if (s.coin()) {
                auto n = w.full(i);
                seen[n] = vpi->vpi_handle_by_name(c(n), nullptr);
                s.require(seen[n], "no handle for " + n);
            }
        for (size_t i = 0; i < w.insts.size(); i++)
            if (s.coin()) {
                auto n = w.path(i);
                seen[n] = vpi->vpi_handle_by_name(c(n), nullptr);
                s.require(seen[n], "no handle for " + n);
                s.eq(std::string(vpi->vpi_get_str(vpiFullName, seen[n])), n, "full name");
                s.eq(std::string(vpi->vpi_get_str(vpiName, seen[n])), w.insts[i].name, "name of " + n);
                s.eq(vpi->vpi_get(vpiType, seen[n]), vpiModule, "kind of " + n);
                s.label("instance by name");
            }
        for (auto n : {std::string("nobody"), w.path(0) + ".nobody", w.full(0) + ".x"})
            s.require(!vpi->vpi_handle_by_name(c(n), nullptr), "a handle for " + n);
    }
    // the walk from the top reaches every instance and every signal
    std::multiset<std::string> got, want;
    for (size_t i = 0; i < w.insts.size(); i++) want.insert(w.path(i));
    for (size_t i = 0; i < w.sigs.size(); i++)
        want.insert(w.full(i) + ":" + std::to_string(w.sigs[i].width));
    std::vector<vpiHandle> todo = {nullptr};
    std::map<vpiHandle, std::string> handles;
    while (!todo.empty()) {
        auto *m = todo.back();
        todo.pop_back();
        if (auto *it = vpi->vpi_iterate(vpiModule, m))
            while (auto *h = vpi->vpi_scan(it)) {
                std::string n = vpi->vpi_get_str(vpiFullName, h);
                got.insert(n);
                s.require(handles.emplace(h, n).second, "one handle for " + n + " and " + handles[h]);
                s.eq(std::string(vpi->vpi_get_str(vpiName, h)), n.substr(n.rfind('.') + 1), "name of " + n);
                s.eq(vpi->vpi_get(vpiType, h), vpiModule, "kind of " + n);
                todo.push_back(h);
            }
        if (!m) continue;
        if (auto *it = vpi->vpi_iterate(vpiNet, m))
            while (auto *h = vpi->vpi_scan(it)) {
                std::string n = vpi->vpi_get_str(vpiFullName, h);
                got.insert(n + ":" + std::to_string(vpi->vpi_get(vpiSize, h)));
                s.require(handles.emplace(h, n).second, "one handle for " + n + " and " + handles[h]);
                s.eq(std::string(vpi->vpi_get_str(vpiName, h)), n.substr(n.rfind('.') + 1), "name of " + n);
                s.eq(vpi->vpi_get(vpiType, h), vpiNet, "kind of " + n);
                if (seen.count(n)) s.require(seen[n] == h, "two handles for " + n);
                seen[n] = h;
            }
    }
    for (auto &n : want) s.require(got.count(n) == 1, n + " is not reached from the top");
    s.require(got == want, "more than the design is reached from the top");
    for (size_t i = 0; i < w.insts.size(); i++) {
        auto n = w.path(i);
        auto *h = vpi->vpi_handle_by_name(c(n), nullptr);
        s.require(h != nullptr, "no handle for " + n);
        s.eq(std::string(vpi->vpi_get_str(vpiFullName, h)), n, "full name");
    }
    std::vector<std::string> names;
    for (size_t i = 0; i < w.sigs.size(); i++)
        if (!w.sigs[i].dims.empty())
            for (auto &e : elements(w, i)) names.push_back(s.coin() ? e.dotted : e.indexed);
    // (the symbol table can have arrays that are not in the waveform)
    while (s.chance(30)) names.push_back(w.path(0) + s.pick<std::string>({".nobody.0", ".nobody[1][0]", ".gone.a.1"}));
    s.shuffle(names);
    vpi->build_array_table(names);
    if (s.chance(20)) vpi->build_array_table(names);  // another client connects
    for (int k = 0; k < 3; k++) {
        auto t = s.draw(w.last + 2);
        vpi->set_timestamp(t);
        s_vpi_time tm{};
        tm.type = vpiSimTime;
        vpi->vpi_get_time(nullptr, &tm);
        s.eq(tm.low, t, "time");
        for (size_t i = 0; i < w.sigs.size(); i++) {
            auto n = w.full(i);
            auto *h = vpi->vpi_handle_by_name(c(n), nullptr);
            s.require(h != nullptr, "no handle for " + n);
            if (seen.count(n)) s.require(seen[n] == h, "two handles for " + n);
            s.eq(std::string(vpi->vpi_get_str(vpiFullName, h)), n, "full name");
            auto v = w.at(i, t);
            value_of(s, *vpi, h, v, n + " at " + std::to_string(t));
            if (w.sigs[i].dims.empty()) continue;
            for (auto &e : elements(w, i)) {
                // by name or index by index
                auto *eh = vpi->vpi_handle_by_name(c(e.indexed), nullptr);
                s.require(eh != nullptr, "no handle for " + e.indexed);
                auto *by = h;
                for (size_t p = n.size(); p < e.indexed.size() && by; p = e.indexed.find('[', p + 1))
                    by = vpi->vpi_handle_by_index(by, std::stoi(e.indexed.substr(p + 1)));
                s.require(by == eh, "two handles for " + e.indexed);
                std::optional<std::string> ev;
                if (v) ev = v->substr(v->size() - e.lo - e.width, e.width);
                if (v) s.eq(vpi->vpi_get(vpiSize, eh), static_cast<int>(e.width), "size of " + e.indexed);
                value_of(s, *vpi, eh, ev, e.indexed + " at " + std::to_string(t));
            }
            s.require(!vpi->vpi_handle_by_index(h, static_cast<int>(w.sigs[i].dims[0])),
                      "an element beyond the end of " + n);
        }
    }
}

// what the debugger reads through its own client
void prop_client(Src &s) {
    World w(s);
    w.generate();
    labels(s, w);
    Scratch dir;
    auto vpi_ = provider(dir, w);
    auto *vpi = vpi_.get();
    std::vector<std::string> names;
    for (size_t i = 0; i < w.sigs.size(); i++)
        if (!w.sigs[i].dims.empty())
            for (auto &e : elements(w, i)) names.push_back(s.coin() ? e.dotted : e.indexed);
    hgdb::RTLSimulatorClient rtl(std::move(vpi_));
    rtl.set_vpi_allocator([vpi]() { return vpi->get_new_handle(); });
    vpi->build_array_table(names);
    auto number = [&](const std::string &v) -> int64_t {
        if (!known(v)) return 0;
        uint64_t n = 0;
        for (auto ch : v) n = n << 1 | static_cast<uint64_t>(ch - '0');
        return v.size() == 32 ? static_cast<int32_t>(n) : static_cast<int64_t>(n);
    };
    for (int k = 0; k < 3; k++) {
        auto t = s.draw(w.last + 2);
        vpi->set_timestamp(t);
        s.eq(rtl.get_simulation_time(), t, "time");
        for (size_t i = 0; i < w.sigs.size(); i++) {
            auto v = w.at(i, t);
            if (v && (w.sigs[i].width <= 32 || (w.sigs[i].width <= 64 && known(*v)))) {
                auto r = rtl.get_value(w.full(i));
                s.require(r.has_value(), "no value for " + w.full(i));
                s.eq(*r, number(*v), w.full(i) + " at " + std::to_string(t));
            }
            if (v) {
                auto r = rtl.get_str_value(w.full(i));
                s.require(r.has_value(), "no text for " + w.full(i));
            }
            if (w.sigs[i].dims.empty()) continue;
            for (auto &e : elements(w, i)) {
                if (!v) continue;
                auto ev = v->substr(v->size() - e.lo - e.width, e.width);
                auto r = rtl.get_value(e.indexed);
                s.require(r.has_value(), "no value for " + e.indexed);
                s.eq(*r, number(ev), e.indexed + " at " + std::to_string(t));
                s.require(rtl.get_str_value(e.indexed).has_value(), "no text for " + e.indexed);
            }
        }
    }
}

// ---- the engine -------------------------------------------------------------------------------

struct Player;
struct Callback {
    Player *player;
    size_t sig;
    int id;
    vpiHandle handle = nullptr;
    bool live = false;
    uint64_t born = 0;  // added while the changes of this time were reported
    std::string user;
};

struct Player {
    Src &s;
    World &w;
    ReplayVPIProvider *vpi;
    std::vector<vpiHandle> handles;
    std::vector<std::unique_ptr<Callback>> cbs;
    std::string error;

    // the model
    uint64_t base = 0;                  // changes up to here have been reported
    bool in_step = false, finished = false, moved = false;
    uint64_t step = 0;                  // the time whose changes are being reported
    std::set<int> fired;                // callbacks that were told of the step
    std::set<size_t> told;              // signals whose change was reported in the step
    size_t starts = 0, ends = 0, calls = 0, rewinds = 0, pairs = 0;

    Player(Src &s, World &w, ReplayVPIProvider *v) : s(s), w(w), vpi(v) {
        for (size_t i = 0; i < w.sigs.size(); i++) {
            auto n = w.full(i);
            handles.push_back(vpi->vpi_handle_by_name(c(n), nullptr));
        }
    }

    static PLI_INT32 on(p_cb_data d) {
        auto *cb = reinterpret_cast<Callback *>(d->user_data);
        cb->player->call(*cb, d);
        return 0;
    }
    static PLI_INT32 on_start(p_cb_data d) {
        reinterpret_cast<Player *>(d->user_data)->starts++;
        return 0;
    }
    static PLI_INT32 on_end(p_cb_data d) {
        auto *p = reinterpret_cast<Player *>(d->user_data);
        p->ends++;
        p->settle();
        if (!p->error.empty() || p->moved) return 0;
        auto t = p->in_step ? p->step : p->base;
        p->need(p->now() == t, "time at the end is " + std::to_string(p->now()) + ", the last step was at " +
                                   std::to_string(t));
        return 0;
    }

    void need(bool ok, const std::string &m) {
        s.checked();
        if (!ok && error.empty()) error = m;
        if (!ok) vpi->vpi_control(vpiFinish);
    }

    bool changes(size_t sig, uint64_t t) const { return w.sigs[sig].values->count(t) != 0; }
    std::optional<uint64_t> next() const {
        std::optional<uint64_t> best;
        for (auto &cb : cbs)
            if (cb->live) {
                auto it = w.sigs[cb->sig].values->upper_bound(base);
                if (it != w.sigs[cb->sig].values->end() && (!best || it->first < *best)) best = it->first;
            }
        return best;
    }
    // everything there is to tell about the step has been told
    void settle() {
        if (!in_step || moved) return;
        for (auto &cb : cbs)
            if (cb->live && cb->born < step && changes(cb->sig, step) && !fired.count(cb->id) && !finished)
                need(false, "the change of " + w.full(cb->sig) + " at " + std::to_string(step) +
                                " was not reported");
    }

    void add(size_t sig) {
        auto cb = std::make_unique<Callback>();
        cb->player = this;
        cb->sig = sig;
        cb->id = static_cast<int>(cbs.size());
        cb->live = true;
        cb->born = in_step ? step : 0;
        s_cb_data d{};
        s_vpi_time tm{};
        tm.type = vpiSimTime;
        d.reason = cbValueChange;
        d.cb_rtn = on;
        d.obj = handles[sig];
        d.time = &tm;
        d.user_data = reinterpret_cast<char *>(cb.get());
        cb->handle = vpi->vpi_register_cb(&d);
        cbs.push_back(std::move(cb));
    }

    uint64_t now() {
        s_vpi_time tm{};
        tm.type = vpiSimTime;
        vpi->vpi_get_time(nullptr, &tm);
        return static_cast<uint64_t>(tm.high) << 32 | tm.low;
    }

    // values are those before the changes of time t, except for signals already reported
    void values(uint64_t t, bool exact) {
        for (int k = 0; k < 3; k++) {
            size_t i = s.draw(w.sigs.size());
            if (w.sigs[i].width > 31) continue;
            bool watched = false, removed = false;
            for (auto &cb : cbs)
                if (cb->sig == i) {
                    watched = true;
                    if (!cb->live) removed = true;
                }
            // (a change that nobody waits for any more may be visible or not)
            if (watched && (!exact || removed)) continue;
            bool after = exact && told.count(i);
            auto v = after ? w.at(i, t) : t ? w.at(i, t - 1) : std::nullopt;
            s_vpi_value got{};
            got.format = vpiIntVal;
            vpi->vpi_get_value(handles[i], &got);
            int num = 0;
            if (v && known(*v))
                for (auto ch : *v) num = num << 1 | (ch - '0');
            need(got.value.integer == num, w.full(i) + " read at " + std::to_string(t) + ": got " +
                                               std::to_string(got.value.integer) + ", it was " + show(v));
        }
    }

    void call(Callback &cb, p_cb_data d) {
        if (!error.empty()) return;
        calls++;
        auto t = now();
        std::string what = "change of " + w.full(cb.sig) + " at " + std::to_string(t);
        need(cb.live, what + " reported to a callback that was removed");
        if (!error.empty()) return;
        if (!in_step || t != step || moved) {
            // a new step: the first change not reported so far
            settle();
            if (!error.empty()) return;
            auto n = next();
            need(n && *n == t, what + " reported; the next change is " +
                                   (n ? "at " + std::to_string(*n) : std::string("not there")));
            if (!error.empty()) return;
            in_step = true;
            moved = false;
            step = t;
            base = t;
            fired.clear();
            told.clear();
        }
        need(changes(cb.sig, t), what + " reported, but it did not change");
        need(fired.insert(cb.id).second, what + " reported twice");
        need(!finished || fired.size() > 1, what + " reported after the end");
        if (!error.empty()) return;
        told.insert(cb.sig);
        if (told.size() > 1) pairs++;
        auto v = w.at(cb.sig, t);
        int num = 0;
        if (v && w.sigs[cb.sig].width <= 31 && known(*v))
            for (auto ch : *v) num = num << 1 | (ch - '0');
        if (w.sigs[cb.sig].width <= 31)
            need(d->value && d->value->value.integer == num, what + " reported with the wrong value");
        values(t, true);
        if (!error.empty() || calls > 300) return;
        switch (s.weighted({30, 3, 2, 2, 1})) {
            case 1: {
                hgdb::AVPIProvider::rewind_data r{};
                r.time = s.chance(70) ? t : s.draw(w.last + 3);
                if (rewinds > 6) break;
                // (one callback for each clock, as the debugger has it)
                size_t same = 0;
                for (auto &o : cbs) same += o->sig == cb.sig;
                if (same > 1) break;
                std::optional<uint64_t> to;
                for (size_t i = 0; i < w.sigs.size(); i++) {
                    if (w.sigs[i].width != 1 || !(i == cb.sig || s.chance(20))) continue;
                    r.clock_signals.push_back(handles[i]);
                    for (auto &[vt, v] : *w.sigs[i].values)
                        if (vt < r.time && vt > 0 && v == "1" && (!to || vt > *to)) to = vt;
                }
                bool ok = vpi->vpi_rewind(&r);
                s.say("rewind from " + std::to_string(t) + " before " + std::to_string(r.time));
                need(ok == to.has_value(), "rewind from " + std::to_string(t) + " before " +
                                               std::to_string(r.time) + (ok ? " succeeds" : " fails"));
                if (!ok || !error.empty() || *to == t) break;
                rewinds++;
                need(now() == *to, "rewound to " + std::to_string(*to) + ", the time is " +
                                       std::to_string(now()));
                base = *to;
                moved = true;
                values(*to, false);
                break;
            }
            case 2:
                if (cbs.size() < 12) add(s.draw(w.sigs.size()));
                break;
            case 3: {
                auto &o = *cbs[s.draw(cbs.size())];
                if (!o.live) break;
                o.live = false;
                s.say("remove the callback of " + w.full(o.sig) + " at " + std::to_string(t));
                vpi->vpi_remove_cb(o.handle);
                break;
            }
            case 4:
                if (s.chance(20)) {
                    finished = true;
                    vpi->vpi_control(vpiFinish);
                }
                break;
            default:
                break;
        }
    }
};

void prop_engine(Src &s) {
    World w(s);
    w.generate();
    labels(s, w);
    Scratch dir;
    auto vpi = provider(dir, w);
    Player p(s, w, vpi.get());
    auto start = s.chance(15) ? s.draw(w.last + 1) : 0;
    vpi->set_timestamp(start);
    hgdb::replay::EmulationEngine engine(vpi.get());
    p.base = start;
    s_cb_data d{};
    d.user_data = reinterpret_cast<char *>(&p);
    d.reason = cbStartOfSimulation;
    d.cb_rtn = Player::on_start;
    vpi->vpi_register_cb(&d);
    d.reason = cbEndOfSimulation;
    d.cb_rtn = Player::on_end;
    vpi->vpi_register_cb(&d);
    size_t n = s.len(1, 4);
    for (size_t i = 0; i < n; i++) {
        // mostly clocks
        p.add(s.chance(60) ? std::min<size_t>(s.draw(2), w.sigs.size() - 1) : s.draw(w.sigs.size()));
        s.say("watch " + w.full(p.cbs.back()->sig));
    }
    if (s.coin()) {
        engine.run();
    } else {
        engine.run(false);
        engine.finish();
    }
    if (!p.error.empty()) s.fail(p.error);
    s.eq(p.starts, 1u, "start of simulation reported");
    s.eq(p.ends, 1u, "end of simulation reported");
    if (!p.finished) {
        auto next = p.next();
        s.require(!next, "the replay ends before the change at " + std::to_string(next.value_or(0)));
    }
    if (p.rewinds) s.label("rewound");
    if (p.pairs) s.label("several changes at one time");
    if (p.finished) s.label("stopped");
}

}  // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv,
                         {{{.name = "rep_db"}, prop_db},
                          {{.name = "rep_vpi"}, prop_vpi},
                          {{.name = "rep_client"}, prop_client},
                          {{.name = "rep_engine"}, prop_engine}});
}
