// The simulator client: names lead to the signals they name, and signals read their values.
// The client runs on its own VPI provider; this file is the simulator behind it.
#include <cstdarg>
#include <cstring>
#include <deque>

#include "pbt.hh"
#include "rtl.hh"
#include "sv_vpi_user.h"

using pbt::Src;

namespace {

enum class Kind { module, leaf, array, packed, structure, bit };
enum class Flavour { standard, verilator, vcs, xcelium, icarus, mock };

struct Node {
    Kind kind = Kind::leaf;
    std::string name;  // own name
    std::string full;
    std::string def;
    Node *parent = nullptr;
    std::vector<std::unique_ptr<Node>> subs;  // modules, signals, elements or members
    unsigned width = 1;
    bool net = false;
    std::string bits;  // leaf: most significant first; 0 1 x z
    uint64_t id = 0;
};

struct CallBack {
    s_cb_data data;
};

struct Sim {
    Flavour flavour = Flavour::standard;
    Node root;  // holds the top modules
    std::vector<Node *> handles;  // by id
    std::map<std::string, Node *> by_name;
    std::map<uint64_t, std::pair<std::vector<uint64_t>, size_t>> iterators;
    std::map<uint64_t, CallBack> callbacks;
    std::set<uint64_t> dead_callbacks;
    std::set<std::string> refuse_callbacks;
    uint64_t next = 1;
    uint64_t time = 0;
    std::string product, version;
    std::vector<std::string> args;
    std::vector<char *> argv;
    std::string problem;
    std::string str_buffer, val_buffer;
    std::vector<std::pair<int, int>> control;
    int no_callbacks = 0;

    uint64_t reg(Node *n) {
        n->id = next++;
        if (handles.size() <= n->id) handles.resize(n->id + 1);
        handles[n->id] = n;
        return n->id;
    }
    uint64_t fresh() { return next++; }
    void bad(const std::string &what) {
        if (problem.empty()) problem = what;
    }
    static vpiHandle h(uint64_t id) { return reinterpret_cast<vpiHandle>(id * 16 + 0x10000000); }
    Node *node(vpiHandle p, const char *who) {
        auto v = reinterpret_cast<uint64_t>(p);
        if (v >= 0x10000000 && (v - 0x10000000) % 16 == 0) {
            auto id = (v - 0x10000000) / 16;
            if (id < handles.size() && handles[id]) return handles[id];
        }
        bad(std::string(who) + " was called with a handle the simulator does not know");
        return nullptr;
    }
    static uint64_t id(vpiHandle p) { return (reinterpret_cast<uint64_t>(p) - 0x10000000) / 16; }
};

Sim *sim = nullptr;

int type_of(const Node &n) {
    switch (n.kind) {
        case Kind::module:
            return vpiModule;
        case Kind::array:
            return sim->flavour == Flavour::verilator && n.width % 2 && n.parent->kind == Kind::module
                       ? vpiMemory
                   : n.net                                           ? vpiNetArray
                                                                     : vpiRegArray;
        case Kind::structure:
            return n.net ? vpiStructNet : vpiStructVar;
        case Kind::bit:
            return n.net ? vpiNetBit : vpiRegBit;
        default:
            return sim->flavour == Flavour::verilator ? vpiReg : n.net ? vpiNet : vpiReg;
    }
}

std::string collect(const Node &n) {
    if (n.kind == Kind::leaf) return n.bits;
    if (n.kind == Kind::bit) {
        auto i = std::stoul(n.name);
        auto const &b = n.parent->bits;
        return i < b.size() ? std::string(1, b[b.size() - 1 - i]) : "x";
    }
    std::string r;
    for (auto const &s : n.subs) r = collect(*s) + r;
    return r;
}

std::string hex(std::string b) {
    while (b.size() % 4) b = "0" + b;
    std::string r;
    for (size_t i = 0; i < b.size(); i += 4) {
        auto d = b.substr(i, 4);
        if (d.find_first_of("xz") != std::string::npos)
            r += 'x';
        else
            r += "0123456789abcdef"[std::stoul(d, nullptr, 2)];
    }
    return r;
}

std::string known(std::string b) {
    for (auto &c : b)
        if (c == 'x' || c == 'z') c = '0';
    return b;
}

uint64_t number(const std::string &b) {  // the low 64 bits
    uint64_t r = 0;
    for (auto c : b) r = r << 1 | (c == '1');
    return r;
}

}  // namespace

extern "C" {
void vpi_get_value(vpiHandle p, p_vpi_value v) {
    auto *n = sim->node(p, "vpi_get_value");
    if (!n || (n->kind != Kind::leaf && n->kind != Kind::bit && n->kind != Kind::packed)) {
        sim->bad("the value of something without a value was asked for");
        v->value.integer = 0;
        if (v->format != vpiIntVal) v->value.str = const_cast<char *>("");
        return;
    }
    auto b = collect(*n);
    if (v->format == vpiIntVal) {
        v->value.integer = static_cast<int>(static_cast<uint32_t>(number(b)));
    } else if (v->format == vpiHexStrVal) {
        sim->val_buffer = hex(b);
        v->value.str = sim->val_buffer.data();
    } else if (v->format == vpiBinStrVal) {
        sim->val_buffer = b;
        v->value.str = sim->val_buffer.data();
    } else if (v->format == vpiVectorVal) {
        static std::vector<s_vpi_vecval> words;
        words.assign((b.size() + 31) / 32, {0, 0});
        for (size_t i = 0; i < b.size(); i++) {
            auto c = b[b.size() - 1 - i];
            if (c == '1' || c == 'x') words[i / 32].aval |= 1u << (i % 32);
            if (c == 'x' || c == 'z') words[i / 32].bval |= 1u << (i % 32);
        }
        v->value.vector = words.data();
    } else if (v->format == vpiDecStrVal) {
        sim->val_buffer = std::to_string(number(b));
        v->value.str = sim->val_buffer.data();
    } else {
        sim->bad("unexpected value format");
    }
}
PLI_INT32 vpi_get(PLI_INT32 property, vpiHandle p) {
    auto *n = sim->node(p, "vpi_get");
    if (!n) return vpiUndefined;
    if (property == vpiType) return type_of(*n);
    if (property == vpiSize) {
        switch (n->kind) {
            case Kind::module:
                return vpiUndefined;
            case Kind::array:
                return static_cast<int>(n->subs.size());
            case Kind::bit:
                return 1;
            default:
                return static_cast<int>(collect(*n).size());
        }
    }
    if (property == vpiVector)
        return n->kind == Kind::array || n->kind == Kind::packed ||
               (n->kind == Kind::leaf && n->width > 1);
    if (property == vpiArray || property == vpiScalar) return n->kind == Kind::array;
    return vpiUndefined;
}
vpiHandle vpi_iterate(PLI_INT32 type, vpiHandle p) {
    std::vector<uint64_t> ids;
    if (!p) {
        if (type != vpiModule) return nullptr;
        for (auto const &m : sim->root.subs) ids.push_back(m->id);
    } else {
        auto *n = sim->node(p, "vpi_iterate");
        if (!n) return nullptr;
        for (auto const &m : n->subs) {
            auto t = type_of(*m);
            bool take = t == type && n->kind == Kind::module;
            if (type == vpiMember) take = n->kind == Kind::structure;
            if (type == vpiRange || type == vpiElement)
                take = n->kind == Kind::array || n->kind == Kind::packed;
            if (take) ids.push_back(m->id);
        }
    }
    if (ids.empty()) return nullptr;
    auto it = sim->fresh();
    sim->iterators[it] = {ids, 0};
    return Sim::h(it);
}
vpiHandle vpi_scan(vpiHandle p) {
    auto it = sim->iterators.find(Sim::id(p));
    if (it == sim->iterators.end()) {
        sim->bad("vpi_scan was called with something that is not an iterator");
        return nullptr;
    }
    auto &[ids, pos] = it->second;
    if (pos == ids.size()) {
        sim->iterators.erase(it);
        return nullptr;
    }
    return Sim::h(ids[pos++]);
}
char *vpi_get_str(PLI_INT32 property, vpiHandle p) {
    // one buffer for all strings, as the standard says
    auto *n = sim->node(p, "vpi_get_str");
    if (!n) return nullptr;
    if (property == vpiDefName && sim->flavour == Flavour::verilator) return nullptr;
    sim->str_buffer = property == vpiFullName  ? n->full
                      : property == vpiDefName ? n->def
                      : property == vpiName    ? n->name
                                               : "?";
    return sim->str_buffer.data();
}
vpiHandle vpi_handle_by_name(char *name, vpiHandle) {
    auto it = sim->by_name.find(name);
    return it == sim->by_name.end() ? nullptr : Sim::h(it->second->id);
}
vpiHandle vpi_handle_by_index(vpiHandle p, PLI_INT32 index) {
    auto *n = sim->node(p, "vpi_handle_by_index");
    if (!n || (n->kind != Kind::array && n->kind != Kind::packed && n->kind != Kind::leaf))
        return nullptr;
    if (index < 0 || static_cast<size_t>(index) >= n->subs.size()) return nullptr;
    return Sim::h(n->subs[static_cast<size_t>(index)]->id);
}
PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info i) {
    i->product = sim->product.data();
    i->version = sim->version.data();
    i->argc = static_cast<int>(sim->args.size());
    sim->argv.clear();
    for (auto &a : sim->args) sim->argv.push_back(a.data());
    i->argv = sim->argv.data();
    return 1;
}
void vpi_get_time(vpiHandle, p_vpi_time t) {
    if (t->type != vpiSimTime) sim->bad("time type");
    t->high = static_cast<uint32_t>(sim->time >> 32);
    t->low = static_cast<uint32_t>(sim->time);
}
vpiHandle vpi_register_cb(p_cb_data d) {
    if (d->obj) {
        auto *n = sim->node(d->obj, "vpi_register_cb");
        if (n && sim->refuse_callbacks.count(n->full)) return nullptr;
    }
    auto id = sim->fresh();
    sim->callbacks[id] = {*d};
    return Sim::h(id);
}
PLI_INT32 vpi_remove_cb(vpiHandle p) {
    auto id = Sim::id(p);
    if (!sim->callbacks.erase(id)) {
        sim->bad("a callback that is not there was removed");
        return 0;
    }
    sim->dead_callbacks.insert(id);
    return 1;
}
PLI_INT32 vpi_release_handle(vpiHandle p) {
    if (sim->flavour == Flavour::icarus) sim->bad("this simulator has no vpi_release_handle");
    if (sim->dead_callbacks.count(Sim::id(p))) sim->bad("a removed callback was released");
    return 1;
}
PLI_INT32 vpi_control(PLI_INT32 operation, ...) {
    va_list args;
    va_start(args, operation);
    sim->control.emplace_back(operation, va_arg(args, int));
    va_end(args);
    return 1;
}
vpiHandle vpi_register_systf(p_vpi_systf_data) { return nullptr; }
vpiHandle vpi_handle(int, vpiHandle) { return nullptr; }
vpiHandle vpi_put_value(vpiHandle p, p_vpi_value v, p_vpi_time, PLI_INT32) {
    auto *n = sim->node(p, "vpi_put_value");
    if (!n || n->kind != Kind::leaf) {
        sim->bad("a value was written to something that takes none");
        return nullptr;
    }
    std::string b;
    if (v->format == vpiIntVal) {
        for (int i = 31; i >= 0; i--)
            b += (static_cast<uint32_t>(v->value.integer) >> i & 1) ? '1' : '0';
    } else if (v->format == vpiBinStrVal) {
        b = v->value.str;
    } else if (v->format == vpiHexStrVal) {
        for (auto *c = v->value.str; *c; c++) {
            auto d = std::stoul(std::string(1, *c), nullptr, 16);
            for (int i = 3; i >= 0; i--) b += (d >> i & 1) ? '1' : '0';
        }
    } else if (v->format == vpiVectorVal) {
        for (int i = static_cast<int>(n->width) - 1; i >= 0; i--)
            b += (static_cast<uint32_t>(v->value.vector[i / 32].aval) >> (i % 32) & 1) ? '1' : '0';
    } else {
        sim->bad("unexpected format");
    }
    if (b.size() > n->width) b = b.substr(b.size() - n->width);
    while (b.size() < n->width) b = "0" + b;
    n->bits = b;
    return nullptr;
}
}

namespace {

const std::vector<std::string> words{"a", "b", "data", "q", "s_1", "x", "valid", "Reg", "n0"};

struct World {
    Src &s;
    Sim m;
    std::vector<Node *> modules, variables, leaves;
    unsigned wide = 0;

    explicit World(Src &src) : s(src) { sim = &m; }
    ~World() { sim = nullptr; }
    World(const World &) = delete;

    void text(const Node &n, int depth = 0) {
        std::string l(static_cast<size_t>(depth) * 2, ' ');
        static const char *kinds[] = {"module", "signal", "array", "packed", "struct", "bit"};
        if (n.kind == Kind::bit) return;
        l += std::string(kinds[static_cast<int>(n.kind)]) + " " + n.name;
        if (n.kind == Kind::module) l += " : " + n.def;
        if (n.kind == Kind::leaf)
            l += "[" + std::to_string(n.width) + "]" + (n.net ? " net = " : " reg = ") + n.bits;
        s.say(l);
        for (auto const &x : n.subs) text(*x, depth + 1);
    }

    Node *add(Node *parent, Kind k, const std::string &name, const std::string &full) {
        auto n = std::make_unique<Node>();
        n->kind = k;
        n->name = name;
        n->full = full;
        n->parent = parent;
        n->net = parent && parent->kind != Kind::module && parent != &m.root ? parent->net : false;
        m.reg(n.get());
        bool indexed = full.back() == ']';
        // simulators that know no indices in names: whole variables only
        if (!(indexed && m.flavour == Flavour::verilator)) m.by_name[full] = n.get();
        parent->subs.push_back(std::move(n));
        return parent->subs.back().get();
    }

    void fill_leaf(Node *n, unsigned width) {
        n->width = width;
        auto v = s.bits(std::min(width, 64u));
        for (unsigned i = 0; i < width; i++) n->bits += '0';
        for (unsigned i = 0; i < std::min(width, 64u); i++)
            if (v >> i & 1) n->bits[width - 1 - i] = '1';
        if (width > 64)
            for (unsigned i = 64; i < width; i++)
                if (s.draw(4) == 1) n->bits[width - 1 - i] = '1';
        if (s.chance(10))
            for (auto &c : n->bits)
                if (s.draw(4) == 3) c = s.coin() ? 'x' : 'z';
        leaves.push_back(n);
        // bit selects
        if (width > 1 && width <= 70 && m.flavour != Flavour::mock)
            for (unsigned i = 0; i < width; i++) {
                auto idx = std::to_string(i);
                auto *b = add(n, Kind::bit, idx, n->full + "[" + idx + "]");
                b->name = idx;
            }
    }

    unsigned width(bool scalar_ok = true) {
        auto r = s.draw(10);
        unsigned w = r < 2 ? 1 : r < 6 ? 2 + static_cast<unsigned>(s.draw(15)) : r < 8 ? 32
                     : r == 8 ? 33 + static_cast<unsigned>(s.draw(32))
                              : 17 + static_cast<unsigned>(s.draw(60));
        if (!scalar_ok && w == 1) w = 2;
        return w;
    }

    void shape(Node *n, int depth) {
        switch (n->kind) {
            case Kind::leaf:
                fill_leaf(n, width());
                break;
            case Kind::array: {
                auto count = 1 + s.draw(4);
                bool nested = depth < 2 && s.chance(25);
                bool structs = !nested && m.flavour == Flavour::standard && s.chance(20);
                unsigned w = width();
                n->width = static_cast<unsigned>(s.draw(2));
                for (size_t i = 0; i < count; i++) {
                    auto idx = std::to_string(i);
                    auto *e = add(n,
                                  nested    ? Kind::array
                                  : structs ? Kind::structure
                                            : Kind::leaf,
                                  n->name + "[" + idx + "]", n->full + "[" + idx + "]");
                    if (nested || structs)
                        shape(e, depth + 1);
                    else
                        fill_leaf(e, w);
                }
                break;
            }
            case Kind::packed: {
                auto count = 2 + s.draw(3);
                unsigned w = 2 + static_cast<unsigned>(s.draw(8));
                for (size_t i = 0; i < count; i++) {
                    auto idx = std::to_string(i);
                    auto *e = add(n, Kind::leaf, n->name + "[" + idx + "]",
                                  n->full + "[" + idx + "]");
                    fill_leaf(e, w);
                }
                break;
            }
            case Kind::structure: {
                auto count = 1 + s.draw(3);
                std::vector<std::string> names(words);
                for (size_t i = 0; i < count; i++) {
                    auto k = depth < 2 && s.chance(25)
                                 ? (s.coin() ? Kind::structure : Kind::array)
                                 : Kind::leaf;
                    auto nm = "m" + std::to_string(i);
                    auto *e = add(n, k, nm, n->full + "." + nm);
                    shape(e, depth + 1);
                }
                break;
            }
            default:
                break;
        }
    }

    void signals(Node *mod) {
        auto count = s.draw(5);
        std::set<std::string> used;
        for (size_t i = 0; i < count; i++) {
            auto nm = s.pick(words);
            if (!used.insert(nm).second) continue;
            Kind k = Kind::leaf;
            auto r = s.draw(10);
            if (r >= 8) k = Kind::array;
            if (r == 7 && m.flavour != Flavour::verilator && m.flavour != Flavour::mock)
                k = Kind::packed;
            if (r == 6 && (m.flavour == Flavour::standard || m.flavour == Flavour::vcs))
                k = Kind::structure;
            auto *n = add(mod, k, nm, mod->full + "." + nm);
            n->net = m.flavour == Flavour::mock || (m.flavour != Flavour::verilator && s.coin());
            variables.push_back(n);
            shape(n, 0);
        }
    }

    void module(Node *parent, const std::string &name, const std::string &def, int depth) {
        auto full = parent == &m.root ? name : parent->full + "." + name;
        auto *n = add(parent, Kind::module, name, full);
        n->def = def;
        modules.push_back(n);
        signals(n);
        if (depth < 3) {
            auto count = s.draw(3);
            for (size_t i = 0; i < count; i++)
                module(n, s.pick<std::string>({"dut", "u", "core", "i"}) + std::to_string(i),
                       s.pick<std::string>({"top", "other", "child", "cell", "Alu"}), depth + 1);
        }
    }

    void design() {
        m.flavour = static_cast<Flavour>(s.draw(6));
        static const char *names[] = {"ModelSim SE", "Verilator", "Chronologic Simulation VCS Release ",
                                      "xmsim(64)", "Icarus Verilog", "RTLMock"};
        m.product = names[static_cast<int>(m.flavour)];
        m.version = "v" + std::to_string(s.draw(100));
        for (size_t i = s.draw(4); i; i--) m.args.push_back(s.pick<std::string>({"sim", "+A=1", "", "+b"}));
        m.time = s.bits();
        auto tops = 1 + s.draw(2);
        for (size_t i = 0; i < tops; i++) module(&m.root, "tb" + std::to_string(i), "bench", 0);
        s.say("simulator " + m.product);
        for (auto const &t : m.root.subs) text(*t);
    }
    void settle(const std::string &where) {
        if (!m.problem.empty()) s.fail(where + ": " + m.problem);
    }
};

// every way to write the name of a node below its variable
std::string spelled(Src &s, const Node *n, const std::string &full) {
    (void)n;
    if (full.find('[') == std::string::npos || !s.chance(30)) return full;
    // a.0.1 for a[0][1]
    std::string r;
    for (auto c : full) {
        if (c == '[')
            r += '.';
        else if (c != ']')
            r += c;
    }
    return r;
}

void expect(World &w, const Node *n, std::vector<std::pair<std::string, const Node *>> &out,
            const std::string &front) {
    bool lrm = w.m.flavour != Flavour::verilator && w.m.flavour != Flavour::mock;
    switch (n->kind) {
        case Kind::leaf:
        case Kind::bit:
            out.emplace_back(front, n);
            break;
        case Kind::structure:
            for (auto const &x : n->subs) expect(w, x.get(), out, front + "." + x->name);
            break;
        case Kind::module:
            for (auto const &x : n->subs)
                if (x->kind != Kind::module && x->kind != Kind::structure)
                    expect(w, x.get(), out, front + "." + x->name);
            break;
        default: {
            (void)lrm;
            size_t i = 0;
            for (auto const &x : n->subs)
                expect(w, x.get(), out, front + "." + std::to_string(i++));
        }
    }
}

std::string strip_hex(std::string v) {
    if (v.starts_with("0x")) v = v.substr(2);
    for (auto &c : v) c = static_cast<char>(tolower(c));
    while (v.size() > 1 && v[0] == '0') v = v.substr(1);
    return v;
}

// the number a signal stands for in expressions: 32-bit signals are signed
int64_t integer(const std::string &bits) {
    auto v = number(known(bits));
    if (bits.size() == 32) return static_cast<int32_t>(static_cast<uint32_t>(v));
    return static_cast<int64_t>(v);
}

void check_value(World &w, hgdb::RTLSimulatorClient &c, const std::string &name,
                 const std::string &bits) {
    auto &s = w.s;
    auto got = c.get_value(name);
    w.settle("value of " + name);
    if (bits.size() <= 64) {
        s.require(got.has_value(), "no value for " + name);
        s.eq(*got, integer(bits), "value of " + name);
    }
    auto text = c.get_str_value(name);
    w.settle("text of " + name);
    s.require(text.has_value(), "no text for " + name);
    s.eq(text->starts_with("0x"), bits.size() > 1, "prefix of " + name + " = " + *text);
    s.eq(strip_hex(bits.size() > 1 ? *text : "0x" + *text), strip_hex("0x" + hex(bits)),
         "text of " + name);
    auto width = c.get_signal_width(c.get_handle(name));
    s.require(width && *width == bits.size(), "width of " + name);
    w.settle("width of " + name);
}

std::string mapped(const std::string &full, const std::string &prefix, const std::string &top) {
    return top + "." + full.substr(prefix.size());
}

// the same path, which enters scopes it leaves again with "$parent"
std::string detour(pbt::Src &s, const std::string &name) {
    std::vector<std::string> tokens;
    for (size_t p = 0;;) {
        auto q = name.find('.', p);
        tokens.push_back(name.substr(p, q - p));
        if (q == std::string::npos) break;
        p = q + 1;
    }
    size_t first = tokens[0] == "$root" ? 1 : 0;
    std::string r;
    for (size_t i = 0; i < tokens.size(); i++) {
        r += (i ? "." : "") + tokens[i];
        if (i < first || i + 1 == tokens.size() || !s.chance(60)) continue;
        unsigned n = 1 + s.draw(3), open = 0;
        while (n || open) {
            if (n && (!open || s.coin())) {
                r += s.pick<std::string>({".sub", ".u0", ".a"});
                n--;
                open++;
            } else {
                r += ".$parent";
                open--;
            }
        }
    }
    return r;
}

void prop_names(Src &s) {
    World w(s);
    w.design();
    // the places of the debugged designs
    std::vector<std::string> tops;
    tops.push_back("top");
    if (s.coin()) tops.push_back("other");
    std::vector<std::string> instances;
    for (auto const &t : tops) {
        instances.push_back(t);
        for (size_t i = s.draw(3); i; i--) instances.push_back(t + "." + s.pick(words));
    }
    s.shuffle(instances);
    hgdb::RTLSimulatorClient c(nullptr);
    s.eq(c.get_simulator_name(), w.m.product, "simulator");
    s.eq(c.get_simulator_version(), w.m.version, "version");
    s.require(c.get_argv() == w.m.args, "arguments");
    s.eq(c.get_simulation_time(), w.m.time, "time");
    std::string top, prefix;
    if (w.m.flavour != Flavour::verilator) {
        auto mapping = c.compute_instance_mapping(instances, true);
        w.settle("instance mapping");
        std::multiset<std::pair<std::string, std::string>> got(mapping.begin(), mapping.end()), want;
        for (auto *n : w.modules)
            if (std::find(tops.begin(), tops.end(), n->def) != tops.end())
                want.emplace(n->def, n->full + ".");
        s.require(got == want, "places of the designs: found " + std::to_string(got.size()) +
                                   ", there are " + std::to_string(want.size()));
        if (!mapping.empty()) {
            auto const &p = s.pick(mapping);
            top = p.first;
            prefix = p.second;
            s.label("mapped");
        }
    } else {
        // the place is given by hand
        auto const *n = s.pick(w.modules);
        top = "top";
        prefix = n->full + ".";
    }
    if (!top.empty()) {
        c.set_mapping(top, prefix);
        s.say("mapping " + top + " -> " + prefix);
        s.eq(c.get_full_name(top), prefix.substr(0, prefix.size() - 1), "name of the top");
        s.eq(c.get_full_name(top + ".a.b"), prefix + "a.b", "name in the design");
        s.eq(c.get_full_name(top + "x.a"), top + "x.a", "name outside the design");
        s.require(c.is_absolute_path(top + ".q") && c.is_absolute_path(top) &&
                      !c.is_absolute_path(top + "x.q"),
                  "absolute path");
    }
    s.eq(c.get_full_name("$root." + w.modules[0]->full + ".zz"), w.modules[0]->full + ".zz",
         "name from the root");
    std::vector<std::string> log;
    if (!w.leaves.empty()) s.nontrivial(s.text_);
    auto name_of = [&](const Node *n) {
        auto full = spelled(s, n, n->full);
        std::string r;
        if (!top.empty() && n->full.starts_with(prefix) && !s.chance(25))
            r = mapped(full, prefix, top);
        else
            r = "$root." + full;
        return r;
    };
    auto steps = 3 + s.len(0, 25);
    std::map<std::string, vpiHandle> seen;
    for (size_t i = 0; i < steps; i++) {
        switch (s.weighted({8, 6, 3, 4, 4, 2, 2})) {
            case 0: {  // read a signal or an element
                if (w.leaves.empty()) break;
                auto *n = s.pick(w.leaves);
                auto name = name_of(n);
                // struct elements of arrays can only be spelled with brackets
                if (name.find('[') == std::string::npos && n->full.find('[') != std::string::npos &&
                    n->full.find("].") != std::string::npos)
                    break;
                s.say("> read " + name);
                check_value(w, c, name, n->bits);
                s.require(c.is_valid_signal(name), name + " is a signal");
                s.require(c.get_handle(name) == Sim::h(n->id), "handle of " + name);
                break;
            }
            case 1: {  // a bit range
                if (w.leaves.empty()) break;
                auto *n = s.pick(w.leaves);
                if (n->width < 2 || n->full.find("].") != std::string::npos) break;
                auto lo = s.draw(n->width);
                auto hi = lo + s.draw(n->width - lo);
                if (s.chance(30)) hi = n->width - 1;
                bool beyond = s.chance(15);  // the bits that are not there read as zero
                if (beyond) hi = n->width + s.draw(5);
                auto name = name_of(n) + "[" +
                            (s.chance(20) ? std::to_string(lo) + ":" + std::to_string(hi)
                                          : std::to_string(hi) + ":" + std::to_string(lo)) +
                            "]";
                s.say("> read " + name);
                s.label("bit range");
                auto bits = (beyond ? std::string(hi + 1 - n->width, '0') + n->bits : n->bits)
                                .substr(beyond ? 0 : n->width - 1 - hi, hi - lo + 1);
                auto *h = c.get_handle(name);
                w.settle(name);
                s.require(h != nullptr, "no handle for " + name);
                s.require(c.get_handle(name) == h, "handle of " + name + " changes");
                if (hi < 64) {
                    auto got = c.get_value(name);
                    w.settle("value of " + name);
                    bool verilator_wide = w.m.flavour == Flavour::verilator && n->width > 64;
                    if (!verilator_wide) {
                        s.require(got.has_value(), "no value for " + name);
                        s.eq(static_cast<uint64_t>(*got), number(known(bits)), "value of " + name);
                    }
                }
                auto text = c.get_str_value(name);
                w.settle("text of " + name);
                s.require(text.has_value(), "no text for " + name);
                s.eq(text->starts_with("0x"), bits.size() > 1, "prefix of " + name);
                auto digits = hex(bits);
                s.eq(strip_hex(bits.size() > 1 ? *text : "0x" + *text), strip_hex("0x" + digits),
                     "text of " + name);
                auto width = c.get_signal_width(h);
                w.settle("width of " + name);
                s.require(width && *width == bits.size(), "width of " + name);
                s.require(c.is_valid_signal(name), name + " is a signal");
                w.settle(name);
                break;
            }
            case 2: {  // a bit
                if (w.leaves.empty()) break;
                auto *n = s.pick(w.leaves);
                if (n->subs.empty() || n->full.find("].") != std::string::npos) break;
                auto *b = n->subs[s.draw(n->subs.size())].get();
                auto name = name_of(b);
                s.say("> read " + name);
                check_value(w, c, name, collect(*b));
                break;
            }
            case 3: {  // something that is not there
                auto *n = s.pick(w.modules);
                auto base = "$root." + n->full;
                if (!top.empty() && s.coin()) base = top;
                std::string name;
                auto const *v = w.variables.empty() ? nullptr : s.pick(w.variables);
                switch (s.draw(8)) {
                    case 0:
                        name = base + ".nothing";
                        break;
                    case 1:
                        name = base + ".nothing.a[3]";
                        break;
                    case 2:
                        name = base + ".nothing[3:1]";
                        break;
                    case 3:
                        name = v ? "$root." + v->full + "[99999999999]" : "";
                        break;
                    case 4:
                        name = v ? "$root." + v->full + "[x]" : "zz";
                        break;
                    case 5:
                        name = v ? "$root." + v->full + "[3:x]" : "zz[1";
                        break;
                    case 6:
                        name = base + "[3:0]";
                        break;
                    default:
                        name = v ? "$root." + v->full + "[1:2:3]" : ".";
                }
                s.say("> missing " + name);
                s.label("missing");
                s.require(!c.is_valid_signal(name), name + " does not exist");
                w.settle(name);
                auto x = c.get_value(name);
                w.settle("value of " + name);
                s.require(!x, name + " has no value");
                auto t = c.get_str_value(name);
                w.settle("text of " + name);
                s.require(!t, name + " has no text");
                s.require(!c.set_value(name, 1), name + " cannot be set");
                w.settle("setting " + name);
                break;
            }
            case 4: {  // unfold
                if (w.variables.empty()) break;
                const Node *n = s.pick(w.variables);
                if (w.m.flavour != Flavour::vcs && s.chance(10)) n = s.pick(w.modules);
                auto name = name_of(n);
                auto path = name;
                if (s.chance(25)) {
                    path = detour(s, name);
                    if (path != name) s.label("parent");
                }
                s.say("> unfold " + path);
                auto got = c.resolve_rtl_variable("v", path);
                w.settle("unfolding " + path);
                std::vector<std::pair<std::string, const Node *>> want;
                expect(w, n, want, "v");
                std::map<std::string, const Node *> left;
                for (auto const &[k, v] : want) left[k] = v;
                if (want.empty()) {
                    s.require(got.size() == 1 && got[0].first == "v", "nothing to unfold");
                    break;
                }
                if (want.size() > 1) s.label("unfolded");
                for (auto const &[k, rtl] : got) {
                    s.require(left.count(k), name + " unfolds to " + k + " (" + rtl + ")");
                    auto *target = left[k];
                    left.erase(k);
                    s.require(c.get_handle(rtl) == Sim::h(target->id),
                              k + " is " + target->full + ", but " + rtl + " was returned");
                    w.settle(rtl);
                }
                s.require(left.empty(), name + " does not unfold to " +
                                            (left.empty() ? "" : left.begin()->first));
                break;
            }
            case 5: {  // write
                if (w.leaves.empty()) break;
                auto *n = s.pick(w.leaves);
                if (n->full.find("].") != std::string::npos) break;
                auto name = name_of(n);
                auto v = static_cast<int64_t>(s.bits());
                if (n->width > 64) break;
                bool range = s.chance(20) && n->width > 1;
                std::map<Node *, std::string> before;
                for (auto *x : w.leaves) before[x] = x->bits;
                if (range) name += "[1:0]";
                s.say("> write " + name + " = " + std::to_string(v));
                bool ok = c.set_value(name, v);
                w.settle("writing " + name);
                if (ok) {
                    s.require(!range || n->bits.substr(0, n->width - 2) ==
                                            before[n].substr(0, n->width - 2),
                              "bits outside the range changed");
                    std::string b;
                    for (int k = static_cast<int>(n->width) - 1; k >= 0; k--)
                        b += (static_cast<uint64_t>(v) >> k & 1) ? '1' : '0';
                    if (!range) s.eq(n->bits, b, "written value of " + name);
                    before[n] = n->bits;
                } else {
                    s.require(range, "writing " + name + " was refused");
                }
                for (auto *x : w.leaves) s.eq(x->bits, before[x], "value of " + x->full);
                break;
            }
            default: {  // the simulation goes on
                for (auto *n : w.leaves)
                    if (s.chance(20)) {
                        auto at = s.draw(n->bits.size());
                        n->bits[at] = n->bits[at] == '0' ? '1' : '0';
                    }
                w.m.time += s.draw(1000);
                s.eq(c.get_simulation_time(), w.m.time, "time");
                s.say("> values change");
            }
        }
    }
}

// simulators that do not tell the definition of a module: the place of the design is found by the
// names of its instances
void prop_places(Src &s) {
    World w(s);
    w.m.flavour = Flavour::verilator;
    w.m.product = "Verilator";
    std::function<void(Node *, int)> grow = [&](Node *parent, int depth) {
        std::set<std::string> used;
        for (size_t i = (depth == 0) + s.draw(3); i; i--) {
            auto name = s.pick<std::string>({"a", "b", "ab", "dut", "u0"});
            if (!used.insert(name).second) continue;
            auto *n = w.add(parent, Kind::module, name,
                            depth ? parent->full + "." + name : name);
            w.modules.push_back(n);
            if (depth < 4) grow(n, depth + 1);
        }
    };
    grow(&w.m.root, 0);
    for (auto const &t : w.m.root.subs) w.text(*t);
    hgdb::RTLSimulatorClient c(nullptr);
    // the design is in one of the places; its instances by name
    auto *place = s.pick(w.modules);
    std::vector<std::string> instances;
    std::string shortest;
    for (auto *n : w.modules)
        if (n->full.starts_with(place->full + ".") && s.chance(70)) {
            auto path = n->full.substr(place->full.size() + 1);
            if (shortest.empty() || path.size() < shortest.size()) shortest = path;
            instances.push_back("top." + path);
        }
    if (instances.empty()) {
        s.say("no instance below " + place->full);
        // only the top is known: it is the module below the only one at the root
        if (w.m.root.subs.size() == 1 && w.m.root.subs[0]->subs.size() == 1) {
            auto got = c.compute_instance_mapping({"top"}, false);
            w.settle("mapping");
            s.nontrivial(s.text_);
            s.require(got.size() == 1 && got[0].first == "top" &&
                          got[0].second == w.m.root.subs[0]->subs[0]->full + ".",
                      "place of the top");
        }
        return;
    }
    // ties: which of several shortest names decides is open
    size_t ties = 0;
    for (auto const &i : instances) ties += i.size() == shortest.size() + 4;
    if (ties > 1) return;
    s.shuffle(instances);
    std::string l;
    for (auto const &i : instances) l += " " + i;
    s.say("instances" + l);
    s.nontrivial(s.text_);
    auto mapping = c.compute_instance_mapping(instances, false);
    w.settle("mapping");
    std::multiset<std::pair<std::string, std::string>> got(mapping.begin(), mapping.end()), want;
    for (auto *n : w.modules)
        if (w.m.by_name.count(n->full + "." + shortest)) want.emplace("top", n->full + ".");
    std::string g;
    for (auto const &x : got) g += " " + x.second;
    s.require(got == want, "places found:" + g + ", there are " + std::to_string(want.size()));
}

int nothing(p_cb_data) { return 0; }

// callbacks, clocks, control
void prop_callbacks(Src &s) {
    World w(s);
    w.design();
    if (w.m.flavour == Flavour::verilator) w.m.product = "ModelSim SE", w.m.flavour = Flavour::standard;
    // some clocks
    static const std::vector<std::string> clocks{"clk",      "clock", "clk_in",
                                                 "clock_in", "CLK",   "CLOCK"};
    for (auto *mod : w.modules)
        for (auto const &cn : clocks)
            if (s.chance(15)) {
                auto *n = w.add(mod, Kind::leaf, cn, mod->full + "." + cn);
                w.fill_leaf(n, s.chance(70) ? 1 : 2);
                w.variables.push_back(n);
                s.say("clock " + n->full + " width " + std::to_string(n->width));
            }
    auto const *place = s.pick(w.modules);
    {
        hgdb::RTLSimulatorClient c(nullptr);
        c.set_mapping("top", place->full + ".");
        s.say("mapping top -> " + place->full);
        // clocks
        std::optional<std::string> want;
        auto find = [&](const std::string &scope) -> std::optional<std::string> {
            for (auto const &cn : clocks) {
                auto it = w.m.by_name.find(scope + "." + cn);
                if (it != w.m.by_name.end() && it->second->width == 1) return it->first;
            }
            return {};
        };
        want = find(place->full);
        if (!want && place->parent != &w.m.root) {
            want = find(place->parent->full);
        }
        auto got = c.get_clocks_from_design();
        w.settle("clocks");
        s.eq(got.size(), want ? 1u : 0u, "number of clocks");
        if (want) {
            s.label("clock found");
            s.eq(c.get_full_name(got[0]), *want, "clock");
        }
        // callbacks
        std::map<std::string, uint64_t> model;  // name -> callback id
        std::set<uint64_t> known_ids;
        auto sync = [&](const std::string &what) {
            w.settle(what);
            std::unordered_set<std::string> names;
            for (auto const &[k, v] : model) names.insert(k);
            s.require(c.callback_names() == names, what + ": names of the callbacks");
            std::set<uint64_t> a, b;
            for (auto const &[k, v] : model) a.insert(v);
            for (auto const &[k, v] : w.m.callbacks) b.insert(k);
            s.require(a == b, what + ": callbacks in the simulator: " + std::to_string(b.size()) +
                                  ", expected " + std::to_string(a.size()));
        };
        auto steps = 2 + s.len(0, 12);
        s.nontrivial(s.text_ + std::to_string(steps));
        for (size_t i = 0; i < steps; i++) {
            switch (s.draw(4)) {
                case 0: {
                    auto name = s.pick<std::string>({"one", "two", "three"});
                    s.say("> add " + name);
                    int data = 0;
                    auto *h = c.add_call_back(name, cbStartOfSimulation, nothing, nullptr, &data);
                    s.require(h != nullptr, "callback added");
                    if (!model.count(name)) {
                        model[name] = Sim::id(h);
                        s.require(w.m.callbacks.count(Sim::id(h)) &&
                                      w.m.callbacks[Sim::id(h)].data.reason ==
                                          cbStartOfSimulation &&
                                      w.m.callbacks[Sim::id(h)].data.user_data ==
                                          reinterpret_cast<char *>(&data),
                                  "callback registered as asked");
                    } else {
                        s.eq(Sim::id(h), model[name], "same name, same callback");
                    }
                    sync("add");
                    break;
                }
                case 1: {
                    std::string name = s.pick<std::string>({"one", "two", "three", "four"});
                    if (!model.empty() && s.coin())
                        name = std::next(model.begin(), static_cast<long>(s.draw(model.size())))->first;
                    s.say("> remove " + name);
                    c.remove_call_back(name);
                    model.erase(name);
                    sync("remove");
                    break;
                }
                case 2: {
                    if (w.leaves.empty()) break;
                    std::vector<std::string> list;
                    bool ok = true;
                    std::vector<const Node *> nodes;
                    for (size_t k = 1 + s.draw(4); k; k--) {
                        auto const *n = s.pick(w.leaves);
                        if (n->full.find('[') != std::string::npos) continue;
                        list.push_back(n->full.starts_with(place->full + ".") && s.coin()
                                           ? mapped(n->full, place->full + ".", "top")
                                           : "$root." + n->full);
                        nodes.push_back(n);
                    }
                    if (s.chance(25)) {
                        list.push_back("top.nothing");
                        ok = false;
                    }
                    w.m.refuse_callbacks.clear();
                    if (!nodes.empty() && s.chance(20)) {
                        auto const *n = s.pick(nodes);
                        auto it = model.find("Monitor " + n->full);
                        if (it == model.end()) {
                            w.m.refuse_callbacks.insert(n->full);
                            ok = false;
                        }
                    }
                    if (!nodes.empty()) s.label(ok ? "monitored" : "refused");
                    std::string l;
                    for (auto const &x : list) l += " " + x;
                    s.say("> monitor" + l);
                    std::set<uint64_t> before;
                    for (auto const &[k, v] : w.m.callbacks) before.insert(k);
                    auto got2 = c.monitor_signals(list, nothing, nullptr);
                    w.settle("monitor");
                    s.eq(got2, ok, "signals are monitored");
                    if (ok) {
                        // one callback per signal, on the signal
                        for (auto const *n : nodes) {
                            auto name = "Monitor " + n->full;
                            if (model.count(name)) continue;
                            uint64_t id = 0;
                            for (auto const &[k, v] : w.m.callbacks)
                                if (!before.count(k) && v.data.obj == Sim::h(n->id)) {
                                    s.require(!id, "two callbacks on " + n->full);
                                    id = k;
                                    s.eq(v.data.reason, cbValueChange, "kind of callback");
                                }
                            s.require(id, "no callback on " + n->full);
                            model[name] = id;
                        }
                    }
                    std::set<uint64_t> a, b;
                    for (auto const &[k, v] : model) a.insert(v);
                    for (auto const &[k, v] : w.m.callbacks) b.insert(k);
                    s.require(a == b, "callbacks after monitoring: " + std::to_string(b.size()) +
                                          ", expected " + std::to_string(a.size()));
                    break;
                }
                default: {
                    auto v = static_cast<hgdb::RTLSimulatorClient::finish_value>(s.draw(3));
                    bool finish = s.coin();
                    w.m.control.clear();
                    finish ? c.finish_sim(v) : c.stop_sim(v);
                    s.require(w.m.control.size() == 1, "control");
                    s.eq(w.m.control[0].first, finish ? vpiFinish : vpiStop, "operation");
                    s.eq(w.m.control[0].second, static_cast<int>(v), "argument of the operation");
                }
            }
        }
    }
    w.settle("end");
}

}  // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv,
                         {{{.name = "rtl_names", .cpu_limit = 2}, prop_names},
                          {{.name = "rtl_places", .cpu_limit = 2}, prop_places},
                          {{.name = "rtl_callbacks", .cpu_limit = 2}, prop_callbacks}});
}
