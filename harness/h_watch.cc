// h_watch.cc - the table of watched signals against a model of it.
//
// A design is generated with a trace of values; watches of every kind are added, removed and asked
// for in any order while the simulation advances.  The model keeps, for each watch, what was last
// seen; every answer is compared with it.
#include <deque>
#include <memory>

#include "dbgworld.hh"
#include "monitor.hh"
#include "pbt.hh"
#include "rtl.hh"

namespace {
using dbg::Design;
using dbg::Shape;
using dbg::Sim;
using hgdb::Monitor;
using Type = Monitor::WatchType;
using Val = std::optional<int64_t>;

struct Watch {
    std::string name;
    Type type;
    std::shared_ptr<Val> value;  // shared with whoever asked for it
    bool buffer = false;
    unsigned depth = 1;
    std::deque<Val> values;
    std::optional<bool> cond;
};

std::string show(const Val &v) { return v ? std::to_string(*v) : "none"; }

void prop_watch(pbt::Src &s) {
    Shape sh;
    sh.one_top = true;
    auto d = dbg::gen_design(s, sh);
    auto sim = std::make_shared<Sim>();
    sim->build(d);
    sim->gen_trace(s, 1 + s.draw(6));
    sim->args = {"simv"};
    hgdb::RTLSimulatorClient rtl(sim);
    Monitor m(&rtl);
    std::map<uint64_t, Watch> model;
    std::vector<std::string> names;
    for (auto *o : sim->sig_objs) names.push_back(o->full);
    const std::string missing = "tb.dut.nothing";
    names.push_back(missing);
    std::map<uint64_t, std::shared_ptr<bool>> conds;
    int cur = -1;
    auto now = [&](const std::string &n) -> Val {
        auto it = sim->by_name.find(n);
        if (it == sim->by_name.end()) return std::nullopt;
        auto v = sim->raw(cur, {}, it->second->index);
        if (it->second->width == 32) return static_cast<int32_t>(static_cast<uint32_t>(v));
        return static_cast<int64_t>(v);
    };
    const std::vector<Type> types = {Type::breakpoint, Type::clock_edge, Type::changed, Type::data,
                                     Type::delay_clock_edge};
    std::string log;
    auto stored = [&](const Watch &w) -> Val {
        if (!w.buffer) return *w.value;
        return w.values.size() == w.depth ? w.values.front() : std::nullopt;
    };
    auto store = [&](Watch &w, Val v) {
        if (!w.buffer) {
            *w.value = v;
        } else {
            w.values.push_back(v);
            if (w.values.size() > w.depth) w.values.pop_front();
        }
    };
    auto changed = [&](Watch &w) -> std::pair<bool, Val> {
        auto v = now(w.name);
        if (!v) return {false, {}};
        auto old = stored(w);
        if (old && *old == *v) return {false, v};
        store(w, v);
        return {true, v};
    };
    unsigned seen = 0;
    size_t steps = s.range(5, 40);
    for (size_t k = 0; k < steps; k++) {
        switch (s.weighted({4, 2, 2, 2, 2, 6, 3, 3, 3})) {
            case 0:
            case 1: {
                auto n = s.pick(names);
                auto t = s.pick(types);
                bool shared = s.chance(40);
                std::shared_ptr<Val> p;
                uint64_t id;
                std::set<uint64_t> same;
                for (auto const &[i, w] : model)
                    if (w.name == n && w.type == t) same.insert(i);
                if (shared) {
                    p = std::make_shared<Val>();
                    if (s.coin()) *p = static_cast<int64_t>(s.draw(3));
                    id = m.add_monitor_variable(n, t, p);
                } else {
                    id = m.add_monitor_variable(n, t);
                }
                log += " add " + n + "#" + std::to_string(static_cast<int>(t)) + "=" + std::to_string(id);
                if (!same.empty()) {
                    s.require(same.count(id), "a signal that is watched gets the id of another watch" + log);
                    break;
                }
                s.require(!model.count(id), "the id of a watch is given again" + log);
                Watch w;
                w.name = n;
                w.type = t;
                w.value = std::make_shared<Val>(p ? *p : Val{});
                model[id] = w;
                break;
            }
            case 2: {
                auto n = s.pick(names);
                unsigned depth = 1 + s.draw(4);
                Val v;
                if (s.coin()) v = static_cast<int64_t>(s.draw(5));
                auto id = m.add_monitor_variable(n, depth, v);
                log += " delay " + n + "," + std::to_string(depth) + "=" + std::to_string(id);
                s.require(!model.count(id), "the id of a watch is given again" + log);
                Watch w;
                w.name = n;
                w.type = Type::delay_clock_edge;
                w.buffer = true;
                w.depth = depth;
                store(w, v);
                model[id] = w;
                break;
            }
            case 3: {
                uint64_t id = 1000;
                if (!model.empty() && s.chance(90)) id = std::next(model.begin(), static_cast<long>(s.draw(model.size())))->first;
                m.remove_monitor_variable(id);
                log += " remove " + std::to_string(id);
                model.erase(id);
                conds.erase(id);
                break;
            }
            case 4: {
                if (model.empty()) break;
                auto &[id, w] = *std::next(model.begin(), static_cast<long>(s.draw(model.size())));
                if (w.type != Type::breakpoint && w.type != Type::clock_edge) break;
                auto flag = std::make_shared<bool>(s.coin());
                m.set_monitor_variable_condition(id, [flag]() { return *flag; });
                conds[id] = flag;
                w.cond = *flag;
                log += " cond " + std::to_string(id) + (*flag ? " on" : " off");
                break;
            }
            case 5: {
                auto t = s.pick(types);
                std::map<uint64_t, Val> want, got;
                for (auto &[id, w] : model) {
                    if (w.type != t) continue;
                    if (t == Type::breakpoint || t == Type::clock_edge) {
                        want[id] = !w.cond || *w.cond ? now(w.name) : stored(w);
                    } else if (t == Type::delay_clock_edge) {
                        want[id] = stored(w);
                        store(w, now(w.name));
                    } else {
                        auto [c, v] = changed(w);
                        if (c) want[id] = v;
                    }
                }
                auto r = m.get_watched_values(t);
                log += " values#" + std::to_string(static_cast<int>(t));
                for (auto const &[id, v] : r)
                    s.require(got.emplace(id, v).second, "a watch is reported twice" + log);
                std::string a, b;
                for (auto const &[id, v] : want) a += " " + std::to_string(id) + "=" + show(v);
                for (auto const &[id, v] : got) b += " " + std::to_string(id) + "=" + show(v);
                s.require(a == b, "watched values:" + b + ", expected:" + a + "\n" + log);
                seen += want.size();
                break;
            }
            case 6: {
                if (model.empty() || s.chance(5)) {
                    auto r = m.var_changed(2000);
                    s.require(!r.first && !r.second, "a watch that does not exist has changed");
                    break;
                }
                auto &[id, w] = *std::next(model.begin(), static_cast<long>(s.draw(model.size())));
                auto [c, v] = changed(w);
                auto r = m.var_changed(id);
                log += " changed " + std::to_string(id);
                s.require(r.first == c && r.second == v, "change of " + w.name + ": " + (r.first ? "yes " : "no ") +
                                                             show(r.second) + ", expected " + (c ? "yes " : "no ") +
                                                             show(v) + "\n" + log);
                break;
            }
            case 7: {
                auto n = s.pick(names);
                auto t = s.pick(types);
                std::set<uint64_t> same;
                for (auto const &[id, w] : model)
                    if (w.name == n && w.type == t) same.insert(id);
                s.eq(m.num_watches(n, t), static_cast<uint64_t>(same.size()), "watches of " + n + log);
                s.require(m.empty() == model.empty(), "emptiness" + log);
                if (n != missing) {
                    auto r = m.is_monitored(rtl.get_handle(n), t);
                    s.require(r ? same.count(*r) == 1 : same.empty(), "is " + n + " watched" + log);
                }
                if (t != Type::delay_clock_edge) {
                    auto p = m.get_watched_value_ptr({n, "other"}, t);
                    s.require(!!p == !same.empty(), "the value of a watch " + n + log);
                    if (p) {
                        // what is written there is what the watch has seen
                        auto &w = model.at(*same.begin());
                        s.require(*p == *w.value, "the value of a watch: " + show(*p) + log);
                        if (s.chance(30)) {
                            *p = *w.value = static_cast<int64_t>(s.draw(3));
                            log += " write";
                        }
                    }
                }
                break;
            }
            default:
                if (cur + 1 < static_cast<int>(sim->edges.size())) {
                    sim->go(++cur);
                    log += " edge";
                }
        }
    }
    s.say(log);
    if (seen) s.nontrivial(log);
    // nothing is lost at the end
    for (auto t : types) {
        size_t n = 0;
        for (auto const &[id, w] : model) n += w.type == t;
        if (t == Type::changed || t == Type::data) continue;
        s.eq(m.get_watched_values(t).size(), n, "number of watches" + log);
    }
}
}  // namespace

// not called: the simulation is the one of dbgworld.hh
extern "C" {
PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info) { return 0; }
void vpi_get_value(vpiHandle, p_vpi_value) {}
PLI_INT32 vpi_get(PLI_INT32, vpiHandle) { return 0; }
vpiHandle vpi_iterate(PLI_INT32, vpiHandle) { return nullptr; }
vpiHandle vpi_scan(vpiHandle) { return nullptr; }
char *vpi_get_str(PLI_INT32, vpiHandle) { return nullptr; }
vpiHandle vpi_handle_by_name(char *, vpiHandle) { return nullptr; }
vpiHandle vpi_handle_by_index(vpiHandle, PLI_INT32) { return nullptr; }
void vpi_get_time(vpiHandle, p_vpi_time) {}
vpiHandle vpi_register_cb(p_cb_data) { return nullptr; }
PLI_INT32 vpi_remove_cb(vpiHandle) { return 0; }
PLI_INT32 vpi_release_handle(vpiHandle) { return 0; }
PLI_INT32 vpi_control(PLI_INT32, ...) { return 0; }
vpiHandle vpi_put_value(vpiHandle, p_vpi_value, p_vpi_time, PLI_INT32) { return nullptr; }
vpiHandle vpi_register_systf(p_vpi_systf_data) { return nullptr; }
vpiHandle vpi_handle(PLI_INT32, vpiHandle) { return nullptr; }
}

int main(int argc, char **argv) { return pbt::run_main(argc, argv, {{{.name = "mon_watch"}, prop_watch}}); }
