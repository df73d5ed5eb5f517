// h_live.cc - the debugger on a replayed waveform, against the model of the live session.
//
// The same designs, traces, histories and reference model as in h_debug.cc (dbgdriver.hh). The
// trace is written as a waveform, and the debugger runs on what the replay tool puts in the place
// of the simulator: the waveform's database, the VPI on top of it, and the engine that plays it.
#include <sstream>

#include "dbgdriver.hh"

#include "../tools/hgdb-replay/engine.hh"
#include "../tools/vcd/vcd.hh"

namespace {
using dbg::Driver;
using dbg::Obj;
using dbg::Shape;
using dbg::Sim;
using dbg::Weights;
using hgdb::replay::EmulationEngine;
using hgdb::replay::ReplayVPIProvider;

struct Scratch {
    std::string dir;
    Scratch() {
        char name[] = "/tmp/pbt_live_XXXXXX";
        if (!mkdtemp(name)) throw std::runtime_error("mkdtemp");
        dir = name;
    }
    ~Scratch() {
        for (auto n : {"/w.vcd", "/w.vcd.db", "/w.vcd.db-journal"}) unlink((dir + n).c_str());
        rmdir(dir.c_str());
    }
    std::string write(const std::string &text) {
        auto name = dir + "/w.vcd";
        std::ofstream f(name);
        f << text;
        return name;
    }
};

// the waveform of a trace: at an edge the clock rises and the signals take the values they have at
// the next edge, so that those sampled by the edge are the ones just before it
class Dump {
public:
    Dump(pbt::Src &s, const Sim &sim) : s(s), sim(sim) {
        out << "$timescale 1ns $end\n";
        for (auto *r : sim.roots) scope(r);
        out << "$enddefinitions $end\n#0\n";
        bool vars = s.coin();
        if (vars) out << "$dumpvars\n";
        std::vector<uint64_t> now(sim.sig_objs.size());
        for (auto *c : sim.clock_objs) value(c, 0);
        for (auto *g : sim.sig_objs) {
            now[static_cast<size_t>(g->index)] = sim.values[0][static_cast<size_t>(g->index)];
            value(g, now[static_cast<size_t>(g->index)]);
        }
        if (vars) out << "$end\n";
        auto change = [&](const std::vector<uint64_t> &to) {
            for (auto *g : sim.sig_objs) {
                auto i = static_cast<size_t>(g->index);
                if (now[i] == to[i] && !s.chance(5)) continue;
                now[i] = to[i];
                value(g, to[i]);
            }
        };
        auto const &e = sim.edges;
        out << "#" << 1 + s.draw(e[0].time - 1) << "\n";
        change(sim.values[1]);
        for (size_t i = 0; i < e.size(); i++) {
            out << "#" << e[i].time << "\n";
            bool first = s.coin();
            if (first) value(sim.clock_objs[e[i].clock], 1);
            if (i + 2 < sim.values.size()) change(sim.values[i + 2]);
            if (!first) value(sim.clock_objs[e[i].clock], 1);
            auto gap = i + 1 < e.size() ? e[i + 1].time - e[i].time : 10;
            out << "#" << e[i].time + 1 + s.draw(gap - 1) << "\n";
            value(sim.clock_objs[e[i].clock], 0);
        }
    }
    std::string text() const { return out.str(); }

private:
    pbt::Src &s;
    const Sim &sim;
    std::ostringstream out;
    std::map<const Obj *, std::string> ids;

    void scope(const Obj *m) {
        out << "$scope module " << m->name << " $end\n";
        for (auto *k : m->kids) {
            if (k->k == Obj::Module) {
                scope(k);
                continue;
            }
            std::string id;
            for (auto n = ids.size() + 1; n; n /= 94) id += static_cast<char>('!' + n % 94);
            ids[k] = id;
            out << "$var " << (k->reg ? "reg" : "wire") << " " << k->width << " " << id << " " << k->name;
            if (k->width > 1) out << " [" << k->width - 1 << ":0]";
            out << " $end\n";
        }
        out << "$upscope $end\n";
    }
    void value(const Obj *o, uint64_t v) {
        auto const &id = ids.at(o);
        if (o->width == 1) {
            out << (v & 1) << id << "\n";
            return;
        }
        std::string b;
        for (auto i = o->width; i > 0; i--) b += (v >> (i - 1)) & 1 ? '1' : '0';
        // leading zeros need not be written
        if (s.coin()) {
            auto p = b.find('1');
            b = p == std::string::npos ? "0" : b.substr(p);
        }
        out << "b" << b << " " << id << "\n";
    }
};

struct Replayed;

struct Hook {
    Replayed *r = nullptr;
    s_cb_data data{};
    bool removed = false;
};
PLI_INT32 call(p_cb_data d);

class Provider : public ReplayVPIProvider {
public:
    Provider(std::unique_ptr<hgdb::waveform::WaveformProvider> db, Replayed &r)
        : ReplayVPIProvider(std::move(db)), r(r) {}
    vpiHandle vpi_register_cb(p_cb_data d) override {
        auto &h = hooks.emplace_back();
        h.r = &r;
        h.data = *d;
        auto mine = *d;
        mine.cb_rtn = call;
        mine.user_data = reinterpret_cast<char *>(&h);
        auto *handle = ReplayVPIProvider::vpi_register_cb(&mine);
        handles[handle] = &h;
        return handle;
    }
    PLI_INT32 vpi_remove_cb(vpiHandle h) override {
        auto it = handles.find(h);
        if (it != handles.end()) it->second->removed = true;
        return ReplayVPIProvider::vpi_remove_cb(h);
    }
    PLI_INT32 vpi_control(PLI_INT32 op, ...) override;
    bool vpi_rewind(rewind_data *d) override;

    Replayed &r;
    std::deque<Hook> hooks;
    std::map<vpiHandle, Hook *> handles;
};

struct Replayed : Driver {
    using Driver::Driver;
    Scratch dir;
    std::unique_ptr<Sim> own;
    Provider *vpi = nullptr;
    std::unique_ptr<EmulationEngine> engine;
    bool ended = false, at_edge = false;
    std::optional<int> restart;

    void arrange() override {
        // (the definitions of the instances are not in the waveform)
        if (d.insts.size() < 2) throw pbt::Discard{};
        for (size_t i = 0; i < sim->edges.size(); i++) sim->edges[i].time += i + 1;
        sim->can_rewind = true;
        if (s.chance(20)) {
            // from somewhere in the middle
            auto i = s.draw(sim->edges.size());
            auto t = sim->edges[i].time;
            auto gap = i + 1 < sim->edges.size() ? sim->edges[i + 1].time - t : 5;
            sim->go(static_cast<int>(i));
            sim->start_time = t + s.draw(gap);
            sim->values.push_back(sim->values.back());
            sim->late = 1;
            s.label("starts-later");
        }
    }
    std::unique_ptr<hgdb::AVPIProvider> provider(std::unique_ptr<Sim> sim_) override {
        own = std::move(sim_);
        model->cur = own->cur;
        Dump dump(s, *own);
        auto db = std::make_unique<hgdb::vcd::VCDDatabase>(dir.write(dump.text()), s.chance(20));
        auto p = std::make_unique<Provider>(std::move(db), *this);
        vpi = p.get();
        for (auto const &a : own->args) vpi->add_argv(a);
        vpi->set_timestamp(own->start_time);
        engine = std::make_unique<EmulationEngine>(vpi);
        return p;
    }
    void started() override {
        // as the tool does
        for (auto *r : debugger->rtl_clients()) {
            auto *p = vpi;
            r->set_vpi_allocator([p]() { return p->get_new_handle(); });
        }
        if (s.coin()) {
            debugger->set_option("use_hex_str", true);
            options["use_hex_str"] = true;
            apply_options();
        }
    }
    bool settable() override { return false; }
    bool watching() override {
        for (auto const &h : vpi->hooks)
            if (!h.removed && h.data.reason == cbValueChange) return true;
        return false;
    }
    void end_simulation() override {
        if (ended || !vpi) return;
        vpi->trigger_cb(cbEndOfSimulation);
    }
    void simulate() override { engine->run(true); }

    std::optional<int> edge_at(uint64_t t) const {
        for (size_t i = 0; i < own->edges.size(); i++)
            if (own->edges[i].time == t) return static_cast<int>(i);
        return std::nullopt;
    }
    uint64_t now() {
        s_vpi_time t{};
        t.type = vpiSimTime;
        vpi->vpi_get_time(nullptr, &t);
        return static_cast<uint64_t>(t.high) << 32 | t.low;
    }
    PLI_INT32 on_call(Hook &h, p_cb_data data) {
        auto real = h.data;
        real.value = data->value;
        real.time = data->time;
        real.index = data->index;
        auto run = [&]() { return real.cb_rtn(&real); };
        if (h.data.reason == cbEndOfSimulation) {
            ended = true;
            if (dbg::g) {
                if (!stopped && !detached)
                    s.eq(own->cur, static_cast<int>(own->edges.size()) - 1, "clock edges that were played");
                dbg::g = nullptr;
            }
            ready = true;
            return run();
        }
        if (!dbg::g) return 0;
        if (h.data.reason == cbStartOfSimulation) {
            s.eq(now(), own->start_time, "time at the start");
            auto r = run();
            s.require(connected, "the simulation did not wait for the client");
            phase = Running;
            if (restart) {
                // this edge is still to come
                own->go(*restart - 1);
                model->go(*restart - 1);
                restart.reset();
            }
            if (!stopped && !detached) actions(1);
            return r;
        }
        if (h.data.reason != cbValueChange) return run();
        if (data->value->value.integer == 0) {
            auto r = run();
            drained("at a falling clock edge");
            return r;
        }
        s.require(!stopped && !detached, "a clock edge although nothing is watched");
        auto t = now();
        auto e = edge_at(t);
        s.require(e.has_value(), "a clock edge at time " + std::to_string(t));
        s.eq(*e, own->cur + 1, "clock edge that is played");
        own->go(*e);
        model->go(*e);
        phase = InEval;
        edge_paused = false;
        in_loop = false;
        drained("before a clock edge");
        auto r = run();
        end_of_edge();
        restart.reset();
        phase = Running;
        if (!stopped && !detached) actions(1);
        return r;
    }
};

PLI_INT32 call(p_cb_data d) {
    auto &h = *reinterpret_cast<Hook *>(d->user_data);
    return h.r->on_call(h, d);
}
PLI_INT32 Provider::vpi_control(PLI_INT32 op, ...) {
    if (op == vpiFinish) {
        r.own->finished = true;
        r.own->finishes++;
    }
    return ReplayVPIProvider::vpi_control(op);
}
bool Provider::vpi_rewind(rewind_data *d) {
    if (!ReplayVPIProvider::vpi_rewind(d)) return false;
    auto e = r.edge_at(get_timestamp() + 1);
    r.s.require(e.has_value(), "went back to time " + std::to_string(get_timestamp()) + ", before no clock edge");
    r.own->go(*e);
    r.own->rewinds++;
    r.restart = *e;
    return true;
}

void run(pbt::Src &s, const Weights &w, Shape sh) {
    sh.one_top = true;
    sh.flat = true;
    sh.single = true;
    dbg::run_driver<Replayed>(s, w, sh);
}
void prop_stops(pbt::Src &s) {
    Weights w;
    w.over = 2;
    w.back = 2;
    w.reverse = 2;
    w.jump = 2;
    w.stop = 1;
    w.disconnect = 1;
    Shape sh;
    sh.frames = s.coin();
    sh.delays = s.coin();
    run(s, w, sh);
}
void prop_data(pbt::Src &s) {
    Weights w;
    w.data = 6;
    w.monitor = 4;
    w.over = 1;
    w.back = 1;
    w.reverse = 1;
    w.jump = 1;
    w.edges = 8;
    Shape sh;
    sh.data = true;
    run(s, w, sh);
}
}  // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv,
                         {{{.name = "live_stops", .cpu_limit = 5, .wall_limit = 30}, prop_stops},
                          {{.name = "live_data", .cpu_limit = 5, .wall_limit = 30}, prop_data}});
}
