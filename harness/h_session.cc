// h_session.cc - the whole debugger with its real server, lock and threads: a client on a socket, a
// simulation in a thread of its own, and requests that arrive at chosen points of the evaluation of
// a clock edge. Between the edges everything is settled, so that stops can be compared exactly;
// in an edge during which requests arrive, whatever was set before and is still set afterwards
// must be reported once, and nothing may be reported that was never due.
#include <atomic>

#include "dbgmodel.hh"
#include "debug.hh"
#include "sim.hh"
#include "wsclient.hh"

namespace hgdb {
Debugger *initialize_hgdb_runtime_vpi(std::unique_ptr<AVPIProvider> vpi, bool start_server);
}

extern "C" {
PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info) { return 0; }
void vpi_get_value(vpiHandle, p_vpi_value) {}
PLI_INT32 vpi_get(PLI_INT32, vpiHandle) { return 0; }
vpiHandle vpi_iterate(PLI_INT32, vpiHandle) { return nullptr; }
vpiHandle vpi_scan(vpiHandle) { return nullptr; }
char *vpi_get_str(PLI_INT32, vpiHandle) { return nullptr; }
vpiHandle vpi_handle_by_name(char *, vpiHandle) { return nullptr; }
vpiHandle vpi_handle_by_index(vpiHandle, PLI_INT32) { return nullptr; }
void vpi_get_time(vpiHandle, p_vpi_time) {}
vpiHandle vpi_register_cb(p_cb_data) { return nullptr; }
PLI_INT32 vpi_remove_cb(vpiHandle) { return 0; }
PLI_INT32 vpi_release_handle(vpiHandle) { return 0; }
PLI_INT32 vpi_control(PLI_INT32, ...) { return 0; }
vpiHandle vpi_put_value(vpiHandle, p_vpi_value, p_vpi_time, PLI_INT32) { return nullptr; }
vpiHandle vpi_register_systf(p_vpi_systf_data) { return nullptr; }
vpiHandle vpi_handle(PLI_INT32, vpiHandle) { return nullptr; }
}

namespace dbg {

// the simulator, safe to be asked from several threads
class LiveSim : public Sim {
public:
    std::recursive_mutex mm;
    std::function<void()> hook;  // called in the thread of the simulation when a value is asked for
    std::thread::id sim_thread;
    std::atomic<bool> armed{false};

    void vpi_get_value(vpiHandle h, p_vpi_value v) override {
        if (armed && std::this_thread::get_id() == sim_thread && hook) hook();
        std::lock_guard g(mm);
        Sim::vpi_get_value(h, v);
    }
    PLI_INT32 vpi_get(PLI_INT32 p, vpiHandle h) override {
        std::lock_guard g(mm);
        return Sim::vpi_get(p, h);
    }
    vpiHandle vpi_iterate(PLI_INT32 t, vpiHandle h) override {
        std::lock_guard g(mm);
        return Sim::vpi_iterate(t, h);
    }
    vpiHandle vpi_scan(vpiHandle h) override {
        std::lock_guard g(mm);
        return Sim::vpi_scan(h);
    }
    char *vpi_get_str(PLI_INT32 p, vpiHandle h) override {
        std::lock_guard g(mm);
        return Sim::vpi_get_str(p, h);
    }
    vpiHandle vpi_handle_by_name(char *n, vpiHandle h) override {
        std::lock_guard g(mm);
        return Sim::vpi_handle_by_name(n, h);
    }
    void vpi_get_time(vpiHandle h, p_vpi_time t) override {
        std::lock_guard g(mm);
        Sim::vpi_get_time(h, t);
    }
    vpiHandle vpi_register_cb(p_cb_data d) override {
        std::lock_guard g(mm);
        return Sim::vpi_register_cb(d);
    }
    PLI_INT32 vpi_remove_cb(vpiHandle h) override {
        std::lock_guard g(mm);
        return Sim::vpi_remove_cb(h);
    }
    PLI_INT32 vpi_control(PLI_INT32 op, ...) override {
        std::lock_guard g(mm);
        return Sim::vpi_control(op);
    }
    vpiHandle vpi_put_value(vpiHandle h, p_vpi_value v, p_vpi_time t, PLI_INT32 f) override {
        std::lock_guard g(mm);
        return Sim::vpi_put_value(h, v, t, f);
    }
    std::vector<s_cb_data> due(int reason, Obj *obj) {
        std::lock_guard g(mm);
        std::vector<s_cb_data> r;
        for (auto *c : cbs) {
            if (c->removed || c->cb.reason != reason) continue;
            if (reason == cbValueChange && o(c->cb.obj) != obj) continue;
            r.push_back(c->cb);
        }
        return r;
    }
    void call(int reason, Obj *obj, int value) {
        for (auto data : due(reason, obj)) {
            s_vpi_value v{};
            v.format = vpiIntVal;
            v.value.integer = value;
            s_vpi_time t{};
            t.type = vpiSimTime;
            uint64_t now;
            {
                std::lock_guard g(mm);
                now = time_of(cur);
            }
            t.high = static_cast<PLI_UINT32>(now >> 32);
            t.low = static_cast<PLI_UINT32>(now);
            data.value = &v;
            data.time = &t;
            data.cb_rtn(&data);
        }
    }
};

// hands control back and forth between the thread of the simulation and the one of the harness
struct Baton {
    std::mutex m;
    std::condition_variable cv;
    int go = -1;        // edge to run
    bool busy = false;  // the simulation is in an edge
    bool up = false;    // past the start
    bool end = false, ended = false;
    int at = 0;  // 1: at a point where a request is to be sent; 2: go on
};

struct Session {
    pbt::Src &s;
    Design d;
    LiveSim *sim = nullptr;
    std::shared_ptr<hgdb::AVPIProvider> keep;
    std::unique_ptr<Model> model;
    hgdb::Debugger *debugger = nullptr;
    std::thread thread;
    Baton b;
    ws::Client c;
    uint16_t port = 0;
    unsigned token = 0;
    std::map<std::string, jv::V> answers;
    std::set<std::string> open_tokens;
    std::deque<jv::V> stops;
    std::deque<jv::V> reports;  // monitored values
    unsigned seen_stops = 0, injected = 0, unsettled = 0;
    std::atomic<int> countdown{0};
    std::atomic<bool> server_died{false};

    explicit Session(pbt::Src &s) : s(s) {}

    void run_sim() {
        sim->call(cbStartOfSimulation, nullptr, 0);
        {
            std::lock_guard l(b.m);
            b.up = true;
        }
        b.cv.notify_all();
        while (true) {
            int e;
            {
                std::unique_lock l(b.m);
                b.cv.wait(l, [&] { return b.end || b.go >= 0; });
                if (b.end) break;
                e = b.go;
                b.go = -1;
            }
            Obj *clk;
            {
                std::lock_guard g(sim->mm);
                sim->go(e);
                clk = sim->clock_objs[sim->edges[static_cast<size_t>(e)].clock];
            }
            sim->call(cbValueChange, clk, 1);
            sim->call(cbValueChange, clk, 0);
            {
                std::lock_guard l(b.m);
                b.busy = false;
            }
            b.cv.notify_all();
        }
        sim->call(cbEndOfSimulation, nullptr, 0);
        {
            std::lock_guard l(b.m);
            b.ended = true;
        }
        b.cv.notify_all();
    }
    void point() {
        // in the thread of the simulation
        if (countdown.fetch_sub(1) != 1) return;
        std::unique_lock l(b.m);
        b.at = 1;
        b.cv.notify_all();
        b.cv.wait_for(l, std::chrono::seconds(30), [&] { return b.at == 2; });
        b.at = 0;
    }

    // ---- messages
    bool take(double timeout) {
        auto f = c.read(timeout);
        if (!f) {
            s.require(!c.eof, "the server closed the connection");
            return false;
        }
        s.require(f->opcode == 1, "the server closed the connection");
        auto v = jv::parse_or_fail(s, f->text, "message");
        if (auto *t = v.get("token"); t && t->is(jv::V::Str) && !t->s.empty()) {
            s.require(open_tokens.erase(t->s) == 1, "answer to a request that was not made or is answered: " + f->text);
            answers[t->s] = v;
            return true;
        }
        auto *type = v.get("type");
        s.require(type && type->is(jv::V::Str), "message without type: " + f->text);
        if (type->s == "breakpoint")
            stops.push_back(v);
        else if (type->s == "monitor")
            reports.push_back(v);
        else
            s.fail("unexpected message " + f->text);
        return true;
    }
    std::string post(const std::string &type, const jv::V &payload, const std::string &note = "> ") {
        auto tok = "t" + std::to_string(token++);
        auto msg = jv::V::obj();
        msg.set("request", true);
        msg.set("type", type);
        msg.set("token", tok);
        msg.set("payload", payload);
        s.say(note + type + " " + jv::str(payload));
        open_tokens.insert(tok);
        s.require(c.text(jv::str(msg)), "the server dropped the client");
        return tok;
    }
    bool settle(const std::string &tok, double timeout = 20) {
        auto end = ws::now() + timeout;
        while (!answers.count(tok)) {
            auto left = end - ws::now();
            if (left <= 0) return false;
            c.timed_out = false;
            take(left);
        }
        return true;
    }
    jv::V ask(const std::string &type, const jv::V &payload, const std::string &note = "> ") {
        auto tok = post(type, payload, note);
        s.require(settle(tok), type + " is not answered");
        auto v = answers[tok];
        answers.erase(tok);
        return v;
    }
    void ok(const jv::V &v) { s.require(v.at("status").s == "success", "refused: " + jv::str(v)); }
    void command(const std::string &x) {
        auto p = jv::V::obj();
        p.set("command", x);
        ok(ask("command", p));
    }
    // reads everything the server has sent so far
    void flush() {
        auto p = jv::V::obj();
        p.set("command", "status");
        ok(ask("debugger-info", p, "# "));
    }

    // ---- requests that change breakpoints
    struct Change {
        std::string type;
        jv::V payload;
        std::function<void()> apply;
    };
    Change change() {
        Change r;
        r.payload = jv::V::obj();
        auto const &bp = s.pick(d.bps);
        auto const &t = d.stmt(bp);
        switch (s.weighted({6, 4, 3, 2, 1, 1, 1})) {
            case 0: {
                r.type = "breakpoint";
                r.payload.set("filename", t.file);
                r.payload.set("line_num", t.line);
                r.payload.set("action", "add");
                std::vector<const BP *> hit;
                for (auto const &o : d.bps)
                    if (d.stmt(o).file == t.file && d.stmt(o).line == t.line) hit.push_back(&o);
                r.apply = [this, hit]() {
                    for (auto *o : hit) model->add_normal(*o, std::nullopt, "");
                };
                break;
            }
            case 1: {
                r.type = "breakpoint";
                r.payload.set("filename", t.file);
                r.payload.set("line_num", t.line);
                r.payload.set("action", "remove");
                std::vector<uint32_t> ids;
                for (auto const &o : d.bps)
                    if (d.stmt(o).file == t.file && d.stmt(o).line == t.line) ids.push_back(o.id);
                r.apply = [this, ids]() {
                    for (auto id : ids) model->remove(id, 1);
                };
                break;
            }
            case 2: {
                r.type = "breakpoint-id";
                r.payload.set("id", bp.id);
                r.payload.set("action", "add");
                std::optional<Expr> e;
                std::string text;
                if (s.coin()) {
                    std::vector<std::string> names;
                    for (auto const &g : d.kind(bp).values()) {
                        bool shadowed = false;
                        for (auto const &v : t.vars) shadowed = shadowed || v.name == g;
                        if (!shadowed) names.push_back(g);
                    }
                    e = gen_expr(s, names, 1);
                    text = e->text();
                    r.payload.set("condition", text);
                }
                auto *p = &bp;
                r.apply = [this, p, e, text]() { model->add_normal(*p, e, text); };
                break;
            }
            case 3: {
                r.type = "breakpoint-id";
                r.payload.set("id", bp.id);
                r.payload.set("action", "remove");
                auto id = bp.id;
                r.apply = [this, id]() { model->remove(id, 1); };
                break;
            }
            case 4: {
                r.type = "debugger-info";
                r.payload.set("command", s.pick<std::string>({"breakpoints", "options", "design"}));
                r.apply = []() {};
                break;
            }
            case 5: {
                r.type = "bp-location";
                r.payload.set("filename", t.file);
                r.apply = []() {};
                break;
            }
            default: {
                r.type = "evaluation";
                r.payload.set("scope", "");
                r.payload.set("breakpoint_id", bp.id);
                r.payload.set("is_context", true);
                r.payload.set("expression", s.pick(d.kind(bp).values()) + " + 1");
                r.payload.set("namespace_id", d.namespaces(d.insts[bp.inst].top)[0]);
                r.apply = []() {};
                break;
            }
        }
        return r;
    }
    std::string key(uint64_t id, uint64_t ns) { return std::to_string(id) + "@" + std::to_string(ns); }
    std::set<std::string> dues() {
        std::set<std::string> r;
        for (auto &e : model->entries) {
            auto copy = *e;
            if (model->hit(copy)) r.insert(key(e->id, e->ns));
        }
        return r;
    }
    std::multiset<std::string> stopped(const jv::V &v) {
        std::multiset<std::string> r;
        for (auto const &i : v.at("payload").at("instances").a)
            r.insert(key(i.at("breakpoint_id").u, i.at("namespace_id").u));
        return r;
    }
    bool idle() {
        std::lock_guard l(b.m);
        return !b.busy;
    }

    void quiet_edge() {
        // nothing arrives while it is evaluated, except what a client in control sends
        model->start_eval();
        while (true) {
            auto want = model->next_stop();
            if (!want) break;
            auto end = ws::now() + 20;
            while (stops.empty() && ws::now() < end && !idle()) take(0.02);
            if (stops.empty()) flush();
            s.require(!stops.empty(), "did not stop at breakpoint " + key((*want)[0].id, (*want)[0].ns));
            auto v = stops.front();
            stops.pop_front();
            std::multiset<std::string> exp;
            for (auto const &x : *want) exp.insert(key(x.id, x.ns));
            auto got = stopped(v);
            s.require(got == exp, "stopped at " + jv::str(v.at("payload").at("instances")) + " instead of " + *exp.begin());
            s.eq(v.at("payload").at("time").u, sim->time_of(model->cur), "time of the stop");
            s.say("< stop");
            seen_stops++;
            s.require(!idle(), "the simulation goes on at a stop");
            unsigned n = s.draw(3);
            for (unsigned i = 0; i < n; i++) {
                auto x = change();
                ok(ask(x.type, x.payload));
                x.apply();
            }
            s.require(!idle(), "the simulation goes on at a stop");
            command("continue");
        }
        done(20);
        flush();
        s.require(stops.empty(), "unexpected stop " + (stops.empty() ? "" : jv::str(stops.front())));
    }
    void done(double timeout) {
        std::unique_lock l(b.m);
        s.require(b.cv.wait_for(l, std::chrono::duration<double>(timeout), [&] { return !b.busy; }),
                  "the simulation hangs at a clock edge");
    }
    void busy_edge() {
        // requests arrive at points inside
        std::vector<Change> todo;
        unsigned n = 1 + s.draw(3);
        for (unsigned i = 0; i < n; i++) todo.push_back(change());
        std::vector<unsigned> gaps;
        for (unsigned i = 0; i < n; i++) gaps.push_back(1 + s.draw(6));
        // what is due in every version and what in some
        auto all = dues(), some = all;
        std::set<std::string> always = all;
        size_t next = 0;
        std::multiset<std::string> got;
        std::vector<std::string> toks;
        auto end = ws::now() + 40;
        // applies to the model; touched: no longer judged
        std::set<std::string> touched;
        auto apply = [&](Change &x) {
            std::map<std::string, const void *> before;
            auto snap = [&]() {
                std::map<std::string, std::string> m;
                for (auto &e : model->entries) m[key(e->id, e->ns)] = e->user_text;
                return m;
            };
            auto m0 = snap();
            x.apply();
            auto m1 = snap();
            for (auto const &[k, v] : m0)
                if (!m1.count(k) || m1[k] != v) touched.insert(k);
            for (auto const &[k, v] : m1)
                if (!m0.count(k)) touched.insert(k);
            for (auto const &k : dues()) some.insert(k);
        };
        auto deliver = [&]() {
            auto &x = todo[next];
            toks.push_back(post(x.type, x.payload, ">> "));
            apply(x);
            next++;
            injected++;
            // it may have to wait until the evaluation is over
            settle(toks.back(), 0.01);
        };
        countdown = static_cast<int>(gaps[0]);
        while (true) {
            int at;
            bool busy;
            {
                std::unique_lock l(b.m);
                at = b.at;
                busy = b.busy;
            }
            s.require(ws::now() < end, "the simulation hangs at a clock edge");
            if (at == 1) {
                s.say("# in the evaluation");
                deliver();
                if (next < todo.size()) countdown = static_cast<int>(gaps[next]);
                {
                    std::lock_guard l(b.m);
                    b.at = 2;
                }
                b.cv.notify_all();
                std::this_thread::sleep_for(std::chrono::microseconds(300));
                continue;
            }
            if (!stops.empty()) {
                for (auto const &k : stopped(stops.front())) got.insert(k);
                stops.pop_front();
                seen_stops++;
                s.say("< stop");
                // in control: everything asked so far is answered
                for (auto const &t : toks) s.require(settle(t), "a request is not answered while the simulation is held");
                command("continue");
                continue;
            }
            if (!busy) break;
            c.timed_out = false;
            take(0.0005);
        }
        countdown = 0;
        for (; next < todo.size();) {
            toks.push_back(post(todo[next].type, todo[next].payload, "> "));
            apply(todo[next]);
            next++;
        }
        for (auto const &t : toks) {
            s.require(settle(t), "a request is not answered");
            ok(answers[t]);
            answers.erase(t);
        }
        flush();
        while (!stops.empty()) {
            s.fail("a stop is reported but the simulation is not held: " + jv::str(stops.front()));
        }
        for (auto const &k : got) s.require(some.count(k), "stopped at " + k + ", which was never due");
        for (auto const &k : always) {
            if (touched.count(k)) continue;
            s.eq(got.count(k), size_t(1), "times the simulation stopped at " + k + ", which was due throughout");
        }
    }

    void run() {
        Shape sh;
        sh.one_top = s.coin();
        d = gen_design(s, sh);
        for (auto &k : d.kinds)
            for (auto &t : k.stmts) t.trigger.clear();
        auto own = std::make_unique<LiveSim>();
        sim = own.get();
        sim->build(d);
        sim->gen_trace(s, 2 + s.draw(6));
        s.say(describe(d));
        model = std::make_unique<Model>(d, *sim);
        port = ws::free_port();
        if (!port) throw pbt::Discard{};
        sim->args = {"simv", "+DEBUG_NO_DB", "+DEBUG_PORT=" + std::to_string(port)};
        debugger = hgdb::initialize_hgdb_runtime_vpi(std::move(own), false);
        keep = debugger->rtl_clients()[0]->vpi();
        debugger->initialize_db(std::make_unique<ModelDB>(d));
        sim->hook = [this]() { point(); };
        thread = std::thread([this]() { run_sim(); });
        sim->sim_thread = thread.get_id();
        sim->armed = true;
        try {
            talk();
        } catch (...) {
            finish();
            throw;
        }
        finish();
        if (injected && seen_stops) s.nontrivial(s.text_);
    }
    void talk() {
        s.require(c.open(port), "cannot connect");
        auto p = jv::V::obj();
        p.set("db_filename", "");
        // the symbol table is loaded; the clock is watched from here on
        unsigned n = 1 + s.draw(4);
        attach();
        for (unsigned i = 0; i < n; i++) {
            auto x = change();
            ok(ask(x.type, x.payload));
            x.apply();
        }
        {
            std::lock_guard l(b.m);
            s.require(!b.up, "the simulation did not wait for the client");
        }
        command("continue");
        {
            std::unique_lock l(b.m);
            s.require(b.cv.wait_for(l, std::chrono::seconds(20), [&] { return b.up; }),
                      "the simulation is not released at its start");
        }
        for (int e = 0; e < static_cast<int>(sim->edges.size()); e++) {
            {
                std::lock_guard g(sim->mm);
                model->go(e);
            }
            bool loud = s.chance(60);
            s.say("edge " + std::to_string(e) + (loud ? " with requests" : ""));
            if (s.chance(40)) {
                auto x = change();
                ok(ask(x.type, x.payload));
                x.apply();
            }
            countdown = 0;
            if (loud) {
                // the requests are made up before the edge starts
                std::unique_lock l(b.m);
                b.at = 0;
                b.busy = true;
                b.go = e;
            } else {
                std::lock_guard l(b.m);
                b.busy = true;
                b.go = e;
            }
            b.cv.notify_all();
            if (loud)
                busy_edge();
            else
                quiet_edge();
        }
    }
    void attach() {
        // what the connection request does after the symbol table is there
        auto p = jv::V::obj();
        p.set("db_filename", "unused");
        ok(ask("connection", p));
    }
    void finish() {
        countdown = 0;
        auto end = ws::now() + 30;
        // let it go, whatever it waits for
        c.drop();
        while (ws::now() < end) {
            {
                std::lock_guard l(b.m);
                b.end = true;
                b.at = 2;
                if (b.ended) break;
            }
            b.cv.notify_all();
            {
                std::unique_lock l(b.m);
                if (b.cv.wait_for(l, std::chrono::milliseconds(100), [&] { return b.ended; })) break;
            }
            ws::Client x;
            if (x.open(port, 0.2)) {
                x.text("{\"request\":true,\"type\":\"command\",\"payload\":{\"command\":\"continue\"}}");
                x.read(0.01);
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        bool ended;
        {
            std::lock_guard l(b.m);
            ended = b.ended;
        }
        if (!ended) {
            fprintf(stderr, "the simulation cannot be ended\n");
            fflush(stderr);
            _exit(98);
        }
        thread.join();
    }
};

static void prop_session(pbt::Src &s) {
    Session x(s);
    x.run();
}

}  // namespace dbg

HGDB_TSAN_SUPPRESSIONS

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    return pbt::run_main(
        argc, argv,
        {{{.name = "srv_session", .chunk = 20, .again = 2, .attempts = 8}, dbg::prop_session},
         {{.name = "srv_session_races", .chunk = 10, .again = 1, .attempts = 10}, dbg::prop_session}});
}
