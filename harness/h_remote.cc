// h_remote.cc - a symbol table on the other side of a websocket.
//
// A table is generated and served by a small websocket server of the harness (raw sockets, so that
// it decides how answers are cut into frames, when the connection ends and how).  The provider that
// hgdb makes from the ws:// address has to answer as the table does; when the server is gone or
// never was one, it has to say so instead of waiting.
#include "remserver.hh"
#include "symquery.hh"
HGDB_TSAN_SUPPRESSIONS

namespace {

Plan gen_plan(Src &s) {
    Plan p;
    p.cut = s.chance(40) ? static_cast<unsigned>(s.range(1, 99)) : 0;
    p.ping = s.chance(20);
    p.split = s.chance(10);
    return p;
}

std::unique_ptr<Provider> connect(const Server &sv) {
    return hgdb::create_symbol_table("ws://127.0.0.1:" + std::to_string(sv.port));
}

void prop_remote(Src &s) {
    auto m = gen_table(s);
    Json local;
    s.require(local.parse(m.text), "a well-formed symbol table is refused");
    Server sv(&local, gen_plan(s));
    if (!sv.port) throw pbt::Discard{};
    auto p = connect(sv);
    s.require(p && !p->bad(), "no table at a server that is there");
    size_t stmts = 0;
    for (auto const &i : m.t.instances) stmts += m.t.stmts[i.module].size();
    if (stmts >= 2) s.nontrivial(m.text);
    Checker c{s, m.t, *p};
    c.all();
    p.reset();
    sv.stop();
    s.require(sv.complaint.empty(), sv.complaint);
    s.label(sv.answered > 200 ? "many requests" : "few requests");
}

void prop_gone(Src &s) {
    auto m = gen_table(s);
    Json local, reference;
    s.require(local.parse(m.text) && reference.parse(m.text), "a well-formed symbol table is refused");
    auto qs = gen_queries(s, m.t, reference, s.range(1, 12));
    for (auto &q : qs)
        if (!rounds(q)) q.kind %= 14;
    for (auto &q : qs)
        if (q.kind <= 3 && q.kind >= 1 && q.name.empty()) q.name = "a.cc";
    auto plan = gen_plan(s);
    plan.split = false;
    plan.after = s.draw(qs.size());
    plan.how = s.pick<Plan::How>({Plan::Drop, Plan::Reset, Plan::Close, Plan::Shut});
    plan.delay = static_cast<unsigned>(s.draw(2));
    Server sv(&local, plan);
    if (!sv.port) throw pbt::Discard{};
    std::string text = m.text + " ends after " + std::to_string(plan.after) + " how " + std::to_string(plan.how);
    for (auto const &q : qs) text += " " + q.str();
    s.say(text);
    auto p = connect(sv);
    if (plan.after == 0 && plan.delay == 0 && plan.how != Plan::Shut && !p) return;
    s.require(p != nullptr, "no table at a server that is there");
    if (plan.after) s.nontrivial(text);
    for (size_t i = 0; i < qs.size(); i++) {
        auto got = ask(*p, qs[i]);
        auto want = i < plan.after ? ask(reference, qs[i]) : "";
        s.require(got == want, "answer " + std::to_string(i) + " to " + qs[i].str() + ": " + got + ", expected " +
                                   (i < plan.after ? want : "nothing, as the server is gone"));
    }
    p.reset();
    sv.stop();
    s.require(sv.complaint.empty(), sv.complaint);
}

void prop_many(Src &s) {
    auto m = gen_table(s);
    Json local, reference;
    s.require(local.parse(m.text) && reference.parse(m.text), "a well-formed symbol table is refused");
    size_t n = s.range(2, 4);
    std::vector<std::vector<Query>> qs;
    std::vector<std::vector<std::string>> want, got(n);
    std::string text = m.text;
    for (size_t i = 0; i < n; i++) {
        qs.push_back(gen_queries(s, m.t, reference, s.range(1, 12)));
        want.emplace_back();
        for (auto const &q : qs.back()) {
            want.back().push_back(ask(reference, q));
            text += " " + q.str();
        }
        text += " |";
    }
    auto plan = gen_plan(s);
    plan.split = false;
    plan.delay = static_cast<unsigned>(s.pick<unsigned>({0, 0, 20, 100}));
    Server sv(&local, plan);
    if (!sv.port) throw pbt::Discard{};
    s.say(text);
    s.nontrivial(text);
    auto p = connect(sv);
    s.require(p != nullptr, "no table at a server that is there");
    std::vector<std::thread> ts;
    std::atomic<size_t> ready{0};
    for (size_t i = 0; i < n; i++)
        ts.emplace_back([&, i]() {
            ready++;
            while (ready < n) std::this_thread::yield();
            for (auto const &q : qs[i]) got[i].push_back(ask(*p, q));
        });
    for (auto &t : ts) t.join();
    p.reset();
    sv.stop();
    for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < qs[i].size(); k++)
            s.require(got[i][k] == want[i][k], "thread " + std::to_string(i) + ", answer to " + qs[i][k].str() + ": " +
                                                   got[i][k] + ", expected " + want[i][k]);
    s.require(sv.complaint.empty(), sv.complaint);
}

void prop_connect(Src &s) {
    auto kind = s.draw(3);
    std::string uri;
    std::unique_ptr<Server> sv;
    if (kind == 0) {
        auto port = ws::free_port();
        if (!port) throw pbt::Discard{};
        uri = "ws://127.0.0.1:" + std::to_string(port);
    } else if (kind == 1) {
        uri = "ws://" + s.pick<std::string>({"", ":", ":80", "127.0.0.1:0", "127.0.0.1:99999", "127.0.0.1:x", "[", "[::1",
                                             "127.0.0.1:-1", "/", "//", "?", "127.0.0.1:1:2", "[::1]:x"});
    } else {
        Plan p;
        p.start = s.pick<Plan::Start>({Plan::NoAnswer, Plan::Garbage, Plan::Refused, Plan::BadKey});
        sv = std::make_unique<Server>(nullptr, p);
        if (!sv->port) throw pbt::Discard{};
        uri = "ws://127.0.0.1:" + std::to_string(sv->port);
        if (s.chance(30)) uri += "/";
        s.label("start " + std::to_string(p.start));
    }
    auto text = std::to_string(kind) + " " + uri;
    s.say(text);
    s.nontrivial(text);
    auto p = hgdb::create_symbol_table(uri);
    s.require(!p || p->bad(), "a table from " + uri);
}

}  // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv,
                         {{{.name = "rem_query", .cpu_limit = 20, .wall_limit = 15}, prop_remote},
                          {{.name = "rem_gone", .cpu_limit = 20, .wall_limit = 15, .again = 1, .attempts = 10}, prop_gone},
                          {{.name = "rem_many", .cpu_limit = 20, .wall_limit = 15, .again = 1, .attempts = 10}, prop_many},
                          {{.name = "rem_races", .cpu_limit = 20, .wall_limit = 15, .again = 1, .attempts = 10}, prop_many},
                          {{.name = "rem_connect", .cpu_limit = 20, .wall_limit = 15}, prop_connect}});
}
