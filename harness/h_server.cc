// h_server.cc - the websocket server and the lock that holds the simulation, with real sockets and
// real threads: histories of clients that come, talk, are talked to and leave, against a model of
// who must receive what.
#include <atomic>
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>

#include "pbt.hh"
#include "server.hh"
#include "thread.hh"
#include "wsclient.hh"

using pbt::Src;

struct Room {
    Src &s;
    std::unique_ptr<hgdb::DebugServer> server;
    std::thread thread;
    std::atomic<bool> failed{false};
    uint16_t port = 0;
    std::mutex m;
    std::vector<std::pair<uint64_t, std::string>> got;
    std::atomic<unsigned> lost{0};  // times all clients were gone
    std::map<std::string, std::pair<std::string, std::string>> inner;  // what the handler does on a text

    explicit Room(Src &s) : s(s) {}
    bool start() {
        for (int k = 0; k < 20; k++) {
            port = ws::free_port();
            if (!port) return false;
            server = std::make_unique<hgdb::DebugServer>();
            auto *srv = server.get();
            server->set_on_message([this, srv](const std::string &t, uint64_t id) {
                if (t.rfind("sync:", 0) == 0) {
                    srv->send(t, id);
                    return;
                }
                {
                    std::lock_guard l(m);
                    got.emplace_back(id, t);
                }
                // what the debugger does from here
                if (t.rfind("join:", 0) == 0) srv->add_to_topic(t.substr(5), id);
                if (t.rfind("part:", 0) == 0) srv->remove_from_topic(t.substr(5), id);
                if (t.rfind("echo:", 0) == 0) srv->send(t.substr(5), id);
                if (t.rfind("tell:", 0) == 0) srv->send(t.substr(5));
            });
            server->set_on_call_client_disconnect([this]() { lost++; });
            failed = false;
            thread = std::thread([this, srv]() {
                try {
                    srv->run(port);
                } catch (const std::exception &) {
                    failed = true;
                }
            });
            ws::Client probe;
            // up when somebody accepts
            auto end = ws::now() + 20;
            while (!failed && ws::now() < end) {
                if (probe.open(port, 0.05)) break;
            }
            if (!failed && probe.is_open()) {
                probe.text("sync:probe");
                auto f = probe.read();
                s.require(f && f->text == "sync:probe", "a client does not get an answer to its first message");
                close(probe);
                waitlost(1);
                return true;
            }
            thread.join();
        }
        s.fail("the server does not come up");
        return false;
    }
    void waitlost(unsigned n) {
        auto end = ws::now() + 20;
        while (lost < n && ws::now() < end) std::this_thread::sleep_for(std::chrono::microseconds(200));
        s.eq(lost.load(), n, "times the loss of all clients was reported");
    }
    static void close(ws::Client &c) {
        c.put(ws::Client::frame(8, true, std::string("\x03\xe8", 2)));
        while (auto f = c.read()) {
        }
        c.drop();
    }
    ~Room() {
        if (thread.joinable()) {
            server->stop();
            thread.join();
        }
    }
};

struct Peer {
    ws::Client c;
    uint64_t id = 0;
    std::vector<std::string> sent, want;
    bool in = true;
};

static std::string gen_text(Src &s) {
    switch (s.weighted({6, 2, 1, 1, 1})) {
        case 0:
            return "m" + std::to_string(s.draw(1000));
        case 1:
            return "{\"request\":true,\"type\":\"x\",\"payload\":{\"a\":" + std::to_string(s.draw(100)) + "}}";
        case 2:
            return "";
        case 3:
            return std::string(s.pick<size_t>({125, 126, 127, 1000, 65535, 65536, 70000}),
                               static_cast<char>('a' + s.draw(26)));
        default:
            return "\xc3\xa4\xe2\x82\xac\n\t\"\\" + std::to_string(s.draw(10));
    }
}

static void routing(Src &s, bool storms) {
    Room room(s);
    if (!room.start()) throw pbt::Discard{};
    std::vector<std::unique_ptr<Peer>> peers;
    std::set<uint64_t> ids;
    std::map<std::string, std::set<uint64_t>> topics;
    unsigned lost = 1, syncs = 0, delivered = 0, drops = 0;
    auto live = [&]() {
        std::vector<Peer *> r;
        for (auto &p : peers)
            if (p->in) r.push_back(p.get());
        return r;
    };
    auto sync = [&](Peer &p) {
        auto mark = "sync:" + std::to_string(syncs++);
        s.require(p.c.text(mark), "the server dropped a client");
        for (size_t i = 0;; i++) {
            auto f = p.c.read();
            s.require(f.has_value() && f->opcode == 1,
                      "client " + std::to_string(p.id) + ": no message, expected " +
                          (i < p.want.size() ? p.want[i].substr(0, 40) : mark));
            if (f->text == mark) {
                s.eq(i, p.want.size(), "number of messages to client " + std::to_string(p.id) +
                                           (i < p.want.size() ? " (missing " + p.want[i].substr(0, 40) + ")" : ""));
                break;
            }
            s.require(i < p.want.size(), "client " + std::to_string(p.id) + " got a message not for it: " +
                                             f->text.substr(0, 60));
            s.require(f->text == p.want[i], "client " + std::to_string(p.id) + " got " + f->text.substr(0, 60) +
                                                " instead of " + p.want[i].substr(0, 60));
            delivered++;
        }
        p.want.clear();
    };
    auto say = [&](Peer &p, const std::string &t) {
        bool pieces = s.chance(15);
        s.require(pieces ? p.c.pieces(t, s.draw(t.size() + 1)) : p.c.text(t), "the server dropped a client");
        p.sent.push_back(t);
    };
    auto heard = [&]() {
        std::lock_guard l(room.m);
        std::map<uint64_t, std::vector<std::string>> by;
        for (auto const &[id, t] : room.got) by[id].push_back(t);
        for (auto &p : peers) {
            auto const &g = by[p->id];
            s.eq(g.size(), p->sent.size(), "messages heard from client " + std::to_string(p->id));
            for (size_t i = 0; i < g.size(); i++)
                s.require(g[i] == p->sent[i], "heard " + g[i].substr(0, 60) + " instead of " + p->sent[i].substr(0, 60));
        }
        size_t n = 0;
        for (auto &p : peers) n += p->sent.size();
        s.eq(room.got.size(), n, "messages heard in all");
    };
    auto joined = [&](std::unique_ptr<Peer> p) {
        say(*p, "hello");
        auto mark = "sync:j" + std::to_string(syncs++);
        p->c.text(mark);
        auto f = p->c.read();
        s.require(f && f->text == mark, "a new client gets no answer");
        {
            std::lock_guard l(room.m);
            bool found = false;
            for (auto it = room.got.rbegin(); it != room.got.rend() && !found; it++) {
                if (it->second != "hello" || ids.count(it->first)) continue;
                p->id = it->first;
                found = true;
            }
            s.require(found, "the first message of a client was not heard under an id of its own");
        }
        s.require(ids.insert(p->id).second, "connection id " + std::to_string(p->id) + " used twice");
        peers.push_back(std::move(p));
    };
    unsigned n = 4 + s.draw(25);
    for (unsigned k = 0; k < n; k++) {
        auto l = live();
        auto any_id = [&]() -> uint64_t {
            if (peers.empty() || s.chance(10)) return s.draw(40);
            return peers[s.draw(peers.size())]->id;
        };
        auto topic = [&]() { return s.pick<std::string>({"a", "b", "watch-1"}); };
        auto is_live = [&](uint64_t id) -> Peer * {
            for (auto *p : l)
                if (p->id == id) return p;
            return nullptr;
        };
        switch (s.weighted({l.size() < 4 ? 6u : 0u, l.empty() ? 0u : 5u, 5, 5, 4, 4, 2, l.empty() ? 0u : 3u,
                            l.empty() ? 0u : 4u, storms ? 4u : 0u})) {
            case 0: {
                auto p = std::make_unique<Peer>();
                s.say("connect");
                s.require(p->c.open(room.port), "cannot connect");
                joined(std::move(p));
                break;
            }
            case 1: {
                auto *p = s.pick(l);
                auto t = gen_text(s);
                s.say("client " + std::to_string(p->id) + " says " + t.substr(0, 40));
                say(*p, t);
                break;
            }
            case 2: {
                auto t = gen_text(s);
                s.say("to all: " + t.substr(0, 40));
                room.server->send(t);
                for (auto *p : l) p->want.push_back(t);
                break;
            }
            case 3: {
                auto t = gen_text(s);
                auto id = any_id();
                s.say("to " + std::to_string(id) + ": " + t.substr(0, 40));
                room.server->send(t, id);
                if (auto *p = is_live(id)) p->want.push_back(t);
                break;
            }
            case 4: {
                auto t = gen_text(s);
                auto x = topic();
                s.say("to topic " + x + ": " + t.substr(0, 40));
                room.server->send(t, x);
                for (auto id : topics[x])
                    if (auto *p = is_live(id)) p->want.push_back(t);
                break;
            }
            case 5: {
                auto x = topic();
                auto id = any_id();
                s.say("add " + std::to_string(id) + " to topic " + x);
                room.server->add_to_topic(x, id);
                // an id that is not given out yet would name a client to come
                if (ids.count(id))
                    topics[x].insert(id);
                else
                    room.server->remove_from_topic(x, id);
                break;
            }
            case 6: {
                auto x = topic();
                auto id = any_id();
                s.say("remove " + std::to_string(id) + " from topic " + x);
                room.server->remove_from_topic(x, id);
                topics[x].erase(id);
                break;
            }
            case 7: {
                auto *p = s.pick(l);
                auto how = s.draw(3);
                s.say("client " + std::to_string(p->id) + (how == 0 ? " closes" : how == 1 ? " hangs up" : " is reset"));
                sync(*p);
                if (how == 0)
                    Room::close(p->c);
                else
                    p->c.drop(how == 2);
                p->in = false;
                drops++;
                if (l.size() == 1) room.waitlost(++lost);
                break;
            }
            case 8: {
                // things done in the message handler
                auto *p = s.pick(l);
                auto x = topic();
                switch (s.draw(4)) {
                    case 0:
                        s.say("client " + std::to_string(p->id) + " joins " + x);
                        say(*p, "join:" + x);
                        topics[x].insert(p->id);
                        break;
                    case 1:
                        s.say("client " + std::to_string(p->id) + " leaves " + x);
                        say(*p, "part:" + x);
                        topics[x].erase(p->id);
                        break;
                    case 2:
                        s.say("client " + std::to_string(p->id) + " wants an answer");
                        say(*p, "echo:yes");
                        p->want.push_back("yes");
                        break;
                    default:
                        s.say("client " + std::to_string(p->id) + " tells all");
                        say(*p, "tell:all");
                        for (auto *q : l) q->want.push_back("all");
                        break;
                }
                sync(*p);
                break;
            }
            default: {
                // the simulation talks while clients come and go
                unsigned count = 20 + s.draw(100), visitors = 1 + s.draw(3);
                bool closing = s.coin();
                auto x = topic();
                s.say("storm of " + std::to_string(count) + " with " + std::to_string(visitors) + " visitors");
                std::atomic<unsigned> bad{0}, spoke{0};
                bool empty = l.empty();
                std::thread guests([&]() {
                    for (unsigned v = 0; v < visitors; v++) {
                        ws::Client c;
                        if (!c.open(room.port)) {
                            bad++;
                            return;
                        }
                        c.text("join:" + x);
                        c.text("sync:guest");
                        spoke++;
                        long last = -1;
                        while (true) {
                            auto f = c.read();
                            if (!f || f->opcode != 1) {
                                bad++;
                                break;
                            }
                            if (f->text == "sync:guest") break;
                            if (f->text.rfind("storm ", 0) == 0) {
                                long k2 = std::stol(f->text.substr(6));
                                if (last >= 0 && k2 != last + 1 && k2 != last) bad++;
                                last = k2;
                            }
                        }
                        if (closing) Room::close(c);
                    }
                });
                for (unsigned i = 0; i < count; i++) {
                    auto t = "storm " + std::to_string(i);
                    room.server->send(t);
                    for (auto *p : l) p->want.push_back(t);
                    if (i % 3 == 0) {
                        room.server->send(t, x);
                        for (auto id : topics[x])
                            if (auto *p = is_live(id)) p->want.push_back(t);
                    }
                }
                guests.join();
                s.eq(bad.load(), 0u, "clients that came during the storm and were treated badly");
                {
                    std::lock_guard g(room.m);
                    std::set<uint64_t> theirs;
                    std::erase_if(room.got, [&](auto const &e) {
                        bool mine = false;
                        for (auto &p : peers) mine = mine || p->id == e.first;
                        if (!mine) theirs.insert(e.first);
                        return !mine;
                    });
                    s.eq(theirs.size(), static_cast<size_t>(visitors), "connection ids of the visitors");
                    for (auto id : theirs) s.require(ids.insert(id).second, "connection id used twice");
                }
                // they may overlap, so that the last one is reported once or several times
                if (empty) {
                    auto end = ws::now() + 20;
                    while (room.lost < lost + 1 && ws::now() < end)
                        std::this_thread::sleep_for(std::chrono::microseconds(200));
                    s.require(room.lost > lost, "the loss of all clients was not reported");
                    // settled when a new client is the only one
                    auto p = std::make_unique<Peer>();
                    s.require(p->c.open(room.port), "cannot connect");
                    std::this_thread::sleep_for(std::chrono::milliseconds(20));
                    joined(std::move(p));
                    sync(*peers.back());
                    lost = room.lost;
                }
                s.label("storm");
                break;
            }
        }
        if (s.chance(25))
            for (auto *p : live()) sync(*p);
    }
    for (auto *p : live()) sync(*p);
    heard();
    if (s.coin()) {
        s.say("all leave");
        auto l = live();
        for (auto *p : l) Room::close(p->c), p->in = false;
        if (!l.empty()) room.waitlost(++lost);
    }
    // some come just as the server stops
    std::atomic<bool> over{false};
    std::vector<std::thread> comers;
    if (storms && s.coin()) {
        size_t n = s.range(1, 3);
        auto delay = s.draw(3000);
        auto shake = s.coin();
        s.say(std::to_string(n) + " keep coming");
        s.label("comers");
        for (size_t i = 0; i < n; i++)
            comers.emplace_back([&over, &room, shake]() {
                while (!over) {
                    ws::Client c;
                    if (shake)
                        c.open(room.port, 0.02);
                    else
                        c.knock(room.port);
                    c.drop();
                }
            });
        std::this_thread::sleep_for(std::chrono::microseconds(delay));
    }
    s.say("stop");
    room.server->stop();
    auto end = ws::now() + 20;
    std::atomic<bool> done{false};
    room.thread.join();
    done = over = true;
    for (auto &c : comers) c.join();
    s.require(ws::now() < end, "the server does not stop");
    // nothing is sent after that, and nothing breaks
    room.server->send("late");
    room.server->send("late", "a");
    room.server->send("late", 0);
    room.server.reset();
    for (auto *p : live()) {
        // the connection ends
        while (auto f = p->c.read()) {
            s.require(f->opcode == 8, "a message after the server was stopped: " + f->text.substr(0, 60));
        }
        s.require(p->c.eof, "the connection stays open after the server is gone");
    }
    if (delivered) s.nontrivial(s.text_);
    if (drops) s.label("drops");
}

static void prop_routing(Src &s) { routing(s, false); }
static void prop_storm(Src &s) { routing(s, true); }

// ------------------------------------------------------------------------------------- the lock
// a simulation that waits n times, and somebody who releases it
static void prop_lock(Src &s) {
    struct Shared {
        hgdb::RuntimeLock lock;
        std::atomic<unsigned> asked{0}, passed{0};
    };
    auto sh = std::make_shared<Shared>();
    unsigned n = 1 + s.draw(12);
    std::vector<unsigned> sim_delay;
    for (unsigned i = 0; i < n; i++) sim_delay.push_back(s.pick<unsigned>({0, 0, 1, 20, 200}));
    std::thread sim([sh, sim_delay]() {
        for (auto d : sim_delay) {
            if (d) std::this_thread::sleep_for(std::chrono::microseconds(d));
            sh->asked++;
            sh->lock.wait();
            sh->passed++;
        }
    });
    std::string err;
    auto until = [&](auto f) {
        auto end = ws::now() + 20;
        while (!f() && ws::now() < end) std::this_thread::yield();
        return f();
    };
    bool negative = false, early = false;
    for (unsigned i = 0; i < n && err.empty(); i++) {
        // exactly i releases so far, each used up
        if (!until([&]() { return sh->passed >= i; })) err = "release " + std::to_string(i) + " was lost";
        if (s.chance(50)) {
            until([&]() { return sh->asked > i; });
            if (s.chance(60)) {
                std::this_thread::sleep_for(std::chrono::microseconds(s.pick<unsigned>({10, 100, 1000})));
                negative = true;
            }
        } else {
            early = true;
        }
        if (sh->passed > i) err = "went on without a release";
        s.say("release " + std::to_string(i));
        sh->lock.ready();
    }
    if (err.empty() && !until([&]() { return sh->passed >= n; })) err = "the last release was lost";
    if (!err.empty()) {
        // let the thread go
        for (int k = 0; k < 2000 && sh->passed < n; k++) {
            sh->lock.ready();
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        if (sh->passed >= n)
            sim.join();
        else
            sim.detach();
        s.fail(err);
    }
    sim.join();
    std::string key;
    for (auto d : sim_delay) key += std::to_string(d) + ",";
    if (negative || early) s.nontrivial(key + s.text_);
}

HGDB_TSAN_SUPPRESSIONS

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    return pbt::run_main(argc, argv,
                         {{{.name = "srv_routing", .chunk = 50}, prop_routing},
                          {{.name = "srv_storm", .chunk = 50, .again = 1, .attempts = 15}, prop_storm},
                          {{.name = "srv_races", .chunk = 20, .again = 1, .attempts = 15}, prop_storm},
                          {{.name = "srv_lock"}, prop_lock}});
}
