// A symbol table server of the harness: raw sockets, so that it decides how answers are cut into
// frames, when the connection ends and how.
#pragma once
#include <atomic>
#include <functional>
#include <thread>

#include "symcheck.hh"
#include "websocketpp/base64/base64.hpp"
#include "websocketpp/sha1/sha1.hpp"
#include "wsclient.hh"

namespace {
using jv::V;

V breakpoint(const hgdb::BreakPoint &b) {
    auto r = V::obj();
    r.set("id", b.id);
    r.set("instance_id", *b.instance_id);
    r.set("filename", b.filename);
    r.set("line_num", b.line_num);
    r.set("column_num", b.column_num);
    r.set("condition", b.condition);
    r.set("trigger", b.trigger);
    return r;
}
V variable(const hgdb::Variable &v) {
    auto r = V::obj();
    r.set("id", v.id);
    r.set("value", v.value);
    r.set("is_rtl", v.is_rtl);
    return r;
}
V strings(const std::vector<std::string> &l) {
    auto r = V::arr();
    for (auto const &x : l) r.a.push_back(V(x));
    return r;
}

// what a server says; nothing: an empty object
std::string answer(Provider &p, const std::string &text, std::string &complaint) {
    V q;
    try {
        q = jv::parse(text);
    } catch (const jv::Bad &) {
    }
    if (!q.is(V::Object) || !q.get("payload") || !q.at("payload").is(V::Object)) {
        complaint = "not a request: " + text;
        return "{}";
    }
    if (!q.get("request") || !q.at("request").b || !q.get("type") || q.at("type").s != "symbol")
        complaint = "not a request for symbols: " + text;
    auto const &l = q.at("payload");
    auto type = l.get("type") ? l.at("type").s : "";
    auto num = [&](const char *n) -> uint32_t {
        if (!l.get(n)) {
            complaint = std::string("no ") + n + " in " + text;
            return 0;
        }
        return static_cast<uint32_t>(l.at(n).u);
    };
    auto str = [&](const char *n) -> std::string {
        if (!l.get(n)) {
            complaint = std::string("no ") + n + " in " + text;
            return "";
        }
        return l.at(n).s;
    };
    auto r = V::obj();
    if (type == "get_breakpoint") {
        auto b = p.get_breakpoint(num("breakpoint_id"));
        if (b) r.set("result", breakpoint(*b));
    } else if (type == "get_breakpoints") {
        auto a = V::arr();
        auto line = num("line_num");
        auto col = num("col_num");
        for (auto const &b : line ? p.get_breakpoints(str("filename"), line, col) : p.get_breakpoints(str("filename")))
            a.a.push_back(breakpoint(b));
        r.set("result", a);
    } else if (type == "get_instance_name") {
        auto n = p.get_instance_name(num("instance_id"));
        if (n) r.set("result", *n);
    } else if (type == "get_instance_id") {
        auto n = l.get("instance_name") ? p.get_instance_id(str("instance_name"))
                                        : p.get_instance_id(static_cast<uint64_t>(num("breakpoint_id")));
        if (n) r.set("result", *n);
    } else if (type == "get_context_variables") {
        auto a = V::arr();
        for (auto const &[c, v] : p.get_context_variables(num("breakpoint_id"))) {
            auto x = V::obj();
            x.set("name", c.name);
            x.set("breakpoint_id", num("breakpoint_id"));
            x.set("variable_id", v.id);
            auto pair = V::arr();
            pair.a.push_back(x);
            pair.a.push_back(variable(v));
            a.a.push_back(pair);
        }
        r.set("result", a);
    } else if (type == "get_generator_variables") {
        auto a = V::arr();
        for (auto const &[c, v] : p.get_generator_variable(num("instance_id"))) {
            auto x = V::obj();
            x.set("name", c.name);
            x.set("instance_id", num("instance_id"));
            x.set("variable_id", v.id);
            x.set("annotation", c.annotation);
            auto pair = V::arr();
            pair.a.push_back(x);
            pair.a.push_back(variable(v));
            a.a.push_back(pair);
        }
        r.set("result", a);
    } else if (type == "get_instance_names") {
        r.set("result", strings(p.get_instance_names()));
    } else if (type == "get_annotation_values") {
        r.set("result", strings(p.get_annotation_values(str("name"))));
    } else if (type == "get_all_array_names") {
        r.set("result", strings(p.get_all_array_names()));
    } else if (type == "get_filenames") {
        r.set("result", strings(p.get_filenames()));
    } else if (type == "get_execution_bp_orders") {
        auto a = V::arr();
        for (auto i : p.execution_bp_orders()) a.a.push_back(V(i));
        r.set("result", a);
    } else if (type == "get_assigned_breakpoints") {
        auto a = V::arr();
        for (auto const &[id, var, cond] : p.get_assigned_breakpoints(str("name"), num("breakpoint_id"))) {
            auto x = V::obj();
            x.set("id", id);
            x.set("var", var);
            x.set("condition", cond);
            a.a.push_back(x);
        }
        r.set("result", a);
    } else {
        complaint = "unknown request " + type;
    }
    std::string o;
    jv::write(o, r, nullptr);
    return o;
}

struct Plan {
    enum How { Never, Drop, Reset, Close, Shut } how = Never;
    size_t after = 0;           // answers before the end; the request after them is read
    unsigned cut = 0;           // per cent of an answer in the first frame, 0: in one
    bool ping = false;
    unsigned delay = 0;         // microseconds before an answer
    bool split = false;         // the bytes of a frame in two writes
    enum Start { Good, NoAnswer, Garbage, Refused, BadKey } start = Good;
};

// one connection at a time
class Server {
public:
    Plan plan;
    uint16_t port = 0;
    std::string complaint;
    std::atomic<size_t> answered{0};

    // text of a request -> text of the answer, complaint
    using Answer = std::function<std::string(const std::string &, std::string &)>;
    Server(Provider *p, const Plan &plan_)
        : Server([p](const std::string &text, std::string &complaint) { return answer(*p, text, complaint); }, plan_) {}
    Server(Answer f, const Plan &plan_) : plan(plan_), reply(std::move(f)) {
        listener = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t n = sizeof a;
        if (listener < 0 || bind(listener, reinterpret_cast<sockaddr *>(&a), sizeof a) || listen(listener, 4) ||
            getsockname(listener, reinterpret_cast<sockaddr *>(&a), &n))
            return;
        port = ntohs(a.sin_port);
        thread = std::thread([this]() { serve(); });
    }
    ~Server() { stop(); }
    void stop() {
        over = true;
        if (thread.joinable()) thread.join();
        if (listener >= 0) ::close(listener);
        listener = -1;
    }

private:
    Answer reply;
    int listener = -1, fd = -1;
    std::thread thread;
    std::atomic<bool> over{false};
    std::string buf;

    bool fill() {
        while (!over) {
            pollfd p{fd, POLLIN, 0};
            // do not let the other side wait for acknowledgements
            int one = 1;
            setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
            if (poll(&p, 1, 5) <= 0) continue;
            char b[65536];
            auto n = recv(fd, b, sizeof b, 0);
            if (n <= 0) return false;
            buf.append(b, static_cast<size_t>(n));
            return true;
        }
        return false;
    }
    void put(const std::string &d) {
        size_t n = 0;
        while (n < d.size()) {
            auto r = ::send(fd, d.data() + n, d.size() - n, MSG_NOSIGNAL);
            if (r <= 0) return;
            n += static_cast<size_t>(r);
        }
    }
    void frame(int opcode, bool fin, const std::string &d) {
        std::string o;
        o += static_cast<char>((fin ? 0x80 : 0) | opcode);
        if (d.size() < 126)
            o += static_cast<char>(d.size());
        else if (d.size() < 65536) {
            o += static_cast<char>(126);
            o += static_cast<char>(d.size() >> 8);
            o += static_cast<char>(d.size());
        } else {
            o += static_cast<char>(127);
            for (int i = 7; i >= 0; i--) o += static_cast<char>(static_cast<uint64_t>(d.size()) >> (8 * i));
        }
        o += d;
        if (plan.split && o.size() > 3) {
            put(o.substr(0, 3));
            std::this_thread::sleep_for(std::chrono::microseconds(200));
            put(o.substr(3));
        } else {
            put(o);
        }
    }
    std::optional<ws::Frame> next(bool &fin) {
        while (true) {
            auto u = [&](size_t i) { return static_cast<uint64_t>(static_cast<unsigned char>(buf[i])); };
            if (buf.size() >= 2) {
                size_t at = 2;
                uint64_t n = u(1) & 127;
                bool have = true;
                if (n == 126) {
                    have = buf.size() >= 4;
                    if (have) n = u(2) << 8 | u(3);
                    at = 4;
                } else if (n == 127) {
                    have = buf.size() >= 10;
                    if (have) {
                        n = 0;
                        for (size_t i = 0; i < 8; i++) n = n << 8 | u(2 + i);
                    }
                    at = 10;
                }
                if (have && buf.size() >= at + 4 + n) {
                    ws::Frame f;
                    f.opcode = static_cast<int>(u(0) & 15);
                    fin = u(0) & 128;
                    f.text = buf.substr(at + 4, n);
                    for (size_t i = 0; i < n; i++) f.text[i] = static_cast<char>(f.text[i] ^ buf[at + i % 4]);
                    buf.erase(0, at + 4 + n);
                    return f;
                }
            }
            if (!fill()) return std::nullopt;
        }
    }
    void serve() {
        while (!over) {
            pollfd p{listener, POLLIN, 0};
            if (poll(&p, 1, 5) <= 0) continue;
            fd = accept(listener, nullptr, nullptr);
            if (fd < 0) continue;
            int one = 1;
            setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            buf.clear();
            connection();
            if (fd >= 0) ::close(fd);
            fd = -1;
            break;
        }
    }
    void connection() {
        if (plan.start == Plan::NoAnswer) return;
        while (buf.find("\r\n\r\n") == std::string::npos)
            if (!fill()) return;
        auto head = buf.substr(0, buf.find("\r\n\r\n"));
        buf.erase(0, head.size() + 4);
        if (plan.start == Plan::Garbage) {
            put("hello\r\n\r\n");
            return;
        }
        if (plan.start == Plan::Refused) {
            put("HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n");
            return;
        }
        auto at = head.find("Sec-WebSocket-Key: ");
        if (at == std::string::npos) return;
        auto key = head.substr(at + 19, head.find("\r\n", at) - at - 19) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
        unsigned char sum[20];
        websocketpp::sha1::calc(key.data(), static_cast<int>(key.size()), sum);
        if (plan.start == Plan::BadKey) sum[0] ^= 1;
        put("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " +
            websocketpp::base64_encode(sum, 20) + "\r\n\r\n");
        std::string whole;
        while (!over) {
            if (plan.how != Plan::Never && plan.how != Plan::Shut && answered == plan.after && whole.empty() &&
                plan.delay % 2 == 0) {
                // gone between two requests
                end();
                return;
            }
            bool fin = true;
            auto f = next(fin);
            if (!f) return;
            if (f->opcode == 8) {
                frame(8, true, f->text);
                return;
            }
            if (f->opcode > 2) continue;
            whole += f->text;
            if (!fin) continue;
            if (plan.how != Plan::Never && answered == plan.after) {
                end();
                return;
            }
            auto r = reply(whole, complaint);
            whole.clear();
            if (plan.delay) std::this_thread::sleep_for(std::chrono::microseconds(plan.delay));
            answered++;
            if (plan.ping) frame(9, true, "x");
            if (plan.cut) {
                auto n = r.size() * plan.cut / 100;
                frame(1, false, r.substr(0, n));
                if (plan.ping) frame(9, true, "");
                frame(0, true, r.substr(n));
            } else {
                frame(1, true, r);
            }
        }
    }
    void end() {
        switch (plan.how) {
            case Plan::Close: {
                frame(8, true, std::string("\x03\xe8", 2));
                bool fin;
                while (auto f = next(fin))
                    if (f->opcode == 8) break;
                break;
            }
            case Plan::Shut:
                // half an answer
                put(std::string("\x81\x20{\"result", 10));
                break;
            case Plan::Reset: {
                linger l{1, 0};
                setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
                break;
            }
            default:
                break;
        }
        ::close(fd);
        fd = -1;
    }
};

}  // namespace
