// wsclient.hh - a small blocking websocket client (RFC 6455) on a raw socket, so that the harness
// decides what is sent when, how it is cut into frames and how a connection ends.
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstring>
#include <optional>
#include <string>
#include <thread>

namespace ws {

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// a port nobody uses at the moment, 0 if there is none (no loopback, no IPv6)
inline uint16_t free_port() {
    int f = socket(AF_INET6, SOCK_STREAM, 0);
    if (f < 0) return 0;
    int off = 0;
    setsockopt(f, IPPROTO_IPV6, IPV6_V6ONLY, &off, sizeof off);
    sockaddr_in6 a{};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_any;
    uint16_t p = 0;
    socklen_t n = sizeof a;
    if (bind(f, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0 && listen(f, 1) == 0 &&
        getsockname(f, reinterpret_cast<sockaddr *>(&a), &n) == 0)
        p = ntohs(a.sin6_port);
    close(f);
    return p;
}

struct Frame {
    int opcode = 0;
    std::string text;
};

class Client {
public:
    ~Client() { drop(); }
    Client() = default;
    Client(const Client &) = delete;

    bool open(uint16_t port, double timeout = 20) {
        auto end = now() + timeout;
        while (now() < end) {
            fd = socket(AF_INET, SOCK_STREAM, 0);
            if (fd < 0) return false;
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(port);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0) break;
            ::close(fd);
            fd = -1;
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        if (fd < 0) return false;
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        std::string req =
            "GET / HTTP/1.1\r\nHost: 127.0.0.1:" + std::to_string(port) +
            "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
            "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
        if (!put(req)) return false;
        while (buf.find("\r\n\r\n") == std::string::npos)
            if (!more(end)) return false;
        auto head = buf.substr(0, buf.find("\r\n\r\n"));
        buf.erase(0, head.size() + 4);
        return head.rfind("HTTP/1.1 101", 0) == 0;
    }
    // connect, and nothing else
    bool knock(uint16_t port) {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        if (fd < 0) return false;
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        return connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0;
    }
    bool put(const std::string &d) {
        size_t n = 0;
        while (n < d.size()) {
            auto r = ::send(fd, d.data() + n, d.size() - n, MSG_NOSIGNAL);
            if (r <= 0) return false;
            n += static_cast<size_t>(r);
        }
        return true;
    }
    static std::string frame(int opcode, bool fin, const std::string &d) {
        std::string o;
        o += static_cast<char>((fin ? 0x80 : 0) | opcode);
        if (d.size() < 126)
            o += static_cast<char>(0x80 | d.size());
        else if (d.size() < 65536) {
            o += static_cast<char>(0x80 | 126);
            o += static_cast<char>(d.size() >> 8);
            o += static_cast<char>(d.size());
        } else {
            o += static_cast<char>(0x80 | 127);
            for (int i = 7; i >= 0; i--) o += static_cast<char>(static_cast<uint64_t>(d.size()) >> (8 * i));
        }
        const char mask[4] = {0x12, 0x5a, 0x33, 0x7e};
        o.append(mask, 4);
        for (size_t i = 0; i < d.size(); i++) o += static_cast<char>(d[i] ^ mask[i % 4]);
        return o;
    }
    bool text(const std::string &d) { return put(frame(1, true, d)); }
    // the same message in pieces
    bool pieces(const std::string &d, size_t cut) {
        cut = std::min(cut, d.size());
        return put(frame(1, false, d.substr(0, cut))) && put(frame(0, true, d.substr(cut)));
    }
    // next text or close frame; nothing on end of connection or timeout
    std::optional<Frame> read(double timeout = 20) {
        auto end = now() + timeout;
        std::string whole;
        while (true) {
            auto f = one();
            if (!f) {
                if (!more(end)) return std::nullopt;
                continue;
            }
            if (f->opcode == 9) {
                put(frame(10, true, f->text));
                continue;
            }
            if (f->opcode == 10) continue;
            if (f->opcode == 8) return f;
            whole += f->text;
            if (!fin_) continue;
            return Frame{1, whole};
        }
    }
    bool timed_out = false;
    bool eof = false;
    void drop(bool reset = false) {
        if (fd < 0) return;
        if (reset) {
            linger l{1, 0};
            setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        }
        ::close(fd);
        fd = -1;
        buf.clear();
    }
    bool is_open() const { return fd >= 0; }

private:
    int fd = -1;
    std::string buf;
    bool fin_ = true;

    bool more(double end) {
        // do not let the other side wait for acknowledgements
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
        auto left = end - now();
        pollfd p{fd, POLLIN, 0};
        int r = poll(&p, 1, left > 0 ? static_cast<int>(left * 1000) + 1 : 0);
        if (r <= 0) {
            timed_out = true;
            return false;
        }
        char b[65536];
        auto n = recv(fd, b, sizeof b, 0);
        if (n <= 0) {
            eof = true;
            return false;
        }
        buf.append(b, static_cast<size_t>(n));
        return true;
    }
    std::optional<Frame> one() {
        if (buf.size() < 2) return std::nullopt;
        auto u = [&](size_t i) { return static_cast<uint64_t>(static_cast<unsigned char>(buf[i])); };
        size_t at = 2;
        uint64_t n = u(1) & 127;
        if (n == 126) {
            if (buf.size() < 4) return std::nullopt;
            n = u(2) << 8 | u(3);
            at = 4;
        } else if (n == 127) {
            if (buf.size() < 10) return std::nullopt;
            n = 0;
            for (size_t i = 0; i < 8; i++) n = n << 8 | u(2 + i);
            at = 10;
        }
        if (buf.size() < at + n) return std::nullopt;
        Frame f;
        f.opcode = static_cast<int>(u(0) & 15);
        fin_ = u(0) & 128;
        f.text = buf.substr(at, n);
        buf.erase(0, at + n);
        return f;
    }
};

}  // namespace ws

// races inside the network libraries are not judged (see also tsan.ignore)
extern "C" inline const char *tsan_network_suppressions() {
    return "race_top:^websocketpp::\nrace_top:^asio::\nrace_top:^std::__shared_ptr<asio::\n"
           "race_top:^std::shared_ptr<asio::\n"
           "race:^websocketpp::connection<websocketpp::config::asio>::terminate(\n"
           "race:^websocketpp::connection<websocketpp::config::asio>::close(\n";
}
#define HGDB_TSAN_SUPPRESSIONS \
    extern "C" const char *__tsan_default_suppressions() { return tsan_network_suppressions(); }
