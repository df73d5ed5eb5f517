// jv.hh - a JSON value, a writer (plain, or with generated layout) and a strict parser, all written
// independently of the JSON library of the code under test.
#pragma once
#include <cmath>

#include "pbt.hh"

namespace jv {

struct V;
using Obj = std::vector<std::pair<std::string, V>>;
using Arr = std::vector<V>;

struct V {
    enum T { Null, Bool, Int, Uint, Dbl, Str, Array, Object } t = Null;
    bool b = false;
    int64_t i = 0;   // Int: negative numbers
    uint64_t u = 0;  // Uint: numbers >= 0
    double d = 0;
    std::string s;
    Arr a;
    Obj o;

    V() = default;
    V(bool v) : t(Bool), b(v) {}
    V(int v) : V(static_cast<int64_t>(v)) {}
    V(int64_t v) {
        if (v < 0) {
            t = Int;
            i = v;
        } else {
            t = Uint;
            u = static_cast<uint64_t>(v);
        }
    }
    V(uint32_t v) : t(Uint), u(v) {}
    V(uint64_t v) : t(Uint), u(v) {}
    V(double v) : t(Dbl), d(v) {}
    V(const char *v) : t(Str), s(v) {}
    V(std::string v) : t(Str), s(std::move(v)) {}
    V(Arr v) : t(Array), a(std::move(v)) {}
    V(Obj v) : t(Object), o(std::move(v)) {}

    static V obj() { return V(Obj{}); }
    static V arr() { return V(Arr{}); }

    bool is(T x) const { return t == x; }
    const V *get(const std::string &k) const {
        for (auto const &[n, v] : o)
            if (n == k) return &v;
        return nullptr;
    }
    V *get(const std::string &k) {
        for (auto &[n, v] : o)
            if (n == k) return &v;
        return nullptr;
    }
    const V &at(const std::string &k) const {
        static const V none;
        auto const *r = get(k);
        return r ? *r : none;
    }
    V &set(const std::string &k, V v) {
        t = Object;
        if (auto *p = get(k)) {
            *p = std::move(v);
            return *p;
        }
        o.emplace_back(k, std::move(v));
        return o.back().second;
    }
    void push(V v) {
        t = Array;
        a.push_back(std::move(v));
    }
    bool operator==(const V &x) const {
        if (t != x.t) return false;
        switch (t) {
            case Null:
                return true;
            case Bool:
                return b == x.b;
            case Int:
                return i == x.i;
            case Uint:
                return u == x.u;
            case Dbl:
                return d == x.d;
            case Str:
                return s == x.s;
            case Array:
                return a == x.a;
            case Object: {
                // member order does not matter
                if (o.size() != x.o.size()) return false;
                for (auto const &[k, v] : o) {
                    auto const *p = x.get(k);
                    if (!p || !(*p == v)) return false;
                }
                return true;
            }
        }
        return false;
    }
};

inline void quote(std::string &out, const std::string &s, pbt::Src *src = nullptr) {
    out += '"';
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            out += '\\';
            out += static_cast<char>(c);
        } else if (c < 0x20 || c == 0x7f) {
            snprintf(buf, sizeof(buf), "\\u%04x", c);
            out += buf;
        } else if (src && c < 0x80 && src->draw(40) == 39) {
            snprintf(buf, sizeof(buf), "\\u%04X", c);
            out += buf;
        } else if (src && c == '/' && src->draw(3) == 2) {
            out += "\\/";
        } else {
            out += static_cast<char>(c);
        }
    }
    out += '"';
}

// src: generated white space and escapes
inline void write(std::string &out, const V &v, pbt::Src *src = nullptr) {
    auto ws = [&]() {
        if (!src) return;
        static const char *w[] = {"", "", "", " ", "\n", "\t", "  ", "\r\n"};
        out += w[src->draw(8)];
    };
    switch (v.t) {
        case V::Null:
            out += "null";
            break;
        case V::Bool:
            out += v.b ? "true" : "false";
            break;
        case V::Int:
            out += std::to_string(v.i);
            break;
        case V::Uint:
            out += std::to_string(v.u);
            break;
        case V::Dbl: {
            char buf[64];
            snprintf(buf, sizeof(buf), "%.17g", v.d);
            out += buf;
            if (out.find_first_of(".eE", out.size() - strlen(buf)) == std::string::npos)
                out += ".0";
            break;
        }
        case V::Str:
            quote(out, v.s, src);
            break;
        case V::Array: {
            out += '[';
            bool first = true;
            for (auto const &x : v.a) {
                if (!first) out += ',';
                first = false;
                ws();
                write(out, x, src);
                ws();
            }
            out += ']';
            break;
        }
        case V::Object: {
            out += '{';
            bool first = true;
            for (auto const &[k, x] : v.o) {
                if (!first) out += ',';
                first = false;
                ws();
                quote(out, k, src);
                ws();
                out += ':';
                ws();
                write(out, x, src);
                ws();
            }
            out += '}';
            break;
        }
    }
}

inline std::string str(const V &v, pbt::Src *src = nullptr) {
    std::string r;
    write(r, v, src);
    return r;
}

inline std::ostream &operator<<(std::ostream &o, const V &v) { return o << str(v); }

struct Bad {
    std::string why;
};

struct Parser {
    const std::string &s;
    size_t p = 0;
    bool unique_keys = true;

    [[noreturn]] void bad(const std::string &w) {
        throw Bad{w + " at offset " + std::to_string(p)};
    }
    void ws() {
        while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) p++;
    }
    V all() {
        ws();
        V v = value(0);
        ws();
        if (p != s.size()) bad("text after the value");
        return v;
    }
    void lit(const char *w) {
        if (s.compare(p, strlen(w), w) != 0) bad("unexpected text");
        p += strlen(w);
    }
    std::string string() {
        if (p >= s.size() || s[p] != '"') bad("string expected");
        p++;
        std::string r;
        while (true) {
            if (p >= s.size()) bad("unterminated string");
            unsigned char c = static_cast<unsigned char>(s[p++]);
            if (c == '"') return r;
            if (c < 0x20) bad("control character in string");
            if (c != '\\') {
                r += static_cast<char>(c);
                continue;
            }
            if (p >= s.size()) bad("unterminated escape");
            char e = s[p++];
            switch (e) {
                case '"':
                case '\\':
                case '/':
                    r += e;
                    break;
                case 'b':
                    r += '\b';
                    break;
                case 'f':
                    r += '\f';
                    break;
                case 'n':
                    r += '\n';
                    break;
                case 'r':
                    r += '\r';
                    break;
                case 't':
                    r += '\t';
                    break;
                case 'u': {
                    auto hex4 = [&]() {
                        if (p + 4 > s.size()) bad("short \\u");
                        unsigned v = 0;
                        for (int k = 0; k < 4; k++) {
                            char h = s[p++];
                            v <<= 4;
                            if (h >= '0' && h <= '9')
                                v |= static_cast<unsigned>(h - '0');
                            else if ((h | 32) >= 'a' && (h | 32) <= 'f')
                                v |= static_cast<unsigned>((h | 32) - 'a' + 10);
                            else
                                bad("bad \\u");
                        }
                        return v;
                    };
                    unsigned v = hex4();
                    if (v >= 0xd800 && v < 0xdc00) {
                        if (s.compare(p, 2, "\\u") != 0) bad("lone surrogate");
                        p += 2;
                        unsigned lo = hex4();
                        if (lo < 0xdc00 || lo > 0xdfff) bad("lone surrogate");
                        v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
                    } else if (v >= 0xdc00 && v < 0xe000) {
                        bad("lone surrogate");
                    }
                    if (v < 0x80) {
                        r += static_cast<char>(v);
                    } else if (v < 0x800) {
                        r += static_cast<char>(0xc0 | (v >> 6));
                        r += static_cast<char>(0x80 | (v & 63));
                    } else if (v < 0x10000) {
                        r += static_cast<char>(0xe0 | (v >> 12));
                        r += static_cast<char>(0x80 | ((v >> 6) & 63));
                        r += static_cast<char>(0x80 | (v & 63));
                    } else {
                        r += static_cast<char>(0xf0 | (v >> 18));
                        r += static_cast<char>(0x80 | ((v >> 12) & 63));
                        r += static_cast<char>(0x80 | ((v >> 6) & 63));
                        r += static_cast<char>(0x80 | (v & 63));
                    }
                    break;
                }
                default:
                    bad("bad escape");
            }
        }
    }
    V value(unsigned depth) {
        if (depth > 2000) bad("too deep");
        if (p >= s.size()) bad("value expected");
        char c = s[p];
        if (c == 'n') {
            lit("null");
            return V();
        }
        if (c == 't') {
            lit("true");
            return V(true);
        }
        if (c == 'f') {
            lit("false");
            return V(false);
        }
        if (c == '"') return V(string());
        if (c == '[') {
            V r = V::arr();
            p++;
            ws();
            if (p < s.size() && s[p] == ']') {
                p++;
                return r;
            }
            while (true) {
                ws();
                r.push(value(depth + 1));
                ws();
                if (p >= s.size()) bad("unterminated array");
                if (s[p] == ',') {
                    p++;
                    continue;
                }
                if (s[p] == ']') {
                    p++;
                    return r;
                }
                bad("',' or ']' expected");
            }
        }
        if (c == '{') {
            V r = V::obj();
            p++;
            ws();
            if (p < s.size() && s[p] == '}') {
                p++;
                return r;
            }
            while (true) {
                ws();
                auto k = string();
                ws();
                if (p >= s.size() || s[p] != ':') bad("':' expected");
                p++;
                ws();
                auto v = value(depth + 1);
                if (unique_keys && r.get(k)) bad("duplicate member " + k);
                r.o.emplace_back(k, std::move(v));
                ws();
                if (p >= s.size()) bad("unterminated object");
                if (s[p] == ',') {
                    p++;
                    continue;
                }
                if (s[p] == '}') {
                    p++;
                    return r;
                }
                bad("',' or '}' expected");
            }
        }
        // number
        size_t b = p;
        if (s[p] == '-') p++;
        if (p >= s.size() || !isdigit(static_cast<unsigned char>(s[p]))) bad("value expected");
        if (s[p] == '0') {
            p++;
        } else {
            while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) p++;
        }
        bool frac = false;
        if (p < s.size() && s[p] == '.') {
            frac = true;
            p++;
            if (p >= s.size() || !isdigit(static_cast<unsigned char>(s[p]))) bad("digit expected");
            while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) p++;
        }
        if (p < s.size() && (s[p] | 32) == 'e') {
            frac = true;
            p++;
            if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++;
            if (p >= s.size() || !isdigit(static_cast<unsigned char>(s[p]))) bad("digit expected");
            while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) p++;
        }
        auto t = s.substr(b, p - b);
        if (!frac) {
            errno = 0;
            if (t[0] == '-') {
                long long v = strtoll(t.c_str(), nullptr, 10);
                if (!errno) return V(static_cast<int64_t>(v));
            } else {
                unsigned long long v = strtoull(t.c_str(), nullptr, 10);
                if (!errno) return V(static_cast<uint64_t>(v));
            }
        }
        return V(strtod(t.c_str(), nullptr));
    }
};

inline V parse(const std::string &s) {
    Parser p{s};
    return p.all();
}

// what the code under test sent must be strict JSON
inline V parse_or_fail(pbt::Src &src, const std::string &s, const std::string &what) {
    try {
        return parse(s);
    } catch (const Bad &b) {
        src.fail(what + " is not valid JSON (" + b.why + "): " + s.substr(0, 500));
    }
}

// strings of any content but NUL
inline std::string gen_string(pbt::Src &s, size_t max = 12) {
    static const std::vector<std::string> bits = {
        "a", "b",  "x1", "_",  ".",  "/", "\\", "\"", "\n", "\t", " ",    "[0]",  "\xc3\xa9",
        "0", "42", "-",  "\x01", "{", "}", ":",  ",",  "'",  "&&", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "true",
        "null"};
    std::string r;
    size_t n = s.draw(3) == 0 ? s.draw(3) : s.len(0, max);
    for (size_t i = 0; i < n; i++) r += s.pick(bits);
    return r;
}

inline V gen_any(pbt::Src &s, unsigned depth) {
    switch (s.draw(depth ? 9 : 7)) {
        case 0:
            return V();
        case 1:
            return V(s.coin());
        case 2:
            return V(static_cast<uint64_t>(s.draw(100)));
        case 3:
            return V(static_cast<uint64_t>(s.bits(64)));
        case 4:
            return V(-1 - static_cast<int64_t>(s.bits(63)));
        case 5:
            return V(gen_string(s));
        case 6:
            return V(static_cast<double>(static_cast<int64_t>(s.draw(2000)) - 1000) / 8.0 + 0.0625);
        case 7: {
            V r = V::arr();
            size_t n = s.draw(4);
            for (size_t i = 0; i < n; i++) r.push(gen_any(s, depth - 1));
            return r;
        }
        default: {
            V r = V::obj();
            size_t n = s.draw(4);
            for (size_t i = 0; i < n; i++) r.set(gen_string(s, 3), gen_any(s, depth - 1));
            return r;
        }
    }
}
}  // namespace jv
