// C01: expressions mean what they mean in C, over 64-bit two's complement integers, or are rejected.
#include "eval.hh"

#include "pbt.hh"

using pbt::Src;

// ---------------------------------------------------------------------------------------------
// reference: an ordinary recursive-descent parser and evaluator, written from the C operator table
// (https://en.cppreference.com/w/c/language/operator_precedence) and the documented operand syntax
// ---------------------------------------------------------------------------------------------
namespace ref {
struct Node {
    std::string op;  // "" for leaves
    bool is_sym = false;
    std::string sym;
    int64_t value = 0;
    std::vector<std::unique_ptr<Node>> kids;
};
using P = std::unique_ptr<Node>;

static const std::vector<std::vector<std::string>> LEVELS = {
    {"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<=", ">=", "<", ">"}, {"+", "-"},
    {"*", "/", "%"}};

struct Eval {
    const std::map<std::string, int64_t> &env;
    bool poison = false;
    int64_t run(const Node &n) {
        if (n.op.empty()) return n.is_sym ? (env.count(n.sym) ? env.at(n.sym) : 0) : n.value;
        auto u = [](int64_t v) { return static_cast<uint64_t>(v); };
        auto i = [](uint64_t v) { return static_cast<int64_t>(v); };
        int64_t a = run(*n.kids[0]);
        if (n.kids.size() == 1) {
            if (n.op == "!") return a == 0;
            if (n.op == "~") return ~a;
            if (n.op == "-") return i(0 - u(a));
            return a;
        }
        if (n.op == "&&") return a == 0 ? 0 : (run(*n.kids[1]) != 0);
        if (n.op == "||") return a != 0 ? 1 : (run(*n.kids[1]) != 0);
        int64_t b = run(*n.kids[1]);
        if (n.op == "+") return i(u(a) + u(b));
        if (n.op == "-") return i(u(a) - u(b));
        if (n.op == "*") return i(u(a) * u(b));
        if (n.op == "/" || n.op == "%") {
            if (b == 0 || (b == -1 && a == INT64_MIN)) {
                poison = true;
                return 0;
            }
            return n.op == "/" ? a / b : a % b;
        }
        if (n.op == "==") return a == b;
        if (n.op == "!=") return a != b;
        if (n.op == "<") return a < b;
        if (n.op == ">") return a > b;
        if (n.op == "<=") return a <= b;
        if (n.op == ">=") return a >= b;
        if (n.op == "&") return a & b;
        if (n.op == "|") return a | b;
        return a ^ b;
    }
};

struct Bad {};

struct Parser {
    const std::string &s;
    size_t p = 0;
    bool huge = false;  // literal that does not fit: outside of the property
    std::set<std::string> syms;

    static bool sp(char c) {
        return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f';
    }
    static bool al(char c) {
        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '$';
    }
    static bool dg(char c) { return c >= '0' && c <= '9'; }
    static bool xd(char c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
    char at(size_t k) const { return k < s.size() ? s[k] : '\0'; }
    void ws() {
        while (p < s.size() && sp(s[p])) p++;
    }
    P all() {
        auto n = bin(0);
        ws();
        if (p != s.size()) throw Bad{};
        return n;
    }
    std::string op_at(size_t level) {
        ws();
        for (auto const &o : LEVELS[level]) {
            if (s.compare(p, o.size(), o) == 0) {
                // & is not &&, | is not ||
                if ((o == "&" || o == "|") && at(p + 1) == o[0]) continue;
                return o;
            }
        }
        return "";
    }
    P bin(size_t level) {
        if (level == LEVELS.size()) return unary();
        auto l = bin(level + 1);
        while (true) {
            auto o = op_at(level);
            if (o.empty()) return l;
            p += o.size();
            auto r = bin(level + 1);
            auto n = std::make_unique<Node>();
            n->op = o;
            n->kids.push_back(std::move(l));
            n->kids.push_back(std::move(r));
            l = std::move(n);
        }
    }
    P unary() {
        ws();
        char c = at(p);
        if (p < s.size() && (c == '!' || c == '~' || c == '+' || c == '-')) {
            p++;
            auto k = unary();
            auto n = std::make_unique<Node>();
            n->op = std::string(1, c);
            n->kids.push_back(std::move(k));
            return n;
        }
        return primary();
    }
    P primary() {
        ws();
        if (p >= s.size()) throw Bad{};
        if (s[p] == '(') {
            p++;
            auto n = bin(0);
            ws();
            if (at(p) != ')') throw Bad{};
            p++;
            return n;
        }
        if (dg(s[p])) {
            std::string d;
            while (p < s.size() && dg(s[p])) d += s[p++];
            auto n = std::make_unique<Node>();
            unsigned base = 10;
            if (at(p) == '\'' && at(p + 1) == 'h' && xd(at(p + 2))) {
                p += 2;
                d.clear();
                while (p < s.size() && xd(s[p])) d += s[p++];
                base = 16;
            }
            __uint128_t v = 0;
            for (char ch : d) {
                unsigned x = dg(ch) ? ch - '0' : (ch | 32) - 'a' + 10;
                v = v * base + x;
                if (v > static_cast<__uint128_t>(INT64_MAX)) {
                    huge = true;
                    v = 0;
                }
            }
            n->value = static_cast<int64_t>(v);
            return n;
        }
        // a.b[0].c
        std::string name;
        while (true) {
            if (!al(at(p)) || p >= s.size()) throw Bad{};
            while (p < s.size() && (al(s[p]) || dg(s[p]))) name += s[p++];
            while (at(p) == '[') {
                size_t q = p + 1;
                if (al(at(q))) {
                    while (al(at(q)) || dg(at(q))) q++;
                } else {
                    if (!dg(at(q))) throw Bad{};
                    while (dg(at(q))) q++;
                    if (at(q) == ':') {
                        q++;
                        if (!dg(at(q))) throw Bad{};
                        while (dg(at(q))) q++;
                    }
                }
                if (at(q) != ']') throw Bad{};
                name += s.substr(p, q + 1 - p);
                p = q + 1;
            }
            if (at(p) == '.') {
                name += '.';
                p++;
                continue;
            }
            break;
        }
        auto n = std::make_unique<Node>();
        n->is_sym = true;
        n->sym = name;
        syms.insert(name);
        return n;
    }
};
}  // namespace ref

// ---------------------------------------------------------------------------------------------
static std::string gen_name(Src &s) {
    static const std::vector<std::string> heads = {"a", "b", "c",   "_x",   "$t",
                                                   "A9", "clk", "io_in", "a0$b0"};
    std::string n = s.pick(heads);
    size_t parts = s.draw(6) == 5 ? s.draw(3) : 0;
    for (size_t i = 0; i < parts; i++) {
        switch (s.draw(4)) {
            case 0:
                n += "[" + std::to_string(s.draw(20)) + "]";
                break;
            case 1:
                n += "[" + std::to_string(s.draw(64)) + ":" + std::to_string(s.draw(64)) + "]";
                break;
            case 2:
                n += "[" + s.pick(heads) + "]";
                break;
            default:
                n += "." + s.pick(heads);
        }
    }
    return n;
}

static ref::P gen_ast(Src &s, unsigned depth) {
    auto n = std::make_unique<ref::Node>();
    size_t k = depth == 0 ? s.draw(2) : s.weighted({2, 3, 2, 8});
    if (k == 0) {
        n->value = static_cast<int64_t>(s.bits(63));
        return n;
    }
    if (k == 1) {
        n->is_sym = true;
        n->sym = gen_name(s);
        return n;
    }
    if (k == 2) {
        static const std::vector<std::string> ops = {"!", "~", "-", "+"};
        n->op = s.pick(ops);
        n->kids.push_back(gen_ast(s, depth - 1));
        return n;
    }
    static const std::vector<std::string> ops = {"+",  "-",  "*", "/", "%",  "==", "!=", "<", ">",
                                                 "<=", ">=", "&", "|", "^", "&&", "||"};
    n->op = s.pick(ops);
    n->kids.push_back(gen_ast(s, depth - 1));
    n->kids.push_back(gen_ast(s, depth - 1));
    return n;
}

static size_t prec(const ref::Node &n) {
    if (n.op.empty()) return 100;
    if (n.kids.size() == 1) return 50;
    for (size_t i = 0; i < ref::LEVELS.size(); i++)
        for (auto const &o : ref::LEVELS[i])
            if (o == n.op) return i;
    return 0;
}

static std::string blank(Src &s, unsigned style) {
    if (style == 0) return "";
    if (style == 1) return " ";
    static const std::vector<std::string> w = {"", " ", "  ", "\t", "\n", " \r\n", "\v", "\f"};
    return s.pick(w);
}

struct Printer {
    Src &s;
    unsigned style;
    unsigned redundant;  // percent of redundant brackets
    unsigned unary_brackets = 0;
    std::string lit(int64_t v) {
        if (s.draw(3) == 2) {
            char buf[64];
            snprintf(buf, sizeof(buf), s.coin() ? "%u'h%lX" : "%u'h%lx",
                     static_cast<unsigned>(s.draw(65)), static_cast<unsigned long>(v));
            std::string r = buf;
            if (s.draw(8) == 7) r.insert(r.find('h') + 1, "00");
            return r;
        }
        return (s.draw(10) == 9 ? "0" : "") + std::to_string(v);
    }
    std::string out(const ref::Node &n, size_t need) {
        std::string r;
        size_t my = prec(n);
        bool br = my < need || (redundant && s.chance(redundant));
        if (n.op.empty()) {
            r = n.is_sym ? n.sym : lit(n.value);
        } else if (n.kids.size() == 1) {
            r = n.op + blank(s, style) + out(*n.kids[0], 50);
        } else {
            // all binary operators associate to the left
            auto l = out(*n.kids[0], my);
            r = l + blank(s, style) + n.op + blank(s, style) + out(*n.kids[1], my + 1);
        }
        if (br) r = "(" + blank(s, style) + r + blank(s, style) + ")";
        return r;
    }
};

static void collect(const ref::Node &n, std::set<std::string> &syms, size_t &ops) {
    if (n.is_sym) syms.insert(n.sym);
    if (!n.op.empty()) ops++;
    for (auto const &k : n.kids) collect(*k, syms, ops);
}

static int64_t gen_value(Src &s) {
    switch (s.draw(4)) {
        case 0:
            return static_cast<int64_t>(s.draw(4));
        case 1:
            return static_cast<int64_t>(s.draw(16)) - 8;
        default:
            return static_cast<int64_t>(s.bits(64));
    }
}

static void compare(Src &s, hgdb::DebugExpression &e, const ref::Node &n,
                    const std::set<std::string> &syms, const std::string &text) {
    std::set<std::string> got(e.symbols().begin(), e.symbols().end());
    s.require(got == syms, "the symbols of '" + text + "' are wrong");
    s.eq(e.size(), syms.size(), "number of symbols");
    for (auto const &x : syms) s.require(e.find(x) != e.end(), "symbol " + x + " not found");
    // some symbols are static
    std::map<std::string, int64_t> env;
    std::unordered_map<std::string, int64_t> stat;
    std::set<std::string> required = syms;
    for (auto const &x : syms) {
        if (s.draw(4) == 3) {
            stat[x] = env[x] = gen_value(s);
            required.erase(x);
        }
    }
    stat["not_used_here"] = 3;
    e.set_static_values(stat);
    auto req = e.get_required_symbols();
    s.require(std::set<std::string>(req.begin(), req.end()) == required,
              "the symbols that need a value are not the non-static ones");
    size_t rounds = 1 + s.draw(3);
    for (size_t r = 0; r < rounds; r++) {
        std::unordered_map<std::string, int64_t> vals;
        for (auto const &x : required) {
            if (r > 0 && s.draw(3) == 0) continue;  // keeps its value
            vals[x] = env[x] = gen_value(s);
        }
        if (s.coin()) {
            e.set_values(vals);
        } else {
            for (auto const &[k, v] : vals) e.set_value(k, v);
        }
        for (auto const &[k, v] : vals) s.say("  " + k + " = " + std::to_string(v));
        ref::Eval ev{env};
        int64_t want = ev.run(n);
        int64_t have = e.eval();
        s.label(ev.poison ? "divides by zero" : "value compared");
        if (!ev.poison)
            s.eq(have, want, "value of '" + text + "'");
        int64_t twice = e.eval();
        s.eq(twice, have, "second evaluation of '" + text + "'");
    }
}

static void prop_ast(Src &s) {
    auto n = gen_ast(s, 1 + s.draw(5));
    Printer p{s, static_cast<unsigned>(s.draw(3)), s.draw(3) == 2 ? 30u : 0u};
    std::string text = blank(s, p.style) + p.out(*n, 0) + blank(s, p.style);
    if (text.size() > 3000) throw pbt::Discard{};
    s.say(text);
    std::set<std::string> syms;
    size_t ops = 0;
    collect(*n, syms, ops);
    if (ops >= 2) s.nontrivial(text);
    s.label(ops == 0 ? "leaf" : ops < 3 ? "1-2 operators" : ops < 8 ? "3-7 operators" : "8+ operators");
    hgdb::DebugExpression e(text);
    s.require(e.correct(), "'" + text + "' is rejected");
    compare(s, e, *n, syms, text);
}

// strings near and far from the grammar: accepted exactly when the reference accepts them
static void prop_string(Src &s) {
    std::string text;
    if (s.draw(3) != 0) {
        auto n = gen_ast(s, 1 + s.draw(3));
        Printer p{s, static_cast<unsigned>(s.draw(3)), s.draw(3) == 2 ? 30u : 0u};
        text = p.out(*n, 0);
        size_t edits = 1 + s.draw(3);
        static const std::string alphabet = "ab0159+-*/%!~&|^<>=()[]:.'h$_ \t#@\"\\,?{};x";
        for (size_t i = 0; i < edits; i++) {
            size_t at = text.empty() ? 0 : s.draw(text.size());
            switch (s.draw(4)) {
                case 0:
                    if (!text.empty()) text.erase(at, 1 + s.draw(2));
                    break;
                case 1:
                    text.insert(at, 1, alphabet[s.draw(alphabet.size())]);
                    break;
                case 2:
                    if (!text.empty()) text[at] = alphabet[s.draw(alphabet.size())];
                    break;
                default:
                    text.resize(at);
            }
        }
    } else {
        static const std::vector<std::string> tok = {
            "a",  "b",  "1",  "42", "8'hff", "(",  ")",  "+", "-",    "*",   "/",     "%",    "==",
            "!=", "<",  ">",  "<=", ">=",    "&&", "||", "&", "|",    "^",   "!",     "~",    "=",
            " ",  "[",  "]",  ":",  ".",     "'h", "a[", "]", "[3:0]", "a.b", "a[b]", "a[1]", "$x",
            "?",  "\"", "\\", ",",  "0x1",   "1.5", "\xff", "'"};
        size_t n = s.len(0, 20);
        for (size_t i = 0; i < n; i++) text += s.pick(tok);
    }
    if (text.size() > 400) throw pbt::Discard{};
    // bounded nesting: the property is not about running out of stack
    if (std::count(text.begin(), text.end(), '(') > 60) throw pbt::Discard{};
    s.say(text);
    ref::Parser rp{text};
    ref::P n;
    bool good = true;
    try {
        n = rp.all();
    } catch (const ref::Bad &) {
        good = false;
    }
    s.nontrivial(text);
    s.label(good ? "accepted" : "rejected");
    hgdb::DebugExpression e(text);
    s.require(e.correct() == good,
              "'" + text + "' is " + (good ? "rejected" : "accepted, and is not an expression"));
    if (good && !rp.huge) {
        compare(s, e, *n, rp.syms, text);
    } else {
        e.eval();
    }
}

// two expressions joined: the value of one does not depend on the other, and rewriting with
// brackets does not change a value
static void prop_algebra(Src &s) {
    auto x = gen_ast(s, 1 + s.draw(3));
    auto y = gen_ast(s, 1 + s.draw(3));
    Printer p{s, 1, 0};
    auto tx = p.out(*x, 0), ty = p.out(*y, 0);
    s.say(tx);
    s.say(ty);
    s.nontrivial(tx + "#" + ty);
    std::set<std::string> syms;
    size_t ops = 0;
    collect(*x, syms, ops);
    collect(*y, syms, ops);
    std::map<std::string, int64_t> env;
    for (auto const &k : syms) env[k] = gen_value(s);
    ref::Eval ev{env};
    int64_t vx = ev.run(*x), vy = ev.run(*y);
    if (ev.poison) throw pbt::Discard{};
    auto value = [&](const std::string &t) {
        hgdb::DebugExpression e(t);
        s.require(e.correct(), "'" + t + "' is rejected");
        for (auto const &sym : e.symbols()) e.set_value(sym, env.at(sym));
        return e.eval();
    };
    auto a = "(" + tx + ")", b = "(" + ty + ")";
    s.eq(value(a), value(tx), "brackets around '" + tx + "'");
    s.eq(value(a + "&&" + b), vx != 0 && vy != 0, "&& of two expressions");
    s.eq(value(a + "||" + b), vx != 0 || vy != 0, "|| of two expressions");
    s.eq(value("!" + a), vx == 0, "! of an expression");
    s.eq(value(a + "-" + a), 0, "x - x");
    s.eq(value(a + "==" + b), value(b + "==" + a), "== commutes");
    s.eq(value(a + "<" + b), value(b + ">" + a), "< and >");
    s.eq(value(a + "<=" + b), !value(a + ">" + b), "<= and >");
    s.eq(value("~~" + a), vx, "~~x");
    s.eq(value("- -" + a), vx, "- -x");
    s.eq(value(a + " ^ " + b + " ^ " + b), vx, "x ^ y ^ y");
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv,
                         {{{.name = "eval_ast", .cpu_limit = 20}, prop_ast},
                          {{.name = "eval_string"}, prop_string},
                          {{.name = "eval_algebra"}, prop_algebra}});
}
