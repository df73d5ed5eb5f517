// Value change dump files: what the reader reports is what the file says.
#include "pbt.hh"

#include "../tools/vcd/vcd.hh"

using pbt::Src;
namespace vcd = hgdb::vcd;

namespace {

struct Event {
    std::string text;
};

std::string lower(std::string s) {
    for (auto &c : s) c = static_cast<char>(tolower(c));
    return s;
}

std::vector<std::string> words(const std::string &s) {
    std::vector<std::string> out;
    std::istringstream ss(s);
    std::string w;
    while (ss >> w) out.push_back(w);
    return out;
}

std::string joined(const std::vector<std::string> &v) {
    std::string r;
    for (auto const &x : v) r += (r.empty() ? "" : " ") + x;
    return r;
}

// what the reader reported, one line per call
struct Seen {
    std::vector<std::string> events;
    bool ok = false;
    std::string error;
};

void hook(vcd::VCDParser &p, Seen &seen) {
    p.set_on_meta_info([&](const vcd::VCDMetaInfo &m) {
        seen.events.push_back("meta " + std::to_string(static_cast<int>(m.type)) + " " +
                              joined(words(m.value)));
    });
    p.set_on_enter_scope([&](const vcd::VCDScopeDef &d) {
        seen.events.push_back("scope " + d.type + " " + d.name);
    });
    p.set_exit_scope([&]() { seen.events.push_back("upscope"); });
    p.set_on_var_def([&](const vcd::VCDVarDef &d) {
        seen.events.push_back("var " + d.type + " " + std::to_string(d.width) + " " +
                              d.identifier + " " + d.name + " <" + d.slice + ">");
    });
    p.set_on_definition_finished([&]() { seen.events.push_back("definitions end"); });
    p.set_on_time_change(
        [&](uint64_t t) { seen.events.push_back("time " + std::to_string(t)); });
    p.set_value_change([&](const vcd::VCDValue &v) {
        seen.events.push_back("value " + v.identifier + "=" + lower(v.value) + " at " +
                              std::to_string(v.time) + (v.is_event ? " scalar" : " vector"));
    });
    p.set_on_dump_var_action(
        [&](const std::string &a) { seen.events.push_back("action " + a); });
}

Seen read_stream(const std::string &text) {
    Seen r;
    std::istringstream ss(text);
    vcd::VCDParser p(ss);
    hook(p, r);
    r.ok = p.parse();
    r.error = p.error_message();
    return r;
}

Seen read_file(const std::string &text) {
    char name[] = "/tmp/pbt_vcd_XXXXXX";
    int fd = mkstemp(name);
    if (fd < 0) throw std::runtime_error("mkstemp");
    size_t off = 0;
    while (off < text.size()) {
        auto n = write(fd, text.data() + off, text.size() - off);
        if (n <= 0) break;
        off += static_cast<size_t>(n);
    }
    close(fd);
    Seen r;
    struct Remove {
        const char *n;
        ~Remove() { unlink(n); }
    } remove{name};
    vcd::VCDParser p{std::string(name)};
    hook(p, r);
    r.ok = p.parse();
    r.error = p.error_message();
    return r;
}

struct Gen {
    Src &s;
    std::string text;
    std::vector<Event> events;
    std::vector<size_t> ends;  // offset in the text where event i is complete
    size_t values = 0, times = 0, vars = 0, dumps = 0;
    bool big_time = false, real_value = false;
    std::vector<std::string> ids;
    bool last_space = true;

    explicit Gen(Src &src) : s(src) {}

    void space() {
        static const std::vector<std::string> sp = {" ", "\n", "\t", "\r\n", "  ", "\n\n", " \n ",
                                                    "\f"};
        text += s.chance(70) ? (s.coin() ? "\n" : " ") : s.pick(sp);
    }
    void tok(const std::string &t) {
        if (!text.empty()) space();
        text += t;
    }
    void event(const std::string &e) {
        events.push_back({e});
        ends.push_back(text.size());
    }
    std::string word(bool first_any = false) {
        std::string r;
        size_t n = s.len(1, 8);
        for (size_t i = 0; i < n; i++) {
            if (first_any || s.chance(20))
                r += static_cast<char>(33 + s.draw(94));
            else
                r += "abcdefghijklmnopqrstuvwxyz_0123456789"[s.draw(37)];
        }
        if (r == "$end") r = "x";
        return r;
    }
    void meta(const char *kw, int type, bool report) {
        tok(kw);
        std::vector<std::string> w;
        size_t n = s.len(0, 6);
        for (size_t i = 0; i < n; i++) {
            w.push_back(s.chance(25) ? s.pick<std::string>({"$var", "$scope", "0!", "b1", "#5", "1ns",
                                                            "$enddefinitions"})
                                     : word(true));
            tok(w.back());
        }
        tok("$end");
        if (report) event("meta " + std::to_string(type) + " " + joined(w));
    }
    void any_meta() {
        static const char *kws[] = {"$date", "$version", "$timescale", "$comment"};
        auto t = s.draw(4);
        meta(kws[t], static_cast<int>(t), true);
    }
    void var() {
        tok("$var");
        std::string type = s.pick<std::string>({"wire", "reg", "integer", "real", "parameter",
                                                "event", "supply0", "tri"});
        tok(type);
        auto width = s.chance(5) ? s.bits(32) : s.range(1, 130);
        tok(std::to_string(width));
        std::string id = s.chance(80) ? std::string(1, static_cast<char>(33 + ids.size() % 94))
                                      : word(true);
        ids.push_back(id);
        tok(id);
        auto name = word();
        if (s.chance(10)) name = "\\" + name;
        if (s.chance(10)) name += "[3:0]";
        tok(name);
        std::string slice;
        if (s.chance(50)) {
            slice = s.coin() ? "[" + std::to_string(s.draw(64)) + ":" + std::to_string(s.draw(4)) + "]"
                             : "[" + std::to_string(s.draw(64)) + "]";
            tok(slice);
        }
        tok("$end");
        vars++;
        event("var " + type + " " + std::to_string(static_cast<uint32_t>(width)) + " " + id + " " +
              name + " <" + slice + ">");
    }
    void scope(unsigned depth) {
        tok("$scope");
        std::string type =
            s.pick<std::string>({"module", "begin", "function", "task", "fork", "struct"});
        tok(type);
        auto name = word();
        tok(name);
        tok("$end");
        event("scope " + type + " " + name);
        size_t n = s.len(0, 5);
        for (size_t i = 0; i < n; i++) {
            auto k = s.draw(10);
            if (k < 6)
                var();
            else if (k < 9 && depth < 4)
                scope(depth + 1);
            else
                any_meta();
        }
        tok("$upscope");
        tok("$end");
        event("upscope");
    }
    uint64_t time = 0;
    void value() {
        std::string id = !ids.empty() && s.chance(90) ? s.pick(ids) : word(true);
        auto k = s.weighted({5, 4, 1});
        if (k == 0) {
            std::string v(1, "01xzXZ"[s.draw(s.chance(20) ? 6 : 4)]);
            tok(v + id);
            values++;
            event("value " + id + "=" + lower(v) + " at " + std::to_string(time) + " scalar");
        } else if (k == 1) {
            std::string v;
            size_t n = s.chance(10) ? s.len(60, 140) : s.len(1, 40);
            bool caps = s.chance(10);
            for (size_t i = 0; i < n; i++) v += "01xzXZ"[s.draw(s.chance(85) ? 2 : caps ? 6 : 4)];
            tok((s.chance(10) ? "B" : "b") + v);
            tok(id);
            values++;
            event("value " + id + "=" + lower(v) + " at " + std::to_string(time) + " vector");
        } else {
            // a real number: not reported, but its identifier must not be taken for a value change
            tok((s.chance(20) ? "R" : "r") + std::to_string(s.draw(1000)) + "." +
                std::to_string(s.draw(10)));
            tok(id);
            real_value = true;
        }
    }
    void body() {
        size_t n = s.len(0, 30);
        for (size_t i = 0; i < n; i++) {
            auto k = s.weighted({12, 6, 2, 1});
            if (k == 0) {
                value();
            } else if (k == 1) {
                if (s.chance(10))
                    time = s.bits(63);
                else
                    time += s.draw(20);
                if (time > 0x7fffffffull) big_time = true;
                tok("#" + std::to_string(time));
                times++;
                event("time " + std::to_string(time));
            } else if (k == 2) {
                std::string a =
                    s.pick<std::string>({"$dumpvars", "$dumpall", "$dumpon", "$dumpoff"});
                tok(a);
                event("action " + a);
                size_t m = s.len(0, 8);
                for (size_t j = 0; j < m; j++) value();
                tok("$end");
                dumps++;
            } else {
                meta("$comment", 0, false);
            }
        }
    }
    void file() {
        size_t n = s.len(0, 4);
        if (s.chance(15)) space();
        for (size_t i = 0; i < n; i++) any_meta();
        scope(0);
        if (s.chance(20)) any_meta();
        tok("$enddefinitions");
        tok("$end");
        event("definitions end");
        body();
        if (!s.chance(40)) space();
    }
};

std::string where(const Seen &seen, const std::vector<Event> &want) {
    size_t i = 0;
    while (i < seen.events.size() && i < want.size() && seen.events[i] == want[i].text) i++;
    return "event " + std::to_string(i) + ": reported '" +
           (i < seen.events.size() ? seen.events[i] : std::string("nothing more")) +
           "', the file says '" + (i < want.size() ? want[i].text : std::string("nothing more")) +
           "'";
}

bool same(const Seen &seen, const std::vector<Event> &want) {
    if (seen.events.size() != want.size()) return false;
    for (size_t i = 0; i < want.size(); i++)
        if (seen.events[i] != want[i].text) return false;
    return true;
}

void prop_read(Src &s) {
    Gen g(s);
    g.file();
    s.say(g.text);
    if (g.values && g.times && g.vars) s.nontrivial(g.text);
    if (g.dumps) s.label("dump section");
    if (g.big_time) s.label("time beyond 31 bits");
    if (g.real_value) s.label("real value");
    auto seen = s.chance(15) ? read_file(g.text) : read_stream(g.text);
    s.require(same(seen, g.events), where(seen, g.events));
    s.require(seen.ok, "well-formed file is reported as bad: " + seen.error);
}

// a file cut off at any byte: reading ends, and everything reported except perhaps the last item
// is what the whole file says
void prop_cut(Src &s) {
    Gen g(s);
    g.file();
    size_t cut = s.draw(g.text.size() + 1);
    auto text = g.text.substr(0, cut);
    s.say(text);
    s.nontrivial(text);
    auto seen = s.chance(15) ? read_file(text) : read_stream(text);
    // events whose text is completely there, and is followed by more
    size_t complete = 0;
    while (complete < g.ends.size() && g.ends[complete] < cut) complete++;
    s.require(seen.events.size() >= complete,
              "cut file: " + std::to_string(complete) + " items are complete, only " +
                  std::to_string(seen.events.size()) + " reported");
    for (size_t i = 0; i < complete; i++)
        s.eq(seen.events[i], g.events[i].text, "cut file, item " + std::to_string(i));
    s.require(seen.events.size() <= complete + 1,
              "cut file: more items reported than it contains: " +
                  (seen.events.empty() ? "" : seen.events.back()));
}

// damaged files: reading ends with yes or no
void prop_damaged(Src &s) {
    Gen g(s);
    g.file();
    auto w = words(g.text);
    size_t n = s.range(1, 4);
    for (size_t i = 0; i < n && !w.empty(); i++) {
        size_t at = s.draw(w.size());
        switch (s.draw(6)) {
            case 0:
                w.erase(w.begin() + static_cast<long>(at));
                break;
            case 1:
                w.insert(w.begin() + static_cast<long>(at), w[s.draw(w.size())]);
                break;
            case 2:
                w[at] = s.pick<std::string>({"#", "#-1", "#x", "#99999999999999999999999", "b", "0",
                                             "$end", "$var", "$scope", "$upscope", "$dumpvars",
                                             "-1", "99999999999999999999", "", "$enddefinitions",
                                             "r", "#1.5", "#12ns"});
                break;
            case 3: {
                auto &x = w[at];
                if (!x.empty()) x[s.draw(x.size())] = static_cast<char>(s.draw(256));
                break;
            }
            case 4:
                std::swap(w[at], w[s.draw(w.size())]);
                break;
            default:
                w.resize(at);
        }
    }
    std::string text;
    for (auto const &x : w) text += (text.empty() ? "" : " ") + x;
    if (s.coin()) text += "\n";
    s.say(text);
    s.nontrivial(text);
    auto seen = read_stream(text);
    s.label(seen.ok ? "accepted" : "rejected");
    auto again = s.chance(10) ? read_file(text) : read_stream(text);
    s.require(seen.ok == again.ok && seen.events == again.events,
              "reading the same text twice gives two results");
}

}  // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv,
                         {{{.name = "vcd_read", .cpu_limit = 2}, prop_read},
                          {{.name = "vcd_cut", .cpu_limit = 2}, prop_cut},
                          {{.name = "vcd_damaged", .cpu_limit = 2}, prop_damaged}});
}
