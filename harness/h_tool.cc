// h_tool.cc - hgdb-replay as a program: its command line, a waveform and a symbol table on disk,
// the real server on a real port, and a client that debugs the replay to its end.
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <set>
#include <sstream>

#include "wsclient.hh"

#define main replay_main
#include "../tools/hgdb-replay/hgdb-replay.cc"
#undef main

#include "jv.hh"
#include "pbt.hh"
#include "symbol.hh"

using pbt::Src;

namespace {

struct Scratch {
    std::string dir;
    Scratch() {
        char name[] = "/tmp/pbt_tool_XXXXXX";
        if (!mkdtemp(name)) throw std::runtime_error("mkdtemp");
        dir = name;
    }
    ~Scratch() {
        for (auto n : {"/w.vcd", "/w.vcd.db", "/w.vcd.db-journal", "/t.json", "/out", "/err"}) unlink((dir + n).c_str());
        rmdir(dir.c_str());
    }
    std::string put(const std::string &n, const std::string &text) const {
        std::ofstream(dir + n) << text;
        return dir + n;
    }
    std::string get(const std::string &n) const {
        std::ifstream f(dir + n);
        std::ostringstream o;
        o << f.rdbuf();
        return o.str();
    }
};

// a port that no other worker takes: the UDP port of the same number is held meanwhile
struct Port {
    int fd = -1;
    uint16_t n = 0;
    Port() {
        static unsigned next = static_cast<unsigned>(getpid()) * 37;
        for (int tries = 0; tries < 2000; tries++) {
            auto p = static_cast<uint16_t>(10000 + next++ % 20000);
            int u = socket(AF_INET, SOCK_DGRAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(p);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            bool ok = u >= 0 && bind(u, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0;
            if (ok) {
                int t = socket(AF_INET6, SOCK_STREAM, 0), one = 1;
                setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
                sockaddr_in6 b{};
                b.sin6_family = AF_INET6;
                b.sin6_addr = in6addr_any;
                b.sin6_port = htons(p);
                ok = t >= 0 && bind(t, reinterpret_cast<sockaddr *>(&b), sizeof b) == 0 && listen(t, 1) == 0;
                if (t >= 0) close(t);
            }
            if (ok) {
                fd = u;
                n = p;
                return;
            }
            if (u >= 0) close(u);
        }
        throw std::runtime_error("no free port");
    }
    Port(const Port &) = delete;
    ~Port() { close(fd); }
};

struct Tool {
    pid_t pid = -1;
    int status = 0;
    Tool(const Scratch &d, std::vector<std::string> args) {
        args.insert(args.begin() + 1, "--as-hgdb-replay");
        std::vector<char *> argv;
        for (auto &a : args) argv.push_back(a.data());
        argv.push_back(nullptr);
        auto out = d.dir + "/out", err = d.dir + "/err";
        auto parent = getpid();
        pid = fork();
        if (pid < 0) throw std::runtime_error("fork");
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != parent) _exit(96);
            int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(o, 1);
            dup2(e, 2);
            execv("/proc/self/exe", argv.data());
            _exit(97);
        }
    }
    bool ended() {
        if (pid < 0) return true;
        int st = 0;
        if (waitpid(pid, &st, WNOHANG) != pid) return false;
        pid = -1;
        status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        return true;
    }
    bool wait(double seconds) {
        auto end = ws::now() + seconds;
        while (!ended()) {
            if (ws::now() > end) return false;
            usleep(1000);
        }
        return true;
    }
    ~Tool() {
        if (pid < 0) return;
        kill(pid, SIGKILL);
        waitpid(pid, nullptr, 0);
    }
};

struct Cond {
    int sig = -1, op = 0;
    uint64_t k = 0;
    std::string text(const std::vector<std::string> &names) const {
        if (sig < 0) return "";
        static const char *ops[] = {"==", "!=", "<", ">="};
        return names[static_cast<size_t>(sig)] + " " + ops[op] + " " + std::to_string(k);
    }
    bool holds(const std::vector<uint64_t> &v) const {
        if (sig < 0) return true;
        auto x = v[static_cast<size_t>(sig)];
        return op == 0 ? x == k : op == 1 ? x != k : op == 2 ? x < k : x >= k;
    }
};

struct Stmt {
    uint32_t line = 0;
    Cond cond;
    bool inserted = false;
    Cond user;
    std::map<std::string, int> locals;
    uint32_t id = 0;
};

std::string id_of(size_t n) { return std::string(1, static_cast<char>('!' + n)); }
std::string binary(uint64_t v, unsigned w) {
    std::string r;
    for (auto i = w; i > 0; i--) r += (v >> (i - 1)) & 1 ? '1' : '0';
    return r;
}
std::string shown(uint64_t v, unsigned w) {
    if (w == 1) return std::to_string(v);
    char b[40];
    snprintf(b, sizeof b, "0x%llx", static_cast<unsigned long long>(v));
    return b;
}
// the number of digits is not judged
std::string plain(std::string t) {
    for (auto &c : t) c = static_cast<char>(tolower(c));
    if (t.rfind("0x", 0) != 0) return t;
    auto p = t.find_first_not_of('0', 2);
    return "0x" + (p == std::string::npos ? "0" : t.substr(p));
}

struct World {
    Src &s;
    Scratch dir;
    std::vector<std::string> names;  // of signals
    std::vector<unsigned> widths;
    std::vector<uint64_t> edges;
    std::vector<std::vector<uint64_t>> values;  // sampled at each edge
    std::vector<Stmt> stmts;                    // in order
    std::string file, path, inst, clock, wave, table;
    bool other_clock = false;
    explicit World(Src &s) : s(s) {}

    Cond cond() {
        Cond c;
        std::vector<int> small;
        for (size_t i = 0; i < widths.size(); i++)
            if (widths[i] < 32) small.push_back(static_cast<int>(i));
        if (small.empty()) return c;
        c.sig = s.pick(small);
        c.op = static_cast<int>(s.draw(4));
        auto const &v = values[s.draw(values.size())];
        c.k = v[static_cast<size_t>(c.sig)];
        return c;
    }
    void generate() {
        size_t n = s.range(1, 4);
        for (size_t i = 0; i < n; i++) {
            names.push_back("s" + std::to_string(i));
            widths.push_back(s.chance(30) ? 1 : s.chance(80) ? 2 + static_cast<unsigned>(s.draw(15)) : 31 + static_cast<unsigned>(s.draw(20)));
        }
        file = s.pick<std::string>({"a.cc", "/src/top.scala", "dir/b.py"});
        inst = s.pick<std::string>({"dut", "u0", "top"});
        path = "tb." + inst;
        clock = s.pick<std::string>({"clk", "clock", "CLK", "ck"});
        other_clock = clock == "ck";
        uint64_t t = s.chance(10) ? (1ull << 32) - s.draw(40) : 0;
        size_t count = s.range(1, 12);
        for (size_t i = 0; i < count; i++) {
            t += 2 + s.draw(20);
            edges.push_back(t);
            std::vector<uint64_t> v;
            for (size_t k = 0; k < n; k++) v.push_back(i && s.coin() ? values.back()[k] : s.bits(widths[k]));
            values.push_back(v);
        }
        // ---- the waveform: new values come with the edge before
        std::ostringstream w;
        w << "$timescale 1ns $end\n";
        // the design is the first instance in the test bench
        bool sub = s.coin();
        auto decoy = [&](const std::string &name) {
            w << "$scope module " << name << " $end\n";
            for (size_t k = s.draw(n + 1); k > 0; k--) w << "$var wire 1 ~ q" << k << " $end\n";
            w << "$upscope $end\n";
        };
        w << "$scope module tb $end\n$var wire 1 ~ done $end\n";
        w << "$scope module " << inst << " $end\n$var wire 1 " << id_of(0) << " " << clock << " $end\n";
        for (size_t k = 0; k < n; k++) {
            w << "$var " << (s.coin() ? "wire" : "reg") << " " << widths[k] << " " << id_of(k + 1) << " " << names[k];
            if (widths[k] > 1) w << " [" << widths[k] - 1 << ":0]";
            w << " $end\n";
        }
        if (sub) decoy("sub");
        w << "$upscope $end\n";
        if (s.chance(30)) decoy("second");
        w << "$upscope $end\n";
        w << "$enddefinitions $end\n#0\n0" << id_of(0) << "\n";
        auto change = [&](size_t to, bool all) {
            if (to >= values.size()) return;
            for (size_t k = 0; k < n; k++) {
                if (!all && values[to][k] == values[to - 1][k]) continue;
                if (widths[k] == 1)
                    w << values[to][k] << id_of(k + 1) << "\n";
                else
                    w << "b" << binary(values[to][k], widths[k]) << " " << id_of(k + 1) << "\n";
            }
        };
        change(0, true);
        for (size_t i = 0; i < edges.size(); i++) {
            w << "#" << edges[i] << "\n";
            bool first = s.coin();
            if (first) w << "1" << id_of(0) << "\n";
            change(i + 1, false);
            if (!first) w << "1" << id_of(0) << "\n";
            w << "#" << edges[i] + 1 << "\n0" << id_of(0) << "\n";
        }
        wave = w.str();
        dir.put("/w.vcd", wave);
        // ---- the table
        size_t count2 = s.range(1, 5);
        auto block = jv::V::obj();
        block.set("type", "block");
        block.set("filename", file);
        auto scope = jv::V::arr();
        uint32_t line = 0;
        for (size_t i = 0; i < count2; i++) {
            Stmt x;
            x.line = line += 1 + static_cast<uint32_t>(s.draw(4));
            if (s.chance(40)) x.cond = cond();
            auto e = jv::V::obj();
            if (s.coin()) {
                auto k = s.draw(n);
                e.set("type", "decl");
                auto v = jv::V::obj();
                v.set("name", "v" + std::to_string(i));
                v.set("value", names[k]);
                v.set("rtl", true);
                e.set("variable", v);
            } else {
                e.set("type", "none");
            }
            e.set("line", static_cast<uint64_t>(x.line));
            if (x.cond.sig >= 0) e.set("condition", x.cond.text(names));
            scope.a.push_back(e);
            stmts.push_back(x);
        }
        block.set("scope", scope);
        auto vars = jv::V::arr();
        for (auto const &m : names) {
            auto v = jv::V::obj();
            v.set("name", m);
            v.set("value", m);
            v.set("rtl", true);
            vars.a.push_back(v);
        }
        auto mod = jv::V::obj();
        mod.set("type", "module");
        mod.set("name", "dut");
        auto blocks = jv::V::arr();
        blocks.a.push_back(block);
        mod.set("scope", blocks);
        mod.set("variables", vars);
        auto insts = jv::V::arr(), mods = jv::V::arr();
        if (sub) {
            auto m = jv::V::obj();
            m.set("type", "module");
            m.set("name", "leaf");
            m.set("scope", jv::V::arr());
            m.set("variables", jv::V::arr());
            m.set("instances", jv::V::arr());
            mods.a.push_back(m);
            auto i = jv::V::obj();
            i.set("name", "sub");
            i.set("module", "leaf");
            insts.a.push_back(i);
            s.label("with an instance");
        }
        mod.set("instances", insts);
        mods.a.push_back(mod);
        auto doc = jv::V::obj();
        doc.set("generator", "pbt");
        doc.set("table", mods);
        doc.set("top", "dut");
        if (other_clock) {
            auto a = jv::V::obj();
            a.set("name", "clock");
            a.set("value", "dut." + clock);
            auto l = jv::V::arr();
            l.a.push_back(a);
            doc.set("attributes", l);
        }
        table = jv::str(doc);
        auto tf = dir.put("/t.json", table);
        auto db = hgdb::create_symbol_table(tf);
        s.require(db != nullptr, "the table is not read");
        for (auto &x : stmts) {
            auto b = db->get_breakpoints(file, x.line);
            s.eq(b.size(), static_cast<size_t>(1), "breakpoints at a line of the table");
            x.id = b[0].id;
            for (auto const &[c, v] : db->get_context_variables(x.id))
                for (size_t k = 0; k < n; k++)
                    if (v.value == names[k]) x.locals[c.name] = static_cast<int>(k);
            s.say("line " + std::to_string(x.line) + " if " + x.cond.text(names));
        }
        s.say("waveform:\n" + wave);
    }
};

struct Client {
    Src &s;
    const Scratch &dir;
    Tool &tool;
    ws::Client c;
    std::deque<jv::V> stops;
    std::set<std::string> answers;
    int token = 0;
    bool over = false;
    Client(Src &s, const Scratch &d, Tool &t) : s(s), dir(d), tool(t) {}

    std::string output() { return "\nstdout:\n" + dir.get("/out") + "\nstderr:\n" + dir.get("/err").substr(0, 60000); }
    // one message; false at the end of the connection
    bool take() {
        if (over) return false;
        auto f = c.read(20);
        if (!f || f->opcode == 8) {
            if (!f && !c.eof) s.fail("no message for 20 s" + output());
            over = true;
            return false;
        }
        auto v = jv::parse_or_fail(s, f->text, "message");
        if (auto *t = v.get("token"); t && t->is(jv::V::Str) && !t->s.empty()) {
            s.require(v.at("status").s == "success", "refused: " + f->text);
            answers.insert(t->s);
        } else if (v.get("type") && v.at("type").s == "breakpoint") {
            stops.push_back(v.at("payload"));
        } else {
            s.fail("unexpected message " + f->text);
        }
        return true;
    }
    std::string post(const std::string &type, const jv::V &payload) {
        auto tok = "t" + std::to_string(token++);
        auto msg = jv::V::obj();
        msg.set("request", true);
        msg.set("type", type);
        msg.set("token", tok);
        msg.set("payload", payload);
        s.say("> " + type + " " + (type == "connection" ? "" : jv::str(payload)));
        s.require(c.text(jv::str(msg)), "the tool dropped the client" + output());
        return tok;
    }
    void ask(const std::string &type, const jv::V &payload) {
        auto tok = post(type, payload);
        while (!answers.count(tok))
            if (!take()) s.fail(type + " is not answered" + output());
    }
    void command(const std::string &x) {
        auto p = jv::V::obj();
        p.set("command", x);
        post("command", p);
    }
};

void check_stop(Src &s, const World &w, const jv::V &p, size_t edge, const Stmt &x) {
    auto where = "stop at line " + std::to_string(x.line) + " at time " + std::to_string(w.edges[edge]);
    s.say("< " + where);
    s.eq(p.at("time").u, w.edges[edge], "time of the " + where);
    s.eq(p.at("line_num").u, static_cast<uint64_t>(x.line), "line of the " + where);
    s.eq(p.at("filename").s, w.file, "file of the " + where);
    s.eq(p.at("instances").a.size(), static_cast<size_t>(1), "instances at the " + where);
    auto const &i = p.at("instances").a[0];
    s.eq(i.at("breakpoint_id").u, static_cast<uint64_t>(x.id), "breakpoint of the " + where);
    s.eq(i.at("instance_name").s, w.path, "instance at the " + where);
    auto same = [&](const jv::V &got, const std::string &n, size_t k) {
        auto *v = got.get(n);
        s.require(v && v->is(jv::V::Str), "no " + n + " at the " + where);
        s.eq(plain(v->s), shown(w.values[edge][k], w.widths[k]), n + " at the " + where);
    };
    s.eq(i.at("local").o.size(), x.locals.size(), "local variables at the " + where);
    for (auto const &[n, k] : x.locals) same(i.at("local"), n, static_cast<size_t>(k));
    s.eq(i.at("generator").o.size(), w.names.size(), "generator variables at the " + where);
    for (size_t k = 0; k < w.names.size(); k++) same(i.at("generator"), w.names[k], k);
}

void session(Src &s, World &w, bool keep, bool again) {
    Port port;
    std::vector<std::string> args = {s.coin() ? "hgdb-replay" : "/opt/eda/tools/hgdb/bin/hgdb-replay"};
    std::vector<std::vector<std::string>> options;
    options.push_back({s.coin() ? "-p" : "--port", std::to_string(port.n)});
    uint64_t start = 0;
    if (s.chance(40)) {
        auto e = s.draw(w.edges.size() + 1);
        start = e ? w.edges[e - 1] + s.draw(2) : s.draw(w.edges[0]);
        options.push_back({s.coin() ? "-s" : "--start-time", std::to_string(start)});
        s.label("started later");
    }
    if (keep) options.push_back({"--db"});
    if (s.chance(20)) options.push_back({"--debug"});
    options.push_back({w.dir.dir + "/w.vcd"});
    s.shuffle(options);
    std::string said;
    for (auto const &o : options)
        for (auto const &x : o) {
            args.push_back(x);
            if (x.find('/') == std::string::npos && x != std::to_string(port.n)) said += x + " ";
        }
    s.say("$ " + args[0] + " " + said);
    for (auto &x : w.stmts) {
        x.inserted = s.chance(60);
        x.user = s.chance(30) ? w.cond() : Cond{};
    }
    Tool tool(w.dir, args);
    Client c(s, w.dir, tool);
    bool open = false, hasty = s.chance(15);  // a client that gives up and comes again
    if (hasty) s.label("hasty");
    for (auto end = ws::now() + 20; !open && !tool.ended() && ws::now() < end;) open = c.c.open(port.n, hasty ? 0.004 : 1);
    if (!open) {
        s.fail("no connection to the tool" + c.output());
    }
    auto p = jv::V::obj();
    p.set("db_filename", w.dir.dir + "/t.json");
    c.ask("connection", p);
    for (auto const &x : w.stmts) {
        if (!x.inserted) continue;
        auto b = jv::V::obj();
        b.set("action", "add");
        b.set("filename", w.file);
        b.set("line_num", static_cast<uint64_t>(x.line));
        if (x.user.sig >= 0) b.set("condition", x.user.text(w.names));
        c.ask("breakpoint", b);
    }
    bool step = s.chance(30), stop = false;
    c.command(step ? "step_over" : "continue");
    size_t stops = 0;
    for (size_t e = 0; e < w.edges.size() && !stop; e++) {
        if (w.edges[e] <= start) continue;
        for (auto const &x : w.stmts) {
            if (!x.cond.holds(w.values[e])) continue;
            if (!step && !(x.inserted && x.user.holds(w.values[e]))) continue;
            auto where = "line " + std::to_string(x.line) + " at time " + std::to_string(w.edges[e]);
            while (c.stops.empty())
                if (!c.take()) {
                    tool.wait(1);
                    s.fail("the tool ended before the stop at " + where + c.output());
                }
            check_stop(s, w, c.stops.front(), e, x);
            c.stops.pop_front();
            stops++;
            if (s.chance(4)) {
                stop = true;
                c.command("stop");
                break;
            }
            step = s.chance(30);
            c.command(step ? "step_over" : "continue");
        }
    }
    // to the end
    while (c.take())
        if (!c.stops.empty()) s.fail("another stop: " + jv::str(c.stops.front()));
    s.require(tool.wait(20), "the tool does not end" + c.output());
    s.require(tool.status == 0, "the tool ended with " + std::to_string(tool.status) + c.output());
    if (keep) s.require(access((w.dir.dir + "/w.vcd.db").c_str(), F_OK) == 0, "the database was not kept");
    if (again) s.label("kept database");
    if (stop) s.label("stopped");
    if (stops >= 2) s.nontrivial(said + w.wave + w.table);
}

void prop_replay(Src &s) {
    World w(s);
    w.generate();
    bool keep = s.chance(25);
    session(s, w, keep, false);
    if (keep) session(s, w, s.coin(), true);
}

// what cannot be replayed is refused
void prop_refused(Src &s) {
    Scratch dir;
    std::vector<std::string> args = {s.coin() ? "hgdb-replay" : "/opt/eda/tools/hgdb/bin/hgdb-replay"};
    auto file = dir.dir + "/w.vcd";
    std::string said;
    switch (s.draw(4)) {
        case 0:
            said = "no file";
            args.push_back(file);
            break;
        case 1: {
            said = "not a waveform: ";
            auto text = s.pick<std::string>({"", " $date", "x", "{}", std::string("\0$", 2), "FSDB"});
            dir.put("/w.vcd", text);
            said += text;
            args.push_back(file);
            break;
        }
        case 2:
            said = "no argument";
            break;
        default:
            said = "unknown argument";
            dir.put("/w.vcd", "$enddefinitions $end\n");
            args.push_back(file);
            args.push_back("--nothing");
    }
    s.say(said);
    s.nontrivial(args[0] + said);
    Tool tool(dir, args);
    s.require(tool.wait(20), "the tool does not end");
    s.require(tool.status == 1, "the tool ended with " + std::to_string(tool.status) + "\n" + dir.get("/err").substr(0, 3000));
    s.require(!dir.get("/err").empty(), "nothing was said about it");
}

}  // namespace

int main(int argc, char **argv) {
    if (argc > 1 && std::string(argv[1]) == "--as-hgdb-replay") {
        std::vector<char *> words{argv[0]};
        for (int i = 2; i < argc; i++) words.push_back(argv[i]);
        words.push_back(nullptr);
        return replay_main(static_cast<int>(words.size()) - 1, words.data());
    }
    return pbt::run_main(argc, argv,
                         {{{.name = "tool_replay", .cpu_limit = 10, .wall_limit = 120}, prop_replay},
                          {{.name = "tool_refused", .cpu_limit = 5, .wall_limit = 60}, prop_refused}});
}
