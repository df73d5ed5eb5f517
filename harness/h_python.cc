// h_python.cc - the Python bindings: client, symbol table server and symbol table writer.
//
// The repository's Python code runs in a process of its own (pyworker.py), which is driven over a
// pipe.  What it sends is judged by hgdb itself: requests by the parser of the debugger, tables by
// the reader of symbol tables, answers by the provider that queries a symbol table server.
#include <sys/prctl.h>

#include <filesystem>
#include <fstream>

#include "remserver.hh"
#include "reqmodel.hh"
#include "symquery.hh"

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)

namespace {

class Worker {
public:
    ~Worker() { stop(); }
    void start() {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) abort();
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            rlimit r{};
            getrlimit(RLIMIT_CPU, &r);
            r.rlim_cur = r.rlim_max;
            setrlimit(RLIMIT_CPU, &r);
            dup2(a[0], 0);
            dup2(b[1], 1);
            setenv("PYTHONUTF8", "1", 1);
            execlp("python3", "python3", "-B", PBT_STR(PBT_WORKER), PBT_STR(PBT_BINDINGS), nullptr);
            _exit(127);
        }
        ::close(a[0]);
        ::close(b[1]);
        in = a[1];
        out = b[0];
        buf.clear();
        owner = getpid();
        clean = true;
    }
    void stop() {
        if (pid > 0 && owner == getpid()) {
            ::close(in);
            ::close(out);
            kill(pid, SIGKILL);
            waitpid(pid, nullptr, 0);
        }
        pid = -1;
    }
    // a process that is waiting for an operation
    void ready() {
        if (pid > 0 && owner == getpid() && clean) return;
        stop();
        start();
    }
    void put(const V &v) {
        std::string t;
        jv::write(t, v, nullptr);
        t += '\n';
        size_t n = 0;
        while (n < t.size()) {
            auto r = ::write(in, t.data() + n, t.size() - n);
            if (r <= 0) throw pbt::Fail{"the Python process is gone"};
            n += static_cast<size_t>(r);
        }
    }
    V get() {
        size_t e;
        while ((e = buf.find('\n')) == std::string::npos) {
            pollfd p{out, POLLIN, 0};
            if (poll(&p, 1, 20000) <= 0) throw pbt::Fail{"no answer from Python"};
            char b[65536];
            auto n = read(out, b, sizeof b);
            if (n <= 0) throw pbt::Fail{"the Python process is gone"};
            buf.append(b, static_cast<size_t>(n));
        }
        auto line = buf.substr(0, e);
        buf.erase(0, e + 1);
        return jv::parse(line);
    }
    bool clean = true;

private:
    pid_t pid = -1, owner = -1;
    int in = -1, out = -1;
    std::string buf;
};

Worker worker;

// an operation that is begun here and has to be seen to its end
struct Op {
    explicit Op(const V &v) {
        worker.ready();
        worker.clean = false;
        worker.put(v);
    }
    V next() {
        auto r = worker.get();
        if (r.get("done")) worker.clean = true;
        return r;
    }
    static void reply(const V &v) { worker.put(v); }
    static void ack() { worker.put(V::obj()); }
};

V obj(std::vector<std::pair<std::string, V>> m) {
    V r;
    r.t = V::Object;
    r.o = std::move(m);
    return r;
}

// ---- the client

struct Call {
    std::string method;
    V args = V::arr(), kwargs = V::obj();
    Made m;
    std::string token;  // "": the client's own
    bool has_token = false;
    bool check = false;  // an error raises
    enum Result { Reply, Nothing, Success, Track, Normal, Data, Files, Design } result = Reply;
    bool command = false;
};

// the call that makes the request; what the client has no way to say is taken out of it
Call make_call(Src &s) {
    Call c;
    c.m = make_payload(s);
    auto &p = c.m.payload;
    auto const &type = c.m.kind->type;
    auto const &var = c.m.variant;
    auto erase = [&](const std::string &n) {
        std::erase_if(p.o, [&](auto const &x) { return x.first == n; });
    };
    auto pos = [&](const char *n) { c.args.push(p.at(n)); };
    // the default or its explicit value
    auto opt = [&](const char *n, const std::string &as) {
        if (p.get(n)) c.kwargs.set(as, p.at(n));
    };
    auto token = [&]() {
        c.has_token = true;
        if (s.coin()) {
            c.token = jv::gen_string(s);
            c.kwargs.set("token", V(c.token));
        }
    };
    auto check = [&](bool by_default, bool can = true) {
        c.check = by_default;
        if (can && s.coin()) {
            c.check = s.coin();
            c.kwargs.set("check_error", V(c.check));
        }
    };
    bool add = var == "add";
    if (type == "breakpoint") {
        c.method = add ? "set_breakpoint" : "remove_breakpoint";
        pos("filename");
        if (!p.get("line_num")) p.set("line_num", V(uint32_t(s.draw(100))));
        pos("line_num");
        opt("column_num", "column_num");
        token();
        if (add) {
            opt("condition", "cond");
            check(true);
        } else {
            erase("condition");
        }
    } else if (type == "breakpoint-id") {
        c.method = add ? "set_breakpoint_id" : "remove_breakpoint_id";
        pos("id");
        if (add)
            opt("condition", "cond");
        else
            erase("condition");
        token();
        check(true);
    } else if (type == "connection") {
        c.method = "";  // a client of its own
    } else if (type == "bp-location") {
        c.method = "request_breakpoint_location";
        pos("filename");
        opt("line_num", "line_num");
        opt("column_num", "column_num");
    } else if (type == "command") {
        c.method = var == "continue" ? "continue_" : var;
        c.command = true;
        c.result = var == "jump" ? Call::Reply : Call::Nothing;
        if (var == "jump") pos("time");
    } else if (type == "debugger-info") {
        if (var == "breakpoints" && s.coin()) {
            c.result = s.coin() ? Call::Normal : Call::Data;
            c.method = c.result == Call::Normal ? "get_current_normal_breakpoints" : "get_current_data_breakpoints";
            c.check = true;
        } else if (var == "filename" && s.coin()) {
            c.method = "get_filenames";
            c.result = Call::Files;
            c.check = true;
        } else if (var == "design" && s.coin()) {
            c.method = "get_design";
            c.result = Call::Design;
            c.check = true;
        } else {
            c.method = "get_info";
            if (var != "breakpoints" || s.coin()) c.args.push(V(var));
            check(true);
        }
    } else if (type == "path-mapping") {
        c.method = "set_src_mapping";
        pos("path-mapping");
        c.check = true;
        c.result = Call::Nothing;
    } else if (type == "evaluation") {
        c.method = "evaluate";
        pos("expression");
        for (auto n : {"breakpoint_id", "instance_id", "namespace_id"}) opt(n, n);
        check(true);
    } else if (type == "option-change") {
        c.method = "change_option";
        erase("self");
        erase("check_error");
        for (auto const &[k, v] : p.o) c.kwargs.set(k, v);
        check(true);
    } else if (type == "monitor") {
        c.check = true;
        if (var == "remove") {
            c.method = "remove_monitor";
            c.result = Call::Nothing;
            pos("track_id");
            // the debugger has to be told which simulator
            if (p.get("namespace_id"))
                c.args.push(p.at("namespace_id"));
            else
                p.set("namespace_id", V(0));
        } else {
            c.method = "add_monitor";
            c.result = Call::Track;
            erase("namespace_id");
            pos("var_name");
            opt("breakpoint_id", "breakpoint_id");
            opt("instance_id", "instance_id");
            if (var == "add:changed") {
                c.m.variant = "add:clock_edge";
                *p.get("monitor_type") = V("clock_edge");
            }
            if (c.m.variant != "add:breakpoint" || s.coin())
                c.kwargs.set("monitor_type", V(c.m.variant.substr(4)));
        }
    } else if (type == "set-value") {
        c.method = "set_value";
        pos("var_name");
        pos("value");
        for (auto n : {"breakpoint_id", "instance_id", "namespace_id"}) opt(n, n);
        check(false);
    } else {
        if (var == "clear") throw pbt::Discard{};
        erase("namespace_id");
        pos("breakpoint-id");
        if (var == "remove") {
            c.method = "remove_data_breakpoint";
            check(true);
        } else {
            c.method = add ? "set_data_breakpoint" : "valid_data_breakpoint";
            pos("var_name");
            opt("condition", "cond");
            if (add)
                check(true);
            else
                c.result = Call::Success;
        }
        token();
    }
    return c;
}

// everything a request does not say explicitly has its default
void with_defaults(Made &m) {
    auto &p = m.payload;
    auto def = [&](const char *n, V v) {
        if (!p.get(n)) p.set(n, std::move(v));
    };
    if (m.kind->type == "breakpoint") {
        def("column_num", V(0));
        def("condition", V(""));
    } else if (m.kind->type == "breakpoint-id" ||
               (m.kind->type == "data-breakpoint" && m.variant != "remove")) {
        def("condition", V(""));
    }
}

struct Answered {
    std::string text;
    bool ok = true;
    std::string reason;
    V want;  // of the results that are not the whole answer
};

Answered make_answer(Src &s, const Call &c) {
    Answered a;
    auto type = to_string(c.m.kind->type == "connection" ? RequestType::connection : RequestType::error);
    auto generic = [&](auto extra) {
        static const std::map<std::string, RequestType> types = {
            {"breakpoint", RequestType::breakpoint},       {"breakpoint-id", RequestType::breakpoint_id},
            {"connection", RequestType::connection},       {"bp-location", RequestType::bp_location},
            {"command", RequestType::command},             {"debugger-info", RequestType::debugger_info},
            {"path-mapping", RequestType::path_mapping},   {"evaluation", RequestType::evaluation},
            {"option-change", RequestType::option_change}, {"monitor", RequestType::monitor},
            {"set-value", RequestType::set_value},         {"data-breakpoint", RequestType::data_breakpoint}};
        GenericResponse r(a.ok ? status_code::success : status_code::error, types.at(c.m.kind->type), a.reason);
        extra(r);
        a.text = r.str(s.coin());
    };
    a.ok = !s.chance(30) || c.result == Call::Normal || c.result == Call::Data || c.result == Call::Files ||
           c.result == Call::Design;
    if (!a.ok) a.reason = jv::gen_string(s);
    if (!a.ok || c.m.kind->type != "debugger-info") {
        generic([&](GenericResponse &r) {
            if (c.result == Call::Track && a.ok) {
                auto t = s.bits(63), n = s.draw(4);
                r.set_value("track_id", t);
                r.set_value("namespace_id", n);
                a.want = V::arr();
                a.want.push(V(static_cast<uint64_t>(t)));
                a.want.push(V(static_cast<uint64_t>(n)));
            }
        });
        if (c.result == Call::Success) a.want = V(a.ok);
        return a;
    }
    auto const &var = c.m.variant;
    if (var == "breakpoints") {
        std::vector<std::unique_ptr<DebugBreakPoint>> bps;
        std::vector<const DebugBreakPoint *> ptr;
        size_t n = s.draw(5);
        a.want = V::arr();
        for (size_t i = 0; i < n; i++) {
            auto b = std::make_unique<DebugBreakPoint>();
            b->id = static_cast<uint32_t>(i);
            b->instance_id = 0;
            b->filename = jv::gen_string(s);
            b->line_num = static_cast<uint32_t>(s.draw(100));
            b->column_num = static_cast<uint32_t>(s.draw(100));
            b->type = s.pick<DebugBreakPoint::Type>({DebugBreakPoint::Type::normal, DebugBreakPoint::Type::data,
                                                     static_cast<DebugBreakPoint::Type>(3)});
            auto flag = c.result == Call::Data ? 2u : 1u;
            if (static_cast<uint32_t>(b->type) & flag) a.want.push(V(b->id));
            ptr.push_back(b.get());
            bps.push_back(std::move(b));
        }
        a.text = DebuggerInformationResponse(ptr).str(s.coin());
    } else if (var == "filename") {
        std::vector<std::string> l;
        size_t n = s.draw(5);
        a.want = V::arr();
        for (size_t i = 0; i < n; i++) {
            l.push_back(jv::gen_string(s));
            a.want.push(V(l.back()));
        }
        a.text = DebuggerInformationResponse(l).str(s.coin());
    } else if (var == "design") {
        std::map<std::string, std::map<std::string, uint32_t>> d;
        size_t n = s.draw(4);
        for (size_t i = 0; i < n; i++)
            d["ns" + std::to_string(s.draw(3))]["top.i" + std::to_string(s.draw(3))] = static_cast<uint32_t>(s.draw(9));
        a.want = V::obj();
        for (auto const &[k, v] : d) {
            auto x = V::obj();
            for (auto const &[i, id] : v) x.set(i, V(id));
            a.want.set(k, x);
        }
        a.text = DebuggerInformationResponse(d).str(s.coin());
    } else if (var == "options") {
        a.text = DebuggerInformationResponse(std::map<std::string, std::string>{{"o", "1"}}).str(s.coin());
    } else {
        a.text = DebuggerInformationResponse(jv::gen_string(s)).str(s.coin());
    }
    return a;
}

std::string sorted(V v) {
    std::function<void(V &)> f = [&](V &x) {
        std::sort(x.o.begin(), x.o.end(), [](auto const &a, auto const &b) { return a.first < b.first; });
        for (auto &[k, y] : x.o) f(y);
        for (auto &y : x.a) f(y);
    };
    f(v);
    return jv::str(v);
}

void check_sent(Src &s, const std::string &text, const Call &c, size_t own) {
    auto [req, err] = std::pair{Request::parse_request(text), 0};
    s.require(req && req->status() == status_code::success,
              "the debugger refuses what " + c.method + " sends: " + text +
                  (req ? " (" + req->error_reason() + ")" : ""));
    s.require(to_string(req->type()) == c.m.kind->type, "a request of another type: " + text);
    check_fields(s, *req, c.m);
    s.eq(req->get_token(), c.has_token ? c.token : "python-" + std::to_string(own), "token of " + c.method);
}

void prop_client(Src &s) {
    std::vector<Call> calls;
    auto op = obj({{"op", V("client")}});
    std::optional<Call> first;
    if (s.chance(30)) {
        first.emplace();
        auto &m = first->m;
        for (auto const &k : kinds())
            if (k.type == "connection") m.kind = &k;
        auto db = jv::gen_string(s);
        m.payload.set("db_filename", V(db));
        auto l = V::arr();
        auto uri = "ws://host:" + std::to_string(s.draw(65536));
        l.push(V(uri));
        l.push(V(db));
        if (s.coin()) {
            m.payload.set("path-mapping", gen_field(s, FT::Map));
            l.push(m.payload.at("path-mapping"));
        }
        first->method = "connect";
        first->check = true;
        first->args.push(V(uri));
        op.set("new", l);
    }
    size_t n = s.range(1, 8);
    auto list = V::arr();
    std::string text = first ? jv::str(first->m.payload) : "";
    for (size_t i = 0; i < n; i++) {
        if (s.chance(25)) {
            Call c;
            c.method = s.chance(70) ? "recv_bp" : "recv";
            calls.push_back(c);
        } else {
            calls.push_back(make_call(s));
            if (calls.back().method.empty()) {
                calls.pop_back();
                continue;
            }
            with_defaults(calls.back().m);
        }
        auto const &c = calls.back();
        auto d = obj({{"method", V(c.method)}, {"args", c.args}, {"kwargs", c.kwargs}});
        list.push(d);
        text += " " + jv::str(d);
        s.label(c.method);
    }
    op.set("calls", list);
    s.say(text);
    s.nontrivial(text);
    Op o(op);
    std::vector<V> pending;  // messages that came instead of an answer
    std::vector<V> queue;    // stops that were received and not asked for yet
    size_t own = 0;
    uint64_t time = 0;
    auto stop = [&]() {
        return BreakPointResponse(++time, jv::gen_string(s), s.draw(100), s.draw(10)).str(s.coin());
    };
    auto run = [&](const Call &c) {
        std::optional<Answered> a;
        bool sent = false, lost = false;
        V got_last;
        while (true) {
            auto e = o.next();
            if (e.get("died")) s.require(false, c.method + " died of " + e.at("died").s);
            if (e.get("connect")) {
                s.require(c.method == "connect" && !sent, "a connection that was not asked for");
                s.eq(e.at("connect").s, c.args.a[0].s, "address");
                Op::ack();
            } else if (e.get("sent")) {
                s.require(!sent && c.m.kind, c.method + " sends more than its request");
                sent = true;
                check_sent(s, e.at("sent").s, c, own);
                if (!c.has_token) own++;
                Op::ack();
            } else if (e.get("recv")) {
                lost = false;
                std::string t;
                auto monitored = [&]() { return MonitorResponse(s.draw(5), 0, jv::gen_string(s)).str(s.coin()); };
                if (c.m.kind) {
                    s.require(sent && !a, c.method + " waits for something else than its answer");
                    if (s.chance(25)) {
                        // not the answer
                        t = s.coin() ? stop() : monitored();
                        pending.push_back(jv::parse(t));
                    } else if (c.command && s.chance(10)) {
                        a.emplace();
                        lost = true;
                    } else {
                        a = make_answer(s, c);
                        t = a->text;
                    }
                } else {
                    s.require(pending.empty() || c.method == "recv_bp", "a message was received and is not delivered");
                    pending.clear();
                    if (c.method == "recv_bp")
                        s.require(queue.empty(), "a stop was received and is not delivered");
                    else
                        s.require(!a, "recv takes several messages");
                    a.emplace();
                    switch (s.draw(4)) {
                        case 0:
                            lost = true;
                            break;
                        case 1:
                            t = monitored();
                            break;
                        default:
                            t = stop();
                    }
                    a->text = t;
                }
                if (!lost) {
                    got_last = jv::parse(t);
                    if (got_last.at("type").s == "breakpoint") queue.push_back(got_last);
                }
                Op::reply(lost ? obj({{"lost", V(true)}}) : obj({{"text", V(t)}}));
            } else if (e.get("raised")) {
                s.require(a && c.check && !a->ok, c.method + " raises " + e.at("raised").s + " after " +
                                                      (a ? a->text : std::string("nothing")));
                s.eq(e.at("raised").s, a->reason, "reason");
                Op::ack();
                return;
            } else if (e.get("result")) {
                auto got = e.at("result");
                auto say = [&](const V &want) {
                    s.require(sorted(got) == sorted(want), c.method + " returns " + sorted(got) + ", expected " +
                                                               sorted(want) + " of " + (a ? a->text : ""));
                };
                if (c.m.kind) s.require(sent, c.method + " sends nothing");
                s.require(!(a && c.m.kind && c.check && !a->ok), c.method + " reports no error after " +
                                                                     (a ? a->text : std::string()));
                if (c.m.kind) s.require(a.has_value(), c.method + " does not wait for the answer");
                if (c.method == "recv_bp") {
                    if (queue.empty()) {
                        s.require(lost, "recv_bp stops waiting");
                        say(V());
                    } else {
                        say(queue.front());
                        // (times of stops are different)
                        std::erase_if(pending, [&](const V &x) { return jv::str(x) == jv::str(queue.front()); });
                        queue.erase(queue.begin());
                    }
                } else if (c.method == "recv") {
                    if (!a) {
                        s.require(!pending.empty(), "recv does not wait");
                        say(pending.front());
                        pending.erase(pending.begin());
                    } else {
                        say(lost ? V() : got_last);
                    }
                } else {
                    switch (c.result) {
                        case Call::Nothing:
                            break;
                        case Call::Reply:
                            say(lost ? V() : got_last);
                            break;
                        case Call::Normal:
                        case Call::Data: {
                            auto ids = V::arr();
                            s.require(got.is(V::Array), "not a list of breakpoints");
                            for (auto const &b : got.a) ids.push(b.at("id"));
                            got = ids;
                            say(a->want);
                            break;
                        }
                        default:
                            say(a->want);
                    }
                }
                Op::ack();
                return;
            } else {
                s.require(false, "unknown message of the Python process");
            }
        }
    };
    if (first) run(*first);
    for (auto const &c : calls) run(c);
    auto e = o.next();
    s.require(e.get("done"), "the client died of " + (e.get("died") ? e.at("died").s : jv::str(e)));
}

// ---- the symbol table server

V pair(V a, V b) {
    auto r = V::arr();
    r.push(std::move(a));
    r.push(std::move(b));
    return r;
}

V from_table(Provider &p, const std::string &what, const std::vector<V> &a) {
    auto num = [&](size_t i) { return static_cast<uint32_t>(a.at(i).u); };
    auto list = V::arr();
    if (what == "get_breakpoint") {
        auto b = p.get_breakpoint(num(0));
        return b ? breakpoint(*b) : V();
    }
    if (what == "get_breakpoints") {
        for (auto const &b : num(1) ? p.get_breakpoints(a.at(0).s, num(1), num(2)) : p.get_breakpoints(a.at(0).s))
            list.push(breakpoint(b));
        return list;
    }
    if (what == "get_instance_name") {
        auto n = p.get_instance_name(num(0));
        return n ? V(*n) : V();
    }
    if (what == "get_instance_id_by_name") {
        auto n = p.get_instance_id(a.at(0).s);
        return n ? V(*n) : V();
    }
    if (what == "get_instance_id_by_bp") {
        auto n = p.get_instance_id(static_cast<uint64_t>(num(0)));
        return n ? V(*n) : V();
    }
    if (what == "get_context_variables") {
        for (auto const &[c, v] : p.get_context_variables(num(0)))
            list.push(pair(obj({{"name", V(c.name)}, {"breakpoint_id", V(num(0))}, {"variable_id", V(v.id)}}),
                           variable(v)));
        return list;
    }
    if (what == "get_generator_variables") {
        for (auto const &[c, v] : p.get_generator_variable(num(0)))
            list.push(pair(obj({{"name", V(c.name)},
                                {"instance_id", V(num(0))},
                                {"variable_id", V(v.id)},
                                {"annotation", V(c.annotation)}}),
                           variable(v)));
        return list;
    }
    if (what == "get_instance_names") return strings(p.get_instance_names());
    if (what == "get_annotation_values") return strings(p.get_annotation_values(a.at(0).s));
    if (what == "get_all_array_names") return strings(p.get_all_array_names());
    if (what == "execution_bp_orders") {
        for (auto i : p.execution_bp_orders()) list.push(V(i));
        return list;
    }
    throw std::runtime_error("unknown question " + what);
}

void prop_provider(Src &s) {
    auto w = gen_table(s);
    Json local, reference;
    s.require(local.parse(w.text) && reference.parse(w.text), "a well-formed symbol table is refused");
    auto qs = gen_queries(s, w.t, reference, s.range(1, 15));
    std::string text = w.text;
    for (auto &q : qs) {
        // a table in Python has no files and no assignments
        if (q.kind == 11) q.kind = 9;
        if (q.kind == 13) q.kind = 12;
        text += " " + q.str();
    }
    s.say(text);
    size_t stmts = 0;
    for (auto const &i : w.t.instances) stmts += w.t.stmts[i.module].size();
    if (stmts >= 2) s.nontrivial(text);
    worker.ready();
    auto reply = [&](const std::string &request, std::string &complaint) -> std::string {
        std::string r;
        try {
            auto l = V::arr();
            l.push(V(request));
            Op o(obj({{"op", V("provider")}, {"messages", l}}));
            while (true) {
                auto e = o.next();
                if (e.get("done")) return r;
                if (e.get("died")) {
                    complaint = "the server died of " + e.at("died").s + " at " + request;
                    return "{}";
                }
                if (e.get("ask")) {
                    Op::reply(obj({{"answer", from_table(local, e.at("ask").s, e.at("args").a)}}));
                } else {
                    r = e.at("sent").s;
                    Op::ack();
                }
            }
        } catch (const pbt::Fail &f) {
            complaint = f.msg;
        } catch (const std::exception &e) {
            complaint = e.what();
        }
        return "{}";
    };
    Server sv(reply, {});
    if (!sv.port) throw pbt::Discard{};
    auto p = hgdb::create_symbol_table("ws://127.0.0.1:" + std::to_string(sv.port));
    s.require(p && !p->bad(), "no table at a server that is there");
    std::vector<std::string> got;
    for (auto const &q : qs) got.push_back(ask(*p, q));
    p.reset();
    sv.stop();
    s.require(sv.complaint.empty(), sv.complaint);
    for (size_t i = 0; i < qs.size(); i++) {
        auto want = ask(reference, qs[i]);
        s.require(got[i] == want, "answer to " + qs[i].str() + ": " + got[i] + ", expected " + want);
    }
}

// ---- the symbol table writer

// only what can be said in Python
bool simplify(sym::Entry &e) {
    e.cond.clear();
    if (e.kind != sym::Block) e.filename.clear();
    for (auto &v : e.vars) v.depth = 1;
    for (auto &i : e.idx) i.var.depth = 1;
    std::erase_if(e.kids, [](auto &k) { return !simplify(*k); });
    return e.kind != sym::Block || !e.kids.empty();
}

Table python_table(Src &s) {
    sym::Gen g{s, {.max_modules = 3}};
    auto t = g.table();
    t.tops = {0};
    t.attributes.clear();
    t.reorder = true;
    for (auto &m : t.modules) {
        m.cond.clear();
        m.vars.clear();
        std::erase_if(m.scope, [](auto &b) { return !simplify(*b); });
    }
    return t;
}

V py_var(const Var &v) {
    return obj({{"name", V(v.name)}, {"value", V(v.value)}, {"rtl", V(v.rtl)}, {"delay", V(v.delay)}});
}

V py_entry(Src &s, const Entry &e) {
    auto r = V::obj();
    static const char *names[] = {"none", "decl", "block", "assign"};
    r.set("kind", V(names[e.kind]));
    r.set("line", V(e.line));
    r.set("col", V(e.col));
    r.set("filename", V(e.filename));
    r.set("late", V(s.chance(20)));
    if (!e.vars.empty()) {
        auto v = py_var(e.vars[0]);
        if (!e.idx.empty()) {
            auto l = V::arr();
            for (auto const &i : e.idx)
                l.push(obj({{"var", py_var(i.var)}, {"min", V(i.min)}, {"max", V(i.max)}}));
            v.set("indices", l);
        }
        r.set("var", v);
    }
    auto k = V::arr();
    for (auto const &x : e.kids) k.push(py_entry(s, *x));
    r.set("kids", k);
    return r;
}

// the document Python writes
std::string write_table(Src &s, const Table &t) {
    char name[] = "py_table_XXXXXX";
    auto fd = mkstemp(name);
    if (fd < 0) throw pbt::Discard{};
    ::close(fd);
    auto mods = V::arr();
    for (auto const &m : t.modules) {
        auto scope = V::arr(), insts = V::arr();
        for (auto const &e : m.scope) scope.push(py_entry(s, *e));
        for (auto const &[n, i] : m.insts) insts.push(pair(V(n), V(static_cast<uint64_t>(i))));
        mods.push(obj({{"name", V(m.name)}, {"scope", scope}, {"instances", insts}}));
    }
    auto op = obj({{"op", V("table")},
                   {"top", V(t.modules[0].name)},
                   {"file", V(std::filesystem::absolute(name).string())},
                   {"first", V(s.coin())},
                   {"modules", mods}});
    if (s.coin()) op.set("generator", V("gen"));
    s.say(jv::str(op));
    Op o(op);
    auto e = o.next();
    std::ifstream in(name);
    std::string text((std::istreambuf_iterator<char>(in)), {});
    unlink(name);
    s.require(e.get("done"), "writing the table: " + (e.get("died") ? e.at("died").s : jv::str(e)));
    return text;
}

// instances of a module: name -> module
using Insts = std::map<std::string, std::string>;
Insts wanted(const Table &t, const std::string &module) {
    Insts r;
    for (auto const &m : t.modules)
        if (m.name == module)
            for (auto const &[n, i] : m.insts) r[n] = t.modules[i].name;
    return r;
}
std::vector<std::pair<std::string, std::string>> written(const V &m) {
    std::vector<std::pair<std::string, std::string>> r;
    if (m.get("instances"))
        for (auto const &i : m.at("instances").a) r.emplace_back(i.at("name").s, i.at("module").s);
    return r;
}
// every instance of the module, with its name and its module exchanged
bool exchanged(const Table &t, const V &m) {
    auto want = wanted(t, m.at("name").s);
    auto l = written(m);
    if (l.size() != want.size()) return false;
    for (auto const &[n, x] : l) {
        auto it = want.find(x);
        if (it == want.end() || it->second != n) return false;
    }
    return true;
}

void prop_table(Src &s) {
    auto t = python_table(s);
    auto text = write_table(s, t);
    auto doc = jv::parse_or_fail(s, text, "symbol table");
    // (see py_instances)
    if (doc.get("table"))
        for (auto &m : doc.get("table")->a)
            if (m.get("name") && exchanged(t, m) && m.get("instances"))
                for (auto &i : m.get("instances")->a) std::swap(*i.get("name"), *i.get("module"));
    text = jv::str(doc);
    s.say(text);
    sym::derive(t);
    Json p;
    s.require(p.parse(text), "hgdb refuses the table");
    size_t stmts = 0;
    for (auto const &i : t.instances) stmts += t.stmts[i.module].size();
    if (stmts >= 2) s.nontrivial(text);
    Checker c{s, t, p};
    c.all();
}

void prop_instances(Src &s) {
    auto t = python_table(s);
    for (auto &m : t.modules) m.scope.clear();
    auto text = write_table(s, t);
    auto doc = jv::parse_or_fail(s, text, "symbol table");
    s.say(text);
    s.require(doc.get("table") && doc.at("table").a.size() == t.modules.size(), "modules are missing");
    for (auto const &m : doc.at("table").a) {
        auto want = wanted(t, m.at("name").s);
        if (want.empty()) continue;
        s.nontrivial(text);
        auto l = written(m);
        s.require(!exchanged(t, m), "names and modules of instances are exchanged");
        s.require(Insts(l.begin(), l.end()) == want && l.size() == want.size(),
                  "instances of " + m.at("name").s + " differ");
    }
}

}  // namespace

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    return pbt::run_main(argc, argv,
                         {{{.name = "py_client", .cpu_limit = 20, .wall_limit = 30}, prop_client},
                          {{.name = "py_provider", .cpu_limit = 20, .wall_limit = 30}, prop_provider},
                          {{.name = "py_table", .cpu_limit = 20, .wall_limit = 30}, prop_table},
                          {{.name = "py_instances", .cpu_limit = 20, .wall_limit = 30}, prop_instances}});
}
