// C02: every client message is understood field by field or rejected.
// C03: every response is valid JSON with exactly the content it was given; the symbol table
//      protocol is read and written without loss.
#include "reqmodel.hh"
#include "proto.hh"
#include "scheduler.hh"
#include "util.hh"

using jv::V;
using pbt::Src;
using namespace hgdb;

// ---------------------------------------------------------------------------------------------
// requests
// ---------------------------------------------------------------------------------------------
static void prop_request(Src &s) {
    auto m = make_payload(s);
    std::string token = jv::gen_string(s);
    bool has_token = s.coin();
    V msg = envelope(s, m.kind->type, m.payload, has_token ? &token : nullptr);
    auto text = jv::str(msg, s.coin() ? &s : nullptr);
    s.say(text);
    s.nontrivial(text);
    s.label(m.kind->type);
    auto req = Request::parse_request(text);
    s.require(req != nullptr, "no request");
    s.require(req->status() == status_code::success,
              "a well-formed request is rejected: " + req->error_reason());
    s.eq(hgdb::to_string(req->type()), m.kind->type, "request type");
    s.eq(req->get_token(), has_token ? token : "", "token");
    check_fields(s, *req, m);
    // the token goes into any response made for it
    GenericResponse resp(status_code::success, *req);
    auto out = jv::parse_or_fail(s, resp.str(false), "response");
    s.eq(out.at("token").s, has_token ? token : "", "token of the response");
    s.eq(out.at("payload").at("request-type").s, m.kind->type, "request-type of the response");
    EvaluationResponse er("1");
    req->set_token(er);
    out = jv::parse_or_fail(s, er.str(true), "response");
    s.eq(out.at("token").s, has_token ? token : "", "token of the response");
}

// a required member is missing, or a member has the wrong type or an unknown value
static void prop_bad_request(Src &s) {
    auto m = make_payload(s);
    V payload = m.payload;
    bool must_fail = true;
    std::string type = m.kind->type;
    std::string what;
    bool plain = false;
    switch (s.draw(5)) {
        case 0: {  // drop a required member
            std::vector<std::string> req = m.choice_fields;
            for (auto const &f : m.fields)
                if (f.required) req.push_back(f.name);
            if (req.empty()) throw pbt::Discard{};
            auto name = s.pick(req);
            std::erase_if(payload.o, [&](auto const &x) { return x.first == name; });
            what = "without " + name;
            break;
        }
        case 1: {  // wrong type
            std::vector<Field> f = m.fields;
            for (auto const &c : m.choice_fields) f.push_back({c, FT::Str, true});
            if (f.empty()) throw pbt::Discard{};
            auto field = s.pick(f);
            V v = jv::gen_any(s, 2);
            must_fail = field.required && !has_type(v, field.type);
            if (field.type == FT::Str && v.is(V::Str)) must_fail = false;
            if ((field.name == "line_num" || field.name == "id" || field.name == "column_num") &&
                v.is(V::Uint))
                must_fail = false;  // larger than a line number can be
            what = field.name + " = " + jv::str(v);
            payload.set(field.name, std::move(v));
            break;
        }
        case 2: {  // unknown choice
            if (m.choice_fields.empty()) throw pbt::Discard{};
            auto c = s.pick(m.choice_fields);
            std::string v = s.coin() ? "" : jv::gen_string(s);
            v += "?";
            payload.set(c, V(v));
            what = c + " = " + v;
            break;
        }
        case 3: {  // payload is not an object
            payload = jv::gen_any(s, 1);
            if (payload.is(V::Object)) throw pbt::Discard{};
            what = "payload " + jv::str(payload);
            break;
        }
        default: {
            // envelope
            plain = true;
            V msg = envelope(s, type, payload, nullptr);
            switch (s.draw(4)) {
                case 0: {
                    static const std::vector<std::string> names = {"request", "type", "payload"};
                    auto name = s.pick(names);
                    std::erase_if(msg.o, [&](auto const &x) { return x.first == name; });
                    what = "no " + name;
                    break;
                }
                case 1: {
                    V v = jv::gen_any(s, 1);
                    if (v.is(V::Bool)) v = V(false);
                    what = "request " + jv::str(v);
                    msg.set("request", std::move(v));
                    break;
                }
                case 2: {
                    V v = s.coin() ? V(jv::gen_string(s) + "?") : jv::gen_any(s, 1);
                    if (v.is(V::Str)) v.s += "?";
                    what = "type " + jv::str(v);
                    msg.set("type", std::move(v));
                    break;
                }
                default:
                    msg = jv::gen_any(s, 2);
                    what = "message " + jv::str(msg);
            }
            payload = msg;
        }
    }
    std::string token = "t" + jv::gen_string(s);
    bool has_token = !plain && s.coin();
    auto text = jv::str(plain ? payload : envelope(s, type, payload, has_token ? &token : nullptr));
    s.say(text);
    s.nontrivial(text);
    s.label(must_fail ? "must be rejected" : "may be accepted");
    auto req = Request::parse_request(text);
    s.require(req != nullptr, "no request");
    if (must_fail)
        s.require(req->status() == status_code::error,
                  "accepted (" + type + "), " + what);
    // a request that is rejected can still be told apart
    if (has_token) s.eq(req->get_token(), token, "token of a rejected request");
    GenericResponse resp(status_code::error, *req, req->error_reason());
    auto out = jv::parse_or_fail(s, resp.str(false), "response");
    s.eq(out.at("status").s, "error", "status");
}

// any text
static void prop_any_text(Src &s) {
    std::string text;
    if (s.draw(4) != 0) {
        auto m = make_payload(s);
        V msg = envelope(s, m.kind->type, m.payload, nullptr);
        text = jv::str(msg, s.coin() ? &s : nullptr);
        size_t n = 1 + s.draw(4);
        static const std::string alphabet = "{}[]\",:0123456789.eE+-\\/ntfu \n\x01\xff\x80xyz";
        for (size_t i = 0; i < n && !text.empty(); i++) {
            size_t at = s.draw(text.size());
            switch (s.draw(5)) {
                case 0:
                    text.erase(at, 1 + s.draw(8));
                    break;
                case 1:
                    text.insert(at, 1, alphabet[s.draw(alphabet.size())]);
                    break;
                case 2:
                    text[at] = alphabet[s.draw(alphabet.size())];
                    break;
                case 3:
                    text.resize(at);
                    break;
                default: {
                    auto piece = text.substr(at, s.draw(20));
                    text.insert(s.draw(text.size()), piece);
                }
            }
        }
    } else {
        static const std::vector<std::string> tok = {
            "{",  "}",    "[",     "]",  ",",    ":",      "\"request\"", "true", "\"type\"",
            "\"", "null", "\"payload\"", "1",  "-1", "1e999", "\"monitor\"", "\\u00", "\xff",
            " ",  "//",   "/**/",  "\"token\"", "{}", "[]"};
        size_t n = s.len(0, 30);
        for (size_t i = 0; i < n; i++) text += s.pick(tok);
    }
    s.say(text);
    s.nontrivial(text);
    bool valid = true;
    V v;
    try {
        jv::Parser p{text};
        p.unique_keys = false;
        v = p.all();
    } catch (const jv::Bad &) {
        valid = false;
    }
    s.label(valid ? "JSON" : "not JSON");
    auto req = Request::parse_request(text);
    s.require(req != nullptr, "no request");
    if (text.find('\0') == std::string::npos) {
        bool is_request = valid && v.is(V::Object) && v.at("request").is(V::Bool) &&
                          v.at("request").b && v.at("type").is(V::Str) && v.get("payload");
        if (!is_request && valid)
            s.require(req->status() == status_code::error, "accepted: not a request");
    }
    GenericResponse resp(req->status(), *req, req->error_reason());
    resp.str(false);
}

// ---------------------------------------------------------------------------------------------
// responses
// ---------------------------------------------------------------------------------------------
static V expect_header(const std::string &type, const std::string &token, bool ok, V payload) {
    V r = V::obj();
    r.set("request", V(false));
    r.set("type", V(type));
    if (!token.empty()) r.set("token", V(token));
    r.set("status", V(ok ? "success" : "error"));
    r.set("payload", std::move(payload));
    return r;
}

static void check_response(Src &s, Response &resp, const std::string &type, bool ok,
                           const V &payload) {
    std::string token = s.coin() ? jv::gen_string(s) : "";
    resp.set_token(token);
    auto want = expect_header(type, token, ok, payload);
    s.say(jv::str(want));
    s.nontrivial(jv::str(want));
    s.label(type);
    auto compact = jv::parse_or_fail(s, resp.str(false), "the response");
    auto pretty = jv::parse_or_fail(s, resp.str(true), "the pretty response");
    s.eq(compact, want, "the response");
    s.eq(pretty, want, "the pretty response");
    s.eq(resp.type(), type, "type");
}

static std::string gen_local_name(Src &s) {
    static const std::vector<std::string> heads = {"a", "b", "sum", "_t", "$x", "arr"};
    std::string r = s.pick(heads);
    size_t n = s.draw(3);
    for (size_t i = 0; i < n; i++) {
        switch (s.draw(3)) {
            case 0:
                r += "." + std::to_string(s.draw(120));
                break;
            case 1:
                r += "[" + std::to_string(s.draw(120)) + "]";
                break;
            default:
                r += "." + s.pick(heads);
        }
    }
    return r;
}

static std::vector<std::string> tokens_of(const std::string &n) {
    std::vector<std::string> r;
    std::string cur;
    for (char c : n + ".") {
        if (c == '.' || c == '[' || c == ']') {
            if (!cur.empty()) r.push_back(cur);
            cur.clear();
        } else {
            cur += c;
        }
    }
    return r;
}

static bool name_less(const std::string &a, const std::string &b) {
    auto x = tokens_of(a), y = tokens_of(b);
    for (size_t i = 0; i < std::max(x.size(), y.size()); i++) {
        if (i >= x.size()) return true;
        if (i >= y.size()) return false;
        bool nx = isdigit(static_cast<unsigned char>(x[i][0])),
             ny = isdigit(static_cast<unsigned char>(y[i][0]));
        if (nx && ny) {
            auto p = std::stoul(x[i]), q = std::stoul(y[i]);
            if (p != q) return p < q;
        } else if (x[i] != y[i]) {
            return x[i] < y[i];
        }
    }
    return false;
}

static uint32_t u32(Src &s) { return static_cast<uint32_t>(s.bits(32)); }

static void prop_response(Src &s) {
    switch (s.draw(8)) {
        case 0: {
            bool ok = s.coin();
            auto reason = jv::gen_string(s);
            static const std::vector<RequestType> types = {
                RequestType::error, RequestType::breakpoint, RequestType::breakpoint_id,
                RequestType::connection, RequestType::bp_location, RequestType::command,
                RequestType::debugger_info, RequestType::path_mapping, RequestType::evaluation,
                RequestType::option_change, RequestType::monitor, RequestType::set_value,
                RequestType::symbol, RequestType::data_breakpoint};
            static const std::vector<std::string> names = {
                "error", "breakpoint", "breakpoint-id", "connection", "bp-location", "command",
                "debugger-info", "path-mapping", "evaluation", "option-change", "monitor",
                "set-value", "symbol", "data-breakpoint"};
            auto k = s.draw(types.size());
            GenericResponse r(ok ? status_code::success : status_code::error, types[k], reason);
            V p = V::obj();
            p.set("request-type", V(names[k]));
            if (!ok) p.set("reason", V(reason));
            size_t n = s.draw(4);
            for (size_t i = 0; i < n; i++) {
                auto name = "k" + std::to_string(i);
                switch (s.draw(5)) {
                    case 0: {
                        bool b = s.coin();
                        r.set_value(name, b);
                        p.set(name, V(b));
                        break;
                    }
                    case 1: {
                        auto v = static_cast<int64_t>(s.bits(64));
                        r.set_value(name, v);
                        p.set(name, V(v));
                        break;
                    }
                    case 2: {
                        auto v = u32(s);
                        r.set_value(name, v);
                        p.set(name, V(v));
                        break;
                    }
                    case 3: {
                        auto v = static_cast<int32_t>(s.bits(32));
                        r.set_value(name, v);
                        p.set(name, V(static_cast<int64_t>(v)));
                        break;
                    }
                    default: {
                        auto v = jv::gen_string(s);
                        r.set_value(name, v);
                        p.set(name, V(v));
                    }
                }
            }
            check_response(s, r, "generic", ok, p);
            return;
        }
        case 1: {
            std::vector<BreakPoint> bps(s.draw(5));
            std::vector<BreakPoint *> ptr;
            V p = V::arr();
            for (auto &bp : bps) {
                bp.id = u32(s);
                bp.filename = jv::gen_string(s);
                bp.line_num = u32(s);
                bp.column_num = u32(s);
                ptr.push_back(&bp);
                V e = V::obj();
                e.set("id", V(bp.id));
                e.set("filename", V(bp.filename));
                e.set("line_num", V(bp.line_num));
                e.set("column_num", V(bp.column_num));
                p.push(e);
            }
            BreakPointLocationResponse r(ptr);
            check_response(s, r, "bp-location", true, p);
            return;
        }
        case 2:
        case 3: {
            uint64_t time = s.bits(64);
            auto fn = jv::gen_string(s);
            auto line = u32(s), col = u32(s);
            BreakPointResponse r(time, fn, line, col);
            V p = V::obj();
            p.set("time", V(time));
            p.set("filename", V(fn));
            p.set("line_num", V(line));
            p.set("column_num", V(col));
            V insts = V::arr();
            size_t n = s.draw(4);
            std::vector<std::vector<std::string>> orders;
            for (size_t i = 0; i < n; i++) {
                uint64_t inst = s.bits(64), bp = s.bits(64), ns = s.draw(4);
                auto name = jv::gen_string(s);
                BreakPointResponse::Scope scope(inst, name, bp, ns);
                V e = V::obj();
                e.set("instance_id", V(inst));
                e.set("instance_name", V(name));
                e.set("breakpoint_id", V(bp));
                e.set("namespace_id", V(ns));
                V local = V::obj(), gen = V::obj();
                std::vector<std::string> names;
                size_t locals = s.draw(8);
                for (size_t k = 0; k < locals; k++) {
                    auto ln = gen_local_name(s);
                    // a.0 and a[0] are one variable
                    bool same = false;
                    for (auto const &other : names)
                        same = same || (tokens_of(other) == tokens_of(ln) && other != ln);
                    if (same) continue;
                    auto val = jv::gen_string(s);
                    scope.add_local_value(ln, val);
                    if (!local.get(ln)) names.push_back(ln);
                    local.set(ln, V(val));  // the last one counts
                }
                size_t gens = s.draw(4);
                for (size_t k = 0; k < gens; k++) {
                    auto gn = gen_local_name(s);
                    auto val = jv::gen_string(s);
                    scope.add_generator_value(gn, val);
                    if (!gen.get(gn)) gen.set(gn, V(val));  // the first one counts
                }
                std::stable_sort(names.begin(), names.end(), name_less);
                orders.push_back(names);
                e.set("local", local);
                e.set("generator", gen);
                if (s.draw(3) == 2) {
                    scope.bp_type = "data";
                    e.set("bp_type", V("data"));
                }
                r.add_scope(scope);
                insts.push(e);
            }
            p.set("instances", insts);
            check_response(s, r, "breakpoint", true, p);
            // array elements are listed in index order
            auto out = jv::parse_or_fail(s, r.str(false), "the response");
            for (size_t i = 0; i < n; i++) {
                std::vector<std::string> got;
                for (auto const &[k, v] : out.at("payload").at("instances").a[i].at("local").o)
                    got.push_back(k);
                s.require(got == orders[i], "local variables are out of order");
            }
            return;
        }
        case 4: {
            V p = V::obj();
            switch (s.draw(5)) {
                case 0: {
                    auto st = jv::gen_string(s);
                    p.set("command", V("status"));
                    p.set("status", V(st));
                    DebuggerInformationResponse r(st);
                    check_response(s, r, "debugger-info", true, p);
                    return;
                }
                case 1: {
                    std::vector<DebugBreakPoint> bps(s.draw(5));
                    std::vector<const DebugBreakPoint *> ptr;
                    V a = V::arr();
                    for (auto &bp : bps) {
                        bp.id = u32(s);
                        bp.filename = jv::gen_string(s);
                        bp.line_num = u32(s);
                        bp.column_num = u32(s);
                        auto type = static_cast<uint32_t>(1 + s.draw(3));
                        bp.type = static_cast<DebugBreakPoint::Type>(type);
                        V e = V::obj();
                        e.set("id", V(bp.id));
                        e.set("filename", V(bp.filename));
                        e.set("line_num", V(bp.line_num));
                        e.set("column_num", V(bp.column_num));
                        e.set("type", V(type));
                        if (s.coin()) {
                            bp.target_rtl_var_name = "v" + jv::gen_string(s);
                            e.set("var", V(bp.target_rtl_var_name));
                        }
                        a.push(e);
                        ptr.push_back(&bp);
                    }
                    p.set("command", V("breakpoints"));
                    p.set("breakpoints", a);
                    DebuggerInformationResponse r(ptr);
                    check_response(s, r, "debugger-info", true, p);
                    return;
                }
                case 2: {
                    // through the option store, the way the debugger does it
                    util::Options opts;
                    bool b[3];
                    int64_t n[3];
                    std::string t[3];
                    V o = V::obj();
                    for (int i = 0; i < 3; i++) {
                        b[i] = s.coin();
                        n[i] = static_cast<int64_t>(s.bits(63));
                        t[i] = "s" + jv::gen_string(s);
                        opts.add_option("b" + std::to_string(i), &b[i]);
                        opts.add_option("n" + std::to_string(i), &n[i]);
                        opts.add_option("t" + std::to_string(i), &t[i]);
                    }
                    size_t sets = s.draw(5);
                    bool wb[3] = {b[0], b[1], b[2]};
                    int64_t wn[3] = {n[0], n[1], n[2]};
                    std::string wt[3] = {t[0], t[1], t[2]};
                    for (size_t i = 0; i < sets; i++) {
                        auto k = s.draw(4);  // 3: no such option
                        auto key = std::to_string(k);
                        switch (s.draw(3)) {
                            case 0: {
                                bool v = s.coin();
                                opts.set_option("b" + key, v);
                                opts.set_option("n" + key, v);  // wrong type: ignored
                                if (k < 3) wb[k] = v;
                                break;
                            }
                            case 1: {
                                auto v = static_cast<int64_t>(s.bits(63));
                                opts.set_option("n" + key, v);
                                opts.set_option("t" + key, v);
                                if (k < 3) wn[k] = v;
                                break;
                            }
                            default: {
                                std::string v = "s" + jv::gen_string(s);
                                opts.set_option("t" + key, v);
                                opts.set_option("b" + key, v);
                                if (k < 3) wt[k] = v;
                            }
                        }
                    }
                    for (int i = 0; i < 3; i++) {
                        o.set("b" + std::to_string(i), V(wb[i]));
                        o.set("n" + std::to_string(i), V(wn[i]));
                        o.set("t" + std::to_string(i), V(wt[i]));
                    }
                    p.set("command", V("options"));
                    p.set("options", o);
                    DebuggerInformationResponse r(opts.get_options());
                    check_response(s, r, "debugger-info", true, p);
                    return;
                }
                case 3: {
                    std::map<std::string, std::map<std::string, uint32_t>> design;
                    V d = V::obj();
                    size_t n = s.draw(4);
                    for (size_t i = 0; i < n; i++) {
                        auto name = jv::gen_string(s);
                        if (design.count(name)) continue;
                        auto &m = design[name];
                        V e = V::obj();
                        size_t k = s.draw(4);
                        for (size_t j = 0; j < k; j++) {
                            auto inst = jv::gen_string(s);
                            auto id = u32(s);
                            m[inst] = id;
                            e.set(inst, V(id));
                        }
                        d.set(name, e);
                    }
                    p.set("command", V("design"));
                    p.set("design", d);
                    DebuggerInformationResponse r(design);
                    check_response(s, r, "debugger-info", true, p);
                    return;
                }
                default: {
                    std::vector<std::string> names(s.draw(5));
                    V a = V::arr();
                    for (auto &x : names) {
                        x = jv::gen_string(s);
                        a.push(V(x));
                    }
                    p.set("command", V("filename"));
                    p.set("filenames", a);
                    DebuggerInformationResponse r(names);
                    check_response(s, r, "debugger-info", true, p);
                    return;
                }
            }
        }
        case 5: {
            auto v = jv::gen_string(s);
            V p = V::obj();
            p.set("result", V(v));
            EvaluationResponse r(v);
            check_response(s, r, "evaluation", true, p);
            return;
        }
        default: {
            uint64_t id = s.bits(64), ns = s.bits(64);
            auto v = jv::gen_string(s);
            V p = V::obj();
            p.set("track_id", V(id));
            p.set("namespace_id", V(ns));
            p.set("value", V(v));
            MonitorResponse r(id, ns, v);
            check_response(s, r, "monitor", true, p);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// symbol table protocol
// ---------------------------------------------------------------------------------------------
using RT = SymbolRequest::request_type;
static const std::vector<std::pair<RT, std::string>> RTS = {
    {RT::get_breakpoint, "get_breakpoint"},
    {RT::get_breakpoints, "get_breakpoints"},
    {RT::get_instance_name, "get_instance_name"},
    {RT::get_instance_id, "get_instance_id"},
    {RT::get_context_variables, "get_context_variables"},
    {RT::get_generator_variables, "get_generator_variables"},
    {RT::get_instance_names, "get_instance_names"},
    {RT::get_annotation_values, "get_annotation_values"},
    {RT::get_all_array_names, "get_all_array_names"},
    {RT::get_filenames, "get_filenames"},
    {RT::get_execution_bp_orders, "get_execution_bp_orders"},
    {RT::get_assigned_breakpoints, "get_assigned_breakpoints"}};

static void prop_symbol_request(Src &s) {
    auto const &[rt, name] = RTS[s.draw(RTS.size())];
    SymbolRequest req(rt);
    req.instance_id = u32(s);
    req.breakpoint_id = u32(s);
    req.filename = jv::gen_string(s);
    req.line_num = u32(s);
    req.column_num = u32(s);
    req.instance_name = s.coin() ? "i" + jv::gen_string(s) : "";
    req.name = jv::gen_string(s);
    V p = V::obj();
    p.set("type", V(name));
    switch (rt) {
        case RT::get_breakpoints:
            p.set("filename", V(req.filename));
            p.set("line_num", V(req.line_num));
            p.set("col_num", V(req.column_num));
            break;
        case RT::get_instance_name:
        case RT::get_generator_variables:
            p.set("instance_id", V(req.instance_id));
            break;
        case RT::get_breakpoint:
        case RT::get_context_variables:
            p.set("breakpoint_id", V(req.breakpoint_id));
            break;
        case RT::get_instance_id:
            if (req.instance_name.empty())
                p.set("breakpoint_id", V(req.breakpoint_id));
            else
                p.set("instance_name", V(req.instance_name));
            break;
        case RT::get_annotation_values:
            p.set("name", V(req.name));
            break;
        case RT::get_assigned_breakpoints:
            p.set("name", V(req.name));
            p.set("breakpoint_id", V(req.breakpoint_id));
            break;
        default:
            break;
    }
    auto text = req.str();
    s.say(text);
    s.nontrivial(text);
    s.label(name);
    auto out = jv::parse_or_fail(s, text, "the symbol request");
    s.eq(out.at("request"), V(true), "request");
    s.eq(out.at("type"), V("symbol"), "type");
    s.eq(out.at("payload"), p, "payload");
    // and back
    SymbolRequest back(RTS[s.draw(RTS.size())].first);
    back.parse_payload(jv::str(p, &s));
    s.require(back.req_type() == rt, "type after the round trip");
    SymbolRequest again(rt);
    s.require(back.status() == hgdb::status_code::success, "a complete request was refused");
    s.eq(jv::parse_or_fail(s, back.str(), "second request"), out, "request after a round trip");
    // damaged
    auto required = p;
    std::erase_if(required.o, [](auto const &x) { return x.first == "line_num" || x.first == "col_num"; });
    auto member = s.pick(required.o).first;
    auto how = s.draw(3);
    if (how == 0) {
        std::erase_if(p.o, [&](auto const &x) { return x.first == member; });
    } else if (how == 1) {
        p.set(member, s.coin() ? V::obj() : V(true));
    } else {
        member = "type";
        p.set("type", V(name + s.pick<std::string>({"x", " ", "_"})));
    }
    SymbolRequest bad(rt);
    bad.parse_payload(jv::str(p, &s));
    s.require(bad.status() == hgdb::status_code::error, "taken without a valid " + member + ": " + jv::str(p));
    s.require(!bad.error_reason().empty(), "refused without a reason");
}

static V bp_json(Src &s, BreakPoint &bp) {
    bp.id = u32(s);
    bp.instance_id = std::make_unique<uint32_t>(u32(s));
    bp.filename = jv::gen_string(s);
    bp.line_num = u32(s);
    bp.column_num = u32(s);
    bp.condition = jv::gen_string(s);
    bp.trigger = jv::gen_string(s);
    V e = V::obj();
    e.set("id", V(bp.id));
    e.set("instance_id", V(*bp.instance_id));
    e.set("filename", V(bp.filename));
    e.set("line_num", V(bp.line_num));
    e.set("column_num", V(bp.column_num));
    e.set("condition", V(bp.condition));
    e.set("trigger", V(bp.trigger));
    s.shuffle(e.o);
    return e;
}

static void bp_same(Src &s, const BreakPoint &a, const BreakPoint &b) {
    s.eq(a.id, b.id, "id");
    s.eq(*a.instance_id, *b.instance_id, "instance_id");
    s.eq(a.filename, b.filename, "filename");
    s.eq(a.line_num, b.line_num, "line_num");
    s.eq(a.column_num, b.column_num, "column_num");
    s.eq(a.condition, b.condition, "condition");
    s.eq(a.trigger, b.trigger, "trigger");
}

// the wire format is the one of the reference implementation in bindings/python/hgdb/symbol.py
static void prop_symbol_response(Src &s) {
    auto const &[rt, name] = RTS[s.draw(RTS.size())];
    V result;
    std::vector<BreakPoint> bps;
    std::vector<std::string> strs;
    std::vector<uint32_t> nums;
    std::vector<std::tuple<uint32_t, std::string, std::string>> assigned;
    struct Var {
        std::string name;
        uint32_t owner, vid, id;
        std::string value;
        bool rtl;
        std::string annotation;
    };
    std::vector<Var> vars;
    SymbolResponse own(rt);  // written by the code under test
    bool none = s.draw(8) == 7;
    switch (rt) {
        case RT::get_breakpoint: {
            bps.resize(1);
            result = bp_json(s, bps[0]);
            break;
        }
        case RT::get_breakpoints: {
            bps.resize(s.draw(4));
            result = V::arr();
            for (auto &bp : bps) result.push(bp_json(s, bp));
            break;
        }
        case RT::get_instance_name:
            strs.push_back(jv::gen_string(s));
            result = V(strs[0]);
            break;
        case RT::get_instance_id:
            nums.push_back(u32(s));
            result = V(nums[0]);
            break;
        case RT::get_context_variables:
        case RT::get_generator_variables: {
            bool gen = rt == RT::get_generator_variables;
            result = V::arr();
            vars.resize(s.draw(4));
            for (auto &v : vars) {
                v = {jv::gen_string(s), u32(s), u32(s), u32(s), jv::gen_string(s), s.coin(), ""};
                V a = V::obj(), b = V::obj();
                a.set("name", V(v.name));
                a.set(gen ? "instance_id" : "breakpoint_id", V(v.owner));
                a.set("variable_id", V(v.vid));
                if (gen && s.coin()) {
                    v.annotation = jv::gen_string(s);
                    a.set("annotation", V(v.annotation));
                }
                b.set("id", V(v.id));
                b.set("value", V(v.value));
                b.set("is_rtl", V(v.rtl));
                s.shuffle(a.o);
                s.shuffle(b.o);
                V pair = V::arr();
                pair.push(a);
                pair.push(b);
                result.push(pair);
            }
            break;
        }
        case RT::get_execution_bp_orders: {
            result = V::arr();
            size_t n = s.draw(6);
            for (size_t i = 0; i < n; i++) {
                nums.push_back(u32(s));
                result.push(V(nums.back()));
            }
            break;
        }
        case RT::get_assigned_breakpoints: {
            result = V::arr();
            size_t n = s.draw(4);
            for (size_t i = 0; i < n; i++) {
                static const std::vector<std::string> idn = {"id", "breakpoint_id"};
                static const std::vector<std::string> varn = {"var", "value", "var_name",
                                                              "variable_name"};
                static const std::vector<std::string> cn = {"cond", "condition"};
                std::string cond = s.coin() ? jv::gen_string(s) : "";
                assigned.emplace_back(u32(s), jv::gen_string(s), cond);
                V e = V::obj();
                e.set(s.pick(idn), V(std::get<0>(assigned.back())));
                e.set(s.pick(varn), V(std::get<1>(assigned.back())));
                if (!cond.empty() || s.coin()) e.set(s.pick(cn), V(cond));
                s.shuffle(e.o);
                result.push(e);
            }
            break;
        }
        default: {
            result = V::arr();
            size_t n = s.draw(5);
            for (size_t i = 0; i < n; i++) {
                strs.push_back(jv::gen_string(s));
                result.push(V(strs.back()));
            }
        }
    }
    V msg = V::obj();
    if (!none) msg.set("result", result);
    auto text = jv::str(msg, &s);
    s.say(name + " " + text);
    s.nontrivial(name + text);
    s.label(name);
    SymbolResponse resp(rt);
    resp.parse(text);
    auto compare = [&](const SymbolResponse &r, bool annotations) {
        if (rt == RT::get_breakpoint) {
            s.require(r.bp_result.has_value() == !bps.empty(), "breakpoint present");
            if (!bps.empty()) bp_same(s, *r.bp_result, bps[0]);
        } else {
            s.eq(r.bp_results.size(), bps.size(), "number of breakpoints");
            for (size_t i = 0; i < bps.size(); i++) bp_same(s, r.bp_results[i], bps[i]);
        }
        if (rt == RT::get_instance_name) {
            s.require(r.str_result.has_value() == !strs.empty(), "name present");
            if (!strs.empty()) s.eq(*r.str_result, strs[0], "instance name");
        } else {
            s.require(r.str_results == strs, "the strings differ");
        }
        if (rt == RT::get_instance_id) {
            s.require(r.uint64_t_result.has_value() == !nums.empty(), "id present");
            if (!nums.empty()) s.eq(*r.uint64_t_result, nums[0], "instance id");
        } else {
            s.require(r.uint64_t_results == nums, "the order differs");
        }
        s.require(r.var_result == assigned, "the assignments differ");
        bool gen = rt == RT::get_generator_variables;
        s.eq(r.context_vars_result.size(), gen ? 0 : vars.size(), "number of variables");
        s.eq(r.gen_vars_result.size(), gen ? vars.size() : 0, "number of variables");
        for (size_t i = 0; i < vars.size(); i++) {
            auto const &v = vars[i];
            auto const &var = gen ? r.gen_vars_result[i].second : r.context_vars_result[i].second;
            s.eq(var.id, v.id, "variable id");
            s.eq(var.value, v.value, "variable value");
            s.eq(var.is_rtl, v.rtl, "is_rtl");
            if (gen) {
                auto const &g = r.gen_vars_result[i].first;
                s.eq(g.name, v.name, "name");
                s.eq(*g.instance_id, v.owner, "instance_id");
                s.eq(*g.variable_id, v.vid, "variable_id");
                if (annotations) s.eq(g.annotation, v.annotation, "annotation");
            } else {
                auto const &c = r.context_vars_result[i].first;
                s.eq(c.name, v.name, "name");
                s.eq(*c.breakpoint_id, v.owner, "breakpoint_id");
                s.eq(*c.variable_id, v.vid, "variable_id");
            }
        }
    };
    if (none) {
        bps.clear();
        strs.clear();
        nums.clear();
        assigned.clear();
        vars.clear();
        compare(resp, true);
        return;
    }
    compare(resp, true);
    // written by the debugger and read back
    auto out = resp.str(s.coin());
    jv::parse_or_fail(s, out, "the symbol response");
    SymbolResponse back(rt);
    back.parse(out);
    compare(back, false);
}

// whatever a symbol server answers
static void prop_symbol_any(Src &s) {
    auto const &[rt, name] = RTS[s.draw(RTS.size())];
    V msg;
    if (s.draw(6) == 0) {
        msg = jv::gen_any(s, 2);
    } else {
        msg = V::obj();
        static const std::vector<std::string> keys = {
            "id",   "instance_id", "filename",      "line_num",    "column_num", "condition",
            "name", "trigger",     "breakpoint_id", "variable_id", "value",      "is_rtl",
            "var",  "cond"};
        auto any = [&]() {
            V o = V::obj();
            for (auto const &k : keys)
                if (s.draw(4) != 0) o.set(k, jv::gen_any(s, 1));
            return o;
        };
        switch (s.draw(4)) {
            case 0:
                msg.set("result", jv::gen_any(s, 3));
                break;
            case 1:
                msg.set("result", any());
                break;
            case 2: {
                V a = V::arr();
                size_t n = s.draw(4);
                for (size_t i = 0; i < n; i++) a.push(s.coin() ? any() : jv::gen_any(s, 1));
                msg.set("result", a);
                break;
            }
            default: {
                V a = V::arr();
                size_t n = s.draw(4);
                for (size_t i = 0; i < n; i++) {
                    V p = V::arr();
                    p.push(s.draw(3) ? any() : jv::gen_any(s, 1));
                    p.push(s.draw(3) ? any() : jv::gen_any(s, 1));
                    a.push(p);
                }
                msg.set("result", a);
            }
        }
    }
    auto text = jv::str(msg);
    if (s.draw(5) == 4) text.resize(s.draw(text.size() + 1));
    s.say(name + " " + text);
    s.nontrivial(name + text);
    SymbolResponse r(rt);
    r.parse(text);
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv,
                         {{{.name = "proto_request"}, prop_request},
                          {{.name = "proto_bad_request"}, prop_bad_request},
                          {{.name = "proto_any_text"}, prop_any_text},
                          {{.name = "proto_response"}, prop_response},
                          {{.name = "proto_symbol_request"}, prop_symbol_request},
                          {{.name = "proto_symbol_response"}, prop_symbol_response},
                          {{.name = "proto_symbol_any"}, prop_symbol_any}});
}
