// Client requests: what each kind carries, a generator, and what the parsed request must say.
#pragma once
#include "jv.hh"
#include "proto.hh"
#include "scheduler.hh"
#include "util.hh"

using jv::V;
using pbt::Src;
using namespace hgdb;

enum class FT { Str, U64, U32, I64, Map };
struct Field {
    std::string name;
    FT type;
    bool required;
};

static V gen_field(Src &s, FT t) {
    switch (t) {
        case FT::Str:
            return V(jv::gen_string(s));
        case FT::U64:
            return V(static_cast<uint64_t>(s.bits(64)));
        case FT::U32:
            return V(static_cast<uint64_t>(s.bits(32)));
        case FT::I64: {
            auto v = static_cast<int64_t>(s.bits(64));
            return V(v);
        }
        case FT::Map: {
            V r = V::obj();
            size_t n = s.draw(5);
            for (size_t i = 0; i < n; i++) r.set(jv::gen_string(s, 4), V(jv::gen_string(s)));
            return r;
        }
    }
    return {};
}

static bool has_type(const V &v, FT t) {
    switch (t) {
        case FT::Str:
            return v.is(V::Str);
        case FT::U64:
            return v.is(V::Uint);
        case FT::U32:
            return v.is(V::Uint) && v.u <= UINT32_MAX;
        case FT::I64:
            return v.is(V::Int) || (v.is(V::Uint) && v.u <= INT64_MAX);
        case FT::Map:
            if (!v.is(V::Object)) return false;
            for (auto const &[k, x] : v.o)
                if (!x.is(V::Str)) return false;
            return true;
    }
    return false;
}

struct Kind {
    std::string type;
    // choice -> the fields it has; the choice itself is a field (command, action ...), if any
    std::string choice;
    std::vector<std::pair<std::string, std::vector<Field>>> variants;
};

static const std::vector<Kind> &kinds() {
    static const Field FN{"filename", FT::Str, true};
    static const Field COND{"condition", FT::Str, false};
    static const Field NS{"namespace_id", FT::U64, false};
    static const Field BPID{"breakpoint_id", FT::U64, false};
    static const Field INST{"instance_id", FT::U64, false};
    static const Field VAR{"var_name", FT::Str, true};
    static const std::vector<Field> mon = {VAR, BPID, INST, NS};
    static const std::vector<Kind> k = {
        {"breakpoint",
         "action",
         {{"add", {FN, {"line_num", FT::U32, true}, {"column_num", FT::U32, false}, COND}},
          {"remove", {FN, {"line_num", FT::U32, false}, {"column_num", FT::U32, false}, COND}}}},
        {"breakpoint-id",
         "action",
         {{"add", {{"id", FT::U32, true}, COND}}, {"remove", {{"id", FT::U32, true}, COND}}}},
        {"connection",
         "",
         {{"", {{"db_filename", FT::Str, true}, {"path-mapping", FT::Map, false}}}}},
        {"bp-location",
         "",
         {{"", {FN, {"line_num", FT::U64, false}, {"column_num", FT::U64, false}}}}},
        {"command",
         "command",
         {{"continue", {}},
          {"step_over", {}},
          {"step_back", {}},
          {"stop", {}},
          {"reverse_continue", {}},
          {"jump", {{"time", FT::U64, true}}}}},
        {"debugger-info",
         "command",
         {{"breakpoints", {}}, {"status", {}}, {"options", {}}, {"design", {}}, {"filename", {}}}},
        {"path-mapping", "", {{"", {{"path-mapping", FT::Map, true}}}}},
        {"evaluation",
         "",
         {{"",
           {{"expression", FT::Str, true},
            {"breakpoint_id", FT::U32, false},
            {"instance_id", FT::U32, false},
            NS}}}},
        {"option-change", "", {{"", {}}}},
        {"monitor",
         "action_type",
         {{"add:breakpoint", mon},
          {"add:clock_edge", mon},
          {"add:changed", mon},
          {"remove", {{"track_id", FT::U64, true}, NS}}}},
        {"set-value", "", {{"", {VAR, {"value", FT::I64, true}, INST, BPID, NS}}}},
        {"data-breakpoint",
         "action",
         {{"add", {VAR, {"breakpoint-id", FT::U64, true}, COND, NS}},
          {"info", {VAR, {"breakpoint-id", FT::U64, true}, COND, NS}},
          {"remove", {{"breakpoint-id", FT::U64, true}, NS}},
          {"clear", {NS}}}}};
    return k;
}

struct Made {
    const Kind *kind = nullptr;
    std::string variant;
    std::vector<Field> fields;
    V payload = V::obj();
    std::vector<std::string> choice_fields;  // required as well
};

static Made make_payload(Src &s) {
    Made m;
    m.kind = &s.pick(kinds());
    auto const &[name, fields] = s.pick(m.kind->variants);
    m.variant = name;
    m.fields = fields;
    if (!m.kind->choice.empty()) {
        auto colon = name.find(':');
        m.payload.set(m.kind->choice, V(name.substr(0, colon)));
        m.choice_fields.push_back(m.kind->choice);
        if (colon != std::string::npos) {
            m.payload.set("monitor_type", V(name.substr(colon + 1)));
            m.choice_fields.push_back("monitor_type");
        }
    }
    for (auto const &f : fields) {
        if (f.required || s.coin()) m.payload.set(f.name, gen_field(s, f.type));
    }
    if (m.kind->type == "option-change") {
        size_t n = s.draw(5);
        for (size_t i = 0; i < n; i++) {
            std::string k = jv::gen_string(s, 4);
            switch (s.draw(3)) {
                case 0:
                    m.payload.set(k, V(s.coin()));
                    break;
                case 1:
                    m.payload.set(k, gen_field(s, FT::I64));
                    break;
                default:
                    m.payload.set(k, gen_field(s, FT::Str));
            }
        }
    } else if (s.draw(4) == 3) {
        // unknown members are ignored
        m.payload.set("is_context", jv::gen_any(s, 2));
        m.payload.set("unknown", jv::gen_any(s, 1));
    }
    s.shuffle(m.payload.o);
    return m;
}

static V envelope(Src &s, const std::string &type, V payload, const std::string *token) {
    V r = V::obj();
    r.set("request", V(true));
    r.set("type", V(type));
    r.set("payload", std::move(payload));
    if (token) r.set("token", V(*token));
    if (s.draw(5) == 4) r.set("extra", jv::gen_any(s, 1));
    s.shuffle(r.o);
    return r;
}

template <typename T>
static void opt_u64(Src &s, const T &got, const V &payload, const std::string &name) {
    auto const *v = payload.get(name);
    s.require(got.has_value() == (v != nullptr), name + " is present on one side only");
    if (v) s.eq(static_cast<uint64_t>(*got), v->u, name);
}

static void check_map(Src &s, const std::map<std::string, std::string> &got, const V *v) {
    std::map<std::string, std::string> want;
    if (v)
        for (auto const &[k, x] : v->o) want.emplace(k, x.s);
    s.require(got == want, "the path mapping is not the one that was sent");
}

static void check_fields(Src &s, const Request &req, const Made &m) {
    auto const &p = m.payload;
    auto const &type = m.kind->type;
    auto str = [&](const char *n) { return p.at(n).s; };
    if (type == "breakpoint" || type == "breakpoint-id") {
        auto const &r = dynamic_cast<const BreakPointRequest &>(req);
        s.require(r.type() == (type == "breakpoint" ? RequestType::breakpoint
                                                    : RequestType::breakpoint_id),
                  "request type");
        s.require((r.bp_action() == BreakPointRequest::action::add) == (m.variant == "add"),
                  "action");
        auto const &bp = r.breakpoint();
        s.eq(bp.condition, str("condition"), "condition");
        if (type == "breakpoint") {
            s.eq(bp.filename, str("filename"), "filename");
            s.eq(bp.line_num, p.at("line_num").u, "line_num");
            s.eq(bp.column_num, p.at("column_num").u, "column_num");
        } else {
            s.eq(bp.id, p.at("id").u, "id");
        }
    } else if (type == "connection") {
        auto const &r = dynamic_cast<const ConnectionRequest &>(req);
        s.eq(r.db_filename(), str("db_filename"), "db_filename");
        check_map(s, r.path_mapping(), p.get("path-mapping"));
    } else if (type == "bp-location") {
        auto const &r = dynamic_cast<const BreakPointLocationRequest &>(req);
        s.eq(r.filename(), str("filename"), "filename");
        opt_u64(s, r.line_num(), p, "line_num");
        opt_u64(s, r.column_num(), p, "column_num");
    } else if (type == "command") {
        auto const &r = dynamic_cast<const CommandRequest &>(req);
        using C = CommandRequest::CommandType;
        static const std::map<std::string, C> t = {
            {"continue", C::continue_}, {"step_over", C::step_over},
            {"step_back", C::step_back}, {"stop", C::stop},
            {"reverse_continue", C::reverse_continue}, {"jump", C::jump}};
        s.require(r.command_type() == t.at(m.variant), "command");
        if (m.variant == "jump") s.eq(r.time(), p.at("time").u, "time");
    } else if (type == "debugger-info") {
        auto const &r = dynamic_cast<const DebuggerInformationRequest &>(req);
        using C = DebuggerInformationRequest::CommandType;
        static const std::map<std::string, C> t = {{"breakpoints", C::breakpoints},
                                                   {"status", C::status},
                                                   {"options", C::options},
                                                   {"design", C::design},
                                                   {"filename", C::filename}};
        s.require(r.command_type() == t.at(m.variant), "command");
    } else if (type == "path-mapping") {
        check_map(s, dynamic_cast<const PathMappingRequest &>(req).path_mapping(),
                  p.get("path-mapping"));
    } else if (type == "evaluation") {
        auto const &r = dynamic_cast<const EvaluationRequest &>(req);
        s.eq(r.expression(), str("expression"), "expression");
        opt_u64(s, r.breakpoint_id(), p, "breakpoint_id");
        opt_u64(s, r.instance_id(), p, "instance_id");
        opt_u64(s, r.namespace_id(), p, "namespace_id");
    } else if (type == "option-change") {
        auto const &r = dynamic_cast<const OptionChangeRequest &>(req);
        std::map<std::string, bool> b;
        std::map<std::string, int64_t> i;
        std::map<std::string, std::string> t;
        for (auto const &[k, v] : p.o) {
            if (v.is(V::Bool)) b[k] = v.b;
            if (v.is(V::Int)) i[k] = v.i;
            if (v.is(V::Uint)) i[k] = static_cast<int64_t>(v.u);
            if (v.is(V::Str)) t[k] = v.s;
        }
        s.require(r.bool_values() == b, "boolean options");
        s.require(r.int_values() == i, "integer options");
        s.require(r.str_values() == t, "string options");
    } else if (type == "monitor") {
        auto const &r = dynamic_cast<const MonitorRequest &>(req);
        bool add = m.variant != "remove";
        s.require((r.action_type() == MonitorRequest::ActionType::add) == add, "action");
        opt_u64(s, r.namespace_id(), p, "namespace_id");
        if (add) {
            using T = MonitorRequest::MonitorType;
            auto t = m.variant == "add:breakpoint"   ? T::breakpoint
                     : m.variant == "add:clock_edge" ? T::clock_edge
                                                     : T::changed;
            s.require(r.monitor_type() == t, "monitor type");
            s.eq(r.var_name(), str("var_name"), "var_name");
            opt_u64(s, r.breakpoint_id(), p, "breakpoint_id");
            opt_u64(s, r.instance_id(), p, "instance_id");
        } else {
            s.eq(r.track_id(), p.at("track_id").u, "track_id");
        }
    } else if (type == "set-value") {
        auto const &r = dynamic_cast<const SetValueRequest &>(req);
        s.eq(r.var_name(), str("var_name"), "var_name");
        auto const &v = p.at("value");
        s.eq(r.value(), v.is(V::Int) ? v.i : static_cast<int64_t>(v.u), "value");
        opt_u64(s, r.breakpoint_id(), p, "breakpoint_id");
        opt_u64(s, r.instance_id(), p, "instance_id");
        opt_u64(s, r.namespace_id(), p, "namespace_id");
    } else if (type == "data-breakpoint") {
        auto const &r = dynamic_cast<const DataBreakpointRequest &>(req);
        using A = DataBreakpointRequest::Action;
        auto a = m.variant == "add"      ? A::add
                 : m.variant == "info"   ? A::info
                 : m.variant == "remove" ? A::remove
                                         : A::clear;
        s.require(r.action() == a, "action");
        opt_u64(s, r.namespace_id(), p, "namespace_id");
        if (a != A::clear) s.eq(r.breakpoint_id(), p.at("breakpoint-id").u, "breakpoint-id");
        if (a == A::add || a == A::info) {
            s.eq(r.var_name(), str("var_name"), "var_name");
            s.eq(r.condition(), str("condition"), "condition");
        }
    }
}
