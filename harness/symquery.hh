// Queries of a symbol table as values, and the text of their answers.
#pragma once
#include "symcheck.hh"

namespace {  // NOLINT: one user per binary

struct Written {
    Table t;
    std::string text;
};

Written gen_table(Src &s) {
    Written m;
    // how long a value was held is not part of the protocol
    sym::Gen g{s, {.delays = false, .max_modules = 3}};
    m.t = g.table();
    sym::Writer w{s};
    jv::write(m.text, w.document(m.t), nullptr);
    s.say(m.text);
    sym::derive(m.t);
    return m;
}

// queries as values
struct Query {
    unsigned kind = 0;
    uint32_t id = 0;
    std::string name;
    uint32_t line = 0, col = 0;
    std::string str() const {
        return std::to_string(kind) + "(" + std::to_string(id) + "," + name + "," + std::to_string(line) + "," +
               std::to_string(col) + ")";
    }
};

std::string ask(Provider &p, const Query &q) {
    std::ostringstream o;
    auto bp = [&](const hgdb::BreakPoint &b) {
        o << b.id << "@" << (b.instance_id ? std::to_string(*b.instance_id) : "?") << " " << b.filename << ":"
          << b.line_num << ":" << b.column_num << " " << b.condition << " " << b.trigger << ";";
    };
    switch (q.kind) {
        case 0:
            if (auto b = p.get_breakpoint(q.id)) bp(*b);
            break;
        case 1:
            for (auto const &b : p.get_breakpoints(q.name)) bp(b);
            break;
        case 2:
            for (auto const &b : p.get_breakpoints(q.name, q.line)) bp(b);
            break;
        case 3:
            for (auto const &b : p.get_breakpoints(q.name, q.line, q.col)) bp(b);
            break;
        case 4:
            if (auto n = p.get_instance_name(q.id)) o << *n;
            break;
        case 5:
            if (auto n = p.get_instance_id(q.name)) o << *n;
            break;
        case 6:
            if (auto n = p.get_instance_id(static_cast<uint64_t>(q.id))) o << *n;
            break;
        case 7:
            for (auto const &[c, v] : p.get_context_variables(q.id)) o << c.name << "=" << v.value << v.is_rtl << ";";
            break;
        case 8:
            for (auto const &[c, v] : p.get_generator_variable(q.id)) o << c.name << "=" << v.value << v.is_rtl << ";";
            break;
        case 9:
            for (auto const &n : p.get_instance_names()) o << n << ";";
            break;
        case 10:
            for (auto const &n : p.get_annotation_values(q.name)) o << n << ";";
            break;
        case 11: {
            auto l = p.get_filenames();
            std::sort(l.begin(), l.end());
            for (auto const &n : l) o << n << ";";
            break;
        }
        case 12:
            for (auto i : p.execution_bp_orders()) o << i << ";";
            break;
        case 13:
            for (auto const &[a, b, c] : p.get_assigned_breakpoints(q.name, q.id)) o << a << b << c << ";";
            break;
        case 14:
            if (auto n = p.resolve_scoped_name_breakpoint(q.name, q.id)) o << *n;
            break;
        case 15:
            if (auto n = p.resolve_scoped_name_instance(q.name, q.id)) o << *n;
            break;
        default: {
            std::map<std::string, int64_t> l;
            for (auto const &[k, v] : p.get_context_static_values(q.id)) l[k] = v;
            for (auto const &[k, v] : l) o << k << "=" << v << ";";
        }
    }
    return o.str();
}

std::vector<Query> gen_queries(Src &s, const Table &t, Provider &local, size_t n) {
    auto order = local.execution_bp_orders();
    std::vector<uint32_t> inst;
    std::vector<std::string> inst_names;
    for (auto const &i : t.instances) {
        inst_names.push_back(i.name);
        if (auto id = local.get_instance_id(i.name)) inst.push_back(static_cast<uint32_t>(*id));
    }
    std::vector<Query> r;
    for (size_t i = 0; i < n; i++) {
        Query q;
        q.kind = static_cast<unsigned>(s.draw(17));
        auto bp = order.empty() || s.chance(10) ? static_cast<uint32_t>(s.draw(50)) : s.pick(order);
        auto in = inst.empty() || s.chance(10) ? static_cast<uint32_t>(s.draw(50)) : s.pick(inst);
        q.id = q.kind == 4 || q.kind == 8 || q.kind == 15 ? in : bp;
        if (q.kind >= 1 && q.kind <= 3) {
            auto b = local.get_breakpoint(bp);
            q.name = b ? b->filename : "a.cc";
            q.line = b && s.chance(80) ? b->line_num : static_cast<uint32_t>(s.range(1, 9));
            q.col = b && s.chance(80) ? b->column_num : static_cast<uint32_t>(s.range(1, 4));
        } else if (q.kind == 5) {
            q.name = s.chance(10) ? "nowhere" : s.pick(inst_names);
        } else if (q.kind == 10) {
            q.name = s.pick<std::string>({"clock", "none"});
        } else {
            q.name = s.pick<std::string>({"a", "b", "c", "x", "arr[0]", "arr.0", "arr.1", "io.in", "io.out", "top"});
        }
        r.push_back(q);
    }
    return r;
}

// requests of one query: the helpers of the base class make several
unsigned rounds(const Query &q) { return q.kind < 14 ? 1 : 0; }

}  // namespace
