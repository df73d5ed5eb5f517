// JSON symbol tables: every query answers what the document says; any document is loaded or
// refused; what the generator-side writer produces means what was put in.
#include "symcheck.hh"

namespace {

std::unique_ptr<Provider> load(Src &s, const std::string &text) {
    if (s.chance(25)) {
        TempFile f(text);
        return s.coin() ? std::make_unique<Json>(std::string(f.name))
                        : hgdb::create_symbol_table(f.name);
    }
    auto r = std::make_unique<Json>();
    bool ok = r->parse(text);
    s.require(ok == !r->bad(), "the result of loading and the state of the table disagree");
    return r;
}

void prop_query(Src &s) {
    sym::Gen g{s, {}};
    auto t = g.table();
    sym::Writer w{s};
    auto doc = w.document(t);
    std::string text;
    jv::write(text, doc, s.chance(50) ? &s : nullptr);
    s.say(text);
    sym::derive(t);
    size_t stmts = 0;
    for (auto const &i : t.instances) stmts += t.stmts[i.module].size();
    if (stmts >= 2) s.nontrivial(text);
    s.label(t.reorder ? "reordered" : "as written");
    if (t.instances.size() > 2) s.label("hierarchy");
    auto p = load(s, text);
    s.require(p && !p->bad(), "a well-formed symbol table is refused");
    Checker c{s, t, *p};
    c.signals = s.coin();
    c.all();
}

// any document: loaded or refused, and the same from a file and from memory
void prop_any(Src &s) {
    std::string text;
    auto kind = s.draw(8);
    if (kind == 0) {
        jv::write(text, jv::gen_any(s, 4), &s);
    } else if (kind == 1) {
        text = jv::gen_string(s, 60);
    } else {
        sym::Gen g{s, {.odd_strings = s.chance(30)}};
        auto t = g.table();
        sym::Writer w{s};
        auto doc = w.document(t);
        size_t n = s.range(1, 4);
        for (size_t i = 0; i < n; i++) {
            // a random node
            std::vector<jv::V *> all;
            std::function<void(jv::V &)> walk = [&](jv::V &v) {
                all.push_back(&v);
                for (auto &x : v.a) walk(x);
                for (auto &[k, x] : v.o) walk(x);
            };
            walk(doc);
            auto &v = *all[s.draw(all.size())];
            switch (s.draw(8)) {
                case 0:
                    v = jv::gen_any(s, 2);
                    break;
                case 1:
                    if (!v.o.empty())
                        v.o.erase(v.o.begin() + static_cast<long>(s.draw(v.o.size())));
                    break;
                case 2:
                    if (!v.a.empty()) {
                        auto x = v.a[s.draw(v.a.size())];
                        v.a.push_back(x);
                    }
                    break;
                case 3:
                    if (v.t == jv::V::Str)
                        v = jv::V(s.pick<std::string>({"", "m0", "m1", "m2", "i0", "none", "decl",
                                                       "assign", "block", "module", "no_such",
                                                       "{}", "{0}", "a{", "."}));
                    break;
                case 4:
                    if (v.t == jv::V::Int || v.t == jv::V::Uint)
                        v = s.coin() ? jv::V(static_cast<int64_t>(s.bits(64))) : jv::V(s.bits(64));
                    break;
                case 5:
                    if (v.t == jv::V::Object && v.get("instances")) {
                        // instances that make the hierarchy recursive
                        jv::V inst;
                        inst.t = jv::V::Object;
                        inst.set("name", jv::V("loop"));
                        inst.set("module",
                                 jv::V(s.pick<std::string>({"m0", "m1", "m2", "m3", "m9"})));
                        v.get("instances")->push(inst);
                    }
                    break;
                case 6: {
                    auto copy = *all[s.draw(all.size())];
                    v = copy;
                    break;
                }
                default:
                    if (v.t == jv::V::Object)
                        v.set(s.pick<std::string>({"type", "line", "column", "scope", "variable",
                                                   "variables", "name", "filename", "indices",
                                                   "top", "reorder", "depth", "rtl", "condition"}),
                              jv::gen_any(s, 2));
            }
        }
        jv::write(text, doc, nullptr);
        if (s.chance(10)) text.resize(s.draw(text.size() + 1));
        if (s.chance(5) && !text.empty()) text[s.draw(text.size())] = static_cast<char>(s.draw(256));
    }
    s.say(text);
    s.nontrivial(text);
    Json a;
    bool ok = a.parse(text);
    s.require(ok == !a.bad(), "the result of loading and the state of the table disagree");
    s.label(ok ? "loaded" : "refused");
    auto da = dump(a);
    TempFile f(text);
    Json b{std::string(f.name)};
    auto db = dump(b);
    s.require(da == db, "from memory:\n" + da + "\nfrom a file:\n" + db);
}

// ---- the writer generators use

namespace hj = hgdb::json;

struct Built {
    std::unique_ptr<hj::SymbolTable> table;
    Table model;
};

hj::Variable make_var(const Var &v) {
    return {.name = v.name, .value = v.value, .rtl = v.rtl};
}

template <typename P>
void put_entry(Src &s, P *parent, const Entry &e, const std::string &file) {
    auto common = [&](auto *x) {
        x->column_num = e.col;
        x->condition = e.cond;
    };
    if (e.kind == sym::Decl || e.kind == sym::Assign) {
        auto *x = parent->template create_scope<hj::VarStmt>(make_var(e.vars[0]), e.line,
                                                             e.kind == sym::Decl);
        common(x);
        if (s.chance(30)) x->filename = file;
        return;
    }
    hj::Scope<> *x = nullptr;
    if (e.line) {
        x = parent->template create_scope<hj::Scope<>>(e.line);
    } else {
        x = parent->template create_scope<hj::Scope<>>();
    }
    common(x);
    auto f = e.filename.empty() ? file : e.filename;
    if (!e.filename.empty()) {
        x->filename = e.filename;
    } else if (s.chance(30)) {
        x->filename = f;
    }
    for (auto const &k : e.kids) put_entry(s, x, *k, f);
}

// blocks without statements come out as plain statements: leave them out of this generator
void prune(Entry &e) {
    for (auto &k : e.kids) prune(*k);
    std::vector<std::shared_ptr<Entry>> keep;
    for (auto &k : e.kids)
        if (k->kind != sym::Block || !k->kids.empty()) keep.push_back(k);
    e.kids = keep;
}

void no_column_without_line(Entry &e) {
    if (!e.line) e.col = 0;
    for (auto &k : e.kids) no_column_without_line(*k);
}

void prop_writer(Src &s) {
    sym::Gen g{s, {.odd_strings = true, .indices = false, .delays = false}};
    auto t = g.table();
    t.attributes.clear();
    t.generator = g.text("gen");
    // every module that is not instantiated is a top
    std::vector<bool> used(t.modules.size());
    for (auto &m : t.modules) {
        m.cond = "";
        std::vector<std::shared_ptr<Entry>> keep;
        for (auto &e : m.scope) {
            prune(*e);
            no_column_without_line(*e);
            if (!e->kids.empty()) keep.push_back(e);
        }
        m.scope = keep;
        for (auto const &[n, i] : m.insts) used[i] = true;
    }
    t.tops.clear();
    for (size_t i = 0; i < t.modules.size(); i++)
        if (!used[i]) t.tops.push_back(i);
    auto build = [&]() {
        auto st = std::make_unique<hj::SymbolTable>(t.generator);
        std::vector<hj::Module *> mods;
        for (auto const &m : t.modules) mods.push_back(st->add_module(m.name));
        for (size_t i = 0; i < t.modules.size(); i++) {
            auto const &m = t.modules[i];
            for (auto const &v : m.vars) mods[i]->add_variable(make_var(v));
            for (auto const &[n, k] : m.insts) mods[i]->add_instance(n, mods[k]);
            for (auto const &e : m.scope) put_entry(s, mods[i], *e, "");
        }
        if (!t.reorder) st->disable_reorder();
        return st;
    };
    auto st = build();
    auto plain = st->output();
    s.say(plain);
    auto again = st->output();
    s.require(plain == again, "writing the table twice gives two documents");
    st->compress();
    auto small = st->output();
    if (s.chance(20)) {
        st->compress();
        small = st->output();
    }
    for (auto const &m : t.modules)
        if (!m.scope.empty()) s.nontrivial(plain);
    auto doc = jv::parse_or_fail(s, plain, "the document written");
    s.require(doc.at("generator").s == t.generator, "generator name");
    jv::parse_or_fail(s, small, "the compressed document");
    sym::derive(t);
    for (auto const &text : {plain, small}) {
        Json p;
        s.require(p.parse(text), "the reader refuses what the writer wrote: " + text);
        Checker c{s, t, p};
        c.all();
    }
    if (small.find("\"variables\":[{\"name\"") != std::string::npos) s.label("shared variables");
}

// source path mapping
std::string gen_dir(Src &s) {
    std::string r;
    size_t n = s.range(1, 3);
    for (size_t i = 0; i < n; i++) r += "/" + s.pick<std::string>({"a", "b", "src", "ab", "work"});
    return r;
}

void prop_path(Src &s) {
    Json p;
    std::map<std::string, std::string> m;
    size_t n = s.range(0, 2);
    for (size_t i = 0; i < n; i++) m[gen_dir(s)] = gen_dir(s);
    // mappings that overlap are ambiguous
    std::vector<std::string> src, dst;
    for (auto const &[a, b] : m) {
        src.push_back(a);
        dst.push_back(b);
    }
    auto under = [](const std::string &f, const std::string &d) {
        return f == d || f.rfind(d + "/", 0) == 0;
    };
    for (size_t i = 0; i < src.size(); i++)
        for (size_t j = 0; j < src.size(); j++)
            if (i != j && (under(src[i], src[j]) || under(dst[i], dst[j]))) throw pbt::Discard{};
    p.set_src_mapping(m);
    std::string rest = "/" + s.pick<std::string>({"f.cc", "d/f.cc", "a/b/g.scala"});
    std::string dir = !src.empty() && s.chance(70) ? s.pick(src) : gen_dir(s);
    auto f = dir + rest;
    auto forward = p.resolve_filename_to_db(f);
    std::string text = f;
    for (auto const &[a, b] : m) text += " " + a + "->" + b;
    s.say(text);
    std::string want = f;
    for (auto const &[a, b] : m)
        if (under(f, a)) want = b + f.substr(a.size());
    if (want != f) s.nontrivial(text);
    s.eq(forward, want, "path of the client in the symbol table");
    std::string dir2 = !dst.empty() && s.chance(70) ? s.pick(dst) : gen_dir(s);
    auto f2 = dir2 + rest;
    std::string want2 = f2;
    for (auto const &[a, b] : m)
        if (under(f2, b)) want2 = a + f2.substr(b.size());
    s.eq(p.resolve_filename_to_client(f2), want2, "path of the symbol table for the client");
    if (want != f) s.eq(p.resolve_filename_to_client(forward), f, "there and back");
}

}  // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv,
                         {{{.name = "sym_query"}, prop_query},
                          {{.name = "sym_any", .cpu_limit = 5}, prop_any},
                          {{.name = "sym_writer"}, prop_writer},
                          {{.name = "sym_path"}, prop_path}});
}
