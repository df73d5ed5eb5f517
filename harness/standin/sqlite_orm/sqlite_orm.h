// Stand-in for the part of sqlite_orm that hgdb uses (the library itself is not installed here):
// every query becomes one SQL statement run by the real SQLite. Only mapped columns are stored.
#ifndef PBT_SQLITE_ORM_H
#define PBT_SQLITE_ORM_H
#include <sqlite3.h>

#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace sqlite_orm {

enum class journal_mode { DELETE, TRUNCATE, PERSIST, MEMORY, WAL, OFF };

namespace internal {

template <class T>
struct is_ptr : std::false_type {};
template <class T>
struct is_ptr<std::unique_ptr<T>> : std::true_type {};
template <class T>
struct is_ptr<std::shared_ptr<T>> : std::true_type {};
template <class T>
struct is_opt : std::false_type {};
template <class T>
struct is_opt<std::optional<T>> : std::true_type {};

inline void check(sqlite3 *db, int rc) {
    if (rc != SQLITE_OK && rc != SQLITE_ROW && rc != SQLITE_DONE)
        throw std::runtime_error(std::string("sqlite: ") + (db ? sqlite3_errmsg(db) : "error"));
}

template <class T>
void bind(sqlite3_stmt *s, int i, const T &v) {
    if constexpr (is_ptr<T>::value || is_opt<T>::value) {
        if (v)
            bind(s, i, *v);
        else
            check(nullptr, sqlite3_bind_null(s, i));
    } else if constexpr (std::is_arithmetic_v<T> && !std::is_floating_point_v<T>) {
        check(nullptr, sqlite3_bind_int64(s, i, static_cast<sqlite3_int64>(v)));
    } else if constexpr (std::is_floating_point_v<T>) {
        check(nullptr, sqlite3_bind_double(s, i, v));
    } else {
        std::string x = v;
        check(nullptr, sqlite3_bind_text(s, i, x.data(), static_cast<int>(x.size()),
                                         SQLITE_TRANSIENT));
    }
}

template <class T>
void extract(sqlite3_stmt *s, int i, T &v) {
    if constexpr (is_ptr<T>::value || is_opt<T>::value) {
        using U = std::decay_t<decltype(*v)>;
        if (sqlite3_column_type(s, i) == SQLITE_NULL) {
            v = T();
        } else {
            U u{};
            extract(s, i, u);
            if constexpr (is_opt<T>::value)
                v = std::move(u);
            else
                v = T(new U(std::move(u)));
        }
    } else if constexpr (std::is_arithmetic_v<T> && !std::is_floating_point_v<T>) {
        v = static_cast<T>(sqlite3_column_int64(s, i));
    } else if constexpr (std::is_floating_point_v<T>) {
        v = sqlite3_column_double(s, i);
    } else {
        auto *t = sqlite3_column_text(s, i);
        v = t ? T(reinterpret_cast<const char *>(t), sqlite3_column_bytes(s, i)) : T();
    }
}

template <class T>
const char *sql_type() {
    if constexpr (is_ptr<T>::value || is_opt<T>::value) {
        return sql_type<std::decay_t<decltype(*std::declval<T &>())>>();
    } else if constexpr (std::is_arithmetic_v<T>) {
        return std::is_floating_point_v<T> ? "REAL" : "INTEGER";
    } else {
        return "TEXT";
    }
}

struct primary_key_t {};

template <class O, class F>
struct column_t {
    using object = O;
    using field = F;
    std::string name;
    F O::*ptr;
    bool primary;
};

template <class L, class R>
struct foreign_key_t {
    L from;
    R to;
};
template <class L>
struct foreign_key_from {
    L from;
    template <class R>
    foreign_key_t<L, R> references(R to) const {
        return {from, to};
    }
};

template <class O, class... C>
struct table_t {
    using object = O;
    std::string name;
    std::tuple<C...> parts;
};

// expressions
template <class T>
struct col {
    T ptr;
};
template <class L, class R>
struct cond {
    L lhs;
    const char *op;
    R rhs;
};
template <class L, class R>
struct logic {
    L lhs;
    const char *op;
    R rhs;
};
template <class E>
struct where_t {
    E expr;
};
template <class P>
struct length_t {
    P ptr;
};
template <class P>
struct order_t {
    P ptr;
    bool down = false;
    order_t asc() const { return {ptr, false}; }
    order_t desc() const { return {ptr, true}; }
};
struct limit_t {
    int64_t n;
};
template <class... P>
struct columns_t {
    std::tuple<P...> ptrs;
};
template <class P>
struct distinct_t {
    P ptr;
};

template <class T>
struct is_expr : std::false_type {};
template <class L, class R>
struct is_expr<cond<L, R>> : std::true_type {};
template <class L, class R>
struct is_expr<logic<L, R>> : std::true_type {};

template <class T, class R>
auto value_of(R &&r) {
    return std::decay_t<R>(std::forward<R>(r));
}

#define PBT_OP(OP, SQL)                                                             \
    template <class T, class R>                                                     \
    auto operator OP(col<T> l, R r) {                                               \
        if constexpr (std::is_convertible_v<R, const char *>)                       \
            return cond<col<T>, std::string>{l, SQL, std::string(r)};               \
        else                                                                        \
            return cond<col<T>, R>{l, SQL, std::move(r)};                           \
    }
PBT_OP(==, " = ")
PBT_OP(!=, " != ")
PBT_OP(<=, " <= ")
PBT_OP(>=, " >= ")
PBT_OP(<, " < ")
PBT_OP(>, " > ")
#undef PBT_OP

template <class L, class R, class = std::enable_if_t<is_expr<L>::value && is_expr<R>::value>>
logic<L, R> operator&&(L l, R r) {
    return {std::move(l), " AND ", std::move(r)};
}
template <class L, class R, class = std::enable_if_t<is_expr<L>::value && is_expr<R>::value>>
logic<L, R> operator||(L l, R r) {
    return {std::move(l), " OR ", std::move(r)};
}

template <class T>
struct member;
template <class F, class O>
struct member<F O::*> {
    using object = O;
    using field = F;
};

struct Query {
    std::set<std::string> tables;
    std::string where, order, limit;
    std::vector<std::function<void(sqlite3_stmt *, int)>> binds;
};

template <class... Ts>
class storage_t {
public:
    explicit storage_t(const std::string &filename, Ts... ts)
        : tables_(std::move(ts)...), handle_(open(filename)), pragma{handle_} {}

private:
    static std::shared_ptr<sqlite3> open(const std::string &filename) {
        sqlite3 *db = nullptr;
        int rc = sqlite3_open(filename.c_str(), &db);
        std::shared_ptr<sqlite3> r(db, [](sqlite3 *p) { sqlite3_close_v2(p); });
        check(db, rc);
        // scratch files: no need to wait for the disk
        sqlite3_exec(db, "PRAGMA synchronous = OFF", nullptr, nullptr, nullptr);
        return r;
    }
    std::tuple<Ts...> tables_;
    std::shared_ptr<sqlite3> handle_;

public:
    struct pragma_t {
        std::shared_ptr<sqlite3> db;
        void journal_mode(sqlite_orm::journal_mode m) {
            static const char *names[] = {"DELETE", "TRUNCATE", "PERSIST", "MEMORY", "WAL", "OFF"};
            std::string sql = "PRAGMA journal_mode = " + std::string(names[static_cast<int>(m)]);
            check(db.get(), sqlite3_exec(db.get(), sql.c_str(), nullptr, nullptr, nullptr));
        }
    } pragma;

    void exec(const std::string &sql) {
        check(handle_.get(), sqlite3_exec(handle_.get(), sql.c_str(), nullptr, nullptr, nullptr));
    }
    void begin_transaction() { exec("BEGIN"); }
    void commit() { exec("COMMIT"); }
    void rollback() { exec("ROLLBACK"); }
    void sync_schema() {
        std::apply(
            [&](auto &...t) {
                (exec("CREATE TABLE IF NOT EXISTS '" + t.name + "' (" + defs(t) + ")"), ...);
            },
            tables_);
    }

    template <class O>
    void replace(const O &o) {
        with_table<O>([&](auto &t) {
            std::string names, marks;
            each_column(t, [&](auto &c) {
                names += (names.empty() ? "'" : ", '") + c.name + "'";
                marks += marks.empty() ? "?" : ", ?";
            });
            auto s = prepare("REPLACE INTO '" + t.name + "' (" + names + ") VALUES (" + marks +
                             ")");
            int i = 1;
            each_column(t, [&](auto &c) { bind(s.get(), i++, o.*(c.ptr)); });
            check(handle_.get(), sqlite3_step(s.get()));
        });
    }

    template <class O, class... A>
    std::vector<O> get_all(A... args) {
        std::vector<O> out;
        with_table<O>([&](auto &t) {
            Query q;
            q.tables.insert(t.name);
            (clause(q, args), ...);
            std::string names;
            each_column(t, [&](auto &c) {
                names += (names.empty() ? "\"" : ", \"") + t.name + "\".\"" + c.name + "\"";
            });
            run(names, q, [&](sqlite3_stmt *s) {
                O o{};
                int i = 0;
                each_column(t, [&](auto &c) { extract(s, i++, o.*(c.ptr)); });
                out.emplace_back(std::move(o));
            });
        });
        return out;
    }

    template <class O, class I>
    std::unique_ptr<O> get_pointer(I id) {
        std::unique_ptr<O> out;
        with_table<O>([&](auto &t) {
            Query q;
            q.tables.insert(t.name);
            std::string names;
            each_column(t, [&](auto &c) {
                names += (names.empty() ? "\"" : ", \"") + t.name + "\".\"" + c.name + "\"";
                if (c.primary) q.where = "\"" + t.name + "\".\"" + c.name + "\" = ?";
            });
            q.binds.emplace_back([id](sqlite3_stmt *s, int i) { bind(s, i, id); });
            run(names, q, [&](sqlite3_stmt *s) {
                out = std::make_unique<O>();
                int i = 0;
                each_column(t, [&](auto &c) { extract(s, i++, (*out).*(c.ptr)); });
            });
        });
        return out;
    }

    template <class O, class... A>
    int count(A... args) {
        int out = 0;
        with_table<O>([&](auto &t) {
            Query q;
            q.tables.insert(t.name);
            (clause(q, args), ...);
            run("COUNT(*)", q, [&](sqlite3_stmt *s) { extract(s, 0, out); });
        });
        return out;
    }

    template <class F, class O, class... A>
    std::vector<F> select(F O::*ptr, A... args) {
        return one<F>("", ptr, args...);
    }
    template <class P, class... A>
    auto select(distinct_t<P> d, A... args) {
        return one<typename member<P>::field>("DISTINCT ", d.ptr, args...);
    }
    template <class... P, class... A>
    auto select(columns_t<P...> cs, A... args) {
        using Row = std::tuple<typename member<P>::field...>;
        std::vector<Row> out;
        Query q;
        std::string names;
        std::apply([&](auto... p) { ((names += (names.empty() ? "" : ", ") + name(q, p)), ...); },
                   cs.ptrs);
        (clause(q, args), ...);
        run(names, q, [&](sqlite3_stmt *s) {
            Row row;
            int i = 0;
            std::apply([&](auto &...f) { (extract(s, i++, f), ...); }, row);
            out.emplace_back(std::move(row));
        });
        return out;
    }

private:
    struct Finalize {
        void operator()(sqlite3_stmt *s) const { sqlite3_finalize(s); }
    };
    std::unique_ptr<sqlite3_stmt, Finalize> prepare(const std::string &sql) {
        sqlite3_stmt *s = nullptr;
        check(handle_.get(), sqlite3_prepare_v2(handle_.get(), sql.c_str(), -1, &s, nullptr));
        return std::unique_ptr<sqlite3_stmt, Finalize>(s);
    }
    template <class Fn>
    void run(const std::string &names, const Query &q, Fn fn) {
        std::string from;
        for (auto &t : q.tables) from += (from.empty() ? "\"" : ", \"") + t + "\"";
        auto s = prepare("SELECT " + names + " FROM " + from +
                         (q.where.empty() ? "" : " WHERE " + q.where) + q.order + q.limit);
        int i = 1;
        for (auto &b : q.binds) b(s.get(), i++);
        while (true) {
            int rc = sqlite3_step(s.get());
            check(handle_.get(), rc);
            if (rc != SQLITE_ROW) break;
            fn(s.get());
        }
    }
    template <class F, class P, class... A>
    std::vector<F> one(const std::string &prefix, P ptr, A... args) {
        std::vector<F> out;
        Query q;
        auto names = prefix + name(q, ptr);
        (clause(q, args), ...);
        run(names, q, [&](sqlite3_stmt *s) {
            F f{};
            extract(s, 0, f);
            out.emplace_back(std::move(f));
        });
        return out;
    }

    template <class T, class Fn>
    static void each_column(T &t, Fn fn) {
        std::apply([&](auto &...p) { (on_column(p, fn), ...); }, t.parts);
    }
    template <class O, class F, class Fn>
    static void on_column(column_t<O, F> &c, Fn &fn) {
        fn(c);
    }
    template <class L, class R, class Fn>
    static void on_column(foreign_key_t<L, R> &, Fn &) {}

    template <class T>
    static std::string defs(T &t) {
        std::string r;
        each_column(t, [&](auto &c) {
            using F = typename std::decay_t<decltype(c)>::field;
            r += (r.empty() ? "'" : ", '") + c.name + "' " + sql_type<F>() +
                 (c.primary ? " PRIMARY KEY" : "") +
                 (is_ptr<F>::value || is_opt<F>::value ? "" : " NOT NULL");
        });
        return r;
    }
    template <class O, class Fn>
    void with_table(Fn fn) {
        std::apply(
            [&](auto &...t) {
                auto one = [&](auto &x) {
                    if constexpr (std::is_same_v<typename std::decay_t<decltype(x)>::object, O>)
                        fn(x);
                };
                (one(t), ...);
            },
            tables_);
    }
    template <class F, class O>
    std::string name(Query &q, F O::*ptr) {
        std::string r;
        with_table<O>([&](auto &t) {
            each_column(t, [&](auto &c) {
                if constexpr (std::is_same_v<decltype(c.ptr), F O::*>) {
                    if (c.ptr == ptr) {
                        r = "\"" + t.name + "\".\"" + c.name + "\"";
                        q.tables.insert(t.name);
                    }
                }
            });
        });
        if (r.empty()) throw std::runtime_error("sqlite: column is not mapped");
        return r;
    }

    template <class T>
    std::string text(Query &q, const T &v) {
        if constexpr (std::is_member_object_pointer_v<T>) {
            return name(q, v);
        } else {
            q.binds.emplace_back([v](sqlite3_stmt *s, int i) { bind(s, i, v); });
            return "?";
        }
    }
    template <class T>
    std::string text(Query &q, const col<T> &v) {
        return text(q, v.ptr);
    }
    template <class L, class R>
    std::string text(Query &q, const cond<L, R> &e) {
        auto l = text(q, e.lhs);
        return "(" + l + e.op + text(q, e.rhs) + ")";
    }
    template <class L, class R>
    std::string text(Query &q, const logic<L, R> &e) {
        auto l = text(q, e.lhs);
        return "(" + l + e.op + text(q, e.rhs) + ")";
    }
    template <class E>
    void clause(Query &q, const where_t<E> &w) {
        q.where = text(q, w.expr);
    }
    template <class P>
    std::string key(Query &q, P p) {
        return name(q, p);
    }
    template <class P>
    std::string key(Query &q, length_t<P> p) {
        return "LENGTH(" + name(q, p.ptr) + ")";
    }
    template <class P>
    void clause(Query &q, const order_t<P> &o) {
        q.order = " ORDER BY " + key(q, o.ptr) + (o.down ? " DESC" : " ASC");
    }
    void clause(Query &q, const limit_t &l) { q.limit = " LIMIT " + std::to_string(l.n); }
};

}  // namespace internal

inline internal::primary_key_t primary_key() { return {}; }
template <class F, class O, class... A>
internal::column_t<O, F> make_column(std::string name, F O::*ptr, A...) {
    return {std::move(name), ptr, (std::is_same_v<A, internal::primary_key_t> || ... || false)};
}
template <class P>
internal::foreign_key_from<P> foreign_key(P p) {
    return {p};
}
template <class O, class F, class... C>
internal::table_t<O, internal::column_t<O, F>, C...> make_table(std::string name,
                                                                internal::column_t<O, F> first,
                                                                C... rest) {
    return {std::move(name), {std::move(first), std::move(rest)...}};
}
template <class... Ts>
internal::storage_t<Ts...> make_storage(const std::string &filename, Ts... ts) {
    return internal::storage_t<Ts...>(filename, std::move(ts)...);
}
template <class T>
internal::col<T> c(T p) {
    return {p};
}
template <class E>
internal::where_t<E> where(E e) {
    return {std::move(e)};
}
template <class P>
internal::order_t<P> order_by(P p) {
    return {p};
}
template <class P>
internal::length_t<P> length(P p) {
    return {p};
}
inline internal::limit_t limit(int64_t n) { return {n}; }
template <class... P>
internal::columns_t<P...> columns(P... p) {
    return {{p...}};
}
template <class P>
internal::distinct_t<P> distinct(P p) {
    return {p};
}

}  // namespace sqlite_orm
#endif
