// Stand-in for the part of the cli library (daniele77/cli) that hgdb's tools use: the library is
// not installed here. Command lines come from a queue instead of a terminal.
#ifndef PBT_CLI_H
#define PBT_CLI_H
#include <deque>
#include <functional>
#include <iostream>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

namespace cli {

inline void SetColor() {}
inline void SetNoColor() {}

// the lines to be typed, and how the output of one is told from that of the next
struct Typed {
    std::deque<std::string> lines;
    bool exited = false;
    static Typed &get() {
        static Typed t;
        return t;
    }
    static constexpr char mark = '\x01';
};

namespace detail {
template <class T>
struct Arg {
    static T read(const std::string &w) {
        if (w.empty() || w.find_first_not_of("0123456789") != std::string::npos) throw std::bad_cast();
        auto v = std::stoull(w);
        if (v > static_cast<T>(-1)) throw std::bad_cast();
        return static_cast<T>(v);
    }
};
template <>
struct Arg<std::string> {
    static std::string read(const std::string &w) { return w; }
};
template <class M>
struct Handler;
template <class C, class... A>
struct Handler<void (C::*)(std::ostream &, A...) const> {
    static constexpr size_t count = sizeof...(A);
    template <class F, size_t... I>
    static void call(F &f, std::ostream &os, const std::vector<std::string> &w, std::index_sequence<I...>) {
        std::tuple<std::decay_t<A>...> values{Arg<std::decay_t<A>>::read(w[I])...};
        try {
            f(os, std::get<I>(values)...);
        } catch (const std::exception &e) {
            os << e.what() << '\n';
        }
    }
};

inline std::vector<std::string> words(const std::string &line) {
    std::vector<std::string> r;
    std::string w;
    bool open = false, any = false;
    for (char c : line) {
        if (c == '"') {
            open = !open;
            any = true;
        } else if (c == ' ' && !open) {
            if (any) r.push_back(w);
            w.clear();
            any = false;
        } else {
            w += c;
            any = true;
        }
    }
    if (any) r.push_back(w);
    return r;
}
}  // namespace detail

class Menu {
public:
    explicit Menu(std::string name = {}, std::string = {}) : name_(std::move(name)) {}

    template <class F>
    void Insert(const std::string &name, F f, const std::string & = "", const std::vector<std::string> & = {}) {
        using H = detail::Handler<decltype(&F::operator())>;
        commands_.push_back({name, [f](std::ostream &os, const std::vector<std::string> &w) mutable {
                                 if (w.size() != H::count) return false;
                                 try {
                                     H::call(f, os, w, std::make_index_sequence<H::count>());
                                 } catch (const std::bad_cast &) {
                                     return false;
                                 }
                                 return true;
                             }});
    }
    void Insert(std::unique_ptr<Menu> &&m) {
        m->parent_ = this;
        menus_.push_back(std::move(m));
    }

private:
    friend class CliLocalTerminalSession;
    struct Command {
        std::string name;
        std::function<bool(std::ostream &, const std::vector<std::string> &)> run;
    };
    bool exec(std::ostream &os, std::vector<std::string> w, Menu *&at) {
        auto name = w.front();
        w.erase(w.begin());
        for (auto &c : commands_)
            if (c.name == name && c.run(os, w)) return true;
        for (auto &m : menus_) {
            if (m->name_ != name) continue;
            if (!w.empty()) return m->exec(os, w, at);
            at = m.get();
            return true;
        }
        return false;
    }
    std::string name_;
    Menu *parent_ = nullptr;
    std::vector<Command> commands_;
    std::vector<std::unique_ptr<Menu>> menus_;
};

class Cli {
public:
    explicit Cli(std::unique_ptr<Menu> m) : root_(std::move(m)) {}

private:
    friend class CliLocalTerminalSession;
    std::unique_ptr<Menu> root_;
};

}  // namespace cli
#endif
