// Stand-in for the part of argparse that hgdb's tools use (the library is not installed here).
#ifndef PBT_ARGPARSE_H
#define PBT_ARGPARSE_H
#include <deque>
#include <map>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace argparse {

class Argument {
public:
    explicit Argument(std::vector<std::string> names) : names_(std::move(names)) {}
    Argument &help(const std::string &) { return *this; }
    Argument &required() {
        required_ = true;
        return *this;
    }
    template <class T>
    Argument &default_value(T v) {
        if constexpr (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>)
            value_ = std::to_string(v);
        else if constexpr (!std::is_same_v<T, bool>)
            value_ = v;
        return *this;
    }
    template <char, class T>
    Argument &scan() {
        return *this;
    }
    template <class T>
    Argument &implicit_value(T) {
        flag_ = true;
        return *this;
    }

private:
    friend class ArgumentParser;
    std::vector<std::string> names_;
    std::string value_;
    bool required_ = false, flag_ = false, used_ = false;
};

class ArgumentParser {
public:
    explicit ArgumentParser(std::string name = {}, std::string = {}) : name_(std::move(name)) {}
    template <class... A>
    Argument &add_argument(A... names) {
        return args_.emplace_back(std::vector<std::string>{std::string(names)...});
    }
    void parse_args(int argc, const char *const *argv) {
        for (int i = 1; i < argc; i++) {
            auto *a = find(argv[i]);
            if (!a && argv[i][0] != '-') {
                for (auto &x : args_)
                    if (!a && x.names_[0][0] != '-' && !x.used_) a = &x;
                if (a) {
                    a->used_ = true;
                    a->value_ = argv[i];
                    continue;
                }
            }
            if (!a) throw std::runtime_error("Unknown argument");
            a->used_ = true;
            if (a->flag_) continue;
            if (++i >= argc) throw std::runtime_error("Too few arguments");
            a->value_ = argv[i];
        }
        for (auto &a : args_)
            if (a.required_ && !a.used_) throw std::runtime_error(a.names_[0] + ": required.");
    }
    template <class T = std::string>
    T get(const std::string &name) {
        auto *a = find(name);
        if (!a) throw std::logic_error("No such argument");
        if constexpr (std::is_same_v<T, bool>)
            return a->used_;
        else if constexpr (std::is_arithmetic_v<T>)
            return static_cast<T>(std::stoull(a->value_));
        else
            return a->value_;
    }
    friend std::ostream &operator<<(std::ostream &s, const ArgumentParser &p) {
        return s << "Usage: " << p.name_ << "\n";
    }

private:
    Argument *find(const std::string &n) {
        for (auto &a : args_)
            for (auto &x : a.names_)
                if (x == n) return &a;
        return nullptr;
    }
    std::string name_;
    std::deque<Argument> args_;
};

}  // namespace argparse
#endif
