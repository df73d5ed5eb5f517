// pbt.hh - a small property-based testing engine.
//
// A test case is a sequence of choices (unsigned integers), drawn one after another by the
// property's own generator code through Src. Because the choice sequence *is* the case:
//   * every random decision is recorded, so a case replays exactly from its choices;
//   * shrinking is generic: the sequence is shortened and its values are lowered, and the property
//     is run again on what comes out (every generator maps 0 to its simplest value).
// Cases run in forked children, so that a crash, a sanitizer report, a runaway loop (CPU-time
// limit per case) or a process-wide deadlock of the code under test is a failing case like any
// other: it is replayed, shrunk and written out as a replay file.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
    std::string msg;
};
struct Discard {};

constexpr size_t MAX_CHOICES = 1u << 17;
constexpr size_t MAX_TEXT = 1u << 17;
constexpr size_t MAX_HASHES = 1u << 20;

// what a child shares with its parent
struct Shared {
    volatile uint64_t current_case;
    volatile uint64_t evaluations;
    volatile uint64_t discards;
    volatile uint64_t nontrivial;
    volatile uint64_t checks;  // oracle comparisons made
    volatile uint32_t num_choices;
    volatile uint32_t num_hashes;
    volatile uint32_t failed;
    uint64_t choices[MAX_CHOICES];
    char text[MAX_TEXT];   // description of the current case
    char msg[MAX_TEXT];    // failure message
    char stats[MAX_TEXT];  // labels, at the end of a chunk
    uint64_t hashes[MAX_HASHES];
};

inline Shared *&shared() {
    static Shared *s = nullptr;
    return s;
}

inline uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

class Src {
public:
    // random generation
    explicit Src(uint64_t seed) : state_(seed), random_(true) {}
    // replay
    explicit Src(std::vector<uint64_t> choices) : in_(std::move(choices)) {}
#ifdef PBT_FUZZ
    Src(const uint8_t *data, size_t size) : data_(data), size_(size), fuzz_(true) {}
#endif

    // uniform in [0, n)
    uint64_t draw(uint64_t n) {
        if (n == 0) n = 1;
        uint64_t v = 0;
        auto *s = shared();
        if (s->num_choices >= MAX_CHOICES) return 0;
        if (random_) {
            v = splitmix(state_) % n;
        } else if (fuzz_) {
            uint64_t need = n - 1;
            unsigned shift = 0;
            while (need && pos_ < size_) {
                v |= static_cast<uint64_t>(data_[pos_++]) << shift;
                shift += 8;
                need >>= 8;
            }
            v %= n;
        } else {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            if (v >= n) v = n - 1;
        }
        if (!fuzz_) pos_++;
        s->choices[s->num_choices] = v;
        s->num_choices = s->num_choices + 1;
        return v;
    }
    // a full 64-bit value; small values, powers of two and their neighbours are frequent
    uint64_t bits(unsigned width = 64) {
        uint64_t mask = width >= 64 ? ~0ull : ((1ull << width) - 1);
        switch (draw(5)) {
            case 0:
                return draw(8) & mask;
            case 1:
                return draw(256) & mask;
            case 2: {
                uint64_t p = 1ull << draw(width);
                return (p + draw(3) - 1) & mask;
            }
            case 3: {
                return (mask - draw(4)) & mask;
            }
            default: {
                uint64_t hi = draw(1ull << 32);
                uint64_t lo = draw(1ull << 32);
                return ((hi << 32) | lo) & mask;
            }
        }
    }
    int64_t range(int64_t lo, int64_t hi) {
        return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
    }
    // true with probability about percent / 100; shrinks to false
    bool chance(unsigned percent) { return draw(100) >= 100 - percent; }
    bool coin() { return draw(2) == 1; }
    template <typename T>
    const T &pick(const std::vector<T> &v) {
        return v[draw(v.size())];
    }
    size_t weighted(const std::vector<unsigned> &w) {
        unsigned total = 0;
        for (auto x : w) total += x;
        uint64_t v = draw(total);
        for (size_t i = 0; i < w.size(); i++) {
            if (v < w[i]) return i;
            v -= w[i];
        }
        return w.size() - 1;
    }
    // length of a sequence: at least lo, at most hi, small ones more frequent
    size_t len(size_t lo, size_t hi) {
        if (hi <= lo) return lo;
        if (draw(4) < 3) return lo + draw(std::min<size_t>(hi - lo, 6) + 1);
        return lo + draw(hi - lo + 1);
    }
    template <typename T>
    void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; i--) {
            size_t j = draw(i);
            std::swap(v[i - 1], v[i - 1 - j]);
        }
    }

    // bookkeeping
    void nontrivial(const std::string &key = "") {
        nontrivial_ = true;
        key_ = key;
    }
    void label(const std::string &l) { labels_.insert(l); }
    void say(const std::string &line) {
        text_ += line;
        text_ += '\n';
        auto *s = shared();
        size_t n = strnlen(s->text, MAX_TEXT);
        if (n + line.size() + 2 < MAX_TEXT) {
            memcpy(s->text + n, line.data(), line.size());
            s->text[n + line.size()] = '\n';
            s->text[n + line.size() + 1] = 0;
        }
    }
    void checked(uint64_t n = 1) { checks_ += n; }
    [[noreturn]] void fail(const std::string &msg) { throw Fail{msg}; }
    void require(bool c, const std::string &msg) {
        checks_++;
        if (!c) throw Fail{msg};
    }
    template <typename A, typename B>
    void eq(const A &got, const B &want, const std::string &what) {
        checks_++;
        if (!(got == want)) {
            std::ostringstream ss;
            ss << what << ": got " << got << ", expected " << want;
            throw Fail{ss.str()};
        }
    }

    bool nontrivial_ = false;
    std::string key_;
    std::set<std::string> labels_;
    std::string text_;
    uint64_t checks_ = 0;

private:
    uint64_t state_ = 0;
    bool random_ = false;
    std::vector<uint64_t> in_;
    size_t pos_ = 0;
    bool fuzz_ = false;
    const uint8_t *data_ = nullptr;
    size_t size_ = 0;
};

using Prop = std::function<void(Src &)>;

struct Options {
    std::string name;
    unsigned cpu_limit = 20;    // seconds of CPU time one case may use
    unsigned wall_limit = 120;  // seconds without any progress before the child is ended
    unsigned chunk = 400;       // cases per forked child
    unsigned shrink_budget = 400;  // runs
    unsigned shrink_seconds = 60;
    // a failure is believed when this many of so many reruns fail again (schedules vary)
    unsigned again = 3, attempts = 3;
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto const *c = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

inline void write_msg(const std::string &m) {
    auto *s = shared();
    size_t n = std::min(m.size(), MAX_TEXT - 1);
    memcpy(s->msg, m.data(), n);
    s->msg[n] = 0;
    s->failed = 1;
}

inline void arm_cpu(unsigned limit) {
    rusage u{};
    getrusage(RUSAGE_SELF, &u);
    rlimit r{};
    getrlimit(RLIMIT_CPU, &r);
    r.rlim_cur = static_cast<rlim_t>(u.ru_utime.tv_sec + u.ru_stime.tv_sec) + limit + 1;
    setrlimit(RLIMIT_CPU, &r);
}

// runs one case in this process; false when it failed (the message is in the shared page)
inline bool run_case(const Prop &prop, Src &src, const Options &opt) {
    auto *s = shared();
    s->num_choices = 0;
    s->text[0] = 0;
    s->failed = 0;
    s->msg[0] = 0;
    arm_cpu(opt.cpu_limit);
    try {
        prop(src);
    } catch (const Fail &f) {
        write_msg(f.msg);
        return false;
    } catch (const Discard &) {
        s->discards = s->discards + 1;
        return true;
    } catch (const std::exception &e) {
        write_msg(std::string("uncaught exception: ") + e.what());
        return false;
    } catch (...) {
        write_msg("uncaught exception of unknown type");
        return false;
    }
    return true;
}

struct Outcome {
    bool ok = true;
    std::string msg;
};

struct Runner {
    Prop prop;
    Options opt;
    std::string err_path;
    bool quiet = true;

    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;

    // waits for a child; ends it if it makes no progress for too long
    std::string wait_child(pid_t pid) {
        auto *s = shared();
        uint64_t last = ~0ull;
        double since = now();
        while (true) {
            int st = 0;
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) {
                if (WIFEXITED(st)) {
                    int c = WEXITSTATUS(st);
                    if (c == 0) return "";
                    if (c == 77 && s->failed) return s->msg;
                    return "process exited with status " + std::to_string(c) + tail_err();
                }
                int sig = WTERMSIG(st);
                if (sig == SIGXCPU)
                    return "no end: the case used more than " + std::to_string(opt.cpu_limit) +
                           " s of CPU time";
                return std::string("killed by signal ") + strsignal(sig) + tail_err();
            }
            uint64_t mark = s->current_case * 131 + s->num_choices;
            if (mark != last) {
                last = mark;
                since = now();
            } else if (now() - since > opt.wall_limit) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                return "no end: no progress for " + std::to_string(opt.wall_limit) + " s";
            }
            usleep(r == 0 ? 500 : 1000);
        }
    }

    std::string tail_err() {
        std::ifstream f(err_path, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        std::string t = ss.str();
        // keep the sanitizer's headline and the first frames
        auto p = t.find("ERROR: AddressSanitizer");
        if (p == std::string::npos) p = t.find("runtime error:");
        if (p == std::string::npos) p = t.find("Assertion");
        if (p == std::string::npos) p = t.find("terminate called");
        if (p == std::string::npos) p = t.size() > 600 ? t.size() - 600 : 0;
        size_t b = t.rfind('\n', p);
        b = b == std::string::npos ? 0 : b + 1;
        return "\n" + t.substr(b, 1500);
    }

    void child_setup() {
        setpgid(0, 0);
        int fd = open(err_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) {
            if (quiet) dup2(fd, 1);
            dup2(fd, 2);
            close(fd);
        }
    }

    static void child_exit(int code) {
        fflush(nullptr);
        _exit(code);
    }

    // runs cases [from, to) of `seed`; returns the index of the failing case or `to`
    uint64_t run_chunk(uint64_t seed, uint64_t from, uint64_t to, std::string &msg) {
        auto *s = shared();
        s->current_case = from;
        s->stats[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            child_setup();
            std::map<std::string, uint64_t> lab;
            std::vector<std::string> smp;
            for (uint64_t i = from; i < to; i++) {
                s->current_case = i;
                uint64_t st = seed;
                splitmix(st);
                st ^= i * 0xd1342543de82ef95ull;
                splitmix(st);
                Src src(st);
                bool ok = run_case(prop, src, opt);
                if (!ok) child_exit(77);
                s->evaluations = s->evaluations + 1;
                s->checks = s->checks + src.checks_;
                for (auto const &l : src.labels_) lab[l]++;
                if (src.nontrivial_) {
                    s->nontrivial = s->nontrivial + 1;
                    uint64_t h = src.key_.empty()
                                     ? fnv(s->choices, sizeof(uint64_t) * s->num_choices)
                                     : fnv(src.key_.data(), src.key_.size());
                    if (s->num_hashes < MAX_HASHES) {
                        s->hashes[s->num_hashes] = h;
                        s->num_hashes = s->num_hashes + 1;
                    }
                    if (smp.size() < 2 && i % 7 == 3 && !src.text_.empty())
                        smp.push_back(src.text_.substr(0, 1500));
                }
            }
            std::string out;
            for (auto const &[k, v] : lab) out += "L" + std::to_string(v) + " " + k + "\x1f";
            for (auto const &t : smp) out += "S" + t + "\x1f";
            if (out.size() < MAX_TEXT) memcpy(s->stats, out.c_str(), out.size() + 1);
            child_exit(0);
        }
        msg = wait_child(pid);
        kill(-pid, SIGKILL);
        if (!msg.empty()) return s->current_case;
        std::string st = s->stats;
        size_t p = 0;
        while (p < st.size()) {
            auto e = st.find('\x1f', p);
            if (e == std::string::npos) break;
            auto item = st.substr(p, e - p);
            if (item[0] == 'L') {
                auto sp = item.find(' ');
                labels[item.substr(sp + 1)] += std::stoull(item.substr(1, sp - 1));
            } else if (samples.size() < 6) {
                samples.push_back(item.substr(1));
            }
            p = e + 1;
        }
        return to;
    }

    Outcome run_choices(const std::vector<uint64_t> &choices) {
        auto *s = shared();
        s->current_case = 0;
        s->num_choices = 0;
        s->text[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            child_setup();
            Src src(choices);
            bool ok = run_case(prop, src, opt);
            child_exit(ok ? 0 : 77);
        }
        auto msg = wait_child(pid);
        kill(-pid, SIGKILL);
        return {msg.empty(), msg};
    }

    std::vector<uint64_t> taken() const {
        auto *s = shared();
        return {s->choices, s->choices + s->num_choices};
    }

    std::vector<uint64_t> shrink(std::vector<uint64_t> best, std::string &msg,
                                 std::string &text) {
        double deadline = now() + opt.shrink_seconds;
        unsigned runs = 0;
        auto attempt = [&](const std::vector<uint64_t> &c) {
            if (runs >= opt.shrink_budget || now() > deadline) return false;
            runs++;
            auto r = run_choices(c);
            if (r.ok) return false;
            auto t = taken();
            if (t.size() > c.size()) t = c;
            // accept only what is simpler: shorter, or the same length and lower
            if (t.size() < best.size() || (t.size() == best.size() && t < best)) {
                best = t;
                msg = r.msg;
                text = shared()->text;
                return true;
            }
            return false;
        };
        bool progress = true;
        while (progress && runs < opt.shrink_budget && now() < deadline) {
            progress = false;
            for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
                for (size_t i = 0; i + k <= best.size();) {
                    auto c = best;
                    c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + k));
                    if (attempt(c))
                        progress = true;
                    else
                        i += k;
                    if (runs >= opt.shrink_budget || now() > deadline) return best;
                }
            }
            for (size_t k : {8, 4, 2, 1}) {
                for (size_t i = 0; i + k <= best.size(); i += k) {
                    auto c = best;
                    bool any = false;
                    for (size_t j = i; j < i + k; j++) {
                        if (c[j]) any = true;
                        c[j] = 0;
                    }
                    if (any && attempt(c)) progress = true;
                }
            }
            for (size_t i = 0; i < best.size(); i++) {
                uint64_t lo = 0;
                while (i < best.size() && best[i] > lo + 1) {
                    auto c = best;
                    c[i] = lo + (best[i] - lo) / 2;
                    uint64_t tried = c[i];
                    if (attempt(c))
                        progress = true;
                    else
                        lo = tried;
                    if (runs >= opt.shrink_budget || now() > deadline) return best;
                }
                if (i < best.size() && best[i] > 0) {
                    auto c = best;
                    c[i]--;
                    if (attempt(c)) progress = true;
                }
            }
        }
        return best;
    }
};

inline std::string json_str(const std::string &s) {
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c == '\n') {
            r += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            snprintf(buf, sizeof(buf), "\\u%04x", c);
            r += buf;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

inline void init_shared() {
    shared() = static_cast<Shared *>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}

// --prop NAME --seed S --cases N --seconds T --out FILE --replay-dir DIR | --replay FILE
inline int run_main(int argc, char **argv,
                    const std::vector<std::pair<Options, Prop>> &props) {
    std::map<std::string, std::string> arg;
    for (int i = 1; i + 1 < argc; i += 2) arg[argv[i]] = argv[i + 1];
    init_shared();
    signal(SIGPIPE, SIG_IGN);
    std::string scratch = arg.count("--scratch") ? arg["--scratch"] : "/tmp";
    Runner r;
    r.err_path = scratch + "/err." + std::to_string(getpid());
    auto select = [&](const std::string &name) {
        for (auto const &[o, p] : props) {
            if (o.name == name) {
                r.prop = p;
                r.opt = o;
                return true;
            }
        }
        return false;
    };
    if (arg.count("--replay")) {
        std::ifstream f(arg["--replay"]);
        std::string line, name;
        std::vector<uint64_t> choices;
        bool chunk = false;
        uint64_t seed = 0, from = 0, to = 0;
        while (std::getline(f, line)) {
            if (line.rfind("prop: ", 0) == 0) name = line.substr(6);
            if (line.rfind("choices:", 0) == 0) {
                std::istringstream ss(line.substr(8));
                uint64_t v;
                while (ss >> v) choices.push_back(v);
                break;
            }
            if (line.rfind("chunk:", 0) == 0) {
                std::istringstream ss(line.substr(6));
                ss >> seed >> from >> to;
                chunk = true;
                break;
            }
        }
        if (!select(name)) {
            fprintf(stderr, "unknown property %s\n", name.c_str());
            return 3;
        }
        std::string msg;
        if (chunk) {
            r.run_chunk(seed, from, to, msg);
        } else {
            msg = r.run_choices(choices).msg;
        }
        unlink(r.err_path.c_str());
        printf("%s", shared()->text);
        if (msg.empty()) {
            printf("replay: held\n");
            return 0;
        }
        printf("replay: FAILED: %s\n", msg.c_str());
        return 1;
    }
    if (!select(arg["--prop"])) {
        fprintf(stderr, "unknown property %s\n", arg["--prop"].c_str());
        return 3;
    }
    uint64_t seed = std::stoull(arg.count("--seed") ? arg["--seed"] : "1");
    uint64_t cases = std::stoull(arg.count("--cases") ? arg["--cases"] : "1000");
    double seconds = std::stod(arg.count("--seconds") ? arg["--seconds"] : "60");
    uint64_t base = fnv(r.opt.name.data(), r.opt.name.size()) ^ (seed * 0x9e3779b97f4a7c15ull);
    double start = now();
    std::set<uint64_t> hashes;
    std::string failure, failure_text, replay, unreproduced;
    uint64_t unrep = 0;
    auto *s = shared();
    for (uint64_t i = 0; i < cases && now() - start < seconds;) {
        uint64_t to = std::min<uint64_t>(i + r.opt.chunk, cases);
        std::string msg;
        s->num_hashes = 0;
        uint64_t at = r.run_chunk(base, i, to, msg);
        for (uint32_t k = 0; k < s->num_hashes; k++) hashes.insert(s->hashes[k]);
        if (msg.empty()) {
            i = to;
            continue;
        }
        auto choices = r.taken();
        std::string text = s->text;
        // a failure is believed when the case fails again, alone, in fresh processes
        auto fails_again = [&](auto &&run) {
            unsigned bad = 0, good = 0;
            while (bad < r.opt.again && good + r.opt.again <= r.opt.attempts) (run() ? bad : good)++;
            return bad >= r.opt.again;
        };
        bool again = fails_again([&]() { return !r.run_choices(choices).ok; });
        std::string path =
            arg["--replay-dir"] + "/" + r.opt.name + "." + std::to_string(seed) + ".replay";
        if (again) {
            auto whole = choices;
            auto whole_msg = msg, whole_text = text;
            choices = r.shrink(choices, msg, text);
            bool still = fails_again([&]() { return !r.run_choices(choices).ok; });
            if (!still && r.opt.again < r.opt.attempts) {
                choices = whole, msg = whole_msg, text = whole_text;
                still = true;
            }
            if (still) {
                std::ofstream f(path);
                f << "prop: " << r.opt.name << "\n";
                f << "choices:";
                for (auto c : choices) f << " " << c;
                f << "\nfailure: " << msg << "\ncase:\n" << text;
                failure = msg;
                failure_text = text;
                replay = path;
                break;
            }
        }
        // it may need the cases before it (state that outlives a case)
        bool chunk_again = fails_again([&]() {
            std::string m2;
            return r.run_chunk(base, i, at + 1, m2) == at && !m2.empty();
        });
        if (chunk_again) {
            std::ofstream f(path);
            f << "prop: " << r.opt.name << "\n";
            f << "chunk: " << base << " " << i << " " << at + 1 << "\n";
            f << "failure: " << msg << "\ncase (after the cases before it):\n" << text;
            failure = msg;
            failure_text = text;
            replay = path;
            break;
        }
        unrep++;
        unreproduced = msg;
        i = at + 1;
        if (unrep > 20) break;
    }
    unlink(r.err_path.c_str());
    std::ofstream f(arg["--out"]);
    f << "{\"prop\":" << json_str(r.opt.name) << ",\"seed\":" << seed
      << ",\"evaluations\":" << s->evaluations << ",\"discards\":" << s->discards
      << ",\"nontrivial\":" << s->nontrivial << ",\"checks\":" << s->checks
      << ",\"distinct\":" << hashes.size() << ",\"wall\":" << now() - start
      << ",\"unreproduced\":" << unrep << ",\"unreproduced_msg\":" << json_str(unreproduced)
      << ",\"failure\":" << json_str(failure) << ",\"failure_case\":" << json_str(failure_text)
      << ",\"replay\":" << json_str(replay) << ",\"labels\":{";
    bool first = true;
    for (auto const &[k, v] : r.labels) {
        f << (first ? "" : ",") << json_str(k) << ":" << v;
        first = false;
    }
    f << "},\"samples\":[";
    first = true;
    for (auto const &t : r.samples) {
        f << (first ? "" : ",") << json_str(t);
        first = false;
    }
    f << "],\"hashes\":[";
    first = true;
    size_t n = 0;
    for (auto h : hashes) {
        if (n++ > 400000) break;
        f << (first ? "" : ",") << h;
        first = false;
    }
    f << "]}";
    return failure.empty() ? 0 : 1;
}

}  // namespace pbt
