#ifndef PBT_CLI_SESSION_H
#define PBT_CLI_SESSION_H
#include "cli.h"
#include "standaloneasioscheduler.h"
namespace cli {
class CliLocalTerminalSession {
public:
    CliLocalTerminalSession(Cli &c, StandaloneAsioScheduler &s, std::ostream &os, size_t = 100) : os_(os) {
        auto *root = c.root_.get();
        s.work_ = [this, root, at = root]() mutable {
            auto &typed = Typed::get();
            if (typed.lines.empty()) return false;
            auto line = typed.lines.front();
            typed.lines.pop_front();
            auto w = detail::words(line);
            if (!w.empty() && w[0] == "exit") {
                typed.exited = true;
                if (exit_) exit_(os_);
            } else if (w.size() == 1 && at->parent_ && w[0] == at->parent_->name_) {
                at = at->parent_;
            } else if (!w.empty()) {
                auto *to = at;
                bool done = false;
                for (auto *m = at; m && !done; m = m->parent_) done = m->exec(os_, w, to);
                at = to;
                if (!done) os_ << "wrong command: " << line << '\n';
            }
            os_ << Typed::mark;
            (void)root;
            return true;
        };
    }
    void ExitAction(std::function<void(std::ostream &)> f) { exit_ = std::move(f); }

private:
    std::ostream &os_;
    std::function<void(std::ostream &)> exit_;
};
}  // namespace cli
#endif
