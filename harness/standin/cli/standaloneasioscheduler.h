#ifndef PBT_CLI_SCHEDULER_H
#define PBT_CLI_SCHEDULER_H
#include <functional>
namespace cli {
class StandaloneAsioScheduler {
public:
    void Run() {
        while (!stopped_ && work_ && work_()) {
        }
    }
    void Stop() { stopped_ = true; }

private:
    friend class CliLocalTerminalSession;
    bool stopped_ = false;
    std::function<bool()> work_;
};
}  // namespace cli
#endif
