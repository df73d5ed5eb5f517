// h_debug.cc - the debugger against the model (see dbgdriver.hh).
#include "dbgdriver.hh"

namespace {
using dbg::Shape;
using dbg::Weights;

void prop_continue(pbt::Src &s) {
    Weights w;
    w.over = 1;
    w.assert_ = 8;
    w.stop = 1;
    dbg::run_driver(s, w, {});
}
void prop_threads(pbt::Src &s) {
    Weights w;
    w.pauses = 8;
    w.edges = 3;
    w.option = 0;
    Shape sh;
    sh.many = true;
    sh.one_top = true;
    dbg::run_driver(s, w, sh);
}
void prop_time(pbt::Src &s) {
    Weights w;
    w.back = 4;
    w.reverse = 4;
    w.jump = 1;
    dbg::run_driver(s, w, {});
}
void prop_frames(pbt::Src &s) {
    Weights w;
    w.set = 2;
    w.eval = 3;
    w.option = 2;
    Shape sh;
    sh.frames = true;
    sh.delays = true;
    dbg::run_driver(s, w, sh);
}
void prop_data(pbt::Src &s) {
    Weights w;
    w.data = 8;
    w.over = 1;
    w.back = 1;
    w.reverse = 1;
    w.set = 2;
    Shape sh;
    sh.data = true;
    dbg::run_driver(s, w, sh);
}
void prop_monitor(pbt::Src &s) {
    Weights w;
    w.monitor = 8;
    w.set = 3;
    w.data = 1;
    w.reverse = 1;
    Shape sh;
    sh.data = true;
    dbg::run_driver(s, w, sh);
}
void prop_requests(pbt::Src &s) {
    Weights w;
    w.bad = 8;
    w.data = 2;
    w.monitor = 2;
    w.info = 4;
    w.eval = 2;
    w.option = 2;
    w.stop = 1;
    w.disconnect = 1;
    w.reverse = 1;
    w.back = 1;
    w.jump = 1;
    Shape sh;
    sh.data = true;
    sh.delays = true;
    dbg::run_driver(s, w, sh);
}
void prop_startup(pbt::Src &s) {
    Weights w;
    w.startup = true;
    w.reconnect = 25;
    w.over = 1;
    w.back = 1;
    w.reverse = 1;
    w.monitor = 1;
    w.info = 3;
    w.option = 2;
    w.stop = 1;
    w.disconnect = 2;
    w.pauses = 15;
    w.edges = 8;
    Shape sh;
    sh.delays = s.coin();
    dbg::run_driver(s, w, sh);
    dbg::clear_env();
}
}  // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv,
                         {{{.name = "dbg_continue", .cpu_limit = 5, .wall_limit = 30}, prop_continue},
                          {{.name = "dbg_threads", .cpu_limit = 5, .wall_limit = 30}, prop_threads},
                          {{.name = "dbg_time", .cpu_limit = 5, .wall_limit = 30}, prop_time},
                          {{.name = "dbg_races", .cpu_limit = 20, .wall_limit = 60, .again = 1, .attempts = 10}, prop_threads},
                          {{.name = "dbg_frames", .cpu_limit = 5, .wall_limit = 30}, prop_frames},
                          {{.name = "dbg_data", .cpu_limit = 5, .wall_limit = 30}, prop_data},
                          {{.name = "dbg_monitor", .cpu_limit = 5, .wall_limit = 30}, prop_monitor},
                          {{.name = "dbg_startup", .cpu_limit = 5, .wall_limit = 30}, prop_startup},
                          {{.name = "dbg_requests", .cpu_limit = 5, .wall_limit = 30}, prop_requests}});
}
