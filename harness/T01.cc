// T01 thread pool, library configuration (no ready signal)
// KIND: mc
#include <cmdr11/cmdr_defs.hh>
#define CMDR_ENABLE_THREAD_POOL_READY_SIGNAL 0
#include "T01.hh"
int main(int argc, char **argv) {
  return mc::run(argc, argv, "T01", drivers(), "each accepted task runs exactly once and settles its future; join and destruction end and leave no task running; no race, no deadlock");
}
