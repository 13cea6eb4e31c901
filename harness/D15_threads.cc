// D15 threads: names of temporary files are different whatever threads ask for them, under every interleaving
// KIND: mc
#include "mc.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_path.hh>
#include <thread>
namespace cp = cmdr::path;
using std::string;
static string name(int kind) { return (kind == 0 ? cp::tmpname_autoincr("t_%d") : kind == 1 ? cp::tmpname_for_stderr() : cp::tmpname_autoincr()).filename().string(); }
template<int KIND, int N, int CALLS>
static void ask() {
  string got[N][CALLS];
  std::vector<std::thread> t;
  for (int i = 1; i < N; i++) t.emplace_back([&, i] { for (auto &s : got[i]) s = name(KIND); });
  for (auto &s : got[0]) s = name(KIND);
  for (auto &x : t) x.join();
  string all;
  for (int i = 0; i < N * CALLS; i++) {
    string const &a = got[i / CALLS][i % CALLS];
    all += a + " ";
    for (int j = 0; j < i; j++) mc::check(a != got[j / CALLS][j % CALLS], "same-name", "two callers got the same name");
  }
}
int main(int argc, char **argv) {
  char root[] = "/tmp/verif.d15t.XXXXXX";
  if (!mkdtemp(root)) return 2;
  setenv("TMPDIR", root, 1);
  int rc = mc::run(argc, argv, "D15", {
    {"counted-2x2", ask<0, 2, 2>, 2, 3},
    {"counted-3", ask<0, 3, 1>, 2, 3},
    {"stderr-2x2", ask<1, 2, 2>, 2, 3},
    {"default-2x2", ask<2, 2, 2>, 2, 3},
  }, "names of temporary files asked for by several threads are all different; no race");
  std::error_code ec;
  std::filesystem::remove_all(root, ec);
  return rc;
}
