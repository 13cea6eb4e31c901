// C01 (companion) the same comparison under the address sanitizer, on shorter lines over the widest alphabet
// KIND: seq
#include "cli.hh"
using namespace cli;
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  C t;
  t << f("flag", "f") << f("num", "n").of('i', "3") << f("name", "m").of('s', "x") << f("ratio", "o").of('d', "0.5");
  t << (c("server", "s").al("svr") << f("deep", "d") << (c("run", "r") << f("count", "c").of('u', "1")) << c("cfg", "c")) << c("ls", "l");
  strs words{"server", "s", "svr", "run", "cfg", "ls", "bogus", "-", "--", "/", "", "~~", "~~debug", "--flag", "-f", "-fd", "-n5", "-n", "5", "-5", "--num", "--num=", "--num=x", "--name=", "--name", "-m=''", "-m\"a b\"", "-m'", "--ratio=.5", "--ratio", "-c", "-c4", "--count=99999999999", "--fla", "--flagx", "--=", "-=", "---", "-\xc3\xa9"};
  vector<seq::Space> sp;
  sp.push_back(space("asan", t, {words, 0, T ? 3u : 2u}));
  return seq::run(argc, argv, "C01", sp, "every line of up to 2 (thorough 3) words over a wide alphabet under the address sanitizer, against the model");
}
