// C01 command words: every argument vector over the alphabets on several trees, against the model
// KIND: fast
#include "cli.hh"
using namespace cli;
static C shop() { // three levels, all naming forms
  C t;
  t << f("flag", "f");
  t << (c("server", "s").al("svr").al("srv") << (c("run", "r") << f("deep", "d")) << (c("cfg", "c").al("config") << c("get", "x") << (c("set", "y").al("put"))));
  t << (c("ls", "l").al("list"));
  t << (c("r", "run")); // short and long titles that are used elsewhere for other commands
  return t;
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  strs names{"server", "s", "srv", "cfg", "c", "config", "get", "y", "put", "ls", "l", "list", "r", "run", "x", "free", "--", "--flag", "-f", "", "Server", "serv"};
  sp.push_back(space("all-names", shop(), {names, 0, T ? 4u : 3u}));
  strs core{"server", "s", "cfg", "put", "ls", "run", "free", "--", "-f", ""};
  sp.push_back(space("deep", shop(), {core, 4, T ? 5u : 4u}));
  // after "--" and after a leaf everything is passed on unchanged
  strs rest{"ls", "--", "-f", "--flag", "", "a b", "server", "-zz", "--nope", "~~x", "-", "/f"};
  auto t = std::make_shared<C>(shop());
  auto add = [&](string name, strs pre, Words w) {
    sp.push_back({name, w.size(), [=](uint64_t i, seq::Ctx &x) { auto a = pre; auto b = w.at(i); a.insert(a.end(), b.begin(), b.end()); standard(x, *t, a); },
                  [=](uint64_t i) { auto a = pre; auto b = w.at(i); a.insert(a.end(), b.begin(), b.end()); return cmdline(a); }});
  };
  add("after-dashes", {"ls", "--"}, {rest, 0, T ? 4u : 3u});
  add("after-dashes-deep", {"server", "-f", "run", "one", "--"}, {rest, 0, 2u});
  add("after-leaf", {"s", "run"}, {rest, 0, T ? 4u : 3u});
  // two commands named in every way that is accepted: a name of one may be a short title of the other
  strs longs{"a", "b", "ab"}, shorts{"", "a", "b", "c"}, als{"", "a", "b", "c", "ab"};
  struct Two { C root; bool ok; };
  auto two = [=](uint64_t i) {
    seq::Digits d(i);
    C q[2];
    strs L, S;
    bool ok = true;
    auto name = [&](strs &v, string const &n) { if (n.empty()) return; if (std::find(v.begin(), v.end(), n) != v.end()) ok = false; v.push_back(n); };
    for (int k = 0; k < 2; k++) {
      string l = longs[d.take(3)], s = shorts[d.take(4)], al = als[d.take(5)];
      q[k] = c(l, s);
      if (!al.empty()) q[k].al(al);
      q[k] << f(k ? "second" : "first", k ? "" : "x");
      name(L, l); name(L, al); name(S, s);
    }
    q[1] << c("a", "b");
    C root;
    root << q[0] << q[1];
    return Two{root, ok};
  };
  Words tw{{"a", "b", "ab", "c"}, 1, 2};
  sp.push_back({"naming", 3600 * tw.size(), [=](uint64_t i, seq::Ctx &x) {
                  auto t2 = two(i / tw.size());
                  if (t2.ok) standard(x, t2.root, tw.at(i % tw.size()));
                }, [=](uint64_t i) { auto t2 = two(i / tw.size()); string s; for (auto &q : t2.root.subs) s += q.L + "|" + q.S + "|" + show(q.A) + " "; return s + cmdline(tw.at(i % tw.size())); }});
  return seq::run(argc, argv, "C01", sp, "every argument vector over the alphabet; actions, arguments, result, hit counts, flag values and printed screens compared with the model");
}
