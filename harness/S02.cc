// S02 views of the option store: prefixed access, subtrees, walks, dumps and filters, for all contents over a key universe
// KIND: seq
#include "cli.hh"
#include <cmdr11/cmdr_defs.hh>
using std::string; using std::to_string; using std::vector;
using Store = cmdr::vars::store;
using cmdr::vars::variable;
using Pair = std::pair<string, Store::node_pointer>;
using Content = std::map<string, string>; // key -> value as text
static string plain(string const &s) {
  string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\033') { r += s[i]; continue; }
    if (i + 1 < s.size() && s[i + 1] == '[') { i += 2; while (i < s.size() && !(s[i] >= '@' && s[i] <= '~')) i++; }
  }
  return r;
}
static vector<string> lines_of(string const &s) { vector<string> r; std::istringstream is(s); string l; while (getline(is, l)) r.push_back(l); return r; }
static vector<char const *> const universe{"a", "a.b", "a.b.c", "a.d", "b", "b.c.d", "ab", "a.b.cc", "b.c", "c.a.b.c", "a.z", "B"};
static vector<char const *> const probes{"a", "a.b", "a.b.c", "a.d", "b", "b.c", "b.c.d", "ab", "c", "c.a", "c.a.b", "c.a.b.c", "x", "a.x", "a.b.c.d", "b.c.d.e", "B", "a.b.cc", "a.z", "b.x.y"};
static string value(Store &s, string const &k, int n) {
  switch (n % 4) {
    case 0: s.set_raw(k.c_str(), n); return to_string(n);
    case 1: s.set_raw(k.c_str(), "v" + to_string(n)); return "\"v" + to_string(n) + "\"";
    case 2: s.set_raw(k.c_str(), n % 8 == 2); return n % 8 == 2 ? "true" : "false";
    default: s.set_raw(k.c_str(), vector<int>{n, n + 1}); return "[" + to_string(n) + "," + to_string(n + 1) + "]";
  }
}
static std::set<string> nodes(Content const &c) { // every path of the tree
  std::set<string> r;
  for (auto &e : c) for (size_t p = 0; p != string::npos; p = e.first.find('.', p + 1)) if (p) r.insert(e.first.substr(0, p));
  for (auto &e : c) r.insert(e.first);
  return r;
}
static Content below(Content const &c, string const &p) { Content r; for (auto &e : c) if (e.first.compare(0, p.size() + 1, p + ".") == 0) r[e.first.substr(p.size() + 1)] = e.second; return r; }
static Content full_dump(string const &text, string &title, bool &sorted) {
  Content r;
  string prev;
  sorted = true;
  auto ls = lines_of(plain(text));
  title = ls.empty() ? "(no title)" : ls[0];
  for (size_t i = 1; i < ls.size(); i++) {
    auto p = ls[i].find(" : ");
    if (ls[i].compare(0, 3, " - ") || p == string::npos) { r["(line) " + ls[i]] = "?"; continue; }
    string k = ls[i].substr(3, p - 3);
    if (r.count(k)) r[k] += " and again";
    r[k] += ls[i].substr(p + 3);
    if (i > 1 && !(prev < k)) sorted = false;
    prev = k;
  }
  return r;
}
static Content tree_dump(string const &text) {
  Content r;
  vector<string> path;
  auto ls = lines_of(plain(text));
  for (size_t i = 1; i < ls.size(); i++) {
    size_t ind = ls[i].find_first_not_of(' '), p = ls[i].find(": ");
    if (ind == string::npos || ind % 2 || p == string::npos || ind / 2 > path.size()) { r["(line) " + ls[i]] = "?"; continue; }
    path.resize(ind / 2);
    path.push_back(ls[i].substr(ind, p - ind));
    string k;
    for (auto &q : path) k += (k.empty() ? "" : ".") + q;
    if (r.count(k)) r[k] += " and again";
    r[k] += ls[i].substr(p + 2);
  }
  return r;
}
static string text(Content const &c) { string s; for (auto &e : c) s += e.first + "=" + e.second + " "; return s; }
static string const unset = variable{}.as_string();
static Content expect_tree(Content const &c, std::function<bool(string const &)> const &pass = nullptr) {
  Content r;
  for (auto &n : nodes(c)) {
    bool ok = true;
    if (pass) { ok = pass(n); for (size_t p = n.find('.'); p != string::npos; p = n.find('.', p + 1)) ok &= pass(n.substr(0, p)); }
    if (!ok) continue;
    auto it = c.find(n);
    r[n]    = it == c.end() ? unset : it->second;
  }
  return r;
}
static void views(seq::Ctx &x, Store &s, Content const &c, string const &h) {
  Store const &cs = s;
  Content got;
  vector<string> order;
  s.walk_by_full_keys([&](Pair const &p) { order.push_back(p.first); got[p.first] += p.second->as_string(); });
  x.eq("walk", h + "walk", text(c), text(got));
  x.check("walk-order", h + "walk is not sorted", std::is_sorted(order.begin(), order.end()) && order.size() == c.size());
  string title;
  bool sorted;
  { std::ostringstream os; s.dump_full_keys(os); x.eq("dump", h + "dump_full_keys", text(c), text(full_dump(os.str(), title, sorted))); x.check("dump-order", h + "dump is not sorted", sorted); }
  { std::ostringstream os; s.dump_full_keys(os, "THE TITLE"); x.eq("dump", h + "dump_full_keys with a title", text(c), text(full_dump(os.str(), title, sorted))); x.eq("title", h + "title", string("THE TITLE"), title); }
  { std::ostringstream os; s.dump_tree(os); x.eq("tree", h + "dump_tree", text(expect_tree(c)), text(tree_dump(os.str()))); }
  { std::ostringstream os; os << s; x.eq("tree", h + "operator<<", text(expect_tree(c)), text(tree_dump(os.str()))); }
  s.set_dump_with_type_name(false);
  { std::ostringstream os; s.dump_tree_f(os); x.eq("tree", h + "dump_tree_f", text(expect_tree(c)), text(tree_dump(os.str()))); }
  for (string f : {"a", "a.b", "b.c", "c", "zz", ""}) {
    std::function<bool(string const &)> pred = [f](string const &k) { return k.compare(0, f.size(), f) != 0; }; // hides what starts with f
    auto filter = [&](Pair const &p) { return pred(p.first); };
    Content want;
    for (auto &e : c) if (pred(e.first)) want.insert(e);
    { std::ostringstream os; s.dump_full_keys_f(os, filter); x.eq("dump-filter", h + "dump_full_keys_f hiding " + f, text(want), text(full_dump(os.str(), title, sorted))); }
    { std::ostringstream os; s.dump_tree_f(os, filter); x.eq("tree-filter", h + "dump_tree_f hiding " + f, text(expect_tree(c, pred)), text(tree_dump(os.str()))); }
  }
  s.set_dump_with_type_name(true);
  {
    std::ostringstream os; s.dump_tree_f(os);
    Content want;
    for (auto &e : expect_tree(c)) { auto &v = s.get_raw(e.first); want[e.first] = e.second + " (" + cmdr::debug::demangle(c.count(e.first) ? v.type().name() : typeid(void).name()) + ")"; }
    x.eq("tree", h + "dump_tree_f with types", text(want), text(tree_dump(os.str())));
  }
  auto ns = nodes(c);
  for (string p : probes) {
    auto sub = s.subtree(p.c_str());
    x.check("subtree", h + "subtree of " + p + (sub ? " exists" : " is missing"), (sub != nullptr) == (ns.count(p) > 0));
    auto want = below(c, p);
    if (sub) {
      x.check("subtree", h + "value of subtree " + p + ": " + sub->as_string(), sub->as_string() == (c.count(p) ? c.at(p) : unset));
      Content w;
      s.walk_by_full_keys([&](Pair const &q) { w[q.first] += q.second->as_string(); }, sub.get());
      x.eq("subtree-walk", h + "walk of subtree " + p, text(want), text(w));
      { std::ostringstream os; s.dump_full_keys(os, nullptr, sub.get()); x.eq("subtree-dump", h + "dump of subtree " + p, text(want), text(full_dump(os.str(), title, sorted))); }
      { std::ostringstream os; s.dump_tree(os, nullptr, sub.get()); x.eq("subtree-tree", h + "tree of subtree " + p, text(expect_tree(want)), text(tree_dump(os.str()))); }
      for (auto &e : want) {
        x.eq("subtree-get", h + "get of " + e.first + " below " + p, e.second, sub->get_raw(e.first).as_string());
        x.check("subtree-has", h + "has of " + e.first + " below " + p, sub->has("", e.first.c_str()));
      }
    }
    // prefixed access: every key, with the prefix and all splits
    for (string k : probes) {
      string full = p + "." + k;
      auto it = c.find(full);
      string w = it == c.end() ? unset : it->second;
      x.check("prefix-has", h + "has(" + p + ", " + k + ")", cs.has(p.c_str(), k.c_str()) == (it != c.end()));
      x.eq("prefix-get", h + "get(" + p + ", " + k + ")", w, s.get_raw_p(p, k).as_string());
      x.eq("prefix-get", h + "const get(" + p + ", " + k + ")", w, cs.get_raw_p(p.c_str(), k.c_str()).as_string());
    }
    auto it = c.find(p);
    string w = it == c.end() ? unset : it->second;
    x.eq("prefix-get", h + "get('', " + p + ")", w, s.get_raw_p("", p.c_str()).as_string());
    x.eq("prefix-get", h + "const get('', " + p + ")", w, cs.get_raw_p("", p.c_str()).as_string());
    x.check("prefix-has", h + "has('', " + p + ")", cs.has("", p.c_str()) == (it != c.end()));
    x.eq("prefix-get", h + "get(null, " + p + ")", w, cs.get_raw_p(nullptr, p.c_str()).as_string());
    x.eq("prefix-get", h + "get(string(), " + p + ")", w, cs.get_raw_p(string(), p).as_string());
  }
  (void) s.subtree("");
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  unsigned nu = 12;
  sp.push_back({"contents", 1ull << nu, [=](uint64_t i, seq::Ctx &x) {
                  Store s;
                  Content c;
                  for (unsigned k = 0; k < nu; k++) if (i >> k & 1) c[universe[k]] = value(s, universe[k], (int) (k + i % 7));
                  x.step(c.size()); x.state(i);
                  if (!c.empty()) x.interesting();
                  views(x, s, c, "content {" + text(c) + "}: ");
                }, [=](uint64_t i) { string r; for (unsigned k = 0; k < nu; k++) if (i >> k & 1) r += string(universe[k]) + " "; return r; }});
  unsigned hk = T ? 8 : 6;
  sp.push_back({"histories", seq::words_count(hk + 1, 1, T ? 4 : 4), [=](uint64_t i, seq::Ctx &x) {
                  Store s;
                  Content c;
                  string h;
                  int n = 0;
                  for (int d : seq::word_at(i, hk + 1, 1, 4)) {
                    x.step();
                    if (d == (int) hk) { s.reset(); c.clear(); h += "reset; "; continue; }
                    c[universe[(size_t) d]] = value(s, universe[(size_t) d], n++);
                    h += string("set ") + universe[(size_t) d] + "; ";
                  }
                  x.interesting();
                  x.state(seq::fnv(text(c)));
                  views(x, s, c, h);
                }, [=](uint64_t i) { string h; for (int d : seq::word_at(i, hk + 1, 1, 4)) h += d == (int) hk ? "reset; " : string("set ") + universe[(size_t) d] + "; "; return h; }});
  // the application's view: its keys live under the store prefix, those of flags under the command-line prefix
  sp.push_back({"application", seq::words_count(4 * 4, 0, T ? 3 : 2), [=](uint64_t i, seq::Ctx &x) {
                  cli::builtins();
                  cli::App r;
                  auto &a = *r.app;
                  Content c;
                  int n = 0;
                  string h;
                  static vector<char const *> const ks{"a", "a.b", "server.port", "cli.verbose"};
                  for (int d : seq::word_at(i, 16, 0, T ? 3 : 2)) {
                    x.step();
                    auto *k = ks[(size_t) d / 4];
                    h += string("set ") + k + "; ";
                    switch (d % 4) {
                      case 0: a.set(k, n); c[k] = to_string(n); break;
                      case 1: a.set(k, variable{n + 10}); c[k] = to_string(n + 10); break;
                      case 2: { variable v{n + 20}; a.set(k, v); c[k] = to_string(n + 20); break; }
                      case 3: a.set(k, string("t")); c[k] = "\"t\""; break;
                    }
                    n++;
                  }
                  x.interesting();
                  x.state(seq::fnv(text(c)));
                  auto const &ca = a;
                  for (auto *k : ks) {
                    bool flag = string(k) == "cli.verbose";
                    string w = c.count(k) ? c[k] : flag ? "false" : unset;
                    x.eq("app-get", h + "app.get " + k, w, a.get(k).as_string());
                    x.eq("app-get", h + "const app.get " + k, w, ca.get(string(k)).as_string());
                    x.check("app-has", h + "app.has " + k, ca.has(k) == (c.count(k) > 0 || flag));
                    x.eq("app-store", h + "store get app." + k, w, a.store().get_raw(string("app.") + k).as_string());
                    x.eq("app-store", h + "store get (app, " + k, w, a.store().get_raw_p("app", k).as_string());
                    if (flag) x.eq("app-cli", h + "get_for_cli verbose", w, a.get_for_cli("verbose").as_string());
                    else if (!c.count(k)) x.eq("app-cli", h + "get_for_cli " + k, unset, a.get_for_cli(k).as_string());
                  }
                }, [=](uint64_t i) { return "application #" + to_string(i); }});
  return seq::run(argc, argv, "S02", sp, "all contents over a universe of overlapping keys and all short histories; walks, dumps (titles, filters, types, subtrees) and prefixed access compared with a flat map");
}
