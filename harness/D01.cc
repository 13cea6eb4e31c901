// D01 priority queue: every operation sequence up to a depth, against a stable-sorted-list model.
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_priority_queue.hh>
#include <list>

struct E {
  int k = -1, tag = -1;
  bool operator==(E const &o) const { return k == o.k && tag == o.tag; }
};
static int cmp(E const &a, E const &b) { return a.k - b.k; }
struct Cmp { int operator()(E const &a, E const &b) const { return cmp(a, b); } };

using QMax = cmdr::queue::priority_queue<E, int, Cmp>;
using QMin = cmdr::queue::priority_queue<E, int, Cmp, std::list<E>, true>;

// letters: 0..K-1 push(key), K pop, K+1 pop_front
template<class Q, bool REV>
void run_word(std::vector<int> const &w, int K, seq::Ctx &c, char const *nm) {
  Q q;
  std::vector<E> m; // kept in pop order
  int tag = 0;
  auto state = [&] { std::string s = nm; for (auto &e: m) (s += '0' + e.k) += ','; return s; };
  std::string obs;
  for (size_t i = 0; i < w.size(); i++) {
    int op = w[i];
    if (op < K) {
      E e{op, tag++};
      if (i & 1) q.push_back(e); else q.push(e);
      auto it = m.begin();
      while (it != m.end() && (REV ? it->k <= e.k : it->k >= e.k)) ++it;
      m.insert(it, e);
    } else if (op == K) {
      E got = q.pop();
      if (m.empty()) c.check("pop-empty", "pop of an empty queue is the null value", Q::is_null(got));
      else {
        E want = m.front();
        c.check("pop-null", "pop of a non-empty queue is not null", !Q::is_null(got));
        c.check(std::string("pop-order-") + nm, "pop returned key " + std::to_string(got.k) + " tag " + std::to_string(got.tag) + ", expected key " + std::to_string(want.k) + " tag " + std::to_string(want.tag), got == want);
        obs += std::to_string(got.k) + "/" + std::to_string(got.tag) + " ";
        m.erase(m.begin());
      }
    } else {
      q.pop_front();
      if (!m.empty()) m.erase(m.begin());
    }
    c.step();
    c.eq("size", "size()", m.size(), q.size());
    c.eq("empty", "empty()", m.empty(), q.empty());
    if (!m.empty()) {
      E f = q.front();
      c.check(std::string("front-") + nm, "front() returned key " + std::to_string(f.k) + " tag " + std::to_string(f.tag) + ", next to pop is key " + std::to_string(m[0].k) + " tag " + std::to_string(m[0].tag), f == m[0]);
    }
    std::vector<E> seen;
    for (auto it = q.begin(); it != q.end(); ++it) { seen.push_back(*it); if (seen.size() > 64) break; }
    c.check(std::string("iterate-") + nm, "iteration visits all " + std::to_string(m.size()) + " elements once, in pop order (saw " + std::to_string(seen.size()) + ")", seen == m);
    c.state(state());
  }
  // drain
  while (!m.empty()) {
    E got = q.pop();
    if (!c.check(std::string("drain-") + nm, "draining: key " + std::to_string(got.k) + " tag " + std::to_string(got.tag) + " expected key " + std::to_string(m[0].k) + " tag " + std::to_string(m[0].tag), got == m[0])) break;
    m.erase(m.begin());
    obs += std::to_string(got.k) + "/" + std::to_string(got.tag) + " ";
  }
  c.outcome(obs);
  if (w.size() > 3) c.interesting();
}

int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  std::vector<seq::Space> sp;
  auto add = [&](std::string name, int K, unsigned lo, unsigned hi, auto f) {
    uint64_t n = seq::words_count((uint64_t) K + 2, lo, hi);
    sp.push_back({name, n, [=](uint64_t i, seq::Ctx &c) { f(seq::word_at(i, (uint64_t) K + 2, lo, hi), K, c); },
                  [=](uint64_t i) { std::string s; for (int o: seq::word_at(i, (uint64_t) K + 2, lo, hi)) s += o < K ? "push" + std::to_string(o) + " " : o == K ? "pop " : "pop_front "; return s; }});
  };
  add("max", 3, 1, T ? 9 : 7, [](std::vector<int> const &w, int K, seq::Ctx &c) { run_word<QMax, false>(w, K, c, "max"); });
  add("min", 3, 1, T ? 9 : 7, [](std::vector<int> const &w, int K, seq::Ctx &c) { run_word<QMin, true>(w, K, c, "min"); });
  add("max5", 5, 1, T ? 7 : 6, [](std::vector<int> const &w, int K, seq::Ctx &c) { run_word<QMax, false>(w, K, c, "max"); });
  add("min5", 5, 1, T ? 7 : 6, [](std::vector<int> const &w, int K, seq::Ctx &c) { run_word<QMin, true>(w, K, c, "min"); });
  return seq::run(argc, argv, "D01", sp, "every sequence of push(key)/pop/pop_front up to the depth bound, tagged elements, checked after each step (size, empty, front, full iteration) and drained; non-trivial: more than 3 operations");
}
