// D08 observables and signals: every sequence of add / remove / expire / emit in all policies, and of connect / emit over slot kinds
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_common.hh>
#include <memory>
#include <set>
using namespace std;
using namespace cmdr::util;

static vector<string> *g_log;
static void log(string s) { g_log->push_back(move(s)); }
static string join(vector<string> const &v) { string s; for (auto &e: v) s += e + ";"; return s; }

// ---------------------------------------------------------------- observable
struct Obs : observer<int> {
  int id;
  function<void()> act;
  explicit Obs(int i) : id(i) {}
  void observe(int const &e) override { log(to_string(id) + ":" + to_string(e)); if (act) act(); }
};
enum { ADD_SHARED, ADD_WEAK, PLUS, PLUS_EQ, REM_SHARED, REM_NAKED, MINUS, MINUS_EQ, EXPIRE, NKIND };
static const char *KN[] = {"add(shared)", "add(weak)", "operator+", "operator+=", "remove(shared)", "remove(naked)", "operator-", "operator-=(naked)", "expire"};
static constexpr int NO = 3;
struct ObsRunBase { virtual ~ObsRunBase() = default; virtual void op(int kind, shared_ptr<observer<int>> &o) = 0; virtual void emit(int e) = 0; };
template<bool A, bool C> struct ObsRun : ObsRunBase {
  using O = observable<int, A, C>;
  struct Thing : O {} t;
  void op(int kind, shared_ptr<observer<int>> &o) override {
    using W = typename O::observer_t;
    W w = o;
    O &b = t;
    switch (kind) {
    case ADD_SHARED: b.add_observer(o); break;
    case ADD_WEAK: b.add_observer(w); break;
    case PLUS: b + o; break;
    case PLUS_EQ: b += w; break;
    case REM_SHARED: b.remove_observer(o); break;
    case REM_NAKED: b.remove_observer(o.get()); break;
    case MINUS: b - o; break;
    case MINUS_EQ: b -= o.get(); break;
    }
  }
  void emit(int e) override { t.emit(e); }
};
static ObsRunBase *policy(int p) { switch (p) { case 0: return new ObsRun<true, true>; case 1: return new ObsRun<true, false>; case 2: return new ObsRun<false, true>; default: return new ObsRun<false, false>; } }
static const char *PN[] = {"AutoLock, copy", "AutoLock, in place", "no lock, copy", "no lock, in place"};

static void observable_case(seq::Ctx &x, int pol, vector<int> const &ops) { // op = kind*NO+observer, last = emit
  vector<string> got, want;
  g_log = &got;
  unique_ptr<ObsRunBase> r(policy(pol));
  vector<shared_ptr<observer<int>>> o;
  for (int i = 0; i < NO; i++) o.push_back(make_shared<Obs>(i));
  vector<pair<int, bool>> reg; // (observer, alive)
  int ev = 0;
  auto emit = [&] {
    ev++;
    r->emit(ev);
    for (auto &e: reg) if (e.second) want.push_back(to_string(e.first) + ":" + to_string(ev));
    if (!want.empty()) x.interesting();
  };
  for (int op: ops) {
    x.step();
    if (op == NKIND * NO) { emit(); continue; }
    int k = op / NO, i = op % NO;
    if (k == EXPIRE) {
      o[size_t(i)] = make_shared<Obs>(i); // the old one dies, a new one takes its place
      for (auto &e: reg) if (e.first == i) e.second = false;
      continue;
    }
    r->op(k, o[size_t(i)]);
    if (k <= PLUS_EQ) reg.push_back({i, true});
    else {
      vector<pair<int, bool>> n;
      for (auto &e: reg) if (!(e.first == i && e.second)) n.push_back(e);
      reg = n;
    }
  }
  emit();
  x.outcome(join(want));
  x.eq("observable", string(PN[pol]) + ": calls", join(want), join(got));
}

// ------------------------------------------- observers that change the observable while it emits (AutoLock)
static void reentrant_case(seq::Ctx &x, int pol, uint64_t code) {
  vector<string> got, want;
  g_log = &got;
  unique_ptr<ObsRunBase> r(policy(pol));
  vector<shared_ptr<observer<int>>> o;
  for (int i = 0; i < NO; i++) o.push_back(make_shared<Obs>(i));
  vector<int> reg;
  struct Act { int kind, who; };
  vector<Act> act; // per observer: nothing, add j, remove j, emit once (nested)
  int nreg = int(code % 4); code /= 4; // registered at first: 0..nreg-1
  for (int i = 0; i < NO; i++) { int a = int(code % 8); code /= 8; act.push_back({a < 1 ? 0 : a < 4 ? 1 : a < 7 ? 2 : 3, a < 1 ? 0 : (a - 1) % 3}); }
  int depth = 0, ev = 0, acted = 0, macted = 0;
  for (int i = 0; i < NO; i++)
    static_cast<Obs *>(o[size_t(i)].get())->act = [&, i] {
      auto a = act[size_t(i)];
      if (depth > 2 || acted++ >= 6) return;
      if (a.kind == 1) r->op(ADD_SHARED, o[size_t(a.who)]);
      if (a.kind == 2) r->op(REM_NAKED, o[size_t(a.who)]);
      if (a.kind == 3) { depth++; r->emit(100 + depth); depth--; }
    };
  function<void(int, int)> model = [&](int e, int d) {
    auto snap = reg;
    for (int i: snap) {
      want.push_back(to_string(i) + ":" + to_string(e));
      auto a = act[size_t(i)];
      if (d > 2 || macted++ >= 6) continue;
      if (a.kind == 1) reg.push_back(a.who);
      if (a.kind == 2) { vector<int> n; for (int k: reg) if (k != a.who) n.push_back(k); reg = n; }
      if (a.kind == 3) model(100 + d + 1, d + 1);
    }
  };
  for (int i = 0; i < nreg && i < NO; i++) { r->op(ADD_SHARED, o[size_t(i)]); reg.push_back(i); }
  for (int k = 0; k < 3; k++) { ev++; x.step(); r->emit(ev); model(ev, 0); }
  if (!want.empty()) x.interesting();
  x.outcome(join(want));
  x.eq("reentrant", string(PN[pol]) + ": calls", join(want), join(got));
}

// ------------------------------------------------------------- scopes of registerer
template<bool A, bool C> static void registerer_case(seq::Ctx &x, uint64_t code, int pol) {
  vector<string> got, want;
  g_log = &got;
  struct Thing : observable<int, A, C> {} t;
  vector<shared_ptr<observer<int>>> o;
  for (int i = 0; i < NO; i++) o.push_back(make_shared<Obs>(i));
  vector<unique_ptr<registerer<int, A, C>>> stack;
  vector<int> reg, open;
  int ev = 0;
  for (int s = 0; s < 6; s++, code /= 5) {
    x.step();
    int k = int(code % 5);
    if (k < 3) { stack.push_back(make_unique<registerer<int, A, C>>(t, o[size_t(k)])); reg.push_back(k); open.push_back(k); }
    else if (k == 3 && !stack.empty()) {
      stack.pop_back();
      int w = open.back(); open.pop_back();
      vector<int> n; for (int i: reg) if (i != w) n.push_back(i); // removing takes all registrations of that observer
      reg = n;
    }
    ev++;
    t.emit(ev);
    for (int i: reg) want.push_back(to_string(i) + ":" + to_string(ev));
  }
  if (!want.empty()) x.interesting();
  x.eq("registerer", string(PN[pol]) + ": calls", join(want), join(got));
}

// ---------------------------------------------------------------- bindable, signal
struct Ev { string s; int n; };
static int g_id;
static void free_fn(Ev const &e) { log("free:" + e.s + to_string(e.n)); }
static void free_fn2(int a, string const &b, Ev const &e) { log("free2:" + to_string(a) + b + e.s + to_string(e.n)); }
struct Mem {
  int id;
  void on(Ev const &e) { log("mem" + to_string(id) + ":" + e.s + to_string(e.n)); }
  void on2(int a, Ev const &e) const { log("mem2" + to_string(id) + ":" + to_string(a) + e.s + to_string(e.n)); }
};
static void bindable_case(seq::Ctx &x, vector<int> const &ops) {
  vector<string> got, want;
  g_log = &got;
  struct Thing : observable_bindable<Ev> {} t;
  Mem m{7};
  vector<int> reg;
  int serial = 0;
  vector<int> ser;
  for (size_t k = 0; k <= ops.size(); k++) {
    x.step();
    int op = k < ops.size() ? ops[k] : 6;
    switch (op) {
    case 0: t.add_callback([id = serial](Ev const &e) { log("lam" + to_string(id) + ":" + e.s + to_string(e.n)); }); break;
    case 1: t.add_callback(free_fn); break;
    case 2: t.add_callback(free_fn2, 5, string("b")); break;
    case 3: t.add_callback(&Mem::on, &m); break;
    case 4: t.on(&Mem::on2, &m, 9); break;
    case 5: t.on([id = serial](Ev e) { log("val" + to_string(id) + ":" + e.s + to_string(e.n)); e.s.clear(); }); break;
    default: {
      Ev e{"text long enough to live on the heap " + to_string(k), int(k)};
      string tx = e.s + to_string(e.n);
      t.emit(e);
      for (size_t i = 0; i < reg.size(); i++) {
        string pre;
        switch (reg[i]) { case 0: pre = "lam" + to_string(ser[i]) + ":"; break; case 1: pre = "free:"; break; case 2: pre = "free2:5b"; break; case 3: pre = "mem7:"; break; case 4: pre = "mem27:9"; break; default: pre = "val" + to_string(ser[i]) + ":"; }
        want.push_back(pre + tx);
      }
      x.eq("bindable.arg", "the emitted event is unchanged", tx, e.s + to_string(e.n));
      continue;
    }
    }
    reg.push_back(op); ser.push_back(serial++);
  }
  if (!want.empty()) x.interesting();
  x.eq("bindable", "calls", join(want), join(got));
}

static string S(int k) { return "text long enough to live on the heap " + to_string(k); }
static void sig_free(int n, string s) { log("free:" + to_string(n) + s); }
struct SMem {
  void on(int n, string s) { log("mem:" + to_string(n) + s); }
  void onr(int n, string &&s) const { string t(move(s)); log("memr:" + to_string(n) + t); }
};
// two subjects
static void signal2_case(seq::Ctx &x, vector<int> const &ops) {
  vector<string> got, want;
  g_log = &got;
  cmdr::util::signal<int, string> sg;
  SMem m;
  vector<int> reg, ser;
  int serial = 0;
  for (size_t k = 0; k <= ops.size(); k++) {
    x.step();
    int op = k < ops.size() ? ops[k] : 8;
    switch (op) {
    case 0: sg.connect([id = serial](int n, string s) { log("val" + to_string(id) + ":" + to_string(n) + s); }); break;
    case 1: sg.connect([id = serial](int n, string const &s) { log("ref" + to_string(id) + ":" + to_string(n) + s); }); break;
    case 2: sg.on([id = serial](int &&n, string &&s) { string t(move(s)); log("rv" + to_string(id) + ":" + to_string(n) + t); n = -1; }); break;
    case 3: sg.connect(sig_free); break;
    case 4: sg.connect(&SMem::on, &m); break;
    case 5: sg.on(&SMem::onr, &m); break;
    case 6: { auto named = [id = serial](int n, string s) { log("nam" + to_string(id) + ":" + to_string(n) + s); }; sg.connect(named); break; }
    default: {
      string s = S(int(k)), t = s;
      int n = int(k), t2 = n;
      if (op == 7) sg.emit(int(k), S(int(k)));
      else sg.emit(move(n), move(s)); // named subjects
      for (size_t i = 0; i < reg.size(); i++) {
        string pre;
        switch (reg[i]) { case 0: pre = "val" + to_string(ser[i]) + ":"; break; case 1: pre = "ref" + to_string(ser[i]) + ":"; break; case 2: pre = "rv" + to_string(ser[i]) + ":"; break; case 3: pre = "free:"; break; case 4: pre = "mem:"; break; case 5: pre = "memr:"; break; default: pre = "nam" + to_string(ser[i]) + ":"; }
        want.push_back(pre + to_string(t2) + t);
      }
      continue;
    }
    }
    reg.push_back(op); ser.push_back(serial++);
  }
  if (!want.empty()) x.interesting();
  x.outcome(join(want));
  x.eq("signal", "calls", join(want), join(got));
}
// calling the signal object, references, no subjects, many subjects
static void signal_misc(seq::Ctx &x, uint64_t code) {
  vector<string> got, want;
  g_log = &got;
  int nslots = int(code % 4); code /= 4;
  int how = int(code % 3); code /= 3;
  auto both = [&](string s) { want.push_back(s); };
  x.step();
  switch (code % 6) {
  case 0: {
    cmdr::util::signal<> s;
    for (int i = 0; i < nslots; i++) s.connect([i] { log("a" + to_string(i)); });
    if (how == 0) s.emit(); else if (how == 1) s(); else { s.emit(); s(); }
    for (int r = 0; r < (how == 2 ? 2 : 1); r++) for (int i = 0; i < nslots; i++) both("a" + to_string(i));
    break;
  }
  case 1: {
    cmdr::util::signal<string> s;
    for (int i = 0; i < nslots; i++) s.connect([i](string v) { log("b" + to_string(i) + v); });
    if (how == 0) s.emit(S(1)); else if (how == 1) s(S(1)); else s(S(1)).emit(S(2));
    for (int r = 0; r < (how == 2 ? 2 : 1); r++) for (int i = 0; i < nslots; i++) both("b" + to_string(i) + S(r + 1));
    break;
  }
  case 2: {
    cmdr::util::signal<string const &, int> s;
    for (int i = 0; i < nslots; i++) s.connect([i](string v, int n) { log("c" + to_string(i) + v + to_string(n)); });
    string v = S(3);
    if (how == 0) s.emit(v, 5); else s(v, 5);
    x.eq("signal.constref", "the referenced subject is unchanged", S(3), v);
    for (int i = 0; i < nslots; i++) both("c" + to_string(i) + S(3) + "5");
    break;
  }
  case 3: {
    cmdr::util::signal<vector<string>> s;
    for (int i = 0; i < nslots; i++) { if (i % 2) s.connect([i](vector<string> const &v) { log("d" + to_string(i) + join(v)); }); else s.connect([i](vector<string> v) { log("d" + to_string(i) + join(v)); }); }
    vector<string> v{S(1), S(2)};
    if (how == 0) s.emit(move(v)); else s(move(v));
    for (int i = 0; i < nslots; i++) both("d" + to_string(i) + S(1) + ";" + S(2) + ";");
    break;
  }
  case 4: {
    cmdr::util::signal<string, string, int, string> s;
    for (int i = 0; i < nslots; i++) s.connect([i](string a, string b, int c, string d) { log("e" + to_string(i) + a + b + to_string(c) + d); });
    if (how == 0) s.emit(S(1), S(2), 3, S(4)); else s(S(1), S(2), 3, S(4));
    for (int i = 0; i < nslots; i++) both("e" + to_string(i) + S(1) + S(2) + "3" + S(4));
    break;
  }
  default: { // a shared object as the subject: all slots see the same object, none is emptied
    cmdr::util::signal<shared_ptr<int>> s;
    auto p = make_shared<int>(5);
    for (int i = 0; i < nslots; i++) s.connect([i](shared_ptr<int> v) { log("f" + to_string(i) + (v ? to_string((*v)++) : string("null"))); });
    auto q = p;
    if (how == 0) s.emit(move(q)); else s(move(q));
    for (int i = 0; i < nslots; i++) both("f" + to_string(i) + to_string(5 + i));
    break;
  }
  }
  if (!want.empty()) x.interesting();
  x.eq("signal.kinds", "calls", join(want), join(got));
}

int main(int argc, char **argv) {
  bool th = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto seqs = [](uint64_t i, unsigned base, unsigned n) { vector<int> v; for (unsigned k = 0; k < n; k++, i /= base) v.push_back(int(i % base)); return v; };
  auto desc = [](vector<int> v, function<string(int)> f) { string s; for (int o: v) s += f(o) + " "; return s; };
  auto opname = [](int o) { return o == NKIND * NO ? string("emit") : string(KN[o / NO]) + "#" + to_string(o % NO); };
  unsigned const B = NKIND * NO + 1;
  for (int p = 0; p < 4; p++) {
    unsigned L = th ? 4 : 3;
    uint64_t n = 1; for (unsigned k = 0; k < L; k++) n *= B;
    sp.push_back({string("observable ") + PN[p], n, [=](uint64_t i, seq::Ctx &x) { x.state(i % 65536); observable_case(x, p, seqs(i, B, L)); }, [=](uint64_t i) { return desc(seqs(i, B, L), opname); }});
    // deeper with one way of each kind: add, remove, expire, emit
    static const int few[] = {ADD_SHARED * NO, ADD_SHARED * NO + 1, ADD_WEAK * NO + 2, REM_SHARED * NO, REM_NAKED * NO + 1, EXPIRE * NO, EXPIRE * NO + 2, NKIND * NO};
    unsigned L2 = th ? 7 : 6;
    uint64_t n2 = 1; for (unsigned k = 0; k < L2; k++) n2 *= 8;
    auto map = [=](uint64_t i) { auto v = seqs(i, 8, L2); for (auto &o: v) o = few[o]; return v; };
    sp.push_back({string("observable deep ") + PN[p], n2, [=](uint64_t i, seq::Ctx &x) { x.state(i % 65536); observable_case(x, p, map(i)); }, [=](uint64_t i) { return desc(map(i), opname); }});
    sp.push_back({string("registerer ") + PN[p], 15625, [=](uint64_t i, seq::Ctx &x) { switch (p) { case 0: registerer_case<true, true>(x, i, p); break; case 1: registerer_case<true, false>(x, i, p); break; case 2: registerer_case<false, true>(x, i, p); break; default: registerer_case<false, false>(x, i, p); } }, [=](uint64_t i) { return desc(seqs(i, 5, 6), [](int k) { return k < 3 ? "open#" + to_string(k) : k == 3 ? string("close") : string("-"); }); }});
    if (p < 2) sp.push_back({string("reentrant ") + PN[p], 4 * 8 * 8 * 8, [=](uint64_t i, seq::Ctx &x) { reentrant_case(x, p, i); }, [](uint64_t i) { return "code " + to_string(i); }});
  }
  unsigned LB = th ? 6 : 5; uint64_t nb = 1; for (unsigned k = 0; k < LB; k++) nb *= 7;
  sp.push_back({"bindable", nb, [=](uint64_t i, seq::Ctx &x) { x.state(i % 65536); bindable_case(x, seqs(i, 7, LB)); }, [=](uint64_t i) { return desc(seqs(i, 7, LB), [](int o) { return to_string(o); }); }});
  unsigned LS = th ? 6 : 5; uint64_t ns = 1; for (unsigned k = 0; k < LS; k++) ns *= 9;
  sp.push_back({"signal", ns, [=](uint64_t i, seq::Ctx &x) { x.state(i % 65536); signal2_case(x, seqs(i, 9, LS)); }, [=](uint64_t i) { return desc(seqs(i, 9, LS), [](int o) { static const char *N[] = {"connect(by value)", "connect(const&)", "on(&&)", "connect(function)", "connect(member)", "on(member &&)", "connect(named lambda)", "emit(temporaries)", "emit(moved)"}; return string(N[o]); }); }});
  sp.push_back({"signal kinds", 4 * 3 * 6, [](uint64_t i, seq::Ctx &x) { signal_misc(x, i); }, [](uint64_t i) { return "code " + to_string(i); }});
  return seq::run(argc, argv, "D08", sp, "every sequence of adding, removing, expiring and emitting up to a depth in all four policies; nested registerers; observers that add, remove or emit while being notified; every sequence of connecting slot kinds and emitting");
}
