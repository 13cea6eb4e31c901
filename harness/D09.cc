// D09 scope guards: every nesting of guards x every exit point, normal or by exception
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_common.hh>
#include <cmdr11/cmdr_ios.hh>
#include <cmdr11/cmdr_os_io_redirect.hh>
#include <set>
using namespace std;
namespace cu = cmdr::util;

enum { DEFER_FN, DEFER_OBJ, DEFER_OBJ_FN, DEFER_FN_OBJ, DEFER_LAMBDA, DEFER_EMPTY, FLAGS, STATE, P_OUT, P_ERR, P_LOG, P_IN, P_EVERY, P_NULL, NG };
static const char *GN[] = {"defer(fn)", "defer(obj)", "defer(obj, fn)", "defer(fn, obj)", "defer(obj, lambda)", "defer(empty fn)", "flags saver", "state saver", "stdout to", "stderr to", "clog to", "stdin to", "all to", "stdout to nothing"};
enum { EXIT_NORMAL, EXIT_RETURN, EXIT_THROW };
static const char *EN[] = {"normal", "return", "throw"};

struct World {
  vector<string> log, want; // actions
  ostringstream os;
  vector<string> out[3], wout[3]; // what each buffer got: texts per buffer id
};
static World *W;
struct Closable {
  int id;
  void close() { W->log.push_back("close" + to_string(id)); }
};
struct Snap {
  ios::fmtflags f; char fill; streamsize prec, width; ios::iostate exc; ios::iostate rd;
  streambuf *o, *e, *l, *i;
  bool operator==(Snap const &b) const { return f == b.f && fill == b.fill && prec == b.prec && width == b.width && exc == b.exc && rd == b.rd && o == b.o && e == b.e && l == b.l && i == b.i; }
};
static Snap snap(ostream &os) { return {os.flags(), os.fill(), os.precision(), os.width(), os.exceptions(), os.rdstate(), cout.rdbuf(), cerr.rdbuf(), clog.rdbuf(), cin.rdbuf()}; }
struct Boom { int level; };
struct Prog { vector<int> g; int exit_level; int where; int how; int catch_level; };

struct Run {
  seq::Ctx &x; Prog const &p;
  unique_ptr<stringbuf> bufs[6], ins[6];
  string text[7]; // expected content per level buffer, [6] = the outermost one
  // the model's idea of where each stream goes: index into bufs, 6 = outermost
  int to[3] = {6, 6, 6}, from = 6;
  int tok{0};
  unique_ptr<stringbuf> base_out, base_in;
  stringbuf *in_of(int i) { return i == 6 ? base_in.get() : ins[i].get(); }

  void work(int level) { // disturb everything a guard may have to restore
    ostream &os = W->os;
    static const ios::fmtflags F[] = {ios::hex | ios::left, ios::oct | ios::showbase | ios::uppercase, ios::dec | ios::boolalpha | ios::showpos, ios::scientific | ios::internal};
    int k = (level + tok) % 4;
    os.flags(F[k]); os.fill(char('a' + level)); os.precision(3 + level + tok % 5); os.width(7 + level);
    string t = "t" + to_string(tok++) + ";";
    cout << t; cerr << t; clog << t;
    for (int s = 0; s < 3; s++) text[to[s]] += t;
    string word; cin.clear(); cin >> word;
    W->log.push_back("read" + word);
    W->want.push_back("read" + to_string(from));
  }
  bool scope(int level) { // returns false when the scopes are being left by return
    ostream &os = W->os;
    if (level == int(p.g.size())) { work(level); return !(p.exit_level == level && (leave(level), p.how == EXIT_RETURN)); }
    Snap const before = snap(os);
    int const to0[3] = {to[0], to[1], to[2]}, from0 = from;
    auto pre = prepare(level);
    bool go = true;
    try {
      go = guarded(level);
    } catch (Boom const &) {
      finish(level, before, to0, from0, pre);
      if (p.catch_level == level) return true;
      throw;
    }
    finish(level, before, to0, from0, pre);
    return go;
  }
  Snap pre_state{};
  size_t prepare(int) { return W->want.size(); }
  void leave(int level) { if (p.how == EXIT_THROW) throw Boom{level}; }
  bool body(int level) {
    work(level);
    if (p.exit_level == level && p.where == 0) { if (p.how == EXIT_THROW) throw Boom{level}; if (p.how == EXIT_RETURN) return false; }
    bool go = scope(level + 1);
    if (!go) return false;
    work(level);
    if (p.exit_level == level && p.where == 1) { if (p.how == EXIT_THROW) throw Boom{level}; if (p.how == EXIT_RETURN) return false; }
    return true;
  }
  bool guarded(int level) {
    ostream &os = W->os;
    string const id = to_string(level);
    auto act = [id] { W->log.push_back("act" + id); };
    Closable c{level};
    function<void()> fn = act;
    stringbuf *b = bufs[level].get(), *in = ins[level].get();
    switch (p.g[size_t(level)]) {
    case DEFER_FN: { cu::defer<bool> g(act); return body(level); }
    case DEFER_OBJ: { cu::defer g(c); return body(level); }
    case DEFER_OBJ_FN: { cu::defer<Closable, function<void()>> g(c, fn); return body(level); }
    case DEFER_FN_OBJ: { cu::defer<Closable, function<void()>> g(fn, c); return body(level); }
    case DEFER_LAMBDA: { cu::defer g(c, [id] { W->log.push_back("act" + id); }); return body(level); }
    case DEFER_EMPTY: { cu::defer<Closable, function<void()>> g(c, function<void()>{}); return body(level); }
    case FLAGS: { cmdr::io::ios_flags_saver g(os); return body(level); }
    case STATE: { cmdr::io::ios_state_saver g(os); return body(level); }
    case P_OUT: { cmdr::os::pipe_stdout_to g(b); to[0] = level; return body(level); }
    case P_ERR: { cmdr::os::pipe_stderr_to g(b); to[1] = level; return body(level); }
    case P_LOG: { cmdr::os::pipe_stdlog_to g(b); to[2] = level; return body(level); }
    case P_IN: { cmdr::os::pipe_stdin_to g(in); from = level; return body(level); }
    case P_EVERY: { cmdr::os::pipe_all_to g(b, in); to[0] = to[1] = to[2] = from = level; return body(level); }
    default: { cmdr::os::pipe_stdout_to g(nullptr); return body(level); }
    }
  }
  void finish(int level, Snap const &before, int const (&to0)[3], int from0, size_t) {
    string const id = to_string(level);
    int g = p.g[size_t(level)];
    switch (g) {
    case DEFER_FN: W->want.push_back("act" + id); break;
    case DEFER_OBJ: case DEFER_EMPTY: W->want.push_back("close" + id); break;
    case DEFER_OBJ_FN: case DEFER_FN_OBJ: case DEFER_LAMBDA: W->want.push_back("close" + id); W->want.push_back("act" + id); break;
    }
    copy(begin(to0), end(to0), begin(to));
    from = from0;
    Snap now = snap(W->os);
    string d = string(GN[g]) + " at level " + id + ": ";
    if (g == FLAGS) x.check("flags", d + "flags are restored", now.f == before.f);
    if (g == STATE) x.check("state", d + "flags, fill, precision and width are restored", now.f == before.f && now.fill == before.fill && now.prec == before.prec && now.width == before.width && now.exc == before.exc);
    x.check("streambuf", d + "standard streams have their buffers back", now.o == before.o && now.e == before.e && now.l == before.l && now.i == before.i);
  }
};
static string join(vector<string> const &v) { string s; for (auto &e: v) s += e + ";"; return s; }
static void program_case(seq::Ctx &x, Prog const &p) {
  World w; W = &w;
  Run r{x, p};
  string in6, t; for (int i = 0; i < 40; i++) in6 += "6 ";
  r.base_out = make_unique<stringbuf>(); r.base_in = make_unique<stringbuf>(in6);
  for (int i = 0; i < 6; i++) { string in; for (int k = 0; k < 40; k++) in += to_string(i) + " "; r.bufs[i] = make_unique<stringbuf>(); r.ins[i] = make_unique<stringbuf>(in); }
  auto *o = cout.rdbuf(r.base_out.get()), *e = cerr.rdbuf(r.base_out.get()), *l = clog.rdbuf(r.base_out.get()), *i = cin.rdbuf(r.base_in.get());
  bool thrown = false;
  try { r.scope(0); r.work(0); } catch (Boom const &) { thrown = true; r.work(0); }
  bool const restored = cout.rdbuf() == r.base_out.get() && cerr.rdbuf() == r.base_out.get() && clog.rdbuf() == r.base_out.get() && cin.rdbuf() == r.base_in.get();
  cout.rdbuf(o); cerr.rdbuf(e); clog.rdbuf(l); cin.rdbuf(i);
  cin.clear(); cout.clear(); cerr.clear(); clog.clear();
  x.step(p.g.size());
  x.interesting();
  x.check("outer", "the outermost buffers are back", restored);
  x.eq("actions", "actions and reads", join(w.want), join(w.log));
  for (int k = 0; k < 6; k++) x.eq("captured", "text captured at level " + to_string(k), r.text[k], r.bufs[k]->str());
  x.eq("captured.outer", "text on the outer streams", r.text[6], r.base_out->str());
  x.eq("thrown", "the exception leaves the outermost scope", p.how == EXIT_THROW && p.catch_level < 0, thrown);
  x.outcome(join(w.want));
}
int main(int argc, char **argv) {
  bool th = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  for (unsigned n = 1; n <= (th ? 4u : 3u); n++) {
    // exits: normal; return/throw at (level, before|after the inner scope) or in the innermost scope; for throw: where it is caught
    static vector<Prog> exits[8];
    auto &ex = exits[n];
    ex.push_back({{}, -1, 0, EXIT_NORMAL, -1});
    for (int how: {EXIT_RETURN, EXIT_THROW})
      for (int lv = 0; lv <= int(n); lv++)
        for (int wh = 0; wh < (lv == int(n) ? 1 : 2); wh++)
          for (int c = -1; c <= (how == EXIT_THROW ? min(lv, int(n) - 1) : -1); c++) ex.push_back({{}, lv, wh, how, c});
    uint64_t g = 1; for (unsigned k = 0; k < n; k++) g *= NG;
    auto prog = [n, &ex](uint64_t i) { Prog p = ex[i % ex.size()]; i /= ex.size(); for (unsigned k = 0; k < n; k++, i /= NG) p.g.push_back(int(i % NG)); return p; };
    sp.push_back({"depth" + to_string(n), g * ex.size(), [prog](uint64_t i, seq::Ctx &x) { x.state(i); program_case(x, prog(i)); },
                  [prog](uint64_t i) { auto p = prog(i); string s; for (int k: p.g) s += string(GN[k]) + " > "; return s + EN[p.how] + " exit at level " + to_string(p.exit_level) + (p.where ? " after" : " before") + " the inner scope, caught at " + to_string(p.catch_level); }});
  }
  return seq::run(argc, argv, "D09", sp, "every nesting of fourteen guards up to a depth x normal, return and exception exit at every point x every level that catches; flags, fill, precision, width, stream buffers, captured text and actions are compared with a model after every scope");
}
