// D13 colour escapes: every sequence of style and colour operations up to a depth, in both modes, on streams of any format, interpreted by an SGR terminal model
// KIND: seq
// FLAGS: -DUSE_DEBUG=0
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_terminal.hh>
#include <iomanip>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
using colorize = cmdr::terminal::colors::colorize;
using C256 = colorize::Colors256;

// ---------------------------------------------------------------- the terminal: what a text looks like
struct Look {
  unsigned styles = 0; // bit i: style i (1..9)
  string fg = "default", bg = "default";
  bool operator==(Look const &o) const { return styles == o.styles && fg == o.fg && bg == o.bg; }
  string str() const { string s; for (int i = 1; i < 10; i++) if (styles >> i & 1) s += to_string(i) + ","; return s + "fg=" + fg + " bg=" + bg; }
};
// a sequence of SGR parameters; false when it is not one
static bool sgr(vector<int> const &p, Look &l) {
  for (size_t i = 0; i < p.size(); i++) {
    int c = p[i];
    if (c == 0) l = Look{};
    else if (c >= 1 && c <= 9) l.styles |= 1u << c;
    else if (c >= 21 && c <= 29) { l.styles &= ~(1u << (c - 20)); }
    else if (c >= 30 && c <= 37) l.fg = to_string(c - 30);
    else if (c >= 40 && c <= 47) l.bg = to_string(c - 40);
    else if (c >= 90 && c <= 97) l.fg = "bright " + to_string(c - 90);
    else if (c >= 100 && c <= 107) l.bg = "bright " + to_string(c - 100);
    else if (c == 39) l.fg = "default";
    else if (c == 49) l.bg = "default";
    else if (c == 38 || c == 48) {
      string &t = c == 38 ? l.fg : l.bg;
      if (i + 2 < p.size() && p[i + 1] == 5) { if (p[i + 2] > 255) return false; t = "256:" + to_string(p[i + 2]); i += 2; }
      else if (i + 4 < p.size() && p[i + 1] == 2) {
        for (int k = 2; k < 5; k++) if (p[i + k] > 255) return false;
        t = "rgb:" + to_string(p[i + 2]) + "," + to_string(p[i + 3]) + "," + to_string(p[i + 4]); i += 4;
      } else return false;
    } else return false;
  }
  return true;
}
struct Seen { string text; vector<Look> looks; Look end; string error; };
static Seen terminal(string const &out) {
  Seen s;
  for (size_t i = 0; i < out.size(); i++) {
    if (out[i] != '\033') { s.text += out[i]; s.looks.push_back(s.end); continue; }
    vector<int> p;
    size_t k = i + 1;
    bool ok = k < out.size() && out[k] == '[';
    string num; bool any = false;
    for (k++; ok && k < out.size() && out[k] != 'm'; k++) {
      any = true;
      if (isdigit((unsigned char) out[k])) num += out[k];
      else if (out[k] == ';') { p.push_back(num.empty() ? 0 : num.size() > 3 ? 999 : stoi(num)); num.clear(); }
      else ok = false;
    }
    if (ok) p.push_back(num.empty() ? 0 : num.size() > 3 ? 999 : stoi(num));
    (void) any;
    if (!ok || k >= out.size() || !sgr(p, s.end)) { s.error = "not an SGR sequence at " + to_string(i); return s; }
    i = k;
  }
  return s;
}
static string hex(string const &s) { string r; for (char c: s) if (c == '\033') r += "\\e"; else if ((unsigned char) c < 32 || (unsigned char) c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char) c); r += b; } else r += c; return r; }

// ---------------------------------------------------------------- operations of a colorizer
static const char *STN[] = {"", "bold", "dim", "italic", "underline", "blink", "rblink", "reverse", "hidden", "crossed"};
static void style_on(colorize &c, int i, bool b) {
  switch (i) {
  case 1: b ? c.bold() : c.bold(false); break;
  case 2: b ? c.dim() : c.dim(false); break;
  case 3: b ? c.italic() : c.italic(false); break;
  case 4: b ? c.underline() : c.underline(false); break;
  case 5: b ? c.blink() : c.blink(false); break;
  case 6: b ? c.rblink() : c.rblink(false); break;
  case 7: b ? c.reverse() : c.reverse(false); break;
  case 8: b ? c.hidden() : c.hidden(false); break;
  case 9: b ? c.crossed() : c.crossed(false); break;
  }
}
static void style_reset(colorize &c, int i) {
  switch (i) {
  case 1: c.reset_bold(); break;
  case 2: c.reset_dim(); break;
  case 3: c.reset_italic(); break;
  case 4: c.reset_underline(); break;
  case 5: c.reset_blink(); break;
  case 6: c.reset_rblink(); break;
  case 7: c.reset_reverse(); break;
  case 8: c.reset_hidden(); break;
  case 9: c.reset_crossed(); break;
  }
}
static const int RGB[][3] = {{0, 0, 0}, {255, 255, 255}, {255, 0, 0}, {0, 255, 0}, {0, 0, 255}, {1, 2, 3}, {128, 127, 9}, {0, 0, 7}};
static const int PAL[] = {0, 1, 15, 16, 100, 231, 255, 256};
// op numbers: 0..8 style on, 9..17 style off by (false), 18..26 reset_style, 27 reset_all, 28..35 fg 256, 36..43 bg 256, 44..51 fg rgb, 52..59 bg rgb
static constexpr int NOP = 60;
static string op_name(int o) {
  if (o < 9) return string(STN[o + 1]) + "()";
  if (o < 18) return string(STN[o - 8]) + "(false)";
  if (o < 27) return string("reset_") + STN[o - 17] + "()";
  if (o == 27) return "reset_all()";
  bool bg = o >= 52 || (o >= 36 && o < 44);
  int k = (o - 28) % 8;
  if (o < 44) return string(bg ? "bg(" : "fg(") + to_string(PAL[k]) + ")";
  return string(bg ? "bg(" : "fg(") + to_string(RGB[k][0]) + "," + to_string(RGB[k][1]) + "," + to_string(RGB[k][2]) + ")";
}
// the model of a colorizer: the styles apply in order; the colours, the last one of each
struct Model {
  Look styled; bool reset_first = false; vector<int> seq; string fg, bg; string text; bool auto_reset = true, colourful = true;
  void op(int o) {
    if (o < 27) { seq.push_back(o); return; }
    if (o == 27) { seq.clear(); seq.push_back(27); fg.clear(); bg.clear(); return; }
    bool b = o >= 52 || (o >= 36 && o < 44);
    int k = (o - 28) % 8;
    string v = o < 44 ? (PAL[k] > 255 ? "" : "256:" + to_string(PAL[k])) : "rgb:" + to_string(RGB[k][0]) + "," + to_string(RGB[k][1]) + "," + to_string(RGB[k][2]);
    (b ? bg : fg) = v;
  }
  // the look of the text when it is printed with the terminal looking like `l`
  Look look(Look l) const {
    for (int o: seq) {
      if (o == 27) l = Look{};
      else if (o < 9) l.styles |= 1u << (o + 1);
      else l.styles &= ~(1u << ((o < 18 ? o - 9 : o - 18) + 1));
    }
    if (seq.empty() && fg.empty() && bg.empty()) l = Look{}; // nothing chosen: the plain look
    if (!fg.empty()) l.fg = fg;
    if (!bg.empty()) l.bg = bg;
    return l;
  }
  void printed() { if (auto_reset) { seq.clear(); fg.clear(); bg.clear(); text.clear(); } }
};
static void apply(colorize &c, int o) {
  if (o < 9) return style_on(c, o + 1, true);
  if (o < 18) return style_on(c, o - 8, false);
  if (o < 27) return style_reset(c, o - 17);
  if (o == 27) { c.reset_all(); return; }
  int k = (o - 28) % 8;
  if (o < 36) c.fg(C256(PAL[k]));
  else if (o < 44) c.bg(C256(PAL[k]));
  else if (o < 52) c.fg(RGB[k][0], RGB[k][1], RGB[k][2]);
  else c.bg(RGB[k][0], RGB[k][1], RGB[k][2]);
}

static const string TEXT[] = {"", "a", "some text", "a\nb\t", "50%d{}", "[1;31m", "\xE4\xB8\xAD", "a;b m"};
static constexpr int NT = 8;
// a scenario: prints several texts; checks everything that was written
struct Run {
  seq::Ctx &x; ostringstream os; string want_text; vector<Look> want_looks; Look term; string tag;
  explicit Run(seq::Ctx &x_) : x(x_) {}
  void wrote(string const &t, Look const &l) { for (char ch: t) { want_text += ch; want_looks.push_back(l); } }
  void print(colorize &c, Model &m) {
    if (m.colourful) {
      Look l = m.look(term);
      wrote(m.text, l);
      term = m.auto_reset ? Look{} : l;
    } else wrote(m.text, term);
    m.printed();
  }
  void finish() {
    string out = os.str();
    x.state(out);
    Seen s = terminal(out);
    if (!x.check("well formed", tag + hex(out), s.error.empty())) return;
    x.eq("text", tag + hex(out), want_text, s.text);
    if (want_text == s.text)
      for (size_t i = 0; i < s.looks.size(); i++)
        if (!x.check("look", tag + hex(out) + ": byte " + to_string(i) + " should be " + want_looks[i].str() + ", is " + s.looks[i].str(), want_looks[i] == s.looks[i])) break;
    x.eq("look afterwards", tag + hex(out), term.str(), s.end.str());
  }
};
static void set_text(colorize &c, Model &m, int t, bool asstr) {
  if (asstr) c.s(TEXT[t]); else c.s(TEXT[t].c_str());
  m.text = TEXT[t];
}

int main(int argc, char **argv) {
  ::setenv("TERM", "xterm-256color", 1);
  ::unsetenv("COLORTERM");
  bool deep = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  { // every sequence of up to `d` operations, then the text, then the next text of the same object
    int d = deep ? 4 : 3;
    sp.push_back({"operations", seq::words_count(NOP, 0, d) , [=](size_t i, seq::Ctx &x) {
      vector<int> w = seq::word_at(i, NOP, 0, d);
      Run r(x);
      colorize c = colorize::create();
      Model m;
      x.step();
      bool via_string = i & 1;
      for (int o: w) { apply(c, o); m.op(o); }
      int t = 1 + i % (NT - 1);
      set_text(c, m, t, via_string);
      if (i % 3 == 1) { r.print(c, m); r.os << c.as_string(); } else { r.print(c, m); r.os << c; }
      // nothing is left of it for the next text
      set_text(c, m, (t + 3) % NT, !via_string);
      r.print(c, m); r.os << c;
      r.print(c, m); r.os << c; // and nothing is left of the text
      r.wrote("end", Look{}); r.os << "end";
      r.finish();
      if (!w.empty()) x.interesting();
    }, [=](size_t i) { string s; for (int o: seq::word_at(i, NOP, 0, d)) s += op_name(o) + "."; return s + "s(" + hex(TEXT[1 + i % (NT - 1)]) + ")"; }});
  }
  { // sequences of operations and prints of one object with auto_reset(false), clear(), enable()
    enum { OPS = 12, PRINT = OPS, TXT, NOAUTO, AUTO, OFF, ON, CLEAR, ALL };
    static const int SEL[OPS] = {0, 3, 6, 9, 18 + 3, 27, 29, 28 + 6, 36 + 3, 44 + 2, 52, 52 + 6};
    int d = deep ? 5 : 4;
    sp.push_back({"objects", seq::words_count(ALL, 0, d), [=](size_t i, seq::Ctx &x) {
      vector<int> w = seq::word_at(i, ALL, 0, d);
      Run r(x);
      colorize c = colorize::new_colorizer();
      Model m;
      int t = 0;
      for (int o: w) {
        x.step();
        switch (o) {
        case PRINT: r.print(c, m); r.os << c; break;
        case TXT: t++; set_text(c, m, t % NT, t & 1); break;
        case NOAUTO: c.auto_reset(false); m.auto_reset = false; break;
        case AUTO: c.auto_reset(); m.auto_reset = true; break;
        case OFF: c.enable(false); m.colourful = false; break;
        case ON: c.enable(); m.colourful = true; break;
        case CLEAR: { c.clear(); bool k = m.colourful; m = Model{}; m.colourful = k; break; }
        default: apply(c, SEL[o]); m.op(SEL[o]);
        }
        x.check("is_colorful", "after " + to_string(o), c.is_colorful() == m.colourful);
      }
      set_text(c, m, 2, true);
      c.auto_reset(); m.auto_reset = true;
      r.print(c, m); r.os << c;
      bool off = !m.colourful;
      r.finish();
      if (off) x.outcome("colours off at the end");
      if (w.size() > 2) x.interesting();
    }, [=](size_t i) { string s; for (int o: seq::word_at(i, ALL, 0, d)) s += o < OPS ? op_name(SEL[o]) + "." : string(vector<string>{"print", "s", "auto_reset(false)", "auto_reset", "enable(false)", "enable", "clear"}[o - OPS]) + "."; return s; }});
  }
  { // every one of the 256 colours and every style, foreground and background; every level of each component of the true colours
    sp.push_back({"all colours", 256 * 256 + 3 * 256 * 2, [=](size_t i, seq::Ctx &x) {
      Run r(x);
      colorize c;
      Model m;
      x.step();
      if (i < 65536) {
        c.fg(C256(i / 256)).bg(C256(i % 256)); m.fg = "256:" + to_string(i / 256); m.bg = "256:" + to_string(i % 256);
      } else {
        size_t k = i - 65536; int comp = k % 3, v = int(k / 3 % 256); bool bg = k / 768;
        int p[3] = {11, 22, 33}; p[comp] = v;
        string s = "rgb:" + to_string(p[0]) + "," + to_string(p[1]) + "," + to_string(p[2]);
        if (bg) c.bg(p[0], p[1], p[2]), m.bg = s; else c.fg(p[0], p[1], p[2]), m.fg = s;
      }
      set_text(c, m, 2, i & 1);
      r.print(c, m); r.os << c;
      r.finish();
      x.interesting();
    }, [](size_t i) { return to_string(i); }});
  }
  { // 16 colour mode: every sequence of two operators around texts, every base, width, fill, sign and adjustment of the stream
    struct Op16 { string name; function<void(ostream &)> put; function<void(Look &)> eff; };
    static vector<Op16> ops;
    auto add = [&](string n, int v, function<void(ostream &)> p, function<void(Look &)> e) { ops.push_back({n + to_string(v), p, e}); };
    for (int v = 0; v < 10; v++) {
      add("style", v, [=](ostream &o) { o << (enum colorize::style) v; }, [=](Look &l) { if (!v) l = Look{}; else l.styles |= 1u << v; });
      add("reset", v, [=](ostream &o) { o << (enum colorize::reset) v; }, [=](Look &l) { if (!v) l = Look{}; else l.styles &= ~(1u << v); });
    }
    for (int v = 0; v < 8; v++) {
      add("fg", v, [=](ostream &o) { o << (enum colorize::fg)(30 + v); }, [=](Look &l) { l.fg = to_string(v); });
      add("bg", v, [=](ostream &o) { o << (enum colorize::bg)(40 + v); }, [=](Look &l) { l.bg = to_string(v); });
      add("fgB", v, [=](ostream &o) { o << (enum colorize::fgB)(90 + v); }, [=](Look &l) { l.fg = "bright " + to_string(v); });
      add("bgB", v, [=](ostream &o) { o << (enum colorize::bgB)(100 + v); }, [=](Look &l) { l.bg = "bright " + to_string(v); });
    }
    add("fg::reset", 0, [](ostream &o) { o << colorize::fg::reset; }, [](Look &l) { l.fg = "default"; });
    add("bg::reset", 0, [](ostream &o) { o << colorize::bg::reset; }, [](Look &l) { l.bg = "default"; });
    struct Fmt { string name; function<void(ostream &)> set; };
    static vector<Fmt> fm = {{"", [](ostream &) {}}, {"hex", [](ostream &o) { o << std::hex << showbase; }}, {"oct", [](ostream &o) { o << oct; }}, {"showpos", [](ostream &o) { o << showpos; }},
                             {"setw", [](ostream &o) { o << setw(12) << setfill('*'); }}, {"setw left", [](ostream &o) { o << left << setw(7); }}};
    size_t n = ops.size();
    bool three = deep;
    sp.push_back({"16 colours", n * n * (three ? n : 1) * fm.size(), [=](size_t i, seq::Ctx &x) {
      seq::Digits d(i);
      size_t f = d.take(fm.size()), a = d.take(n), b = d.take(n), e = three ? d.take(n) : (a * 7 + b * 3) % n;
      Run r(x); ostringstream plain;
      x.step();
      auto go = [&](size_t k, const char *txt) {
        fm[f].set(r.os); fm[f].set(plain);
        ops[k].put(r.os); ops[k].eff(r.term);
        r.os << txt;
        size_t before = plain.str().size(); plain << txt;
        r.wrote(plain.str().substr(before), r.term);
      };
      go(a, "one"); go(b, "two"); go(e, "3");
      r.tag = fm[f].name + ": ";
      r.finish();
      x.interesting();
    }, [=](size_t i) { seq::Digits d(i); size_t f = d.take(fm.size()), a = d.take(n), b = d.take(n); return fm[f].name + " " + ops[a].name + " " + ops[b].name; }});
    // the same streams with colorizers: padded as without colours
    sp.push_back({"formats", fm.size() * NOP * NT * 4, [=](size_t i, seq::Ctx &x) {
      seq::Digits d(i);
      size_t f = d.take(fm.size()); int o = int(d.take(NOP)), t = int(d.take(NT)), how = int(d.take(4));
      Run r(x); ostringstream plain;
      x.step();
      colorize c; Model m;
      if (how & 2) { c.enable(false); m.colourful = false; }
      apply(c, o); m.op(o);
      set_text(c, m, t, how & 1);
      fm[f].set(r.os); fm[f].set(plain);
      if (!(how & 1)) plain << TEXT[t].c_str(); else if (!TEXT[t].empty()) plain << TEXT[t];
      m.text = plain.str();
      r.print(c, m); r.os << c;
      r.tag = fm[f].name + ": ";
      r.finish();
      x.interesting();
    }, [=](size_t i) { return to_string(i); }});
  }
  { // which terminals get colours: TERM x choices made by the program, objects made before and after
    static const char *TERMS[] = {nullptr, "", "dumb", "unknown", "xterm", "xterm-256color", "screen", "linux", "vt100", "tmux-color", "rxvt", "ansi"};
    static const bool COL[] = {false, false, false, false, true, true, true, true, true, true, true, true};
    static const char *CT[] = {nullptr, "truecolor", "24bit", "256", "", "yes", "0"};
    // a history of: set default on/off, make an object, print with it, print with an operator
    enum { DEF_OFF, DEF_ON, MAKE, USE, OP16, NK };
    int d = deep ? 5 : 3;
    size_t nw = seq::words_count(NK, 0, d);
    sp.push_back({"choices", 12 * 7 * nw, [=](size_t i, seq::Ctx &x) {
      seq::Digits dg(i);
      int term = int(dg.take(12)), ct = int(dg.take(7));
      vector<int> w = seq::word_at(dg.take(nw), NK, 0, d);
      if (TERMS[term]) setenv("TERM", TERMS[term], 1); else unsetenv("TERM");
      if (CT[ct]) setenv("COLORTERM", CT[ct], 1); else unsetenv("COLORTERM");
      // each run is a program of its own: forked, because the choice is a global one
      int fd[2]; if (pipe(fd)) abort();
      pid_t pid = fork();
      if (pid == 0) {
        close(fd[0]);
        ostringstream os; Look l; Run r(x);
        bool def = COL[term]; // until the program chooses
        unique_ptr<colorize> c; bool con = def;
        for (int o: w) {
          if (o == DEF_OFF || o == DEF_ON) { colorize::set_default_colorful(o == DEF_ON); def = o == DEF_ON; }
          if (o == MAKE) { c.reset(new colorize); con = def; }
          if (o == USE) {
            if (!c) { c.reset(new colorize); con = def; }
            Look want = Look{}; if (con) { want.styles = 2; want.fg = "256:9"; } else want = r.term;
            c->bold().fg(C256::Red).s("x"); r.os << *c; r.wrote("x", want); if (con) r.term = Look{};
          }
          if (o == OP16) { r.os << colorize::fg::green << "y"; if (def) r.term.fg = "2"; r.wrote("y", r.term); r.os << colorize::reset::all; if (def) r.term = Look{}; }
        }
        Seen s = terminal(r.os.str());
        string res = s.error.empty() && s.text == r.want_text && s.looks == r.want_looks && s.end == r.term ? "ok" : hex(r.os.str());
        if (write(fd[1], res.data(), res.size()) < 0) _exit(3);
        _exit(0);
      }
      close(fd[1]);
      string res; char b[512]; ssize_t k;
      while ((k = read(fd[0], b, sizeof b)) > 0) res.append(b, size_t(k));
      close(fd[0]);
      int st; waitpid(pid, &st, 0);
      setenv("TERM", "xterm-256color", 1); unsetenv("COLORTERM");
      x.step(); x.interesting();
      x.state(uint64_t(i));
      x.eq("colours as chosen", string("TERM=") + (TERMS[term] ? TERMS[term] : "(none)"), string("ok"), res);
    }, [=](size_t i) { seq::Digits dg(i); int term = int(dg.take(12)); dg.take(7); string s = string("TERM=") + (TERMS[term] ? TERMS[term] : "(none)"); for (int o: seq::word_at(dg.take(nw), NK, 0, d)) s += vector<string>{" default off", " default on", " make", " use", " operator"}[o]; return s; }});
  }
  return seq::run(argc, argv, "D13", sp, "an SGR terminal: escapes stripped give the text, every byte looks as the operations in order say, and the look is reset afterwards");
}
