// Command-line harness kit: a tree of commands and flags is described once (C/F below), built into a real
// cmdr application, and interpreted by the reference model (Model).  Both yield a map of observable facts
// (actions run and their arguments, run()'s result, every flag's value/type/hit count/hit title, toggle
// groups, what was printed), which are compared fact by fact.
#pragma once
#include "seq.hh"
#include <cmdr11/cmdr11.hh>
#include <list>
#include <memory>
#include <unistd.h>

namespace cli {
  using std::string;
  using std::to_string;
  using std::vector;
  using strs  = vector<string>;
  using facts = std::map<string, string>;

  // ---------------------------------------------------------------- description of an application
  struct F {
    string L, S;
    strs A{};
    char t = 'b';          // b bool, i int, u unsigned, s string, d double, l long
    string def{};          // default as text ("" = the type's own default: opt{} for b)
    strs env{};
    bool req = false, hid = false;
    string tog{}, grp{}, desc{};
    F &al(string a) { A.push_back(std::move(a)); return *this; }
    F &of(char ty, string d) { t = ty; def = std::move(d); return *this; }
    F &ev(string e) { env.push_back(std::move(e)); return *this; }
    F &required() { req = true; return *this; }
    F &hidden() { hid = true; return *this; }
    F &toggle(string g) { tog = std::move(g); return *this; }
    F &group(string g) { grp = std::move(g); return *this; }
    F &about(string d) { desc = std::move(d); return *this; }
  };
  inline F f(string L, string S = "") { F x; x.L = std::move(L); x.S = std::move(S); return x; }

  struct C {
    string L, S;
    strs A{};
    vector<F> flags{};
    vector<C> subs{};
    bool hid = false;
    bool no_action = false;
    string grp{}, desc{};
    C &al(string a) { A.push_back(std::move(a)); return *this; }
    C &hidden() { hid = true; return *this; }
    C &group(string g) { grp = std::move(g); return *this; }
    C &about(string d) { desc = std::move(d); return *this; }
    C &operator<<(F x) { flags.push_back(std::move(x)); return *this; }
    C &operator<<(C x) { subs.push_back(std::move(x)); return *this; }
  };
  inline C c(string L, string S = "") { C x; x.L = std::move(L); x.S = std::move(S); return x; }

  // ---------------------------------------------------------------- values
  inline string num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
  inline string show(cmdr::vars::variable const &v) {
    if (!v.has_value()) return "(empty)";
    auto const &t = v.type();
    if (t == typeid(bool)) return v.as<bool>() ? "b:true" : "b:false";
    if (t == typeid(int)) return "i:" + to_string(v.as<int>());
    if (t == typeid(unsigned)) return "u:" + to_string(v.as<unsigned>());
    if (t == typeid(long)) return "l:" + to_string(v.as<long>());
    if (t == typeid(string)) return "s:" + v.as<string>();
    if (t == typeid(char const *)) return string("s:") + v.as<char const *>();
    if (t == typeid(double)) return "d:" + num(v.as<double>());
    return string("other:") + t.name();
  }
  // the reference meaning of a text as a value of type t; how much of it belongs to the value (0: none)
  inline size_t meaning(char t, string const &x, string &out) {
    if (t == 'b') {
      for (auto const *y: {"1", "true", "yes", "on", "True", "TRUE", "Yes", "On"}) if (x == y) { out = "b:true"; return x.size(); }
      for (auto const *y: {"0", "false", "no", "off", "False", "FALSE", "No", "Off"}) if (x == y) { out = "b:false"; return x.size(); }
      return 0;
    }
    char *e = nullptr;
    errno   = 0;
    if (t == 's') { out = "s:" + x; return x.size(); }
    if (x.empty() || isspace((unsigned char) x[0])) return 0;
    auto digits = [&](size_t i) { size_t n = i; while (n < x.size() && isdigit((unsigned char) x[n])) n++; return n - i; };
    size_t sg   = x[0] == '-' || x[0] == '+';
    if (t == 'd') {
      size_t a = digits(sg), n = sg + a;
      if (n < x.size() && x[n] == '.') { size_t b = digits(n + 1); if (a + b == 0) return 0; n += 1 + b; }
      else if (a == 0) return 0;
      if (n < x.size() && (x[n] == 'e' || x[n] == 'E')) {
        size_t sgn = n + 1 < x.size() && (x[n + 1] == '-' || x[n + 1] == '+'), ex = digits(n + 1 + sgn);
        if (ex) n += 1 + sgn + ex;
      }
      out = "d:" + num(strtod(x.substr(0, n).c_str(), &e));
      return n;
    }
    size_t a = digits(sg);
    if (a == 0) return 0;
    long v = strtol(x.substr(0, sg + a).c_str(), &e, 10);
    if (t == 'i' && (v < INT32_MIN || v > INT32_MAX)) return 0;
    if (t == 'u' && (v < 0 || v > UINT32_MAX)) return 0;
    out = string(1, t) + ":" + to_string(v);
    return sg + a;
  }

  // ---------------------------------------------------------------- the real application
  // access to the protected tables (to list what the application defines by itself)
  struct peek : cmdr::opt::cmd {
    static auto &args(cmdr::opt::cmd &c) { return c.*(&peek::_all_args); }
    static auto &cmds(cmdr::opt::cmd &c) { return c.*(&peek::_all_commands); }
    static auto &groups(cmdr::opt::cmd &c) { return c.*(&peek::_hit_toggle_groups); }
  };
  struct Inv { string who; strs remain; };
  inline string show(strs const &v) { string s; for (auto const &x: v) s += "[" + x + "]"; return s; }

  struct App {
    cmdr::app *app{};
    vector<Inv> invs;
    std::function<int(string const &, strs const &)> action; // result of an action; default 0
    string out, err;
    int rc = 0;
    string thrown;
    std::map<string, string> env; // the environment of run()
    App() { app = &cmdr::app::create_new("t", "1.2.3", "hz", "(c)", "about", "example"); }
    ~App() { delete app; }
    App(App const &) = delete;

    static void titles(cmdr::opt::bas &b, string const &L, string const &S, strs const &A) {
      b.title_long(L.c_str());
      if (!S.empty()) b.title_short(S.c_str());
      for (auto const &a: A) b.title_aliases().push_back(a);
    }
    static void decorate(cmdr::opt::opt &o, F const &x) {
      char const *L = x.L.c_str(), *S = x.S.empty() ? nullptr : x.S.c_str();
      switch (x.A.size()) {
        case 0: o(L, S); break;
        case 1: o(L, S, x.A[0].c_str()); break;
        case 2: o(L, S, x.A[0].c_str(), x.A[1].c_str()); break;
        default: titles(o.underlying(), x.L, x.S, x.A);
      }
      for (auto const &e: x.env) o.env_vars(e.c_str());
      if (x.req) o.required();
      if (x.hid) o.hidden();
      if (!x.tog.empty()) o.toggle_group(x.tog.c_str());
      if (!x.grp.empty()) o.group(x.grp.c_str());
      if (!x.desc.empty()) o.description(x.desc.c_str());
    }
    std::function<void(cmdr::opt::opt &, string const &)> dress_flag; // further settings of a flag
    static void add(cmdr::opt::cmd &to, F const &x, std::function<void(cmdr::opt::opt &, string const &)> const &dress_flag = nullptr) {
      using cmdr::opt::opt;
      auto put = [&](opt &&o) { decorate(o, x); if (dress_flag) dress_flag(o, (to.dotted_key().empty() ? string(DEFAULT_CLI_KEY_PREFIX) : to.dotted_key()) + "." + x.L); to += o; };
      switch (x.t) {
        case 'b': if (x.def.empty()) put(opt{}); else put(opt{x.def == "true"}); break;
        case 'i': put(opt{(int) atoi(x.def.c_str())}); break;
        case 'u': put(opt{(unsigned) strtoul(x.def.c_str(), nullptr, 10)}); break;
        case 'l': put(opt{(long) atol(x.def.c_str())}); break;
        case 'd': put(opt{atof(x.def.c_str())}); break;
        case 's': put(opt{x.def.c_str()}); break;
      }
    }
    std::function<void(cmdr::opt::sub_cmd &, string const &)> dress; // further settings of a command
    void add(cmdr::opt::cmd &to, C const &x, string const &path) {
      cmdr::opt::sub_cmd sc;
      char const *L = x.L.c_str(), *S = x.S.empty() ? nullptr : x.S.c_str();
      switch (x.A.size()) {
        case 0: sc(L, S); break;
        case 1: sc(L, S, x.A[0].c_str()); break;
        case 2: sc(L, S, x.A[0].c_str(), x.A[1].c_str()); break;
        default: titles(sc.underlying(), x.L, x.S, x.A);
      }
      if (x.hid) sc.hidden();
      if (!x.grp.empty()) sc.group(x.grp.c_str());
      if (!x.desc.empty()) sc.description(x.desc.c_str());
      string me = path.empty() ? x.L : path + "." + x.L;
      if (!x.no_action)
        sc.on_invoke([this, me](cmdr::opt::cmd const &hit, std::vector<std::string> const &rem) -> int {
          strs r(rem.begin(), rem.end());
          invs.push_back({me, r});
          string seen = hit.dotted_key();
          if (seen != string(DEFAULT_CLI_KEY_PREFIX) + "." + me) invs.back().who += "(given " + seen + ")";
          return action ? action(me, r) : 0;
        });
      if (dress) dress(sc, me);
      to += sc;
      auto &me_ = *to.last_added_command();
      fill(me_, x, me);
    }
    void fill(cmdr::opt::cmd &at, C const &x, string const &path) {
      for (auto const &y: x.flags) add(at, y, dress_flag);
      for (auto const &y: x.subs) add(at, y, path);
    }
    void define(C const &root) { fill(*app, root, ""); }

    void run(strs const &args) {
      vector<string> a{"t"};
      a.insert(a.end(), args.begin(), args.end());
      vector<char *> argv;
      for (auto &s: a) argv.push_back(s.data());
      argv.push_back(nullptr);
      for (auto const &v: env) setenv(v.first.c_str(), v.second.c_str(), 1);
      std::ostringstream o, e;
      auto *so = std::cout.rdbuf(o.rdbuf()), *se = std::cerr.rdbuf(e.rdbuf());
      thrown.clear();
      try {
        rc = app->run((int) a.size(), argv.data());
      } catch (cmdr::exception::cmdr_biz_error const &x) { thrown = string("biz ") + typeid(x).name(); rc = -999;
      } catch (std::exception const &x) { thrown = string("std ") + x.what(); rc = -999;
      } catch (...) { thrown = "other"; rc = -999; }
      for (auto const &v: env) unsetenv(v.first.c_str());
      std::cout.rdbuf(so);
      std::cerr.rdbuf(se);
      out = o.str();
      err = e.str();
      for (size_t i = 0; i + 1 < argv.size(); i++) if (string(argv[i]) != (i ? args[i - 1] : string("t"))) err += "\nHARNESS: argv was changed";
    }

    void collect(facts &m, cmdr::opt::cmd &at, string const &path) {
      for (auto &a: peek::args(at)) {
        string k    = path + "." + a.title_long();
        m["value of " + k] = app->store().has("", k.c_str()) ? show(app->store().get_raw(k)) : "(not in the store)";
        m["hits of flag " + k] = to_string(a.hit_count()) + (a.hit_count() ? " as " + a.hit_title() : "");
      }
      for (auto &g: peek::groups(at)) {
        m["toggle group " + path + "." + g.first] = at.toggle_group(g.first);
        string k = path + "." + g.first;
        m["store entry of toggle group " + k] = app->store().has("", k.c_str()) ? show(app->store().get_raw(k)) : "(none)";
      }
      for (auto &x: peek::cmds(at)) {
        string k = path + "." + x.title_long();
        m["hits of command " + k] = to_string(x.hit_count()) + (x.hit_count() ? " as " + x.hit_title() : "");
        collect(m, x, k);
      }
    }
    facts seen() {
      facts m;
      m["result"] = thrown.empty() ? to_string(rc) : "exception: " + thrown;
      string s;
      for (auto const &i: invs) s += i.who + show(i.remain) + " ";
      m["actions"] = s;
      collect(m, *app, DEFAULT_CLI_KEY_PREFIX);
      return m;
    }
  };

  // what a fresh application defines by itself, as a description
  inline C const &builtins() {
    static C b = [] {
      string path = getenv("PATH") ? getenv("PATH") : "";
      clearenv(); // variables of the caller must not configure the applications
      setenv("PATH", path.c_str(), 1);
      setenv("HOME", "/nonexistent", 1);
      std::function<C(cmdr::opt::cmd &)> rd = [&](cmdr::opt::cmd &x) {
        C r = c(x.title_long(), x.title_short());
        r.A.assign(x.title_aliases().begin(), x.title_aliases().end());
        r.hid = x.hidden();
        r.grp = x.group_name();
        for (auto &a: peek::args(x)) {
          F y = f(a.title_long(), a.title_short());
          y.A.assign(a.title_aliases().begin(), a.title_aliases().end());
          auto s = show(*a.default_value());
          y.t    = s[0];
          y.def  = s.substr(2);
          y.hid  = a.hidden();
          y.req  = a.required();
          y.tog  = a.toggle_group_name();
          y.grp  = a.group_name();
          auto e = a.env_vars_get();
          y.env.assign(e.begin(), e.end());
          r << y;
        }
        for (auto &s: peek::cmds(x)) { auto k = rd(s); k.no_action = true; r << k; }
        return r;
      };
      auto &a = *new App; // stays alive: the library keeps a pointer to the application created last
      auto r = rd(*a.app);
      return r;
    }();
    return b;
  }

  // ---------------------------------------------------------------- the reference model
  struct Flag { F const *d; string key, val; int hits = 0; string title; };
  struct Node {
    C const *d{};
    Node *up{};
    string key, path;
    std::list<Flag> flags;
    std::list<Node> subs;
    int hits = 0;
    string title;
    std::map<string, string> on;            // toggle group -> member that is on
    std::map<string, string> entry;         // toggle group -> store entry
    std::map<string, vector<Flag *>> members;
  };
  inline string initial(F const &x) {
    string o;
    if (x.t == 'b') return x.def == "true" ? "b:true" : "b:false";
    if (x.t == 's') return "s:" + x.def;
    meaning(x.t, x.def, o);
    return o;
  }

  inline double jaro(string const &a, string const &b) {
    if (a.empty() || b.empty()) return 0;
    if (a == b) return 1;
    int n = (int) a.size(), m = (int) b.size(), range = std::max(n, m) / 2 - 1, hits = 0;
    vector<int> ha(a.size()), hb(b.size());
    for (int i = 0; i < n; i++)
      for (int j = std::max(0, i - range); j < std::min(m, i + range + 1); j++)
        if (a[(size_t) i] == b[(size_t) j] && !hb[(size_t) j]) { ha[(size_t) i] = hb[(size_t) j] = 1; hits++; break; }
    if (!hits) return 0;
    string x, y;
    for (int i = 0; i < n; i++) if (ha[(size_t) i]) x += a[(size_t) i];
    for (int j = 0; j < m; j++) if (hb[(size_t) j]) y += b[(size_t) j];
    int t = 0;
    for (size_t i = 0; i < x.size(); i++) t += x[i] != y[i];
    return (double(hits) / n + double(hits) / m + (hits - t / 2.0) / hits) / 3;
  }
  struct Model {
    Node root;
    bool feel = false; // feel-like mode: the most similar command stands in for an unknown one
    bool longest = true;
    bool cmd_error = true, flag_error = true; // unknown input is an error
    // answers of a registered handler for unknown input: 0 none, 1 default action, 2 continue, 3 abort
    int handler = 0;
    std::function<int(string const &, strs const &)> action;
    // results
    enum End { Action, Help, Aborted, Builtin, Required } end = Help;
    Node *sel{};
    strs remain;
    string offending;               // what the message must name
    char offence = 0;               // c command, l long flag, s short flag
    strs bad_values;                // flags whose value could not be parsed
    vector<string> handled;         // calls of the handler
    Flag *last_hit{};
    vector<std::pair<string, string>> trace; // flag hits in order: key, name
    struct Event { char kind; string key, title, val; int hits; size_t next, arg; }; // c command, f flag; next: the argument that follows
    vector<Event> events;
    std::function<bool(Event const &)> halt; // a hit handler that stops the parsing
    bool halted = false;
    bool felt = false;
    bool ambiguous = false;         // the line uses something the specification leaves open

    void build(Node &n, C const &d, string const &key, string const &path) {
      n.d    = &d;
      n.key  = key;
      n.path = path;
      more(n, d);
    }
    void more(Node &n, C const &d) {
      for (auto const &x: d.flags) {
        n.flags.push_back({&x, n.key + "." + x.L, initial(x)});
        if (!x.tog.empty() && x.t == 'b') {
          if (!n.on.count(x.tog) || x.def == "true") n.on[x.tog] = x.L;
          n.members[x.tog].push_back(&n.flags.back());
        }
      }
      for (auto const &x: d.subs) {
        n.subs.emplace_back();
        n.subs.back().up = &n;
        build(n.subs.back(), x, n.key + "." + x.L, n.path.empty() ? x.L : n.path + "." + x.L);
      }
    }
    explicit Model(C const &d) {
      build(root, builtins(), DEFAULT_CLI_KEY_PREFIX, "");
      more(root, d);
    }
    Flag *flag(Node &n, string const &key) {
      for (auto &x: n.flags) if (x.key == key) return &x;
      for (auto &s: n.subs) if (auto *r = flag(s, key)) return r;
      return nullptr;
    }

    static bool named(string const &w, string const &L, strs const &A) {
      if (w == L) return true;
      for (auto const &a: A) if (w == a) return true;
      return false;
    }
    Node *command(Node &n, string const &w) {
      for (auto &s: n.subs) if (named(w, s.d->L, s.d->A)) return &s;
      for (auto &s: n.subs) if (!s.d->S.empty() && s.d->S == w) return &s;
      return nullptr;
    }
    struct Hit { Flag *f{}; Node *at{}; string name; };
    Hit match(string const &rest, bool lng) {
      Hit h;
      for (Node *n = sel; n; n = n->up)
        for (auto &x: n->flags) {
          strs names;
          if (lng) { names = x.d->A; names.push_back(x.d->L); }
          else if (!x.d->S.empty()) names.push_back(x.d->S);
          for (auto const &nm: names)
            if (rest.compare(0, nm.size(), nm) == 0 && (!h.f || (longest ? nm.size() > h.name.size() : nm.size() < h.name.size()))) h = {&x, n, nm};
        }
      return h;
    }
    void set(Flag &x, Node &at, string const &v) {
      x.val = v;
      events.back().val = v;
      if (halt && halt(events.back())) halted = true;
      if (!x.d->tog.empty() && x.d->t == 'b') {
        if (v != "b:true") ambiguous = true;
        for (auto *o: at.members[x.d->tog]) if (o != &x) o->val = "b:false";
        at.on[x.d->tog] = x.d->L;
        at.entry[x.d->tog] = "s:" + x.d->L;
      }
    }
    // returns false when parsing stops
    bool flags_of(strs const &a, size_t &i, size_t lead, bool lng) {
      string t = a[i].substr(lead);
      size_t pos = 0;
      size_t at_arg = i;
      do {
        string rest = t.substr(pos);
        if (halted) return false;
        Hit h       = match(rest, lng);
        if (!h.f) return unknown(a[at_arg], t, lng ? 'l' : 's');
        h.f->hits++;
        h.f->title = h.name;
        last_hit   = h.f;
        trace.push_back({h.f->key, h.name});
        events.push_back({'f', h.f->key, h.name, "", h.f->hits, i + 1, i});
        string tail = rest.substr(h.name.size());
        pos += h.name.size();
        if (h.f->d->t == 'b') {
          bool v = true;
          if (!tail.empty() && (tail[0] == '+' || tail[0] == '-')) { v = tail[0] == '+'; pos++; }
          set(*h.f, *h.at, v ? "b:true" : "b:false");
          continue;
        }
        string val;
        if (tail.empty()) {
          if (i + 1 >= a.size()) {
            ambiguous |= h.f->d->t == 's'; // a text flag without any text
            bad_values.push_back(h.name);
            return true;
          }
          string const &arg = a[i + 1];
          size_t n = meaning(h.f->d->t, arg, val);
          if (h.f->d->t == 'u' && arg[0] == '-') ambiguous = true;
          if (h.f->d->t == 's') {
            if (arg.empty() || arg[0] == '"' || arg[0] == '\'') ambiguous = true;
            set(*h.f, *h.at, val);
            i++;
          } else if (n == 0) {
            bad_values.push_back(h.name); // the argument keeps its own meaning
            return true;
          } else {
            if (n != arg.size()) ambiguous = true;
            set(*h.f, *h.at, val);
            i++;
          }
          return true;
        }
        size_t eq = tail[0] == '=';
        string v  = tail.substr(eq);
        if (v.size() >= 2 && (v[0] == '"' || v[0] == '\'') && v.back() == v[0]) { // quoted
          string in = v.substr(1, v.size() - 2);
          size_t n  = meaning(h.f->d->t, in, val);
          if (in.find(v[0]) != string::npos || n != in.size()) ambiguous = true;
          set(*h.f, *h.at, val);
          return true;
        }
        if (v.empty()) { // "--name=": an empty value
          if (h.f->d->t != 's') { bad_values.push_back(h.name); return true; }
          set(*h.f, *h.at, "s:");
          return true;
        }
        if (v[0] == '"' || v[0] == '\'' || v.back() == '"' || v.back() == '\'') ambiguous = true;
        if (h.f->d->t == 'u' && v[0] == '-') ambiguous = true;
        size_t n = meaning(h.f->d->t, v, val);
        if (n == 0) { bad_values.push_back(h.name); return true; }
        set(*h.f, *h.at, val);
        pos += eq + n;
      } while (pos < t.size());
      return true;
    }
    bool unknown(string const &arg, string const &, char kind) {
      offending = arg; // when parsing stops, this is what stopped it
      offence   = kind;
      bool error = kind == 'c' ? cmd_error : flag_error;
      if (!error) return true;
      if (handler) {
        handled.push_back(arg + "|" + sel->path + "|" + (kind == 'l' ? "long" : "") + (kind == 'c' ? "cmd" : ""));
        if (handler == 2) return true;
      }
      return false;
    }
    std::map<string, string> env, ext; // environment variables; values from external configuration by key
    void sources(Node &n) {
      for (auto &x: n.flags) {
        string name = x.key;
        for (auto &ch: name) ch = ch == '.' || ch == '-' ? '_' : (char) toupper((unsigned char) ch);
        auto take = [&](std::map<string, string> const &from, string const &k) {
          auto it = from.find(k);
          if (it == from.end()) return false;
          if (meaning(x.d->t, it->second, x.val) != it->second.size() || !x.d->tog.empty()) ambiguous = true;
          return true;
        };
        take(ext, x.key);
        take(env, name);
        for (auto const &e: x.d->env) if (take(env, e)) { x.hits++; x.title = e; }
      }
      for (auto &s: n.subs) sources(s);
    }
    bool parse_flags(strs const &a, size_t &i, size_t lead, bool lng) {
      size_t n = events.size();
      bool go  = flags_of(a, i, lead, lng);
      if (events.size() > n) events.back().next = i + 1;
      return go && !halted;
    }
    void run(strs const &a) {
      sources(root);
      sel      = &root;
      bool cut = false, stopped = false;
      for (size_t i = 0; i < a.size(); i++) {
        string const &w = a[i];
        if (cut) { remain.push_back(w); continue; }
        if (w == "--") { cut = true; continue; }
        if (w.size() >= 2 && w[0] == '~' && w[1] == '~') { ambiguous = true; }
        if (w.size() >= 2 && w[0] == '-' && w[1] == '-') { if (!parse_flags(a, i, 2, true)) { stopped = true; break; } continue; }
        if (!w.empty() && (w[0] == '-' || w[0] == '/')) { if (!parse_flags(a, i, 1, false)) { stopped = true; break; } continue; }
        if (sel->subs.empty()) { remain.push_back(w); continue; }
        if (w.empty()) continue;
        if (auto *n = command(*sel, w)) {
          n->hits++;
          n->title = w;
          sel      = n;
          events.push_back({'c', n->key, w, "", n->hits, i + 1, i});
          if (halt && halt(events.back())) { halted = stopped = true; break; }
          continue;
        }
        if ((feel || flag(root, string(DEFAULT_CLI_KEY_PREFIX) + ".feel-like")->val == "b:true") && cmd_error) {
          Node *best{};
          double d = 0.83, second = 0;
          for (auto &s: sel->subs) {
            strs names = s.d->A;
            names.push_back(s.d->L);
            names.push_back(s.d->S);
            for (auto const &nm: names) {
              double j = jaro(w, nm);
              if (j >= d) { if (best && best != &s) second = d; d = j; best = &s; }
              else if (best != &s) second = std::max(second, j);
            }
          }
          if (best && d - second < 1e-6) ambiguous = true;
          if (best) { sel = best; felt = true; continue; }
        }
        if (!unknown(w, w, 'c')) { stopped = true; break; }
      }
      if (stopped) { end = Aborted; return; }
      if (!sel->subs.empty()) { end = Help; return; }
      for (Node *n = sel; n; n = n->up)
        for (auto &x: n->flags) if (x.d->req && x.hits == 0) { end = Required; return; }
      end = sel->d->no_action ? Builtin : Action;
    }
    void collect(facts &m, Node &n) {
      for (auto &x: n.flags) {
        m["value of " + x.key] = x.val;
        m["hits of flag " + x.key] = to_string(x.hits) + (x.hits ? " as " + x.title : "");
      }
      for (auto &g: n.on) {
        m["toggle group " + n.key + "." + g.first] = g.second;
        m["store entry of toggle group " + n.key + "." + g.first] = n.entry.count(g.first) ? n.entry[g.first] : "(none)";
      }
      for (auto &s: n.subs) {
        m["hits of command " + s.key] = to_string(s.hits) + (s.hits ? " as " + s.title : "");
        collect(m, s);
      }
    }
    facts expected() {
      facts m;
      string s;
      int rc = 0;
      if (end == Action) { s = sel->path + show(remain) + " "; rc = action ? action(sel->path, remain) : 0; }
      if (end == Required) rc = -1;
      m["result"]  = to_string(rc);
      m["actions"] = s;
      collect(m, root);
      return m;
    }
  };

  inline string kind_of(string const &fact) {
    auto p = fact.find(" of ");
    return p == string::npos ? fact.substr(0, fact.find(' ')) : fact.substr(0, fact.find(' ', p + 4) == string::npos ? p : p);
  }
  // compares fact by fact; the signature is the kind of the first differing fact
  inline bool compare(seq::Ctx &ctx, string const &line, facts const &want, facts const &got, string const &tag = "") {
    bool ok = true;
    for (auto const &w: want) {
      auto g = got.find(w.first);
      string have = g == got.end() ? "(missing)" : g->second;
      if (have != w.second) { ctx.fail(tag + kind_of(w.first), line + ": " + w.first + ": expected " + w.second + ", got " + have); ok = false; }
    }
    for (auto const &g: got)
      if (!want.count(g.first)) { ctx.fail(tag + "extra-" + kind_of(g.first), line + ": unexpected " + g.first + " = " + g.second); ok = false; }
    return ok;
  }

  inline string cmdline(strs const &a) { string s = "t"; for (auto const &x: a) s += x.empty() || x.find(' ') != string::npos ? " '" + x + "'" : " " + x; return s; }

  // words over an alphabet of command-line arguments
  struct Words {
    strs alpha;
    unsigned lo, hi;
    uint64_t size() const { return seq::words_count(alpha.size(), lo, hi); }
    strs at(uint64_t i) const { strs r; for (int d: seq::word_at(i, alpha.size(), lo, hi)) r.push_back(alpha[(size_t) d]); return r; }
  };

  // run one command line on a fresh application and compare everything the model knows
  inline void standard(seq::Ctx &ctx, C const &tree, strs const &args, std::function<void(App &, Model &)> setup = nullptr, std::function<void(App &, Model &)> extra = nullptr) {
    builtins();
    App r;
    Model m(tree);
    r.define(tree);
    r.action = m.action = [](string const &who, strs const &rem) { return 3 + (int) (who.size() + rem.size()) % 5; };
    if (setup) setup(r, m);
    m.run(args);
    r.run(args);
    ctx.step(args.size());
    string line = cmdline(args);
    ctx.outcome(line); // distinct command lines
    for (auto &x: m.root.flags) // the application's own requests are C11's business
      if (x.hits && x.d >= &builtins().flags.front() && x.d <= &builtins().flags.back() && x.d->L != "verbose" && x.d->L != "quiet" && x.d->L != "feel-like") m.ambiguous = true;
    if (m.ambiguous) return;
    ctx.interesting();
    auto want = m.expected(), got = r.seen();
    ctx.state(seq::fnv(want["actions"] + want["result"] + m.sel->path + m.offending));
    if (m.end == Model::Builtin) { got.erase("result"); want.erase("result"); }
    compare(ctx, line, want, got);
    bool usage = r.out.find("\nUsage\n") != string::npos && r.out.find("\nCommands\n") != string::npos;
    if (m.end == Model::Help) ctx.check("help-missing", line + ": the line ends on a command with sub-commands but no help screen was printed", usage);
    if (m.end == Model::Action) ctx.check("output", line + ": unexpected output: " + r.out, r.out.empty());
    if (m.end == Model::Aborted) ctx.check("help-printed", line + ": a help screen was printed for an erroneous line", !usage);
    if (!m.offending.empty() && !m.handler && m.end == Model::Aborted)
      ctx.check("no-message", line + ": no message names the offending " + m.offending + ": " + r.err, r.err.find(m.offending.substr(std::min(m.offending.find_first_not_of("-/"), m.offending.size()))) != string::npos);
    if (m.end == Model::Required) ctx.check("no-message", line + ": nothing on the error stream about the missing flag: " + r.err, !r.err.empty());
    for (auto const &b: m.bad_values) ctx.check("no-message", line + ": no message about the unusable value of " + b + ": " + r.err, r.err.find("value") != string::npos && r.err.find(b) != string::npos);
    if (m.offending.empty() && m.bad_values.empty() && m.end != Model::Required && m.end != Model::Builtin) ctx.check("noise", line + ": message on the error stream for a correct line: " + r.err, r.err.empty());
    // the shorthands read the same values and counts
    auto own = [&](char const *n) { return m.flag(m.root, string(DEFAULT_CLI_KEY_PREFIX) + "." + n); };
    bool on[] = {cmdr::is_debug(), cmdr::is_trace(), cmdr::is_verbose(), cmdr::is_quiet(), cmdr::is_no_color()};
    char const *nm[] = {"debug", "trace", "verbose", "quiet", "no-color"};
    for (int i = 0; i < 5; i++) ctx.check("shorthand", line + ": is_" + nm[i] + "() is " + to_string(on[i]), on[i] == (own(nm[i])->val == "b:true"));
    ctx.check("shorthand", line + ": get_verbose_level() is " + to_string(cmdr::get_verbose_level()), cmdr::get_verbose_level() == own("verbose")->hits);
    ctx.check("shorthand", line + ": is_help_hit() is " + to_string(cmdr::is_help_hit()), cmdr::is_help_hit() == (own("help")->hits > 0 && own("help")->val == "b:true"));
    if (extra) extra(r, m);
  }
  inline seq::Space space(string name, C const &tree, Words w, std::function<void(App &, Model &)> setup = nullptr) {
    auto t = std::make_shared<C>(tree);
    return {name, w.size(), [=](uint64_t i, seq::Ctx &x) { standard(x, *t, w.at(i), setup); }, [=](uint64_t i) { return cmdline(w.at(i)); }};
  }
} // namespace cli
