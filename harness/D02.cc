// D02 printed durations: every combination of components at boundary values, read back by an independent parser
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_chrono.hh>
#include <cmdr11/cmdr_var_t.hh>
using std::string; using std::to_string; using std::vector;
using namespace std::chrono;
static long long const NS = 1, US = 1000, MS = 1000000, S = 1000000000, M = 60 * S, H = 60 * M, D = 24 * H, Y = 365 * D;
// [Ny:][Nd:][Nh:][Nm][:][Ns][:]F where F is a number with unit ns, us or ms, '.' separating groups of three digits;
// -1: not of that form
static long long value_of(string const &t, string &why) {
  size_t i = 0;
  long long sum = 0, last = -1;
  auto bad = [&](string w) { why = w; return -1ll; };
  while (i < t.size()) {
    if (t[i] == ':') { i++; continue; }
    string digits;
    int frac = 0;
    bool dot = false;
    while (i < t.size() && (isdigit(t[i]) || t[i] == '.')) {
      if (t[i] == '.') { if (digits.empty() || (dot && frac % 3)) return bad("misplaced dot"); dot = true; }
      else { digits += t[i]; if (dot) frac++; }
      i++;
    }
    if (digits.empty()) return bad("number expected at " + to_string(i));
    string u;
    while (i < t.size() && isalpha(t[i])) u += t[i++];
    long long unit = u == "y" ? Y : u == "d" ? D : u == "h" ? H : u == "m" ? M : u == "s" ? S : u == "ms" ? MS : u == "us" ? US : u == "ns" ? NS : 0;
    if (!unit) return bad("unknown unit '" + u + "'");
    if (last != -1 && unit >= last) return bad("units not descending");
    last = unit;
    long long whole = 0, scale = 1;
    for (char c : digits) whole = whole * 10 + (c - '0');
    for (int k = 0; k < frac; k++) scale *= 10;
    if ((unit % scale) != 0) return bad("fraction below a nanosecond");
    sum += whole * (unit / scale);
  }
  return sum;
}
// a component must not reach the next coarser unit: 60s would have been 1m
static string not_coarsest(string const &t) {
  size_t i = 0;
  while (i < t.size()) {
    if (!isdigit(t[i])) { i++; continue; }
    long long v = 0;
    while (i < t.size() && isdigit(t[i])) v = v * 10 + (t[i++] - '0');
    string u;
    size_t j = i;
    while (j < t.size() && isalpha(t[j])) u += t[j++];
    long long lim = u == "d" ? 365 : u == "h" ? 24 : u == "m" || u == "s" ? 60 : u == "y" ? 1 << 30 : 1000;
    if (v >= lim) return to_string(v) + u;
  }
  return "";
}
template<class Dur> static void print_case(seq::Ctx &x, Dur d, long long ns, string const &what) {
  x.step(); x.interesting();
  string t = cmdr::chrono::format_duration(d), why;
  x.outcome(t);
  long long got = value_of(t, why);
  x.check("value", what + " (" + to_string(ns) + "ns) prints as '" + t + "'" + (got < 0 ? ", which is no duration: " + why : ", which is " + to_string(got) + "ns"), got == ns);
  string nc = not_coarsest(t);
  x.check("unit", what + " (" + to_string(ns) + "ns) prints as '" + t + "' where " + nc + " should use a coarser unit", nc.empty());
  // a zero duration may print as nothing, anything else may not; no zero components in front
  if (ns > 0) x.check("lead", what + " prints as '" + t + "'", !t.empty() && !(t[0] == '0' && (t.size() < 2 || !isdigit(t[1]))));
  for (int k = 0; k < 2; k++) { // the stream keeps its formatting and whatever was in it
    std::ostringstream os;
    os.fill(k ? '#' : ' ');
    if (k) os << std::uppercase << std::left << std::hex << std::showbase;
    auto fl = os.flags();
    os << "<" << d << ">";
    x.eq("stream", what + " printed to a stream", "<" + t + ">", os.str());
    x.check("stream", "printing '" + t + "' changed the formatting of the stream", os.flags() == fl && os.fill() == (k ? '#' : ' ') && os.width() == 0 && os.precision() == 6);
  }
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  // boundary values per component
  vector<vector<long long>> c{{0, 1, 2, 99, 200}, {0, 1, 29, 364}, {0, 1, 23}, {0, 1, 9, 59}, {0, 1, 9, 10, 59}, {0, 1, 9, 10, 99, 100, 999}, {0, 1, 9, 10, 99, 100, 999}, {0, 1, 9, 10, 99, 100, 999}};
  if (T) c = {{0, 1, 2, 9, 10, 99, 100, 200, 291}, {0, 1, 7, 9, 10, 28, 99, 100, 364}, {0, 1, 9, 10, 23}, {0, 1, 9, 10, 30, 59}, {0, 1, 9, 10, 30, 59}, {0, 1, 9, 10, 99, 100, 500, 999}, {0, 1, 9, 10, 99, 100, 500, 999}, {0, 1, 9, 10, 99, 100, 500, 999}};
  static long long const w[] = {Y, D, H, M, S, MS, US, NS};
  uint64_t n = 1;
  for (auto const &v : c) n *= v.size();
  auto val = [=](uint64_t i) { seq::Digits d(i); long long t = 0; for (size_t k = 8; k-- > 0;) t += c[k][d.take(c[k].size())] * w[k]; return t; };
  sp.push_back({"components", n, [=](uint64_t i, seq::Ctx &x) { long long t = val(i); x.state((uint64_t) i % 65536); print_case(x, nanoseconds(t), t, "nanoseconds"); }, [=](uint64_t i) { return to_string(val(i)) + "ns"; }});
  // all counts of coarser duration types; other representations
  long long m = T ? 100000 : 20000;
  auto dur = [&](string name, auto make, long long count) {
    sp.push_back({name, (uint64_t) count, [=](uint64_t i, seq::Ctx &x) { auto d = make((long long) i); x.state(i % 65536); print_case(x, d, duration_cast<nanoseconds>(d).count(), name + " " + to_string(i)); }, [=](uint64_t i) { return name + " " + to_string(i); }});
  };
  dur("microseconds", [](long long i) { return microseconds(i * 997); }, m);
  dur("milliseconds", [](long long i) { return milliseconds(i * 13); }, m);
  dur("seconds", [](long long i) { return seconds(i); }, m);
  dur("minutes", [](long long i) { return minutes(i); }, m);
  dur("hours", [](long long i) { return hours(i); }, m);
  dur("days", [](long long i) { return duration<int, std::ratio<86400>>((int) i); }, m);
  dur("years", [](long long i) { return duration<int, std::ratio<31536000>>((int) i); }, 292);
  dur("double seconds", [](long long i) { return duration<double>((double) i / 8); }, m);
  dur("float minutes", [](long long i) { return duration<float, std::ratio<60>>((float) i / 4); }, m);
  dur("long double minutes", [](long long i) { return duration<long double, std::ratio<60>>((long double) i / 16); }, m);
  // values print the same inside variables
  sp.push_back({"variables", 4096, [=](uint64_t i, seq::Ctx &x) {
                  long long t = (long long) i * 1234567;
                  x.step(); x.interesting(); x.state(i);
                  x.eq("variable", "nanoseconds in a variable", cmdr::chrono::format_duration(nanoseconds(t)), cmdr::vars::variable(nanoseconds(t)).as_string());
                  x.eq("variable", "microseconds in a variable", cmdr::chrono::format_duration(microseconds(t)), cmdr::vars::variable(microseconds(t)).as_string());
                  x.eq("variable", "milliseconds in a variable", cmdr::chrono::format_duration(milliseconds(t)), cmdr::vars::variable(milliseconds(t)).as_string());
                  x.eq("variable", "seconds in a variable", cmdr::chrono::format_duration(seconds((long long) i)), cmdr::vars::variable(seconds((long long) i)).as_string());
                  x.eq("variable", "minutes in a variable", cmdr::chrono::format_duration(minutes((long long) i)), cmdr::vars::variable(minutes((long long) i)).as_string());
                  x.eq("variable", "hours in a variable", cmdr::chrono::format_duration(hours((long long) i)), cmdr::vars::variable(hours((long long) i)).as_string());
                }, [](uint64_t i) { return "variable #" + to_string(i); }});
  return seq::run(argc, argv, "D02", sp, "all combinations of boundary values of the eight components, all counts up to a bound in eleven duration types, read back by an independent parser");
}
