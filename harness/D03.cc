// D03 calendar helpers, time formatting and parsing: every day of a range of years in several time zones, against an independent civil calendar
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_chrono.hh>
using std::string; using std::to_string; using std::vector;
namespace chr = cmdr::chrono;
using Clock = std::chrono::system_clock;
using Tp = Clock::time_point;
using iom = chr::iom;
using F = iom::fmtflags;
struct Date { long y; int m, d; bool operator==(Date const &o) const { return y == o.y && m == o.m && d == o.d; } };
// proleptic Gregorian calendar, day 0 is 1970-01-01
static bool leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int month_len(long y, int m) { static int const l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : l[m - 1]; }
static long day_of(Date t) {
  long n = 365 * (t.y - 1970), a = t.y - 1, b = 1969;
  n += (a / 4 - a / 100 + a / 400) - (b / 4 - b / 100 + b / 400);
  for (int m = 1; m < t.m; m++) n += month_len(t.y, m);
  return n + t.d - 1;
}
static Date date_of(long n) {
  Date t{1970 + n / 366 - 2, 1, 1};
  while (day_of({t.y + 1, 1, 1}) <= n) t.y++;
  n -= day_of({t.y, 1, 1});
  while (n >= month_len(t.y, t.m)) n -= month_len(t.y, t.m++);
  t.d = (int) n + 1;
  return t;
}
static string pad(long v, int w) { string s = to_string(v); while ((int) s.size() < w) s = "0" + s; return s; }
static string show(Date t, char sep = '-') { return pad(t.y, 4) + sep + pad(t.m, 2) + sep + pad(t.d, 2); }
static string hms(long s) { return pad(s / 3600, 2) + ":" + pad(s / 60 % 60, 2) + ":" + pad(s % 60, 2); }
static string show(std::tm const &t) { return show(Date{t.tm_year + 1900L, t.tm_mon + 1, t.tm_mday}) + " " + pad(t.tm_hour, 2) + ":" + pad(t.tm_min, 2) + ":" + pad(t.tm_sec, 2); }
// time zones; their rules are known here, too: local = utc + offset, +1h in the daylight saving period (no times around the changes are used)
struct Zone { char const *tz; long off; int dst; }; // dst: 0 none, 1 northern (US rules), 2 southern (AU rules)
static Zone const zones[] = {{"UTC0", 0, 0}, {"EST5EDT,M3.2.0,M11.1.0", -5 * 3600, 1}, {"AEST-10AEDT,M10.1.0,M4.1.0/3", 10 * 3600, 2}, {"XXX-5:30", 5 * 3600 + 1800, 0}, {"YYY11", -11 * 3600, 0}, {"ZZZ-14", 14 * 3600, 0}};
static int wday(long n) { return (int) (((n + 4) % 7 + 7) % 7); } // 0 Sunday
static long nth_sunday(long y, int m, int k) { long n = day_of({y, m, 1}); return n + (7 - wday(n)) % 7 + 7 * (k - 1); }
static long offset(Zone const &z, long n, long secs) { // of a local time that is not between 0:59 and 3:01
  long y = date_of(n).y, t = n * 86400 + secs;
  if (z.dst == 1) return z.off + (t >= nth_sunday(y, 3, 2) * 86400 + 7200 && t < nth_sunday(y, 11, 1) * 86400 + 7200 ? 3600 : 0);
  if (z.dst == 2) return z.off + (t >= nth_sunday(y, 10, 1) * 86400 + 7200 || t < nth_sunday(y, 4, 1) * 86400 + 10800 ? 3600 : 0);
  return z.off;
}
static void use(Zone const &z) {
  static char const *cur = nullptr;
  if (cur != z.tz) { setenv("TZ", z.tz, 1); tzset(); cur = z.tz; }
}
static Tp at(Zone const &z, long n, long secs) { return Clock::from_time_t(n * 86400 + secs - offset(z, n, secs)); }
static std::tm tm_at(Zone const &z, long n, long secs) {
  Date t = date_of(n);
  std::tm r{};
  r.tm_year = (int) t.y - 1900; r.tm_mon = t.m - 1; r.tm_mday = t.d;
  r.tm_hour = (int) secs / 3600; r.tm_min = (int) (secs / 60 % 60); r.tm_sec = (int) secs % 60;
  r.tm_isdst = offset(z, n, secs) != z.off; r.tm_wday = wday(n); r.tm_yday = (int) (n - day_of({t.y, 1, 1}));
  return r;
}
static long const times[] = {0, 1800, 12 * 3600, 18 * 3600 + 7 * 60 + 9, 86399};
static void day_case(seq::Ctx &x, Zone const &z, long n, long secs) {
  use(z);
  Date t   = date_of(n);
  std::tm tm = tm_at(z, n, secs), keep = tm;
  Tp tp    = at(z, n, secs);
  string what = string(z.tz) + " " + show(t) + " " + hms(secs), now = show(t) + " " + hms(secs);
  x.step(); x.interesting();
  long last = day_of({t.y, t.m, month_len(t.y, t.m)}), ny = t.m == 12 ? t.y + 1 : t.y;
  int nm = t.m % 12 + 1;
  auto day = [&](long k) { return show(date_of(k)) + " " + hms(secs); };
  for (int k : {1, 2, 28, 31}) {
    x.eq("last of month", what + ": day " + to_string(k) + " from the end of the month", day(last - (k - 1)), show(chr::last_day_at_this_month(tm, k, 1)));
    x.check("last of month", what + ": time point of day " + to_string(k) + " from the end of the month", chr::last_day_at_this_month_in_time_point(tm, k, 1) == at(z, last - (k - 1), secs));
    x.eq("last of month", what + ": default month, day " + to_string(k), day(last - (k - 1)), show(chr::last_day_at_this_month(tm, k)));
    x.eq("last of month", what + ": day " + to_string(k) + " from the end of the next month", day(day_of({ny, nm, month_len(ny, nm)}) - (k - 1)), show(chr::last_day_at_this_month(tm, k, 2)));
  }
  x.eq("last of month", what + ": last day of the month", day(last), show(chr::last_day_at_this_month(tm)));
  x.eq("last of month", what + ": last day, 13 months ahead", day(day_of({t.y + 1, t.m, month_len(t.y + 1, t.m)})), show(chr::last_day_at_this_month(tm, 1, 13)));
  for (int k : {1, 2, 31, 32, 60, 365, 366}) {
    x.eq("last of year", what + ": day " + to_string(k) + " from the end of the year", day(day_of({t.y, 12, 31}) - (k - 1)), show(chr::last_day_at_this_year(tm, k)));
    x.check("last of year", what + ": time point of day " + to_string(k) + " from the end of the year", chr::last_day_at_this_year_in_time_point(tm, k) == at(z, day_of({t.y, 12, 31}) - (k - 1), secs));
  }
  for (int k : {0, -1, 32, 367}) { // invalid offsets give the time itself
    if (k != 32) x.eq("invalid offset", what + ": offset " + to_string(k) + " of year", now, show(chr::last_day_at_this_year(tm, k)));
    x.eq("invalid offset", what + ": offset " + to_string(k) + " of month", now, show(chr::last_day_at_this_month(tm, k, 1)));
  }
  x.eq("argument", what + ": the given time", show(keep), show(tm));
  std::tm tc = tm;
  x.check("tm", what + ": tm_2_time_point", chr::tm_2_time_point(tc) == tp && chr::tm_2_time_point(&tc) == tp);
  std::tm r = chr::time_point_2_tm(tp), r2 = chr::time_t_2_tm(Clock::to_time_t(tp));
  x.eq("tm", what + ": time_point_2_tm", now, show(r));
  x.check("tm", what + ": weekday or day of year", r.tm_wday == wday(n) && r.tm_yday == tm.tm_yday && r.tm_isdst == tm.tm_isdst);
  x.eq("tm", what + ": time_t_2_tm", now, show(r2));
  x.eq("format", what + ": format_tm", now, chr::format_tm(&tm));
  { std::ostringstream os; os << tm << "|" << &tm; x.eq("format", what + ": tm printed", now + "|" + now, os.str()); }
  // comparing dates
  for (long dn : {-366L, -31L, -1L, 0L, 1L, 28L, 365L})
    for (long s2 : times) {
      int c = chr::compare_date_part(tp, at(z, n + dn, s2));
      x.check("compare", what + " compared with " + day(n + dn) + " gives " + to_string(c), dn == 0 ? c == 0 : dn > 0 ? c < 0 : c > 0);
    }
  // printing: UTC and local, three precisions
  long u  = n * 86400 + secs - offset(z, n, secs), un = (u >= 0 ? u : u - 86399) / 86400;
  string gmt = show(date_of(un)) + " " + hms(u - un * 86400);
  for (long ns : {0L, 1000L, 999999000L, 5005006007L % 1000000000L, 120034567L}) {
    Tp f = tp + std::chrono::nanoseconds(ns);
    iom::reset();
    x.eq("format", what + ": format_time_point", gmt + "." + pad(ns / 1000, 6), chr::format_time_point(f));
    x.eq("format", what + ": format_time_point_to_local", now + "." + pad(ns / 1000, 6), chr::format_time_point_to_local(f));
    x.eq("format", what + ": format_time_point after printing to local", gmt + "." + pad(ns / 1000, 6), chr::format_time_point(f));
    x.check("fraction", what + ": parts of a second", chr::time_point_get_ms(f) == (size_t) ns / 1000000 && chr::time_point_get_us(f) == (size_t) ns / 1000 % 1000 && chr::time_point_get_ns(f) == (size_t) ns % 1000);
  }
  { std::ostringstream os; os << std::left << std::hex; os.fill('*'); os << tp; x.eq("format", what + ": printed time point", gmt + ".000000", os.str()); x.check("stream", what + ": printing changed the stream", os.fill() == '*' && os.flags() == (std::ios::skipws | std::ios::left | std::ios::hex)); }
  // parsing
  auto tp_of = [&](string const &s) { return chr::parse_datetime(s.c_str()); };
  if (t.y >= 1000) {
    x.check("parse", what + ": parsing '" + now + "'", tp_of(now) == tp);
    x.check("parse", what + ": parsing '" + show(t, '/') + " " + hms(secs) + "'", tp_of(show(t, '/') + " " + hms(secs)) == tp);
    for (char sep : {'-', '/'}) x.eq("parse", what + ": date of '" + show(t, sep) + "'", show(t), show(chr::time_point_2_tm(tp_of(show(t, sep)))).substr(0, 10));
    std::tm p{};
    x.check("parse", what + ": try_parse", chr::try_parse(p, now, "%Y-%m-%d %H:%M:%S"));
    x.eq("parse", what + ": try_parse", now, show(p));
  }
}
static vector<string> const forms{"2021-08-05 12:34:56", "2021/08/05 12:34:56", "2021-08-05", "2021/08/05", "12:34:56", "", "x", "2021-13-05", "2021-08-05x", "05.08.2021", "2021-1-2 3:4:5", "2021/1/2"};
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  long from = day_of({T ? 1600 : 1890, 1, 1}), to = day_of({T ? 2500 : 2110, 1, 1});
  if (date_of(from).d != 1 || day_of(date_of(from + 12345)) != from + 12345 || day_of({1970, 1, 1}) != 0 || day_of({2000, 3, 1}) != 11017) return 2;
  for (auto const &z : zones) {
    if (z.dst) from = day_of({1972, 1, 1}); // the C library applies such rules from 1971 on only
    else from = day_of({T ? 1600 : 1890, 1, 1});
    // quick: every day at one time of day that varies with the day, plus every time on days around the ends of months; thorough: every day at every time
    uint64_t days = (uint64_t) (to - from), nt = sizeof times / sizeof *times;
    sp.push_back({string("days in ") + z.tz, T ? days * nt : days, [=](uint64_t i, seq::Ctx &x) {
                    long n = from + (long) (T ? i / nt : i);
                    x.state((uint64_t) n % 65536);
                    if (T) { day_case(x, z, n, times[i % nt]); return; }
                    Date d = date_of(n);
                    if (d.d <= 1 || d.d >= month_len(d.y, d.m)) for (long s : times) day_case(x, z, n, s);
                    else day_case(x, z, n, times[i % nt]);
                  }, [=](uint64_t i) { return string(z.tz) + " " + show(date_of(from + (long) (T ? i / nt : i))); }});
  }
  // all sequences of manipulators, with a saver around a part of them
  static F const man[]       = {F::ms, F::us, F::ns, F::gmt, F::local, F::clear};
  static char const *mn[]    = {"ms", "us", "ns", "gmt", "local", "clear"};
  unsigned L = T ? 6 : 5;
  for (auto const &z : {zones[1], zones[3]})
    sp.push_back({string("manipulators in ") + z.tz, seq::words_count(6, 0, L) * (L + 1), [=](uint64_t i, seq::Ctx &x) {
                    use(z);
                    iom::reset();
                    unsigned saved_at = (unsigned) (i % (L + 1));
                    auto w = seq::word_at(i / (L + 1), 6, 0, L);
                    long n = 18844, secs = 12 * 3600 + 34 * 60 + 56; // 2021-08-05
                    long u = n * 86400 + secs - offset(z, n, secs);
                    Tp f = at(z, n, secs) + std::chrono::nanoseconds(7008009);
                    struct M { bool gmt = true; int p = 1; } m, kept;
                    string h;
                    auto expect = [&] {
                      string d = m.gmt ? show(date_of(u / 86400)) + " " + hms(u % 86400) : show(date_of(n)) + " " + hms(secs);
                      return d + (m.p == 0 ? ".007" : m.p == 1 ? ".007008" : ",007008009");
                    };
                    auto look = [&] { std::ostringstream os; os << f; x.eq("manipulators", "after " + h, expect(), os.str()); x.eq("manipulators", "after " + h + ", formatted", expect(), chr::format_time_point(f)); };
                    std::unique_ptr<iom::saver> sv;
                    x.interesting(); x.state(i % 65536);
                    for (size_t k = 0; k < w.size(); k++) {
                      if (k == saved_at) { sv = std::make_unique<iom::saver>(); kept = m; h += " {"; }
                      std::ostringstream os;
                      os << man[w[k]];
                      h += string(" ") + mn[w[k]];
                      x.eq("manipulators", "a manipulator prints nothing", string(), os.str());
                      if (w[k] < 3) m.p = w[k]; else if (w[k] == 3) m.gmt = true; else if (w[k] == 4) m.gmt = false; else m = M{};
                      x.step();
                      look();
                    }
                    if (sv) { sv.reset(); m = kept; h += " }"; look(); }
                    { // the clock prints the same way
                      chr::clock c;
                      std::ostringstream os;
                      os << c;
                      string ns = pad((long) c.in_nsec(), 9), t = os.str(), want = m.p == 0 ? "." + ns.substr(0, 3) : m.p == 1 ? "." + ns.substr(0, 6) : "." + ns;
                      x.eq("clock", "after " + h + ": fraction printed by clock", want, t.size() > 19 ? t.substr(19) : t);
                      x.check("clock", "nsec", c.nsec() == c.in_nsec() % 1000);
                    }
                    iom::reset();
                  }, [=](uint64_t i) { string h; for (int d : seq::word_at(i / (L + 1), 6, 0, L)) h += string(" ") + mn[d]; return h; }});
  // parsing with a list of formats: the first one that matches decides, a failure leaves the time alone
  static char const *const fm[] = {"%H:%M:%S", "%Y-%m-%d", "%Y/%m/%d %H:%M:%S", "%d.%m.%Y"};
  sp.push_back({"format lists", forms.size() * 4 * 4 * 4, [=](uint64_t i, seq::Ctx &x) {
                  seq::Digits d(i);
                  string s = forms[d.take(forms.size())];
                  char const *a = fm[d.take(4)], *b = fm[d.take(4)], *c = fm[d.v];
                  use(zones[0]);
                  std::tm init = tm_at(zones[0], 1000, 5000), got = init, want = init;
                  bool ok = false;
                  for (char const *f : {"%Y-%m-%d %H:%M:%S", a, b, c}) {
                    std::tm t = init;
                    std::istringstream is(s);
                    if (is >> std::get_time(&t, f)) { want = t; ok = true; break; }
                  }
                  x.step(); x.interesting(); x.state(i);
                  string what = "'" + s + "' by " + a + ", " + b + ", " + c;
                  x.check("format list", what, chr::try_parse_by(got, s, a, b, c) == ok);
                  x.eq("format list", what, show(want), show(got));
                }, [=](uint64_t i) { return "formats #" + to_string(i); }});
  return seq::run(argc, argv, "D03", sp, "every day of two centuries in six time zones (two with daylight saving time), all sequences of time manipulators, all format lists");
}
