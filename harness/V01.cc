// V01 values as text: everything printed reads back as the same value; the documented text forms
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_var_t.hh>
using std::string; using std::to_string; using std::vector;
using cmdr::vars::variable;
template<class T> static string txt(T const &v) { std::ostringstream os; os.precision(17); os << v; return os.str(); }
static string txt(signed char v) { return to_string((int) v); }
static string txt(unsigned char v) { return to_string((int) v); }
template<class T> static string txt(vector<T> const &v) { string s = "["; for (auto const &x : v) s += txt((T const &) x) + ";"; return s + "]"; }
template<class T> static variable parse(T const &initial, string const &text) {
  variable v{initial};
  std::istringstream is(text);
  is >> v;
  return v;
}
// prints v, reads the text into a variable of the same type, compares; also: the stream keeps its formatting
template<class T> static void round_trip(seq::Ctx &x, T const &v, T const &other, string const &expected_text = "") {
  variable a{v};
  string s = a.as_string();
  x.step();
  x.outcome(s);
  if (!expected_text.empty()) x.eq("text", string("printing ") + txt(v), expected_text, s);
  variable b = parse(other, s);
  x.check("type", string(typeid(T).name()) + " " + txt(v) + " printed as " + s + " is read as another type", b.type() == typeid(T));
  if (b.type() == typeid(T)) x.check("value", string(typeid(T).name()) + " " + txt(v) + " printed as " + s + " is read as " + txt(b.as<T>()), b.as<T>() == v);
  std::ostringstream os;
  os.fill('#');
  os << std::hex << std::uppercase;
  auto fl = os.flags();
  os << a;
  x.check("stream", string("printing ") + s + " changed the formatting of the stream", os.flags() == fl && os.fill() == '#' && os.precision() == 6 && os.width() == 0);
}
template<class T> static seq::Space all_of(string name, long long lo, long long hi) {
  return {name, (uint64_t) (hi - lo + 1), [=](uint64_t i, seq::Ctx &x) { x.interesting(); T v = (T) (lo + (long long) i); x.state(i); round_trip<T>(x, v, (T) (v ^ 1), to_string((long long) v)); x.check("explicit plus", string("reading ") + to_string(lo + (long long) i) + " with an explicit sign", parse<T>((T) (v ^ 1), (lo + (long long) i >= 0 ? "+" : "") + to_string(lo + (long long) i)).template as<T>() == v); }, [=](uint64_t i) { return name + " " + to_string(lo + (long long) i); }};
}
// integers around every power of two
template<class T> static seq::Space edges_of(string name) {
  vector<T> v;
  for (unsigned b = 0; b < sizeof(T) * 8; b++)
    for (int d = -3; d <= 3; d++) { T p = (T) (((unsigned long long) 1 << b) + (unsigned long long) d); v.push_back(p); v.push_back((T) (0 - (unsigned long long) p)); }
  v.push_back(std::numeric_limits<T>::min()); v.push_back(std::numeric_limits<T>::max());
  return {name, v.size(), [=](uint64_t i, seq::Ctx &x) { x.interesting(); x.state(i); round_trip<T>(x, v[i], (T) (v[i] ^ 1), to_string(v[i])); }, [=](uint64_t i) { return name + " " + to_string(v[i]); }};
}
template<class T> static seq::Space floats(string name, bool T_) {
  // up to six significant digits (what the stream prints by default) x exponents x signs
  vector<long> mant;
  for (long m = 0; m < 1000; m++) mant.push_back(m);
  for (long m : {1234L, 9999L, 10001L, 12345L, 99999L, 100001L, 123456L, 314159L, 999999L, 500000L}) mant.push_back(m);
  int lo = T_ ? -30 : -12, hi = T_ ? 30 : 12;
  uint64_t n = mant.size() * (uint64_t) (hi - lo + 1) * 2;
  auto val = [=](uint64_t i) { seq::Digits d(i); bool neg = d.take(2); int e = lo + (int) d.take((uint64_t) (hi - lo + 1)); long m = mant[d.v]; std::istringstream is((neg ? "-" : "") + to_string(m) + "e" + to_string(e)); T t{}; is >> t; return t; };
  return {name, n, [=](uint64_t i, seq::Ctx &x) { x.interesting(); x.state(i % 4096); round_trip<T>(x, val(i), T(77)); }, [=](uint64_t i) { return name + " " + txt(val(i)); }};
}
template<class T> static seq::Space vectors(string name, vector<T> items, unsigned len) {
  return {name, seq::words_count(items.size(), 0, len), [=](uint64_t i, seq::Ctx &x) {
            vector<T> v;
            for (int d : seq::word_at(i, items.size(), 0, len)) v.push_back(items[(size_t) d]);
            x.interesting(); x.state(i);
            round_trip<vector<T>>(x, v, {});
          }, [=](uint64_t i) { return name + " #" + to_string(i); }};
}
template<class T> static seq::Space complexes(string name) {
  vector<T> parts;
  for (char const *p : {"0", "1", "-1", "0.5", "-2.25", "100", "1e10", "-1e10", "1e-10", "-1e-10", "123456", "3"}) { std::istringstream is(p); T t{}; is >> t; parts.push_back(t); }
  return {name, parts.size() * parts.size(), [=](uint64_t i, seq::Ctx &x) { x.interesting(); x.state(i); round_trip<std::complex<T>>(x, {parts[i / parts.size()], parts[i % parts.size()]}, {T(7), T(7)}); }, [=](uint64_t i) { return name + " " + txt(parts[i / parts.size()]) + ", " + txt(parts[i % parts.size()]); }};
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  sp.push_back({"bool", 2, [](uint64_t i, seq::Ctx &x) { x.interesting(); x.state(i); round_trip<bool>(x, i, !i, i ? "true" : "false"); }, [](uint64_t i) { return i ? "true" : "false"; }});
  sp.push_back(all_of<int8_t>("int8", -128, 127));
  sp.push_back(all_of<uint8_t>("uint8", 0, 255));
  sp.push_back(all_of<int16_t>("int16", -32768, 32767));
  sp.push_back(all_of<uint16_t>("uint16", 0, 65535));
  sp.push_back(edges_of<int>("int"));
  sp.push_back(edges_of<unsigned>("unsigned"));
  sp.push_back(edges_of<long>("long"));
  sp.push_back(edges_of<unsigned long>("unsigned long"));
  sp.push_back(edges_of<long long>("long long"));
  sp.push_back(edges_of<unsigned long long>("unsigned long long"));
  sp.push_back(floats<float>("float", T));
  sp.push_back(floats<double>("double", T));
  sp.push_back(floats<long double>("long double", T));
  sp.push_back(complexes<float>("complex float"));
  sp.push_back(complexes<double>("complex double"));
  sp.push_back(complexes<long double>("complex long double"));
  unsigned L = T ? 6 : 4;
  sp.push_back(vectors<bool>("vector bool", {true, false}, T ? 10 : 7));
  sp.push_back(vectors<int>("vector int", {0, 1, -1, 44, 2147483647, (-2147483647 - 1)}, L));
  sp.push_back(vectors<int8_t>("vector int8", {0, 1, -1, 32, 44, 93, 127, -128}, T ? 5 : 3));
  sp.push_back(vectors<uint8_t>("vector uint8", {0, 1, 32, 44, 91, 255}, T ? 5 : 3));
  sp.push_back(vectors<int16_t>("vector int16", {0, -1, 44, 32767, -32768}, L));
  sp.push_back(vectors<uint16_t>("vector uint16", {0, 44, 65535}, L));
  sp.push_back(vectors<unsigned>("vector unsigned", {0, 44, 4294967295u}, L));
  sp.push_back(vectors<long>("vector long", {0, -5, std::numeric_limits<long>::max(), std::numeric_limits<long>::min()}, L));
  sp.push_back(vectors<unsigned long>("vector unsigned long", {0, std::numeric_limits<unsigned long>::max()}, L));
  sp.push_back(vectors<long long>("vector long long", {0, -5, std::numeric_limits<long long>::max()}, L));
  sp.push_back(vectors<unsigned long long>("vector unsigned long long", {0, 7, std::numeric_limits<unsigned long long>::max()}, L));
  sp.push_back(vectors<float>("vector float", {0, 0.5f, -1.25f, 1e10f, 1e-10f}, L));
  sp.push_back(vectors<double>("vector double", {0, 0.5, -1.25, 1e100, 1e-100}, L));
  sp.push_back(vectors<long double>("vector long double", {0, 0.5L, -1.25L, 1e100L}, L));
  sp.push_back(vectors<string>("vector string", {"a", "bc", "d e", "1", "-", "x=y"}, L));
  // texts: every string over characters that matter
  string al = "a \"'\\,[\n\t=#";
  unsigned tl = T ? 6 : 4;
  auto str = [=](uint64_t i) { string s; for (int d : seq::word_at(i, al.size(), 0, tl)) s += al[(size_t) d]; return s; };
  sp.push_back({"text", seq::words_count(al.size(), 0, tl), [=](uint64_t i, seq::Ctx &x) {
                  string s = str(i);
                  x.interesting(); x.state(i);
                  round_trip<string>(x, s, "other");
                  std::ostringstream q;
                  q << std::quoted(s);
                  x.eq("text", "printing '" + s + "'", q.str(), variable{s}.as_string());
                  variable lit{s.c_str()}; // a C string prints alike and reads as a text
                  x.eq("text", "printing C string '" + s + "'", q.str(), lit.as_string());
                  variable back = parse<char const *>("other", q.str());
                  x.eq("value", "C string printed as " + q.str(), s, string(back.as<char const *>()));
                  if (s.empty() || (s[0] != '"' && s[0] != '\'')) { // plain texts are taken as they are
                    x.eq("plain", "reading the plain text '" + s + "'", s, parse<string>("other", s).as<string>());
                    x.eq("plain", "reading the plain text '" + s + "' for a C string", s, string(parse<char const *>("other", s).as<char const *>()));
                  }
                  if (s.find_first_of("'\\") == string::npos) x.eq("quoted", "reading the quoted text '" + s + "'", s, parse<string>("other", "'" + s + "'").as<string>());
                  if (s.find_first_of("\"\\") == string::npos) x.eq("quoted", "reading the quoted text \"" + s + "\"", s, parse<string>("other", "\"" + s + "\"").as<string>());
                }, [=](uint64_t i) { return "text '" + str(i) + "'"; }});
  // the documented words for booleans in every mixture of cases, followed by nothing or by something else
  vector<std::pair<string, bool>> words{{"1", true}, {"t", true}, {"y", true}, {"true", true}, {"yes", true}, {"on", true}, {"0", false}, {"f", false}, {"n", false}, {"false", false}, {"no", false}, {"off", false}};
  sp.push_back({"bool-words", words.size() * 32 * 2 * 3, [=](uint64_t i, seq::Ctx &x) {
                  seq::Digits d(i);
                  auto w = words[d.take(words.size())];
                  unsigned cs = (unsigned) d.take(32);
                  bool init = d.take(2);
                  string tail = vector<string>{"", " ", " x"}[d.v];
                  for (size_t k = 0; k < w.first.size(); k++) if (cs >> k & 1) w.first[k] = (char) toupper(w.first[k]);
                  x.step(); x.interesting(); x.state(i);
                  auto v = parse<bool>(init, w.first + tail);
                  x.check("bool-word", "'" + w.first + tail + "' is read as " + v.as_string(), v.as<bool>() == w.second);
                }, [=](uint64_t i) { return "bool word #" + to_string(i); }});
  return seq::run(argc, argv, "V01", sp, "all small integers, integers around every power of two, decimal numbers of up to six digits, all texts over quoting-relevant characters, all short arrays: printed and read back; all boolean words in all cases");
}
