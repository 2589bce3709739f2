// C38..C42: command-line parsing.
#include "vf.h"
#include <teiacare/sdk/argparse/argument_parser.hpp>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
using tc::sdk::argument_parser; using tc::sdk::parse_result;

namespace {
// arbitrary command-line text: n bytes, none of them zero
std::string word(size_t n, const char* name) { std::string s = vf::text(n, name); for (size_t i = 0; i < n; i++) ASSUME(s[i] != 0); return s; }
// arbitrary text over the characters that matter to the grammar
std::string grammar_word(size_t n, const char* name) {
  std::string s = word(n, name); for (size_t i = 0; i < n; i++) { const char c = s[i]; ASSUME((c == '-') | (c == '=') | (c == 'a') | (c == 'b') | (c == 'f') | (c == '7')); } return s;
}
parse_result run(const argument_parser& p, std::vector<std::string> args) {
  static char prog[] = "prog"; char* argv[12] = {prog}; int n = 1; for (auto& a : args) argv[n++] = a.data(); argv[n] = nullptr; return p.parse(n, argv);
}
bool all_digits(const std::string& s, size_t from) { if (from >= s.size()) return false; for (size_t i = from; i < s.size(); i++) if (!vf::is_digit(s[i])) return false; return true; }

// What a command line means: an independent reading of the statement, for string-valued options.
struct decl { const char* lng; const char* sht; };
struct meaning { parse_result r = parse_result::success; std::vector<std::string> opt, pos; std::vector<bool> optset, flag; };
bool same(const std::string& s, size_t b, size_t e, const char* t) { const size_t n = std::strlen(t); if (!n || e - b != n) return false; for (size_t i = 0; i < n; i++) if (s[b + i] != t[i]) return false; return true; }
meaning read(const std::vector<std::string>& args, const std::vector<decl>& opts, const std::vector<decl>& flags, size_t npos) {
  meaning m; m.opt.resize(opts.size()); m.optset.resize(opts.size()); m.flag.resize(flags.size());
  for (size_t i = 0; i < args.size(); i++) {
    const std::string& a = args[i];
    if (a.empty() || a[0] != '-') { if (m.pos.size() == npos) { m.r = parse_result::error; return m; } m.pos.push_back(a); continue; }
    size_t b = 1; if (a.size() > 1 && a[1] == '-') b = 2;
    size_t e = b; while (e < a.size() && a[e] != '=') e++;
    if (e == b || a[b] == '-') { m.r = parse_result::error; return m; }
    if (same(a, b, e, "help") || same(a, b, e, "h") || same(a, b, e, "version") || same(a, b, e, "v")) { m.r = parse_result::quit; return m; }
    bool known = false;
    for (size_t k = 0; k < opts.size() && !known; k++) if (same(a, b, e, opts[k].lng) || same(a, b, e, opts[k].sht)) {
      known = true;
      if (e + 1 < a.size()) m.opt[k] = a.substr(e + 1);
      else if (i + 1 < args.size()) m.opt[k] = args[++i];
      else { m.r = parse_result::error; return m; }
      m.optset[k] = true;
    }
    for (size_t k = 0; k < flags.size() && !known; k++) if (same(a, b, e, flags[k].lng) || same(a, b, e, flags[k].sht)) { known = true; m.flag[k] = true; }
    if (!known) { m.r = parse_result::error; return m; }
  }
  if (m.pos.size() != npos) m.r = parse_result::error;
  return m;
}
// a parser with two string options and two flags, one of each without a short name, and npos string positionals
struct sample {
  argument_parser p{"prog", "1", "d"};
  std::string opt[2], pos[2]; bool flag[2] = {false, false}; size_t npos;
  explicit sample(size_t n) : npos(n) {
    p.add_option("ab", 'a', opt[0], std::string("A0")); p.add_option("ba", opt[1], std::string("B0"));
    p.add_flag("ff", 'f', flag[0]); p.add_flag("fa", flag[1]);
    for (size_t i = 0; i < n; i++) p.add_positional(i ? "p1" : "p0", pos[i]);
  }
  meaning expect(const std::vector<std::string>& a) const { return read(a, {{"ab", "a"}, {"ba", ""}}, {{"ff", "f"}, {"fa", ""}}, npos); }
  void agrees(const std::vector<std::string>& args) {
    const meaning m = expect(args); const parse_result r = run(p, args);
    CHECK(r == m.r, "the result is what the command line means");
    if (r == parse_result::success) {
      CHECK(opt[0] == (m.optset[0] ? m.opt[0] : "A0") && opt[1] == (m.optset[1] ? m.opt[1] : "B0"), "each option holds what was written for it, or its default");
      for (size_t i = 0; i < npos; i++) CHECK(pos[i] == m.pos[i], "positionals are assigned in order of declaration");
      COVER("success");
    } else { COVER("no-success"); }
    if (r != parse_result::error) CHECK(flag[0] == m.flag[0] && flag[1] == m.flag[1], "a flag is set exactly if it was given");
    if (r == parse_result::quit) CHECK(opt[0] == (m.optset[0] ? m.opt[0] : "A0") && opt[1] == (m.optset[1] ? m.opt[1] : "B0"), "nothing written after the request is assigned");
  }
};
}

// ------------------------------------------------------------------ C38, C39
//@ C38,C39 H_args_one split=101:0..1;102:0..5 tsplit=101:0..1;102:0..7 | one argument of any bytes, quick up to 5 bytes, thorough up to 7; parser with two options, two flags and 0 or 1 positionals
ENTRY(H_args_one) { sample s(vf::param(0)); s.agrees({word(vf::param(1), "arg")}); }
//@ C38,C39 H_args_two split=101:0..4;102:0..3 tsplit=101:0..5;102:0..4 | two arguments over the characters - = a b f 7, quick up to 4 and 3 characters, thorough 5 and 4
ENTRY(H_args_two) { sample s(1); s.agrees({grammar_word(vf::param(0), "arg0"), grammar_word(vf::param(1), "arg1")}); }
//@ C38,C39 H_args_long split=101:0..4 | a declared option or flag by its long or short name, joined to its value or not, then one of five words, then one or two words of two characters; two positionals
ENTRY(H_args_long) {
  static const char* const first[] = {"-a", "--ab", "--ab=x", "-a=x", "--ba", "--ba=yy", "--ff", "-f", "--fa", "-x", "x"};
  static const char* const second[] = {"-a", "--ab=q=r", "--fa", "w", "-a=--fa"};
  sample s(2); std::vector<std::string> a{first[vf::choose(11, "first")], second[vf::param(0)], grammar_word(2, "arg2")};
  if (vf::choose(2, "more")) a.push_back(grammar_word(2, "arg3"));
  s.agrees(a);
}
//@ C38 H_args_required split=101:0..2 | a required option without a short name, a required option with one, and a positional; one or two arguments of up to 3 grammar characters plus each required one possibly given
ENTRY(H_args_required) {
  argument_parser p("prog", "1"); std::string x, y, pos; p.add_option("ab", x, std::string("d"), "", true); p.add_option("ba", 'f', y, std::string("e"), "", true); p.add_positional("pos", pos);
  std::vector<std::string> a; const int which = vf::choose(8, "given");
  if (which & 1) a.push_back("--ab=1"); if (which & 2) { a.push_back("-f"); a.push_back("2"); } if (which & 4) a.push_back("p");
  a.push_back(grammar_word(1 + vf::param(0), "arg"));
  const meaning m = read(a, {{"ab", ""}, {"ba", "f"}}, {}, 1); const parse_result r = run(p, a);
  const bool ok = m.r == parse_result::success && m.optset[0] && m.optset[1];
  CHECK((r == parse_result::success) == ok, "success exactly when every required argument was given and nothing was wrong");
  CHECK(r == parse_result::success || r == parse_result::error, "no quit without a request");
  if (ok) { CHECK(x == m.opt[0] && y == m.opt[1] && pos == m.pos[0], "and the values are those given"); COVER("ok"); } else { COVER("error"); }
}
//@ C38 H_args_count | argument counts 0 and 1, with and without required arguments
ENTRY(H_args_count) {
  const int argc = vf::choose(2, "argc"), req = vf::choose(2, "required"); argument_parser p("prog", "1"); std::string pos; if (req) p.add_positional("pos", pos);
  static char prog[] = "prog"; char* argv[2] = {prog, nullptr}; const parse_result r = p.parse(argc, argv);
  CHECK(r != parse_result::quit, "no quit without a request"); if (argc == 1) CHECK(r == (req ? parse_result::error : parse_result::success), "an empty command line succeeds exactly if nothing is required"); else if (req) CHECK(r == parse_result::error, "required argument missing");
  COVER("done");
}

// ------------------------------------------------------------------ C40
//@ C38,C40 H_env_option split=101:0..3 tsplit=101:0..4 | an integer option bound to a variable set to any text of up to 3 bytes (thorough 4) or unset; the command line mentions it or not; required or not
ENTRY(H_env_option) {
  static std::string env; env = word(vf::param(0), "env"); const int set = vf::choose(2, "set"), given = vf::choose(2, "given"), req = vf::choose(2, "required");
  if (set) vf_setenv("VF_N", env.c_str());
  argument_parser p("prog", "1"); int n = 5, other = 6; p.add_option("num", 'n', n, 41, "", req != 0, "VF_N"); p.add_option("oth", 'o', other, 17, "", false, "VF_UNSET");
  const parse_result r = run(p, given ? std::vector<std::string>{"-n", "12"} : std::vector<std::string>{});
  size_t b = 0; while (b < env.size() && (env[b] == ' ' || (env[b] >= '\t' && env[b] <= '\r'))) b++;
  bool neg = false; if (b < env.size() && (env[b] == '-' || env[b] == '+')) { neg = env[b] == '-'; b++; }
  bool number = b < env.size() && vf::is_digit(env[b]); int v = 0; for (size_t i = b; i < env.size() && vf::is_digit(env[i]); i++) v = v * 10 + (env[i] - '0'); if (neg) v = -v;
  if (set && !number) { CHECK(r == parse_result::error, "a malformed environment value yields an error"); COVER("malformed"); return; }
  if (req && !set && !given) { CHECK(r == parse_result::error, "a required option nobody gave yields an error"); COVER("missing"); return; }
  CHECK(r == parse_result::success, "a well-formed environment value satisfies the option");
  CHECK(n == (given ? 12 : set ? v : 41), "command line over environment over default"); CHECK(other == 17, "an unset variable leaves the default");
  COVER("success");
}
//@ C40 H_env_string split=101:0..4 tsplit=101:0..6 | a string option and a flag, each bound to a variable set to any text of up to 4 bytes (thorough 6) or unset; the command line mentions either or not
ENTRY(H_env_string) {
  static std::string e1, e2; e1 = word(vf::param(0), "env"); e2 = word(vf::param(0), "envf"); const int s1 = vf::choose(2, "set"), s2 = vf::choose(2, "setf"), g1 = vf::choose(2, "given"), g2 = vf::choose(2, "givenf");
  if (s1) vf_setenv("VF_S", e1.c_str()); if (s2) vf_setenv("VF_F", e2.c_str());
  argument_parser p("prog", "1"); std::string v = "?"; bool f = false, f2 = false; p.add_option("str", 's', v, std::string("dflt"), "", false, "VF_S"); p.add_flag("flag", 'f', f, "", "VF_F"); p.add_flag("quiet", 'q', f2);
  std::vector<std::string> a; if (g1) a.push_back("--str=cmd"); if (g2) a.push_back("--flag");
  const parse_result r = run(p, a);
  CHECK(r == parse_result::success, "environment and command line are both fine");
  CHECK(v == (g1 ? "cmd" : s1 ? e1 : "dflt"), "command line over environment over default"); CHECK(f == (s2 || g2) && !f2, "a flag is set by its variable or the command line");
  COVER("done");
}

// ------------------------------------------------------------------ C41
//@ C41 H_conv_int split=101:0..4 tsplit=101:0..6 | an integer option and any text of up to 4 bytes (thorough 6)
ENTRY(H_conv_int) {
  const std::string t = word(vf::param(0), "text"); argument_parser p("prog", "1"); int n = 0; p.add_option("num", 'n', n, 41);
  const parse_result r = run(p, {"-n", t});
  size_t b = 0; while (b < t.size() && (t[b] == ' ' || (t[b] >= '\t' && t[b] <= '\r'))) b++;
  bool neg = false; if (b < t.size() && (t[b] == '-' || t[b] == '+')) { neg = t[b] == '-'; b++; }
  if (b < t.size() && vf::is_digit(t[b])) { int v = 0; for (size_t i = b; i < t.size() && vf::is_digit(t[i]); i++) v = v * 10 + (t[i] - '0'); CHECK(r == parse_result::success && n == (neg ? -v : v), "the number written"); COVER("number"); }
  else { CHECK(r == parse_result::error && n == 41, "text with no leading number is an error and changes nothing"); COVER("rejected"); }
}
//@ C41 H_conv_int_range split=101:0..1 | a sign and nine to eleven decimal digits, the last three (thorough five) arbitrary and the leading ones those of 2^31
ENTRY(H_conv_int_range) {
  const bool neg = vf::param(0); const int k = vf::thorough() ? 5 : 3, len = 9 + vf::choose(3, "len"); std::string t = neg ? "-" : ""; static const char lead[] = "2147483648"; 
  t += std::string(lead, lead + len - k > lead + 10 ? lead + 10 : lead + len - k); while ((int)t.size() < len - k + (int)neg) t += '0';
  const std::string d = word(k, "digits"); for (char c : d) ASSUME(vf::is_digit(c)); t += d; int64_t v = 0; for (size_t i = neg; i < t.size(); i++) v = v * 10 + (t[i] - '0'); if (neg) v = -v;
  argument_parser p("prog", "1"); int n = 0; p.add_option("num", n, 41); const parse_result r = run(p, {"--num=" + t});
  if (v >= std::numeric_limits<int>::min() && v <= std::numeric_limits<int>::max()) { CHECK(r == parse_result::success && n == v, "a value in range is taken exactly"); COVER("in"); }
  else { CHECK(r == parse_result::error && n == 41, "a value out of range is an error and changes nothing"); COVER("out"); }
}
//@ C41 H_conv_generic split=101:0..4;102:0..1 | long long and short options and any text of up to 4 bytes
ENTRY(H_conv_generic) {
  const std::string t = word(vf::param(0), "text"); for (char c : t) ASSUME(c != ' ' && !(c >= '\t' && c <= '\r'));
  argument_parser p("prog", "1"); long long n = 0; short h = 0; p.add_option("num", 'n', n, 41LL); p.add_option("sho", 's', h, (short)42);
  const bool sh = vf::param(1); const parse_result r = run(p, {sh ? "-s" : "-n", t});
  size_t b = 0; if (!t.empty() && (t[0] == '-' || t[0] == '+')) b = 1;
  if (all_digits(t, b)) { long long v = 0; for (size_t i = b; i < t.size(); i++) v = v * 10 + (t[i] - '0'); if (b && t[0] == '-') v = -v; CHECK(r == parse_result::success && (sh ? h == v && n == 41 : n == v && h == 42), "the number written"); COVER("number"); }
  else { CHECK(r == parse_result::error && n == 41 && h == 42, "text that is not a number is an error and changes nothing"); COVER("rejected"); }
}
//@ C41 H_conv_short_range | five-digit numbers with a sign into a short
ENTRY(H_conv_short_range) {
  const bool neg = vf::choose(2, "neg"); std::string t = neg ? "-" : ""; const std::string d = word(5, "digits"); for (char c : d) ASSUME(vf::is_digit(c)); ASSUME(d[0] == '3' && d[1] == '2'); t += d;
  int v = 0; for (char c : d) v = v * 10 + (c - '0'); if (neg) v = -v; argument_parser p("prog", "1"); short h = 0; p.add_option("sho", 's', h, (short)42); const parse_result r = run(p, {"-s=" + t});
  if (v >= -32768 && v <= 32767) { CHECK(r == parse_result::success && h == v, "a value in range is taken exactly"); COVER("in"); } else { CHECK(r == parse_result::error && h == 42, "a value out of range is an error and changes nothing"); COVER("out"); }
}
//@ C41 H_conv_char_bool split=101:0..3 | a character and a boolean option and any text of up to 3 bytes
ENTRY(H_conv_char_bool) {
  const std::string t = word(vf::param(0), "text"); for (char c : t) ASSUME(c != ' ' && !(c >= '\t' && c <= '\r')); argument_parser p("prog", "1"); char c = 0; bool b = false; p.add_option("chr", 'c', c, '?'); p.add_option("boo", 'b', b, false);
  if (vf::choose(2, "which")) { const parse_result r = run(p, {"-c", t}); if (t.size() == 1) { CHECK(r == parse_result::success && c == t[0], "the character written"); } else { CHECK(r == parse_result::error && c == '?', "anything but one character is an error"); } COVER("char"); }
  else { const parse_result r = run(p, {"-b", t}); if (t == "0" || t == "1") { CHECK(r == parse_result::success && b == (t == "1"), "the boolean written"); } else if (!all_digits(t, 0) && !(t.size() > 1 && (t[0] == '+' || t[0] == '-'))) { CHECK(r == parse_result::error && !b, "not a boolean"); } COVER("bool"); }
}
//@ C41 H_conv_list split=101:0..4;102:0..1 tsplit=101:0..5;102:0..1 | lists of strings and of integers, any text over digits, comma, x and minus of up to 4 characters (thorough 5)
ENTRY(H_conv_list) {
  const std::string t = word(vf::param(0), "text"); for (char c : t) ASSUME(vf::is_digit(c) | (c == ',') | (c == 'x') | (c == '-'));
  std::vector<std::string> items; for (size_t i = 0; i < t.size();) { size_t e = i; while (e < t.size() && t[e] != ',') e++; items.push_back(t.substr(i, e - i)); i = e + 1; }
  argument_parser p("prog", "1"); std::vector<std::string> vs; std::vector<int> vi; const std::vector<int> di{9}; p.add_positional("first", vs); if (vf::param(1)) p.add_option("list", 'l', vi, di);
  if (!vf::param(1)) { if (!t.empty() && t[0] == '-') return; const parse_result r = run(p, {t}); CHECK(r == parse_result::success && vs == items, "the items between the commas, in order"); COVER("strings"); return; }
  const parse_result r = run(p, {"s", "--list", t}); bool ok = true; std::vector<int> want;
  for (auto& s : items) { size_t b = !s.empty() && s[0] == '-'; if (b >= s.size() || !vf::is_digit(s[b])) { ok = false; break; } int v = 0; for (size_t i = b; i < s.size() && vf::is_digit(s[i]); i++) v = v * 10 + (s[i] - '0'); want.push_back(b ? -v : v); }
  if (ok) { CHECK(r == parse_result::success && vi == want, "the integers between the commas, in order"); COVER("ints"); } else { CHECK(r == parse_result::error && vi == di, "an item that is no integer is an error and changes nothing"); COVER("rejected"); }
}
//@ C41 H_conv_validator | a validator accepting any interval of integers, three decimal digits given, twice
ENTRY(H_conv_validator) {
  const int lo = vf::range(0, 999, "lo"), hi = vf::range(0, 999, "hi"); argument_parser p("prog", "1"); int n = 0, calls = 0;
  auto o = std::make_unique<tc::sdk::optional_argument<int>>("num", 'n', n, 1000); o->set_validator([&](const int& v) { calls++; return v >= lo && v <= hi; }); p.add_option(std::move(o));
  const std::string d1 = word(3, "d1"), d2 = word(3, "d2"); for (char c : d1 + d2) ASSUME(vf::is_digit(c)); auto val = [](const std::string& d) { return (d[0] - '0') * 100 + (d[1] - '0') * 10 + (d[2] - '0'); };
  const int v1 = val(d1), v2 = val(d2); const parse_result r = run(p, {"-n", d1, "--num=" + d2}); const bool ok1 = v1 >= lo && v1 <= hi, ok2 = v2 >= lo && v2 <= hi;
  CHECK((r == parse_result::success) == (ok1 && ok2), "success exactly if every value passes the validator"); CHECK(n == (!ok1 ? 1000 : !ok2 ? v1 : v2), "a rejected value is not assigned"); COVER("done");
}

// ------------------------------------------------------------------ C42
//@ C42,C39 H_quit split=101:0..3 | a help or version request in each form, after nothing, a flag, an option with value or a joined option, and before any argument of up to 3 grammar characters
ENTRY(H_quit) {
  static const char* const req[] = {"--help", "-h", "--version", "-v"}; static const char* const pre[] = {"", "--ff", "-a", "--ba=yy"};
  sample s(0); std::vector<std::string> a; const int k = vf::choose(4, "before"); if (k) a.push_back(pre[k]); if (k == 2) a.push_back("val"); a.push_back(req[vf::param(0)]); a.push_back(grammar_word(3, "after")); a.push_back("-a"); a.push_back("late");
  const size_t before = vf_out_count[0]; const parse_result r = run(s.p, a);
  CHECK(r == parse_result::quit, "a help or version request quits"); CHECK(vf_out_count[0] > before, "and prints to standard output");
  CHECK(s.opt[0] == (k == 2 ? "val" : "A0") && s.opt[1] == (k == 3 ? "yy" : "B0") && s.flag[0] == (k == 1) && !s.flag[1], "nothing after the request is assigned"); COVER("done");
}
//@ C42 H_quit_only split=101:0..7 tsplit=101:0..9 | one argument starting with a dash, any bytes after it, up to 7 bytes (thorough 9): quit exactly for the four request names
ENTRY(H_quit_only) {
  std::string t = word(vf::param(0), "arg"); argument_parser p("prog", "1"); t = "-" + t; const parse_result r = run(p, {t});
  const size_t b = t.size() > 1 && t[1] == '-' ? 2 : 1; size_t e = b; while (e < t.size() && t[e] != '=') e++;
  const bool want = same(t, b, e, "help") || same(t, b, e, "h") || same(t, b, e, "version") || same(t, b, e, "v");
  CHECK((r == parse_result::quit) == want, "quit exactly if help or version was requested"); CHECK(want || r == parse_result::error, "anything else is unknown here"); COVER("done");
}
