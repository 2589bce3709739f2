// Locale and stream support: the stream templates themselves are the real libstdc++ headers.
#include "tc_prim.h"
#include <iostream>
#include <locale>
#include <sstream>
#include <iomanip>
#include <istream>
#include <cstring>
#include <cctype>
#include <new>
#include <climits>
#include <ext/stdio_filebuf.h>

// text written to cout / cerr, visible to harnesses
extern "C" { size_t vf_out_count[2]; char vf_out_text[2][512]; }
namespace {
struct outbuf : std::streambuf {
  int k; explicit outbuf(int i) : k(i) {}
  int overflow(int c) override { if (c != EOF) { if (vf_out_count[k] < 511) vf_out_text[k][vf_out_count[k]] = (char)c; vf_out_count[k]++; } return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; i++) { if (vf_out_count[k] < 511) vf_out_text[k][vf_out_count[k]] = s[i]; vf_out_count[k]++; } return n; }
};
}
namespace std {
// ---- ctype<char>
locale::id ctype<char>::id;
const size_t ctype<char>::table_size;
static ctype_base::mask tc_tab[256]; static bool tc_tab_ok;
const ctype_base::mask ctype_base::space, ctype_base::print, ctype_base::cntrl, ctype_base::upper, ctype_base::lower, ctype_base::alpha, ctype_base::digit, ctype_base::punct, ctype_base::xdigit, ctype_base::alnum, ctype_base::graph, ctype_base::blank;
const ctype_base::mask* ctype<char>::classic_table() noexcept {
  if (!tc_tab_ok) { for (int c = 0; c < 128; c++) { int m = 0; if (::isspace(c)) m |= space; if (::isprint(c)) m |= print; if (::iscntrl(c)) m |= cntrl; if (::isupper(c)) m |= upper; if (::islower(c)) m |= lower; if (::isalpha(c)) m |= alpha; if (::isdigit(c)) m |= digit; if (::ispunct(c)) m |= punct; if (::isxdigit(c)) m |= xdigit; if (::isblank(c)) m |= blank; tc_tab[c] = m; } tc_tab_ok = true; }
  return tc_tab;
}
ctype<char>::ctype(const mask* t, bool d, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : classic_table()), _M_widen_ok(1), _M_narrow_ok(0) { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; memset(_M_narrow, 0, sizeof _M_narrow); }
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* b, const char* e) const { for (; b < e; b++) *b = do_toupper(*b); return e; }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* b, const char* e) const { for (; b < e; b++) *b = do_tolower(*b); return e; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
// ---- facets and locales
locale::facet::~facet() {}
static size_t tc_ids;
// the locale's own names and formats of dates are not modelled (%a, %b, %c, %x, ... of the C locale)
typedef istreambuf_iterator<char> II; typedef ostreambuf_iterator<char> OI;
template <> locale::id time_put<char>::id; template <> locale::id time_get<char>::id;
template <> OI time_put<char>::do_put(OI o, ios_base&, char, const tm*, char, char) const { __tc_unsupported("time_put"); return o; }
template <> time_base::dateorder time_get<char>::do_date_order() const { return time_base::no_order; }
template <> II time_get<char>::do_get_time(II b, II, ios_base&, ios_base::iostate&, tm*) const { __tc_unsupported("time_get"); return b; }
template <> II time_get<char>::do_get_date(II b, II, ios_base&, ios_base::iostate&, tm*) const { __tc_unsupported("time_get"); return b; }
template <> II time_get<char>::do_get_weekday(II b, II, ios_base&, ios_base::iostate&, tm*) const { __tc_unsupported("time_get"); return b; }
template <> II time_get<char>::do_get_monthname(II b, II, ios_base&, ios_base::iostate&, tm*) const { __tc_unsupported("time_get"); return b; }
template <> II time_get<char>::do_get_year(II b, II, ios_base&, ios_base::iostate&, tm*) const { __tc_unsupported("time_get"); return b; }
template <> II time_get<char>::do_get(II b, II, ios_base&, ios_base::iostate&, tm*, char, char) const { __tc_unsupported("time_get"); return b; }
template <> II time_get<char>::get(II b, II, ios_base&, ios_base::iostate&, tm*, const char*, const char*) const { __tc_unsupported("time_get"); return b; }
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++tc_ids; return _M_index - 1; }
static constexpr size_t NF = 48;
static void* tc_impl_mem;
struct tc_impl { _Atomic_word ref; const locale::facet** facets; size_t n; const locale::facet** caches; char** names; };
template <class F> static void put(locale::_Impl* i, F* f) { i->_M_facets[F::id._M_id()] = f; }
static locale::_Impl* classic_impl() {
  if (tc_impl_mem) return (locale::_Impl*)tc_impl_mem;
  auto* p = (locale::_Impl*)__tc_static_alloc(sizeof(locale::_Impl)); tc_impl_mem = p; p->_M_refcount = 1; p->_M_facets = (const locale::facet**)__tc_static_alloc(NF * 8); p->_M_caches = (const locale::facet**)__tc_static_alloc(NF * 8); p->_M_facets_size = NF; p->_M_names = nullptr;
  put(p, new (__tc_static_alloc(sizeof(ctype<char>))) ctype<char>(nullptr, false, 1));
  put(p, new (__tc_static_alloc(sizeof(numpunct<char>))) numpunct<char>(1));
  put(p, new (__tc_static_alloc(sizeof(num_put<char>))) num_put<char>(1));
  put(p, new (__tc_static_alloc(sizeof(num_get<char>))) num_get<char>(1));
  put(p, new (__tc_static_alloc(sizeof(time_put<char>))) time_put<char>(1));
  put(p, new (__tc_static_alloc(sizeof(time_get<char>))) time_get<char>(1));
  return p;
}
void locale::_Impl::_M_install_cache(const facet* c, size_t i) { if (!_M_caches[i]) _M_caches[i] = c; else delete c; }
locale::locale() throw() : _M_impl(classic_impl()) {}
locale::locale(_Impl* i) throw() : _M_impl(i) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
const locale& locale::classic() { static locale* l; if (!l) l = new (__tc_static_alloc(sizeof(locale))) locale(classic_impl()); return *l; }
string locale::name() const { return "C"; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
  if (!_M_data) _M_data = new (__tc_static_alloc(sizeof(__numpunct_cache<char>))) __numpunct_cache<char>;
  _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false; _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
  for (size_t i = 0; i < __num_base::_S_oend; i++) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
  for (size_t i = 0; i < __num_base::_S_iend; i++) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
  _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5;
}
template <> numpunct<char>::~numpunct() {}
void __num_base::_S_format_float(const ios_base&, char*, char) throw() { __tc_unsupported("floating point output"); }
template <> void __convert_to_v(const char*, float&, ios_base::iostate&, const __c_locale&) throw() { __tc_unsupported("floating point input"); }
template <> void __convert_to_v(const char*, double&, ios_base::iostate&, const __c_locale&) throw() { __tc_unsupported("floating point input"); }
template <> void __convert_to_v(const char*, long double&, ios_base::iostate&, const __c_locale&) throw() { __tc_unsupported("floating point input"); }
bool __verify_grouping(const char*, size_t, const string&) throw() { return true; }
static __c_locale tc_cloc; __c_locale locale::facet::_S_get_c_locale() { return tc_cloc; }
// ---- ios_base
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
ios_base::Init::Init() {} ios_base::Init::~Init() {}
void ios_base_library_init(void) {}
template class basic_streambuf<char>; template class basic_ios<char>; template class basic_ostream<char>; template class basic_istream<char>; template class num_put<char>; template class num_get<char>;
template class basic_stringbuf<char>; template class basic_ostringstream<char>; template class basic_istringstream<char>; template class basic_stringstream<char>;
template ostream& operator<<(ostream&, const char*); template ostream& operator<<(ostream&, char); template ostream& operator<<(ostream&, const string&); template ostream& endl(ostream&); template ostream& flush(ostream&); template istream& operator>>(istream&, string&); template istream& ws(istream&);
template <> istream& getline(istream& in, string& str, char d) {   // [string.io]: an explicit specialisation inside libstdc++
  ios_base::iostate err = ios_base::goodbit; size_t n = 0; istream::sentry ok(in, true);
  if (ok) {
    str.erase(); int c = in.rdbuf()->sgetc();
    while (c != EOF && (char)c != d) { str += (char)c; ++n; c = in.rdbuf()->snextc(); }
    if (c == EOF) err |= ios_base::eofbit; else { ++n; in.rdbuf()->sbumpc(); }
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err); return in;
}
}
static outbuf tc_outbuf __attribute__((init_priority(101)))(0), tc_errbuf __attribute__((init_priority(101)))(1);
namespace std {
ostream cout __attribute__((init_priority(102)))(&tc_outbuf); ostream cerr __attribute__((init_priority(102)))(&tc_errbuf); ostream clog __attribute__((init_priority(102)))(&tc_errbuf);
}
