// Runtime library for the symbolic executor, part 2: models of the compiled part of libstdc++/libc.
// Compiled with -fno-access-control.  Functions whose asm name starts with "vm$" replace the function
// of that name even when it has a body.
#include <string>
#include <istream>
#include <ostream>
#include <sstream>
#include <fstream>
#include <iostream>
#include <map>
#include <list>
#include <new>
#include <stdexcept>
#include <system_error>
#include <functional>
#include <unordered_map>
#include <typeinfo>
#include <cstring>
#include <cstdint>
#include <cfloat>
#include <climits>
#include <cstdarg>
#include <charconv>
#include <cstdio>
typedef uint64_t u64;
typedef int64_t i64;
extern "C" {
int vm_is_sym(u64);
int vm_same(u64, u64);
int vm_ident(u64, u64);
u64 vm_resolve(u64);
u64 vm_havoc();
void vm_approx();
int vm_fmt_double(char*, size_t, u64, int, int);
int vm_strtod(const char*, double*);
void vm_error(const char*);
u64 vm_round(u64, int, int);
int vm_errno;
char __libc_single_threaded = 1;
}
static inline u64 dbits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline double bitsd(u64 b) { double d; memcpy(&d, &b, 8); return d; }

// ---------------------------------------------------------------- locale / ctype
alignas(std::ctype<char>) static unsigned char ctype_storage[sizeof(std::ctype<char>)];
static const std::ctype<char>* the_ctype() { return reinterpret_cast<const std::ctype<char>*>(ctype_storage); }
static void ctype_setup() {
    auto* c = reinterpret_cast<std::ctype<char>*>(ctype_storage);
    c->_M_widen_ok = 1; c->_M_narrow_ok = 0;
    for (int i = 0; i < 256; i++) { c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i; }
}
static inline bool isspace_(char ch) { unsigned char u = (unsigned char)ch; return (bool)((int)(u == 32) | (int)((unsigned char)(u - 9) < 5)); }
bool ctype_is(const std::ctype<char>*, std::ctype_base::mask m, char ch) asm("vm$_ZNKSt5ctypeIcE2isEtc");
bool ctype_is(const std::ctype<char>*, std::ctype_base::mask m, char ch) {
    if (m == std::ctype_base::space) return isspace_(ch);
    unsigned char u = (unsigned char)ch; bool r = false;
    if (m & std::ctype_base::space) r |= isspace_(ch);
    if ((m & std::ctype_base::digit) == std::ctype_base::digit) r |= (unsigned char)(u - '0') < 10;
    if ((m & std::ctype_base::upper) == std::ctype_base::upper) r |= (unsigned char)(u - 'A') < 26;
    if ((m & std::ctype_base::lower) == std::ctype_base::lower) r |= (unsigned char)(u - 'a') < 26;
    if ((m & ~(std::ctype_base::space | std::ctype_base::digit | std::ctype_base::alpha)) != 0) vm_error("ctype mask");
    return r;
}
char ctype_narrow(const std::ctype<char>*, char c, char) asm("vm$_ZNKSt5ctypeIcE6narrowEcc");
char ctype_narrow(const std::ctype<char>*, char c, char) { return c; }
char ctype_toupper(const std::ctype<char>*, char c) asm("vm$_ZNKSt5ctypeIcE7toupperEc");
char ctype_toupper(const std::ctype<char>*, char c) { return (unsigned char)(c - 'a') < 26 ? c - 32 : c; }
char ctype_tolower(const std::ctype<char>*, char c) asm("vm$_ZNKSt5ctypeIcE7tolowerEc");
char ctype_tolower(const std::ctype<char>*, char c) { return (unsigned char)(c - 'A') < 26 ? c + 32 : c; }
extern "C" int isspace(int c) { return (int)(c == 32) | (int)((unsigned)(c - 9) < 5); }
extern "C" int isdigit(int c) { return (unsigned)(c - '0') < 10; }
extern "C" int isalpha(int c) { return (int)((unsigned)(c - 'a') < 26) | (int)((unsigned)(c - 'A') < 26); }
extern "C" int isalnum(int c) { return isalpha(c) | isdigit(c); }
extern "C" int toupper(int c) { return (unsigned)(c - 'a') < 26 ? c - 32 : c; }
extern "C" int tolower(int c) { return (unsigned)(c - 'A') < 26 ? c + 32 : c; }
void ctype_winit(const std::ctype<char>*) asm("_ZNKSt5ctypeIcE13_M_widen_initEv");
void ctype_winit(const std::ctype<char>*) {}
namespace std {
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale&) throw() : _M_impl(nullptr) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
size_t locale::id::_M_id() const throw() { return 0; }
const locale& locale::classic() { static locale l; return l; }
}
const std::ctype<char>* tuf_ct(const std::locale&) asm("_ZSt15__try_use_facetISt5ctypeIcEEPKT_RKSt6locale");
const std::ctype<char>* tuf_ct(const std::locale&) { return the_ctype(); }
const std::ctype<char>& uf_ct(const std::locale&) asm("_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale");
const std::ctype<char>& uf_ct(const std::locale&) { return *the_ctype(); }
const void* tuf_ng(const std::locale&) asm("_ZSt15__try_use_facetISt7num_getIcSt19istreambuf_iteratorIcSt11char_traitsIcEEEEPKT_RKSt6locale");
const void* tuf_ng(const std::locale&) { return nullptr; }
const void* tuf_np(const std::locale&) asm("_ZSt15__try_use_facetISt7num_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEEEPKT_RKSt6locale");
const void* tuf_np(const std::locale&) { return nullptr; }
static char codecvt_storage[64];
const void* tuf_cc(const std::locale&) asm("_ZSt15__try_use_facetISt7codecvtIcc11__mbstate_tEEPKT_RKSt6locale");
const void* tuf_cc(const std::locale&) { return codecvt_storage; }
const void* tuf_cc2(const std::locale&) asm("vm$_ZSt15__try_use_facetISt7codecvtIcc11__mbstate_tEEPKT_RKSt6locale");
const void* tuf_cc2(const std::locale&) { return codecvt_storage; }
const void* uf_cc(const std::locale&) asm("vm$_ZSt9use_facetISt7codecvtIcc11__mbstate_tEERKT_RKSt6locale");
const void* uf_cc(const std::locale&) { return codecvt_storage; }
bool hf_cc(const std::locale&) asm("vm$_ZSt9has_facetISt7codecvtIcc11__mbstate_tEEbRKSt6locale");
bool hf_cc(const std::locale&) { return true; }
bool cc_noconv(const void*) asm("vm$_ZNKSt23__codecvt_abstract_baseIcc11__mbstate_tE13always_noconvEv");
bool cc_noconv(const void*) { return true; }
int cc_enc(const void*) asm("vm$_ZNKSt23__codecvt_abstract_baseIcc11__mbstate_tE8encodingEv");
int cc_enc(const void*) { return 1; }
int cc_maxlen(const void*) asm("vm$_ZNKSt23__codecvt_abstract_baseIcc11__mbstate_tE10max_lengthEv");
int cc_maxlen(const void*) { return 1; }
std::locale::id codecvt_id asm("_ZNSt7codecvtIcc11__mbstate_tE2idE");

// ---------------------------------------------------------------- ios_base / basic_ios
namespace std {
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
void ios_base::_M_move(ios_base& o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; }
void ios_base::_M_swap(ios_base& o) noexcept { swap(_M_precision, o._M_precision); swap(_M_width, o._M_width); swap(_M_flags, o._M_flags); swap(_M_exception, o._M_exception); swap(_M_streambuf_state, o._M_streambuf_state); }
locale ios_base::imbue(const locale&) throw() { return locale(); }  // one locale only
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
bool uncaught_exception() noexcept { return false; }
}
void ios_init(std::ios* s, std::streambuf* sb) asm("vm$_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E");
void ios_init(std::ios* s, std::streambuf* sb) {
    s->std::ios_base::_M_init(); s->_M_ctype = the_ctype(); s->_M_num_put = nullptr; s->_M_num_get = nullptr;
    s->_M_fill = 0; s->_M_fill_init = false; s->_M_tie = nullptr; s->_M_exception = std::ios_base::goodbit; s->_M_streambuf = sb;
    s->_M_streambuf_state = sb ? std::ios_base::goodbit : std::ios_base::badbit;
}
void ios_cacheloc(std::ios* s, const std::locale&) asm("vm$_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale");
void ios_cacheloc(std::ios* s, const std::locale&) { s->_M_ctype = the_ctype(); s->_M_num_put = nullptr; s->_M_num_get = nullptr; }

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static const char* dupstr(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = dupstr("", 0); }
__cow_string::__cow_string(const string& s) { _M_p = dupstr(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dupstr(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupstr(o._M_p, strlen(o._M_p)); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = dupstr(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupstr(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }
__cow_string::~__cow_string() { free((void*)_M_p); }
#define EXC_ROOT(T) \
    T::T(const string& s) : _M_msg(s) {} \
    T::T(const char* s) : _M_msg(s, strlen(s)) {} \
    T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } \
    T& T::operator=(T&& o) noexcept { _M_msg = o._M_msg; return *this; } \
    T::~T() noexcept {} \
    const char* T::what() const noexcept { return _M_msg._M_p; }
EXC_ROOT(logic_error)
EXC_ROOT(runtime_error)
#define EXC_SUB(T, B) \
    T::T(const string& s) : B(s) {} \
    T::T(const char* s) : B(s) {} \
    T::~T() noexcept {}
EXC_SUB(domain_error, logic_error)
EXC_SUB(invalid_argument, logic_error)
EXC_SUB(length_error, logic_error)
EXC_SUB(out_of_range, logic_error)
EXC_SUB(range_error, runtime_error)
EXC_SUB(overflow_error, runtime_error)
EXC_SUB(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
struct ModelCat : error_category { const char* name() const noexcept override { return "model"; } string message(int) const override { return "model"; } };
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int, const error_condition&) const noexcept { return false; }
bool error_category::equivalent(const error_code&, int) const noexcept { return false; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
alignas(ModelCat) static char cat_storage[sizeof(ModelCat)];
inline namespace _V2 {
const error_category& system_category() noexcept { return *reinterpret_cast<ModelCat*>(cat_storage); }
const error_category& generic_category() noexcept { return *reinterpret_cast<ModelCat*>(cat_storage); }
}
const error_category& iostream_category() noexcept { return *reinterpret_cast<ModelCat*>(cat_storage); }
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const string& s) : system_error(error_code(1, iostream_category()), s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, string(s)) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const noexcept { return system_error::what(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(s); }
}

// ---------------------------------------------------------------- number tokens
// A symbolic number is printed as a marker F5 b b b b F6 (b = 0x80 | 6 bits of the token number).
struct Tok { int kind; u64 val; int prec; unsigned flags; int bits; };  // kind 0 signed, 1 unsigned, 2 double
static const int MAXTOK = 16384;
static Tok* tokblk[MAXTOK / 32]; static int ntoks;  // small blocks keep copy-on-write cheap
static inline Tok& tokat(int i) { return tokblk[i >> 5][i & 31]; }
static int intern(int kind, u64 val, int prec, unsigned flags, int bits = 64) {
    for (int i = 0; i < ntoks; i++) if (tokat(i).kind == kind && tokat(i).prec == prec && tokat(i).flags == flags && vm_ident(tokat(i).val, val)) return i;
    if (ntoks <= 48) for (int i = 0; i < ntoks; i++) if (tokat(i).kind == kind && tokat(i).prec == prec && tokat(i).flags == flags && vm_same(tokat(i).val, val)) return i;
    if (ntoks == MAXTOK) vm_error("too many number tokens");
    if (!(ntoks & 31)) tokblk[ntoks >> 5] = (Tok*)malloc(32 * sizeof(Tok));
    tokat(ntoks).kind = kind; tokat(ntoks).val = val; tokat(ntoks).prec = prec; tokat(ntoks).flags = flags; tokat(ntoks).bits = bits; return ntoks++;
}
// only a concrete byte can be a marker: a symbolic input byte equal to F5 is ordinary text
static inline bool ismark(int c) { return !vm_is_sym((u64)(i64)c) && c == 0xF5; }
static int put_marker(char* b, int id) { b[0] = (char)0xF5; for (int i = 0; i < 4; i++) b[1 + i] = (char)(0x80 | ((id >> (6 * i)) & 63)); b[5] = (char)0xF6; return 6; }
static const unsigned INT_FLAGS = std::ios_base::basefield | std::ios_base::showbase | std::ios_base::showpos | std::ios_base::uppercase;
static const unsigned DBL_FLAGS = std::ios_base::floatfield | std::ios_base::showpos | std::ios_base::showpoint | std::ios_base::uppercase;
static int fmt_u(char* b, u64 v, unsigned base, bool upper) { char t[80]; int n = 0; do { unsigned d = (unsigned)(v % base); t[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10)); v /= base; } while (v); for (int i = 0; i < n; i++) b[i] = t[n - 1 - i]; return n; }
// kind 0: value is signed 64 bit, width bits for hex/oct of negative numbers in `bits`
static int fmt_int(char* b, int kind, u64 v, unsigned flags, int bits) {
    if (vm_is_sym(v)) { unsigned f = flags & INT_FLAGS; if ((f & std::ios_base::basefield) == 0 || (f & std::ios_base::basefield) == std::ios_base::dec) f = (f & std::ios_base::showpos) && kind == 0 ? (std::ios_base::dec | std::ios_base::showpos) : std::ios_base::dec; return put_marker(b, intern(kind, v, 0, f, bits)); }
    unsigned bf = flags & std::ios_base::basefield; int n = 0;
    if (bf == std::ios_base::hex || bf == std::ios_base::oct) {
        if (bits < 64) v &= (1ull << bits) - 1; unsigned base = bf == std::ios_base::hex ? 16 : 8;
        if ((flags & std::ios_base::showbase) && v) { b[n++] = '0'; if (base == 16) b[n++] = (flags & std::ios_base::uppercase) ? 'X' : 'x'; }
        return n + fmt_u(b + n, v, base, (flags & std::ios_base::uppercase) != 0);
    }
    if (kind == 0 && (i64)v < 0) { b[n++] = '-'; v = 0 - v; } else if (kind == 0 && (flags & std::ios_base::showpos)) b[n++] = '+';
    return n + fmt_u(b + n, v, 10, false);
}
static bool dbl_finite(u64 b) { return ((b >> 52) & 0x7ff) != 0x7ff; }
static int fmt_dbl(char* b, u64 bits, int prec, unsigned flags) {
    unsigned ff = flags & std::ios_base::floatfield; int mode = ff == 0 ? 0 : ff == std::ios_base::fixed ? 1 : ff == std::ios_base::scientific ? 2 : 3;
    if (prec < 0) prec = 6;
    if (vm_is_sym(bits)) return put_marker(b, intern(2, bits, prec, flags & DBL_FLAGS));
    int n = 0; if ((flags & std::ios_base::showpos) && !(bits >> 63)) b[n++] = '+';
    if (flags & (std::ios_base::showpoint | std::ios_base::uppercase)) vm_approx();
    return n + vm_fmt_double(b + n, 480, bits, prec, mode);
}
// the same text with every marker in a normal form: a number the path has fixed in digits, equal numbers by one token
extern "C" size_t vm_norm(const char* in, size_t n, char* out) {
    size_t k = 0; char b[512];
    for (size_t i = 0; i < n; i++) {
        if (vm_is_sym((u64)(i64)in[i]) || (unsigned char)in[i] != 0xF5 || i + 6 > n) { if (out) out[k] = in[i]; k++; continue; }
        bool plain = true; for (int j = 1; j < 6; j++) plain &= !vm_is_sym((u64)(i64)in[i + j]); if (!plain) { if (out) out[k] = in[i]; k++; continue; }
        int id = 0; for (int j = 0; j < 4; j++) id |= (in[i + 1 + j] & 63) << (6 * j); bool whole = (unsigned char)in[i + 5] == 0xF6 && id < ntoks; for (int j = 0; j < 4; j++) whole &= ((unsigned char)in[i + 1 + j] & 0xC0) == 0x80;
        if (!whole) { if (out) out[k] = in[i]; k++; continue; }
        Tok t = tokat(id); u64 v = vm_resolve(t.val); int m;
        if (!vm_is_sym(v)) m = t.kind == 2 ? fmt_dbl(b, v, t.prec, t.flags) : fmt_int(b, t.kind, v, t.flags, t.bits);
        else { int r = id; if (ntoks <= 48) for (int j = 0; j < id; j++) if (tokat(j).kind == t.kind && tokat(j).prec == t.prec && tokat(j).flags == t.flags && vm_same(tokat(j).val, t.val)) { r = j; break; } m = put_marker(b, r); }
        if (out) for (int j = 0; j < m; j++) out[k + (size_t)j] = b[j];
        k += (size_t)m; i += 5;
    }
    return k;
}
static void emit(std::ostream& os, const char* b, int n) {
    std::streamsize w = os.width(); std::streambuf* sb = os.rdbuf(); bool ok = true;
    std::streamsize pad = w > n ? w - n : 0; char fill = os.fill(); unsigned adj = os.flags() & std::ios_base::adjustfield;
    if (pad && ismark((unsigned char)b[0])) vm_approx();
    int split = adj == std::ios_base::left ? n : 0;
    if (adj == std::ios_base::internal && n && (b[0] == '-' || b[0] == '+')) split = 1;
    if (split && ok) ok = sb->sputn(b, split) == split;
    for (std::streamsize i = 0; i < pad && ok; i++) ok = sb->sputc(fill) != std::char_traits<char>::eof();
    if (split < n && ok) ok = sb->sputn(b + split, n - split) == n - split;
    os.width(0);
    if (!ok) os.setstate(std::ios_base::badbit);
}
static std::ostream& put_int(std::ostream& os, int kind, u64 v, int bits) { std::ostream::sentry s(os); if (s) { char b[96]; int n = fmt_int(b, kind, v, os.flags(), bits); emit(os, b, n); } return os; }
std::ostream& ins_l(std::ostream& os, long v) asm("_ZNSo9_M_insertIlEERSoT_");
std::ostream& ins_l(std::ostream& os, long v) { return put_int(os, 0, (u64)v, 64); }
std::ostream& ins_x(std::ostream& os, long long v) asm("_ZNSo9_M_insertIxEERSoT_");
std::ostream& ins_x(std::ostream& os, long long v) { return put_int(os, 0, (u64)v, 64); }
std::ostream& ins_m(std::ostream& os, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_");
std::ostream& ins_m(std::ostream& os, unsigned long v) { return put_int(os, 1, v, 64); }
std::ostream& ins_y(std::ostream& os, unsigned long long v) asm("_ZNSo9_M_insertIyEERSoT_");
std::ostream& ins_y(std::ostream& os, unsigned long long v) { return put_int(os, 1, v, 64); }
std::ostream& ins_b(std::ostream& os, bool v) asm("_ZNSo9_M_insertIbEERSoT_");
std::ostream& ins_b(std::ostream& os, bool v) {
    if (os.flags() & std::ios_base::boolalpha) { std::ostream::sentry s(os); if (s) { if (v) emit(os, "true", 4); else emit(os, "false", 5); } return os; }
    return put_int(os, 0, (u64)(long)v, 64);
}
std::ostream& ins_d(std::ostream& os, double v) asm("_ZNSo9_M_insertIdEERSoT_");
std::ostream& ins_d(std::ostream& os, double v) { std::ostream::sentry s(os); if (s) { char b[512]; int n = fmt_dbl(b, dbits(v), (int)os.precision(), os.flags()); emit(os, b, n); } return os; }
std::ostream& ins_p(std::ostream& os, const void*) asm("_ZNSo9_M_insertIPKvEERSoT_");
std::ostream& ins_p(std::ostream& os, const void*) { vm_approx(); emit(os, "0x1", 3); return os; }
// operator<<(int)/(short) print hex/oct at their own width
std::ostream& out_i(std::ostream* os, int v) asm("vm$_ZNSolsEi");
std::ostream& out_i(std::ostream* os, int v) { return put_int(*os, 0, (u64)(i64)v, 32); }
std::ostream& out_s(std::ostream* os, short v) asm("vm$_ZNSolsEs");
std::ostream& out_s(std::ostream* os, short v) { return put_int(*os, 0, (u64)(i64)v, 16); }

// to_string
static std::string tostr(int kind, u64 v) { char b[96]; int n = fmt_int(b, kind, v, std::ios_base::dec, 64); return std::string(b, n); }
std::string ts_i(int v) asm("vm$_ZNSt7__cxx119to_stringEi");
std::string ts_i(int v) { return tostr(0, (u64)(i64)v); }
std::string ts_l(long v) asm("vm$_ZNSt7__cxx119to_stringEl");
std::string ts_l(long v) { return tostr(0, (u64)v); }
std::string ts_x(long long v) asm("vm$_ZNSt7__cxx119to_stringEx");
std::string ts_x(long long v) { return tostr(0, (u64)v); }
std::string ts_j(unsigned v) asm("vm$_ZNSt7__cxx119to_stringEj");
std::string ts_j(unsigned v) { return tostr(1, v); }
std::string ts_m(unsigned long v) asm("vm$_ZNSt7__cxx119to_stringEm");
std::string ts_m(unsigned long v) { return tostr(1, v); }
std::string ts_y(unsigned long long v) asm("vm$_ZNSt7__cxx119to_stringEy");
std::string ts_y(unsigned long long v) { return tostr(1, v); }
std::string ts_d(double v) asm("vm$_ZNSt7__cxx119to_stringEd");
std::string ts_d(double v) { char b[512]; int n = fmt_dbl(b, dbits(v), 6, std::ios_base::fixed); return std::string(b, n); }

// ---------------------------------------------------------------- reading numbers
typedef std::ios_base::iostate iost;
static const int EOFC = -1;
static Tok marker_tok(std::streambuf* sb) {  // current char is F5; consumes the marker
    int id = 0; bool cut = false; for (int i = 0; i < 4; i++) { int c = sb->snextc(); if (c == EOFC) cut = true; id |= (c & 63) << (6 * i); } if (sb->snextc() == EOFC) cut = true; sb->snextc();
    if (cut) { vm_approx(); Tok t = tokat(0); t.val = vm_havoc(); return t; }  // a number cut in the middle reads as any number
    return tokat(id);
}
static bool tokchar(int c) { return (c >= '0' && c <= '9') || ismark(c); }
static u64 read_dbl_tok(const Tok& t, bool& fail) {
    u64 v = t.val; unsigned ff = t.flags & std::ios_base::floatfield;
    if (!dbl_finite(v)) { fail = true; return 0; }
    if (t.flags & (std::ios_base::showpoint | std::ios_base::uppercase)) vm_approx();
    if (ff == (std::ios_base::fixed | std::ios_base::scientific)) { vm_approx(); return vm_havoc(); }
    bool exact = (ff == 0 && t.prec >= 17) || (ff == std::ios_base::scientific && t.prec >= 16);
    if (exact) return v;
    return vm_round(v, t.prec, (int)ff);
}
// reads an integer the way num_get does: value in v (64 bit), range [lo,hi] or unsigned max
static u64 get_num(std::istream& is, iost& err, bool uns, u64 umax, i64 smin, i64 smax) {
    std::streambuf* sb = is.rdbuf(); int c = sb->sgetc(); bool neg = false; unsigned bf = is.flags() & std::ios_base::basefield; unsigned base = bf == std::ios_base::oct ? 8 : bf == std::ios_base::hex ? 16 : bf == 0 ? 0 : 10;
    if (c == '-' || c == '+') { neg = c == '-'; c = sb->snextc(); if (ismark(c)) vm_approx(); }
    if (ismark(c)) {
        Tok t = marker_tok(sb); c = sb->sgetc(); if (c == EOFC) err |= std::ios_base::eofbit;
        unsigned tb = t.flags & std::ios_base::basefield; bool same = t.kind != 2 && ((tb == std::ios_base::dec && (base == 10 || base == 0)) || (tb == std::ios_base::hex && base == 16) || (tb == std::ios_base::oct && base == 8));
        if (c != EOFC && tokchar(c)) { vm_approx(); while (c != EOFC && !isspace_((char)c)) c = sb->snextc(); if (c == EOFC) err |= std::ios_base::eofbit; same = false; }
        if (t.kind == 2) { while (c != EOFC && !isspace_((char)c)) c = sb->snextc(); }
        u64 v; bool vneg = false; u64 mag;
        if (!same) { vm_approx(); v = vm_havoc(); if (uns) { return v & umax; } return v; }
        v = t.val;
        if (!neg) {  // common cases without a branch on the sign
            if (!uns && t.kind == 0) { if (t.bits == 32 && smax >= INT_MAX) return v; if ((i64)v > smax) { err |= std::ios_base::failbit; return (u64)smax; } if ((i64)v < smin) { err |= std::ios_base::failbit; return (u64)smin; } return v; }
            if (!uns) { if (v > (u64)smax) { err |= std::ios_base::failbit; return (u64)smax; } return v; }
            if (umax == ~0ull) return v;
            if (t.kind == 1) { if (v > umax) { err |= std::ios_base::failbit; return umax; } return v; }
        }
        if (t.kind == 0 && (i64)v < 0) vneg = true; mag = vneg ? 0 - v : v; if (neg) vneg = !vneg;
        if (uns) { if (mag > umax) { err |= std::ios_base::failbit; return umax; } return (vneg ? 0 - mag : mag) & umax; }
        if (vneg) { if (mag > (u64)0 - (u64)smin) { err |= std::ios_base::failbit; return (u64)smin; } return 0 - mag; }
        if (mag > (u64)smax) { err |= std::ios_base::failbit; return (u64)smax; } return mag;
    }
    bool any = false, ovf = false; u64 v = 0;
    if (base == 0 || base == 16) { if (c == '0') { any = true; c = sb->snextc(); if (c == 'x' || c == 'X') { if (base == 0) base = 16; c = sb->snextc(); any = false; } else if (base == 0) base = 8; } else if (base == 0) base = 10; }
    u64 lim = uns ? umax : (neg ? (u64)0 - (u64)smin : (u64)smax);
    while (c != EOFC) {
        unsigned d; if (c >= '0' && c <= '9') d = (unsigned)(c - '0'); else if (base == 16 && c >= 'a' && c <= 'f') d = (unsigned)(c - 'a' + 10); else if (base == 16 && c >= 'A' && c <= 'F') d = (unsigned)(c - 'A' + 10); else break;
        if (d >= base) break;
        any = true; if (v > lim / base) ovf = true; else { v *= base; if (v > lim - d) ovf = true; v += d; }
        c = sb->snextc();
    }
    if (c == EOFC) err |= std::ios_base::eofbit;
    if (!any) { err |= std::ios_base::failbit; return 0; }
    if (ovf) { err |= std::ios_base::failbit; return uns ? umax : neg ? (u64)smin : (u64)smax; }
    u64 r = neg ? 0 - v : v; return uns ? r & umax : r;
}
static double get_dbl(std::istream& is, iost& err) {
    std::streambuf* sb = is.rdbuf(); int c = sb->sgetc();
    if (ismark(c)) {
        Tok t = marker_tok(sb); c = sb->sgetc(); if (c == EOFC) err |= std::ios_base::eofbit;
        if (c != EOFC && (tokchar(c) || c == '.' || c == 'e' || c == 'E')) { vm_approx(); while (c != EOFC && !isspace_((char)c)) c = sb->snextc(); if (c == EOFC) err |= std::ios_base::eofbit; return bitsd(vm_havoc()); }
        if (t.kind == 2) { bool f = false; u64 b = read_dbl_tok(t, f); if (f) { err |= std::ios_base::failbit; return 0; } return bitsd(b); }
        if ((t.flags & std::ios_base::basefield) != std::ios_base::dec) { vm_approx(); return bitsd(vm_havoc()); }
        return t.kind == 0 ? (double)(i64)t.val : (double)t.val;
    }
    char buf[400]; int n = 0; bool dig = false, dot = false, ex = false, sym = false;
    while (c != EOFC && n < 390) {
        bool ok;
        if (c == '+' || c == '-') ok = n == 0 || (buf[n - 1] == 'e');
        else if (c >= '0' && c <= '9') { ok = true; dig = true; }
        else if (c == '.') { ok = !dot && !ex; if (ok) dot = true; }
        else if (c == 'e' || c == 'E') { ok = !ex && dig; if (ok) { ex = true; c = 'e'; } }
        else { if (ismark(c)) vm_approx(); ok = false; }
        if (!ok) break;
        if (vm_is_sym((u64)c)) sym = true;
        buf[n++] = (char)c; c = sb->snextc();
    }
    buf[n] = 0; if (c == EOFC) err |= std::ios_base::eofbit;
    if (sym) { vm_approx(); return bitsd(vm_havoc()); }
    double d = 0; if (vm_strtod(buf, &d)) err |= std::ios_base::failbit; return d;
}
template <class F> static std::istream& extract(std::istream& is, F f) {
    std::istream::sentry s(is, false);
    if (s) { iost err = std::ios_base::goodbit; f(err); if (err) is.setstate(err); }
    return is;
}
std::istream& ext_l(std::istream& is, long& v) asm("_ZNSi10_M_extractIlEERSiRT_");
std::istream& ext_l(std::istream& is, long& v) { return extract(is, [&](iost& e) { v = (long)get_num(is, e, false, 0, LONG_MIN, LONG_MAX); }); }
std::istream& ext_x(std::istream& is, long long& v) asm("_ZNSi10_M_extractIxEERSiRT_");
std::istream& ext_x(std::istream& is, long long& v) { return extract(is, [&](iost& e) { v = (long long)get_num(is, e, false, 0, LONG_MIN, LONG_MAX); }); }
std::istream& ext_m(std::istream& is, unsigned long& v) asm("_ZNSi10_M_extractImEERSiRT_");
std::istream& ext_m(std::istream& is, unsigned long& v) { return extract(is, [&](iost& e) { v = get_num(is, e, true, ULONG_MAX, 0, 0); }); }
std::istream& ext_y(std::istream& is, unsigned long long& v) asm("_ZNSi10_M_extractIyEERSiRT_");
std::istream& ext_y(std::istream& is, unsigned long long& v) { return extract(is, [&](iost& e) { v = get_num(is, e, true, ULONG_MAX, 0, 0); }); }
std::istream& ext_j(std::istream& is, unsigned& v) asm("_ZNSi10_M_extractIjEERSiRT_");
std::istream& ext_j(std::istream& is, unsigned& v) { return extract(is, [&](iost& e) { v = (unsigned)get_num(is, e, true, UINT_MAX, 0, 0); }); }
std::istream& ext_t(std::istream& is, unsigned short& v) asm("_ZNSi10_M_extractItEERSiRT_");
std::istream& ext_t(std::istream& is, unsigned short& v) { return extract(is, [&](iost& e) { v = (unsigned short)get_num(is, e, true, USHRT_MAX, 0, 0); }); }
std::istream& ext_b(std::istream& is, bool& v) asm("_ZNSi10_M_extractIbEERSiRT_");
std::istream& ext_b(std::istream& is, bool& v) { return extract(is, [&](iost& e) { long l = (long)get_num(is, e, false, 0, LONG_MIN, LONG_MAX); if (l == 0 || l == 1) v = (bool)l; else { v = true; e |= std::ios_base::failbit; } }); }
std::istream& ext_d(std::istream& is, double& v) asm("_ZNSi10_M_extractIdEERSiRT_");
std::istream& ext_d(std::istream& is, double& v) { return extract(is, [&](iost& e) { v = get_dbl(is, e); }); }
std::istream& ext_f(std::istream& is, float& v) asm("_ZNSi10_M_extractIfEERSiRT_");
std::istream& ext_f(std::istream& is, float& v) { return extract(is, [&](iost& e) { v = (float)get_dbl(is, e); }); }
std::istream& in_i(std::istream* is, int& v) asm("vm$_ZNSirsERi");
std::istream& in_i(std::istream* is, int& v) { return extract(*is, [&](iost& e) { v = (int)(long)get_num(*is, e, false, 0, INT_MIN, INT_MAX); }); }
std::istream& in_s(std::istream* is, short& v) asm("vm$_ZNSirsERs");
std::istream& in_s(std::istream* is, short& v) { return extract(*is, [&](iost& e) { v = (short)(long)get_num(*is, e, false, 0, SHRT_MIN, SHRT_MAX); }); }

// C string conversions (markers understood)
static const char* c_num(const char* s, char** end, int base, bool uns, u64& out, bool& range) {
    const char* p = s; range = false; while (isspace_(*p)) p++; bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if (ismark((unsigned char)*p)) { int id = 0; for (int i = 0; i < 4; i++) id |= (p[1 + i] & 63) << (6 * i); Tok t = tokat(id); if (t.kind == 2 || neg) vm_approx(); out = t.kind == 2 ? vm_havoc() : t.val; if (neg) out = 0 - out; p += 6; if (end) *end = (char*)p; return p; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    bool any = false; u64 v = 0, lim = uns ? ~0ull : neg ? 1ull << 63 : ~0ull >> 1;
    for (;; p++) { unsigned d; char c = *p; if (c >= '0' && c <= '9') d = (unsigned)(c - '0'); else if (c >= 'a' && c <= 'z') d = (unsigned)(c - 'a' + 10); else if (c >= 'A' && c <= 'Z') d = (unsigned)(c - 'A' + 10); else break; if (d >= (unsigned)base) break; any = true; if (v > (lim - d) / (unsigned)base) range = true; v = v * (unsigned)base + d; }
    if (end) *end = (char*)(any ? p : s); if (range) { vm_errno = 34; out = uns ? ~0ull : neg ? 1ull << 63 : ~0ull >> 1; } else out = neg ? 0 - v : v; return p;
}
extern "C" {
long strtol(const char* s, char** e, int b) noexcept { u64 v = 0; bool r; c_num(s, e, b, false, v, r); return (long)v; }
long long strtoll(const char* s, char** e, int b) noexcept { u64 v = 0; bool r; c_num(s, e, b, false, v, r); return (long long)v; }
unsigned long strtoul(const char* s, char** e, int b) noexcept { u64 v = 0; bool r; c_num(s, e, b, true, v, r); return v; }
unsigned long long strtoull(const char* s, char** e, int b) noexcept { u64 v = 0; bool r; c_num(s, e, b, true, v, r); return v; }
long p_strtol(const char* s, char** e, int b) asm("strtol");
long p_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long p_strtoul(const char* s, char** e, int b) asm("strtoul");
unsigned long p_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long p_strtoll(const char* s, char** e, int b) asm("strtoll");
long long p_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long p_strtoull(const char* s, char** e, int b) asm("strtoull");
unsigned long long p_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
int atoi(const char* s) noexcept { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) noexcept { return strtol(s, nullptr, 10); }
double strtod(const char* s, char** e) noexcept {
    const char* p = s; while (isspace_(*p)) p++;
    if (ismark((unsigned char)*p)) { int id = 0; for (int i = 0; i < 4; i++) id |= (p[1 + i] & 63) << (6 * i); Tok t = tokat(id); p += 6; if (e) *e = (char*)p; bool f = false; if (t.kind == 2) { u64 b = read_dbl_tok(t, f); if (f) vm_approx(); return bitsd(b); } return t.kind == 0 ? (double)(i64)t.val : (double)t.val; }
    char buf[400]; int n = 0; while (n < 390 && ((p[n] >= '0' && p[n] <= '9') || p[n] == '.' || p[n] == '-' || p[n] == '+' || p[n] == 'e' || p[n] == 'E')) { buf[n] = p[n]; n++; } buf[n] = 0;
    double d = 0; if (vm_strtod(buf, &d) && n) vm_approx(); if (e) *e = (char*)(n ? p + n : s); return d;
}
double atof(const char* s) noexcept { return strtod(s, nullptr); }
char* strcpy(char* d, const char* s) noexcept { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) break; } return 0; }
}

// ---------------------------------------------------------------- istream specialisations that live in the library
std::istream& gl(std::istream& is, std::string& s, char delim) asm("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
std::istream& gl(std::istream& is, std::string& s, char delim) {
    std::istream::sentry se(is, true); iost err = std::ios_base::goodbit; size_t n = 0;
    if (se) { s.erase(); std::streambuf* sb = is.rdbuf(); int c = sb->sgetc(); for (;;) { if (c == EOFC) { err |= std::ios_base::eofbit; break; } if ((char)c == delim) { n++; sb->sbumpc(); break; } s += (char)c; n++; c = sb->snextc(); } }
    if (!n) err |= std::ios_base::failbit; if (err) is.setstate(err); return is;
}
std::istream& gl2(std::istream& is, std::string& s) asm("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::istream& gl2(std::istream& is, std::string& s) { return gl(is, s, '\n'); }
std::istream& rds(std::istream& is, std::string& s) asm("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::istream& rds(std::istream& is, std::string& s) {
    std::istream::sentry se(is, false); iost err = std::ios_base::goodbit; size_t n = 0;
    if (se) { s.erase(); std::streamsize w = is.width(); size_t lim = w > 0 ? (size_t)w : s.max_size(); std::streambuf* sb = is.rdbuf(); int c = sb->sgetc();
        for (;;) { if (n >= lim) break; if (c == EOFC) { err |= std::ios_base::eofbit; break; } if (isspace_((char)c)) break; s += (char)c; n++; c = sb->snextc(); } is.width(0); }
    if (!n) err |= std::ios_base::failbit; if (err) is.setstate(err); return is;
}
std::istream& ign3(std::istream* is, std::streamsize n, int delim) asm("_ZNSi6ignoreEli");
std::istream& ign3(std::istream* is, std::streamsize n, int delim) {
    is->_M_gcount = 0; std::istream::sentry se(*is, true); iost err = std::ios_base::goodbit;
    if (n > 0 && se) { std::streambuf* sb = is->rdbuf(); bool unl = n == LONG_MAX; int c = sb->sgetc(); while (unl || is->_M_gcount < n) { if (c == EOFC) { err |= std::ios_base::eofbit; break; } if (c == delim) { is->_M_gcount++; sb->sbumpc(); break; } is->_M_gcount++; c = sb->snextc(); } }
    if (err) is->setstate(err); return *is;
}
std::istream& ign2(std::istream* is, std::streamsize n) asm("_ZNSi6ignoreEl");
std::istream& ign2(std::istream* is, std::streamsize n) {
    is->_M_gcount = 0; std::istream::sentry se(*is, true); iost err = std::ios_base::goodbit;
    if (n > 0 && se) { std::streambuf* sb = is->rdbuf(); bool unl = n == LONG_MAX; int c = sb->sgetc(); while (unl || is->_M_gcount < n) { if (c == EOFC) { err |= std::ios_base::eofbit; break; } is->_M_gcount++; c = (unl || is->_M_gcount < n) ? sb->snextc() : (sb->sbumpc(), 0); } }
    if (err) is->setstate(err); return *is;
}
std::istream& gline(std::istream* is, char* s, std::streamsize n, char delim) asm("_ZNSi7getlineEPclc");
std::istream& gline(std::istream* is, char* s, std::streamsize n, char delim) {
    is->_M_gcount = 0; std::istream::sentry se(*is, true); iost err = std::ios_base::goodbit;
    if (se) { std::streambuf* sb = is->rdbuf(); int c = sb->sgetc(); for (;;) { if (c == EOFC) { err |= std::ios_base::eofbit; break; } if ((char)c == delim) { is->_M_gcount++; sb->sbumpc(); break; } if (is->_M_gcount + 1 >= n) { err |= std::ios_base::failbit; break; } *s++ = (char)c; is->_M_gcount++; c = sb->snextc(); } }
    if (n > 0) *s = 0; if (!is->_M_gcount) err |= std::ios_base::failbit; if (err) is->setstate(err); return *is;
}
std::streamsize cpsb_eof(std::streambuf* in, std::streambuf* out, bool& ineof) asm("_ZSt21__copy_streambufs_eofIcSt11char_traitsIcEElPSt15basic_streambufIT_T0_ES6_Rb");
std::streamsize cpsb_eof(std::streambuf* in, std::streambuf* out, bool& ineof) { std::streamsize n = 0; ineof = true; int c = in->sgetc(); while (c != EOFC) { if (out->sputc((char)c) == EOFC) { ineof = false; break; } n++; c = in->snextc(); } return n; }
std::streamsize cpsb(std::streambuf* in, std::streambuf* out) asm("_ZSt17__copy_streambufsIcSt11char_traitsIcEElPSt15basic_streambufIT_T0_ES6_");
std::streamsize cpsb(std::streambuf* in, std::streambuf* out) { bool e; return cpsb_eof(in, out, e); }

// ---------------------------------------------------------------- files
// A flat in-memory file system: names to byte strings, with an optional limit on how many more bytes
// can be written before writes fail (a full disk / quota), and names that cannot be opened.
struct MFile { std::string name, data; bool readonly; };
struct MHandle { MFile* f; size_t pos; bool wr; bool app; };
static MFile* mfiles[16]; static int nmfiles;
static u64 fs_budget = ~0ull; static int fs_handles;
static MFile* fs_find(const char* n) { for (int i = 0; i < nmfiles; i++) if (mfiles[i]->name == n) return mfiles[i]; return nullptr; }
extern "C" {
void vm_fs_put(const char* name, const char* p, size_t n) { MFile* f = fs_find(name); if (!f) { f = new MFile; f->name = name; f->readonly = false; mfiles[nmfiles++] = f; } f->data.assign(p, n); }
int vm_fs_has(const char* name) { return fs_find(name) != nullptr; }
size_t vm_fs_get(const char* name, const char** p) { MFile* f = fs_find(name); if (!f) { *p = nullptr; return 0; } *p = f->data.data(); return f->data.size(); }
void vm_fs_limit(u64 bytes) { fs_budget = bytes; }
int vm_fs_open_handles() { return fs_handles; }
}
typedef std::__basic_file<char> BF;
static MHandle*& H(const BF* b) { return *(MHandle**)&((BF*)b)->_M_cfile; }
void bf_ctor(BF* b, void*) asm("_ZNSt12__basic_fileIcEC1EP15pthread_mutex_t");
void bf_ctor(BF* b, void*) { b->_M_cfile = nullptr; b->_M_cfile_created = false; }
void bf_ctor2(BF* b, void*) asm("_ZNSt12__basic_fileIcEC2EP15pthread_mutex_t");
void bf_ctor2(BF* b, void*) { b->_M_cfile = nullptr; b->_M_cfile_created = false; }
BF* bf_close(BF* b) asm("_ZNSt12__basic_fileIcE5closeEv");
BF* bf_close(BF* b) { if (!H(b)) return nullptr; delete H(b); fs_handles--; b->_M_cfile = nullptr; return b; }
void bf_dtor(BF* b) asm("_ZNSt12__basic_fileIcED1Ev");
void bf_dtor(BF* b) { bf_close(b); }
void bf_dtor2(BF* b) asm("_ZNSt12__basic_fileIcED2Ev");
void bf_dtor2(BF* b) { bf_close(b); }
bool bf_isopen(const BF* b) asm("_ZNKSt12__basic_fileIcE7is_openEv");
bool bf_isopen(const BF* b) { return b->_M_cfile != nullptr; }
BF* bf_open(BF* b, const char* name, std::ios_base::openmode m, int) asm("_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei");
BF* bf_open(BF* b, const char* name, std::ios_base::openmode m, int) {
    if (H(b)) return nullptr; MFile* f = fs_find(name); bool wr = (m & (std::ios_base::out | std::ios_base::app)) != 0;
    const char* bad = "/nonexistent/"; bool isbad = true; for (int i = 0; bad[i]; i++) if (name[i] != bad[i]) { isbad = false; break; }
    if (isbad || !name[0]) return nullptr;
    if (wr) {
        bool create = !(m & std::ios_base::in) || (m & std::ios_base::trunc) || (m & std::ios_base::app);
        if (!f) { if (!create) return nullptr; f = new MFile; f->name = name; f->readonly = false; mfiles[nmfiles++] = f; }
        if ((m & std::ios_base::trunc) || (!(m & std::ios_base::in) && !(m & std::ios_base::app))) f->data.clear();
    } else if (!f) return nullptr;
    MHandle* h = new MHandle; h->f = f; h->pos = (m & std::ios_base::ate) ? f->data.size() : 0; h->wr = wr; h->app = (m & std::ios_base::app) != 0; H(b) = h; fs_handles++; return b;
}
std::streamsize bf_put(BF* b, const char* s, std::streamsize n) asm("_ZNSt12__basic_fileIcE6xsputnEPKcl");
std::streamsize bf_put(BF* b, const char* s, std::streamsize n) {
    MHandle* h = H(b); if (!h || !h->wr) return 0; u64 k = (u64)n; if (fs_budget != ~0ull) { if (k > fs_budget) k = fs_budget; fs_budget -= k; }
    if (h->app) h->pos = h->f->data.size();
    if (h->pos == h->f->data.size()) h->f->data.append(s, k); else { if (h->pos + k > h->f->data.size()) h->f->data.resize(h->pos + k); for (u64 i = 0; i < k; i++) h->f->data[h->pos + i] = s[i]; }
    h->pos += k; return (std::streamsize)k;
}
std::streamsize bf_put2(BF* b, const char* s, std::streamsize n, const char* s2, std::streamsize n2) asm("_ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l");
std::streamsize bf_put2(BF* b, const char* s, std::streamsize n, const char* s2, std::streamsize n2) { std::streamsize k = bf_put(b, s, n); if (k < n) return k; return k + bf_put(b, s2, n2); }
std::streamsize bf_get(BF* b, char* s, std::streamsize n) asm("_ZNSt12__basic_fileIcE6xsgetnEPcl");
std::streamsize bf_get(BF* b, char* s, std::streamsize n) { MHandle* h = H(b); if (!h) return -1; size_t av = h->pos < h->f->data.size() ? h->f->data.size() - h->pos : 0; size_t k = (size_t)n < av ? (size_t)n : av; memcpy(s, h->f->data.data() + h->pos, k); h->pos += k; return (std::streamsize)k; }
std::streampos bf_seek(BF* b, std::streamoff o, std::ios_base::seekdir d) asm("_ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir");
long bf_seek_impl(BF* b, long o, std::ios_base::seekdir d) { MHandle* h = H(b); long base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (long)h->pos : (long)h->f->data.size(); if (base + o < 0) return -1; h->pos = (size_t)(base + o); return base + o; }
long bf_seek2(BF* b, long o, std::ios_base::seekdir d) asm("vm$_ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir");
long bf_seek2(BF* b, long o, std::ios_base::seekdir d) { return bf_seek_impl(b, o, d); }
int bf_sync(BF* b) asm("_ZNSt12__basic_fileIcE4syncEv");
int bf_sync(BF* b) { return 0; }
std::streamsize bf_more(BF* b) asm("_ZNSt12__basic_fileIcE9showmanycEv");
std::streamsize bf_more(BF* b) { MHandle* h = H(b); return h->pos < h->f->data.size() ? (std::streamsize)(h->f->data.size() - h->pos) : 0; }
const char* m_strchr(const char* s, int c) asm("strchr");
const char* m_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; } }

// ---------------------------------------------------------------- red-black tree, hashing
static bool real_hash;
extern "C" void vm_hash(int real) { real_hash = real != 0; }
namespace std {
static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent; x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        auto* g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) { auto* y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
        else { auto* y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } }
    }
    root->_M_color = _S_black;
}
// unbalanced removal (the order of the tree is what matters here)
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
    if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
    else { auto* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color; }
    if (h._M_parent) h._M_parent->_M_color = _S_black;
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { auto* m = h._M_parent; while (m->_M_left) m = m->_M_left; h._M_left = m; m = h._M_parent; while (m->_M_right) m = m->_M_right; h._M_right = m; }
    return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
namespace __detail {
// one bucket: lookups compare keys one by one, which keeps symbolic keys from forking on bucket numbers
// (vm_hash(1) brings real buckets back, for large runs in which no key is symbolic)
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return real_hash ? (n < 13 ? 13 : n | 1) : 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t n, size_t k) const { return real_hash && n + k > b ? pair<bool, size_t>{true, (n + k) * 2 + 13} : pair<bool, size_t>{false, 0}; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_transfer(_List_node_base* const a, _List_node_base* const b) noexcept { if (this != b) { b->_M_prev->_M_next = this; a->_M_prev->_M_next = b; this->_M_prev->_M_next = a; auto* t = this->_M_prev; this->_M_prev = b->_M_prev; b->_M_prev = a->_M_prev; a->_M_prev = t; } }
}
}

// ---------------------------------------------------------------- standard streams
struct NullBuf : std::streambuf { int_type overflow(int_type c) override { return c == EOFC ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
alignas(16) char cout_storage[sizeof(std::ostream)] asm("_ZSt4cout");
alignas(16) char cerr_storage[sizeof(std::ostream)] asm("_ZSt4cerr");
alignas(16) char clog_storage[sizeof(std::ostream)] asm("_ZSt4clog");
alignas(16) char cin_storage[sizeof(std::istream)] asm("_ZSt3cin");
extern "C" void vm_init() {
    ctype_setup();
    NullBuf* nb = new NullBuf;
    new (cout_storage) std::ostream(nb); new (cerr_storage) std::ostream(nb); new (clog_storage) std::ostream(nb); new (cin_storage) std::istream(nb);
    new (std::cat_storage) std::ModelCat;
}
extern "C" int puts(const char*) { return 0; }
extern "C" {
static int m_stdio[3];
FILE* m_stderr asm("stderr") = (FILE*)&m_stdio[2]; FILE* m_stdout asm("stdout") = (FILE*)&m_stdio[1]; FILE* m_stdin asm("stdin") = (FILE*)&m_stdio[0];
int printf(const char*, ...) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
int fputs(const char*, FILE*) { return 0; }
int fputc(int c, FILE*) { return c; }
int putchar(int c) { return c; }
int fflush(FILE*) { return 0; }
void perror(const char*) {}
char* m_getenv(const char*) asm("getenv"); char* m_getenv(const char*) { return nullptr; }
long m_time(long* p) asm("time"); long m_time(long* p) { if (p) *p = 1700000000; return 1700000000; }
char* m_strncpy(char* d, const char* s, size_t n) asm("strncpy");
char* m_strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* m_strcat(char* d, const char* s) asm("strcat");
char* m_strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* m_strdup(const char* s) asm("strdup");
char* m_strdup(const char* s) { size_t n = strlen(s); char* d = (char*)malloc(n + 1); memcpy(d, s, n + 1); return d; }
const char* m_strstr(const char* s, const char* t) asm("strstr");
const char* m_strstr(const char* s, const char* t) { size_t n = strlen(t); for (;; s++) { size_t i = 0; while (i < n && s[i] == t[i]) i++; if (i == n) return s; if (!*s) return nullptr; } }
const char* m_strrchr(const char* s, int c) asm("strrchr");
const char* m_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return r; } }
size_t m_strspn(const char* s, const char* a) asm("strspn");
size_t m_strspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t m_strcspn(const char* s, const char* a) asm("strcspn");
size_t m_strcspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
int isxdigit(int c) { return isdigit(c) | (int)((unsigned)((c | 32) - 'a') < 6); }
int isupper(int c) { return (unsigned)(c - 'A') < 26; }
int islower(int c) { return (unsigned)(c - 'a') < 26; }
int isprint(int c) { return (unsigned)(c - 32) < 95; }
int isgraph(int c) { return (unsigned)(c - 33) < 94; }
int iscntrl(int c) { return (int)((unsigned)c < 32) | (int)(c == 127); }
int isblank(int c) { return (int)(c == 32) | (int)(c == 9); }
int ispunct(int c) { return isgraph(c) & (isalnum(c) ^ 1); }
float m_strtof(const char* s, char** e) asm("strtof"); float m_strtof(const char* s, char** e) { return (float)strtod(s, e); }
// the printf family into memory; numbers become the same markers as in streams
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) noexcept {
    size_t n = 0; auto put = [&](char c) { if (n + 1 < cap) out[n] = c; n++; };
    for (; *f; f++) {
        if (*f != '%') { put(*f); continue; }
        f++; if (*f == '%') { put('%'); continue; }
        unsigned fl = 0; bool left = false, zero = false, space = false; int width = 0, prec = -1, len = 0;
        for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') fl |= std::ios_base::showpos; else if (*f == '#') fl |= std::ios_base::showbase | std::ios_base::showpoint; else if (*f == ' ') space = true; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = true; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') len++; else if (*f == 'h') len--; else break; }
        char b[512]; int k = 0; const char* s = b;
        switch (*f) {
        case 'd': case 'i': { i64 v = len > 0 ? va_arg(ap, long) : (long)va_arg(ap, int); if (len == -1) v = (short)v; else if (len < -1) v = (signed char)v; k = fmt_int(b, 0, (u64)v, fl | std::ios_base::dec, 64); if (prec > k) vm_error("printf precision"); break; }
        case 'u': case 'x': case 'X': case 'o': { u64 v = len > 0 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (len == -1) v = (unsigned short)v; else if (len < -1) v = (unsigned char)v; k = fmt_int(b, 1, v, (fl & ~(unsigned)std::ios_base::showpos) | (*f == 'u' ? std::ios_base::dec : *f == 'o' ? std::ios_base::oct : std::ios_base::hex) | (*f == 'X' ? std::ios_base::uppercase : (std::ios_base::fmtflags)0), 64); if (prec > k) vm_error("printf precision"); break; }
        case 'g': case 'f': case 'e': case 'a': case 'G': case 'F': case 'E': { u64 v = dbits(va_arg(ap, double)); unsigned ff = *f == 'g' || *f == 'G' ? 0 : *f == 'f' || *f == 'F' ? std::ios_base::fixed : *f == 'a' ? (std::ios_base::fixed | std::ios_base::scientific) : std::ios_base::scientific; if (*f < 'a') vm_approx(); k = fmt_dbl(b, v, prec, (fl & ~(unsigned)std::ios_base::showbase) | ff); break; }
        case 'c': b[0] = (char)va_arg(ap, int); k = 1; break;
        case 's': { s = va_arg(ap, const char*); while ((prec < 0 || k < prec) && s[k]) k++; break; }
        default: vm_error("printf conversion");
        }
        if (space) vm_approx();
        if (width > k && ismark((unsigned char)s[0])) vm_approx();
        char pad = zero && !left && *f != 's' && *f != 'c' ? '0' : ' '; int i = 0; if (pad == '0' && (s[0] == '-' || s[0] == '+')) put(s[i++]);
        if (!left) for (int j = k; j < width; j++) put(pad); for (; i < k; i++) put(s[i]); if (left) for (int j = k; j < width; j++) put(' ');
    }
    if (cap) out[n < cap ? n : cap - 1] = 0; return (int)n;
}
int snprintf(char* out, size_t cap, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int n = vsnprintf(out, cap, f, ap); va_end(ap); return n; }
int sprintf(char* out, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int n = vsnprintf(out, 1ul << 40, f, ap); va_end(ap); return n; }
}
namespace std {
// numbers written with std::to_chars read back exactly
to_chars_result to_chars(char* p, char* e, double v) noexcept {
    char b[512]; int n = 0; u64 x = dbits(v); if (vm_is_sym(x)) n = fmt_dbl(b, x, 17, 0); else { for (int k = 1; k <= 17; k++) { n = fmt_dbl(b, x, k, 0); b[n] = 0; double y = 0; vm_strtod(b, &y); if (dbits(y) == x) break; } }
    if (e - p < n) return {e, errc::value_too_large}; memcpy(p, b, n); return {p + n, errc{}};
}
from_chars_result from_chars(const char* p, const char* e, double& v, chars_format) noexcept {
    if (p == e || isspace_(*p) || *p == '+') return {p, errc::invalid_argument};
    char b[400]; int n = 0; while (p + n < e && n < 390) { b[n] = p[n]; n++; } b[n] = 0; char* q; double d = strtod(b, &q); if (q == b) return {p, errc::invalid_argument}; v = d; return {p + (q - b), errc{}};
}
}
