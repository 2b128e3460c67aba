// Stand-in for the libstdc++ stream library, used only when the sources are compiled for symbolic
// execution.  Text formatting of symbolic numbers produces a token (0x01, kind, 8 raw bytes) that keeps
// the exact bits; everything concrete is formatted like the C library does.
#pragma once
#include <string>
#include <string_view>
#include <iosfwd>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <exception>
#include <system_error>
#include <vector>
#include <memory>
#include <cstdlib>
#include <cctype>
#include <cwchar>

extern "C" int sym_is_symbolic(unsigned long long);
extern "C" void sym_unsupported(const char*);

namespace std
{
class locale
{
public:
    class facet { public: explicit facet(size_t = 0) {} virtual ~facet() {} };
    class id { };
    typedef int category;
    static const category none = 0, ctype = 1, numeric = 2, all = 63;
    locale() {}
    explicit locale(const char*) {}
    explicit locale(const std::string&) {}
    template<class F> locale(const locale&, F* f) { delete f; }
    static const locale& classic() { static locale l; return l; }
    static locale global(const locale& l) { return l; }
    std::string name() const { return "C"; }
    bool operator==(const locale&) const { return true; }
    bool operator!=(const locale&) const { return false; }
};
template<class C> bool isspace(C c, const locale&) { return c == ' ' || (c >= 9 && c <= 13); }
template<class C> bool isdigit(C c, const locale&) { return c >= '0' && c <= '9'; }
template<class C> bool isalpha(C c, const locale&) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
template<class C> bool isalnum(C c, const locale& l) { return isalpha(c, l) || isdigit(c, l); }
template<class C> bool isxdigit(C c, const locale& l) { return isdigit(c, l) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
template<class C> bool ispunct(C c, const locale& l) { return c > 32 && c < 127 && !isalnum(c, l); }
struct ctype_base
{
    typedef unsigned short mask;
    static const mask upper = 1, lower = 2, alpha = 4, digit = 8, xdigit = 16, space = 32, print = 64, graph = 12 | 1024, cntrl = 128, blank = 256, punct = 1024, alnum = 12;
};
template<class C> struct _ctype_impl : locale::facet, ctype_base
{
    bool is(mask m, C c) const
    {
        return ((m & upper) && c >= 'A' && c <= 'Z') || ((m & lower) && c >= 'a' && c <= 'z') || ((m & alpha) && isalpha(c, locale())) || ((m & digit) && c >= '0' && c <= '9') || ((m & xdigit) && isxdigit(c, locale())) || ((m & space) && isspace(c, locale())) || ((m & print) && c >= 32 && c < 127) || ((m & cntrl) && ((c >= 0 && c < 32) || c == 127)) || ((m & blank) && (c == ' ' || c == 9)) || ((m & punct) && ispunct(c, locale()));
    }
    C tolower(C c) const { return c >= 'A' && c <= 'Z' ? (C)(c + 32) : c; }
    C toupper(C c) const { return c >= 'a' && c <= 'z' ? (C)(c - 32) : c; }
    C widen(char c) const { return (C)c; }
    char narrow(C c, char) const { return (char)c; }
};
template<class C> class ctype : public _ctype_impl<C> { };
template<> class ctype<char> : public _ctype_impl<char> { };
template<> class ctype<wchar_t> : public _ctype_impl<wchar_t> { };
template<class F> const F& use_facet(const locale&) { static F f; return f; }
template<class C> bool isupper(C c, const locale&) { return c >= 'A' && c <= 'Z'; }
template<class C> bool islower(C c, const locale&) { return c >= 'a' && c <= 'z'; }
template<class C> bool isprint(C c, const locale&) { return c >= 32 && c < 127; }
template<class C> C toupper(C c, const locale&) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
template<class C> C tolower(C c, const locale&) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

enum class io_errc { stream = 1 };

class ios_base
{
public:
    typedef int fmtflags; typedef int iostate; typedef int openmode; typedef int seekdir;
    static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256,
        showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 32 | 128 | 16, basefield = 2 | 64 | 8, floatfield = 4 | 256;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static const seekdir beg = 0, cur = 1, end = 2;
    class failure : public std::system_error { public: explicit failure(const std::string& s) : system_error(std::error_code(), s) {} failure(const std::string& s, const std::error_code& c) : system_error(c, s) {} };
    fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
    void unsetf(fmtflags m) { fl_ &= ~m; }
    streamsize precision() const { return prec_; } streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
    streamsize width() const { return width_; } streamsize width(streamsize p) { streamsize o = width_; width_ = p; return o; }
    locale imbue(const locale& l) { return l; } locale getloc() const { return locale(); }
    static bool sync_with_stdio(bool = true) { return true; }
    virtual ~ios_base() {}
protected:
    fmtflags fl_ = dec | skipws; streamsize prec_ = 6; streamsize width_ = 0;
};

template<class C, class T> class basic_streambuf
{
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef streamoff pos_type; typedef streamoff off_type;
    virtual ~basic_streambuf() {}
    virtual streamsize xsputn(const C*, streamsize) { return 0; }
    virtual int_type uflow() { return T::eof(); }     // take one
    virtual int_type underflow() { return T::eof(); } // peek
    virtual int sync() { return 0; }
    virtual long long seekoff_(long long, int, int) { return -1; }
    streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); }
    int_type sputc(C c) { return xsputn(&c, 1) == 1 ? T::to_int_type(c) : T::eof(); }
    int_type sgetc() { return underflow(); } int_type sbumpc() { return uflow(); }
    streamsize sgetn(C* s, streamsize n) { streamsize k = 0; for (; k < n; ++k) { int_type c = uflow(); if (T::eq_int_type(c, T::eof())) break; s[k] = T::to_char_type(c); } return k; }
    int pubsync() { return sync(); }
    locale pubimbue(const locale& l) { return l; } locale getloc() const { return locale(); }
};

template<class C, class T> class basic_ostream;
template<class C, class T> class basic_ios : public ios_base
{
public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef streamoff pos_type; typedef streamoff off_type;
    basic_ios() {}
    explicit basic_ios(basic_streambuf<C, T>* b) { init(b); }
    void init(basic_streambuf<C, T>* b) { buf_ = b; st_ = b ? goodbit : badbit; }
    basic_streambuf<C, T>* rdbuf() const { return buf_; }
    basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto* o = buf_; buf_ = b; clear(); return o; }
    iostate rdstate() const { return st_; }
    void clear(iostate s = goodbit) { st_ = s; if (exc_ & st_) throw failure("basic_ios::clear"); }
    void setstate(iostate s) { clear(st_ | s); }
    bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (badbit | failbit); } bool bad() const { return st_ & badbit; }
    explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
    iostate exceptions() const { return exc_; } void exceptions(iostate e) { exc_ = e; clear(st_); }
    C fill() const { return fill_; } C fill(C c) { C o = fill_; fill_ = c; return o; }
    C widen(char c) const { return C(c); } char narrow(C c, char) const { return char(c); }
    basic_ostream<C, T>* tie() const { return nullptr; }
    basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; prec_ = o.prec_; width_ = o.width_; fill_ = o.fill_; return *this; }
protected:
    basic_streambuf<C, T>* buf_ = nullptr; iostate st_ = badbit, exc_ = 0; C fill_ = C(' ');
};

template<class C, class T> class basic_ostream : virtual public basic_ios<C, T>
{
public:
    typedef basic_ostream Self; typedef basic_ios<C, T> B;
    basic_ostream() {}
    explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
    virtual ~basic_ostream() {}
    class sentry { bool ok_; public: explicit sentry(basic_ostream& o) : ok_(o.good()) {} explicit operator bool() const { return ok_; } };
    Self& operator<<(Self& (*f)(Self&)) { return f(*this); }
    Self& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    Self& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    Self& operator<<(bool v) { if (this->flags() & ios_base::boolalpha) return v ? lit("true", 4) : lit("false", 5); if (sym_is_symbolic(v)) return token('b', v); C c = v ? C('1') : C('0'); return raw(&c, 1); }
    Self& operator<<(short v) { return num(v, v < 0, v < 0 ? -(unsigned long long)v : v, (unsigned short)v); }
    Self& operator<<(unsigned short v) { return num(v, false, v, v); }
    Self& operator<<(int v) { return num((unsigned long long)(long long)v, v < 0, v, (unsigned)v); }
    Self& operator<<(unsigned v) { return num(v, false, v, v); }
    Self& operator<<(long v) { return num(v, v < 0, v, v); }
    Self& operator<<(unsigned long v) { return num(v, false, v, v); }
    Self& operator<<(long long v) { return num(v, v < 0, v, v); }
    Self& operator<<(unsigned long long v) { return num(v, false, v, v); }
    Self& operator<<(double v) { return flt(v); }
    Self& operator<<(float v) { return flt(v); }
    Self& operator<<(long double v) { return flt((double)v); }
    Self& operator<<(const void* p) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)p); return lit(b, strlen(b)); }
    Self& operator<<(nullptr_t) { return lit("nullptr", 7); }
    Self& operator<<(basic_streambuf<C, T>* b) { for (;;) { auto c = b->sbumpc(); if (T::eq_int_type(c, T::eof())) break; put(T::to_char_type(c)); } return *this; }
    Self& put(C c) { return write(&c, 1); }
    Self& write(const C* s, streamsize n) { if (this->good() && this->buf_) { if (this->buf_->sputn(s, n) != n) this->setstate(ios_base::badbit); } return *this; }
    Self& flush() { if (this->buf_ && this->buf_->pubsync() == -1) this->setstate(ios_base::badbit); return *this; }
    long long tellp() { return this->fail() ? -1 : this->buf_->seekoff_(0, ios_base::cur, ios_base::out); }
    Self& seekp(long long p) { if (!this->fail()) this->buf_->seekoff_(p, ios_base::beg, ios_base::out); return *this; }
    Self& seekp(long long p, int d) { if (!this->fail()) this->buf_->seekoff_(p, d, ios_base::out); return *this; }
    // padded output
    Self& raw(const C* s, streamsize n)
    {
        streamsize w = this->width(); this->width(0);
        if (w <= n) return write(s, n);
        bool l = (this->flags() & ios_base::adjustfield) == ios_base::left;
        if (l) write(s, n);
        for (streamsize i = n; i < w; ++i) { C f = this->fill(); write(&f, 1); }
        if (!l) write(s, n);
        return *this;
    }
    Self& lit(const char* s, streamsize n) { if constexpr (sizeof(C) == 1) return raw((const C*)s, n); else { basic_string<C> t; for (streamsize i = 0; i < n; ++i) t += C(s[i]); return raw(t.data(), n); } }
private:
    Self& token(char k, unsigned long long bits)
    {
        this->width(0);
        C b[10]; b[0] = 1; b[1] = k; for (int i = 0; i < 8; ++i) b[2 + i] = C((unsigned char)(bits >> (8 * i)));
        return write(b, 10);
    }
    Self& num(unsigned long long bits, bool neg, long long, unsigned long long u)
    {
        auto base = this->flags() & ios_base::basefield;
        if (base == ios_base::hex || base == ios_base::oct) {
            char b[32]; int k = 32; int sh = base == ios_base::hex ? 4 : 3;
            const char* dig = (this->flags() & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
            do { b[--k] = dig[u & ((1u << sh) - 1)]; u >>= sh; } while (u);
            if (this->flags() & ios_base::showbase) { if (base == ios_base::hex) b[--k] = (this->flags() & ios_base::uppercase) ? 'X' : 'x'; b[--k] = '0'; }
            return lit(b + k, 32 - k);
        }
        if (sym_is_symbolic(bits)) return token('i', bits);
        unsigned long long m = neg ? 0 - bits : bits;
        char b[32]; int k = 32;
        do { b[--k] = char('0' + m % 10); m /= 10; } while (m);
        if (neg) b[--k] = '-'; else if (this->flags() & ios_base::showpos) b[--k] = '+';
        return lit(b + k, 32 - k);
    }
    Self& flt(double v)
    {
        unsigned long long u; memcpy(&u, &v, 8);
        if (sym_is_symbolic(u)) return token('d', u);
        char f[16], b[400]; int k = 0; f[k++] = '%';
        if (this->flags() & ios_base::showpos) f[k++] = '+';
        f[k++] = '.'; f[k++] = '*';
        auto ff = this->flags() & ios_base::floatfield; bool up = this->flags() & ios_base::uppercase;
        f[k++] = ff == ios_base::fixed ? (up ? 'F' : 'f') : ff == ios_base::scientific ? (up ? 'E' : 'e') : (up ? 'G' : 'g'); f[k] = 0;
        snprintf(b, sizeof b, f, (int)this->precision(), v);
        return lit(b, strlen(b));
    }
};
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, C c) { return o.raw(&c, 1); }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char x = (char)c; return o.raw(&x, 1); }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char x = (char)c; return o.raw(&x, 1); }
template<class T> basic_ostream<wchar_t, T>& operator<<(basic_ostream<wchar_t, T>& o, char c) { wchar_t x = c; return o.raw(&x, 1); }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const C* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.raw(s, (streamsize)T::length(s)); }
template<class T> basic_ostream<wchar_t, T>& operator<<(basic_ostream<wchar_t, T>& o, const char* s) { return o.lit(s, (streamsize)strlen(s)); }
template<class C, class T> inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { return o.raw(s, n); }
template<class Os, class V, class = typename enable_if<!is_lvalue_reference<Os>::value && is_base_of<ios_base, Os>::value>::type, class = decltype(std::declval<Os&>() << std::declval<const V&>())>
Os&& operator<<(Os&& o, const V& v) { o << v; return std::move(o); }
template<class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put(C('\n')); return o.flush(); }
template<class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(C()); }
template<class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }

// numbers in text that has to be scanned byte by byte: a token of three concrete bytes, which names the value
struct _Sh_tokens { unsigned long long v[60]; int n = 0; };
inline _Sh_tokens& _sh_tokens() { static _Sh_tokens t; return t; }
inline std::string _sh_token(char kind, unsigned long long bits) { auto& t = _sh_tokens(); if (t.n == 60) __builtin_trap(); t.v[t.n] = bits; char b[3] = {2, kind, (char)('@' + t.n++)}; return std::string(b, 3); }
template<class C, class T> class basic_istream : virtual public basic_ios<C, T>
{
public:
    typedef basic_istream Self; typedef typename T::int_type int_type;
    basic_istream() {}
    explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); }
    virtual ~basic_istream() {}
    class sentry { bool ok_; public: explicit sentry(basic_istream& i, bool noskip = false) { if (!noskip && (i.flags() & ios_base::skipws)) i.ws_(); ok_ = i.good(); if (!ok_) i.setstate(ios_base::failbit); } explicit operator bool() const { return ok_; } };
    Self& operator>>(Self& (*f)(Self&)) { return f(*this); }
    Self& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    Self& operator>>(int& v) { long long x; if (integer(x)) { if (x > 2147483647ll) { v = 2147483647; this->setstate(ios_base::failbit); } else if (x < -2147483648ll) { v = -2147483648; this->setstate(ios_base::failbit); } else v = (int)x; } else v = 0; return *this; }
    Self& operator>>(long& v) { long long x; v = integer(x) ? (long)x : 0; return *this; }
    Self& operator>>(long long& v) { long long x; v = integer(x) ? x : 0; return *this; }
    Self& operator>>(unsigned& v) { long long x; v = integer(x) ? (unsigned)x : 0; return *this; }
    Self& operator>>(unsigned short& v) { long long x; v = integer(x) ? (unsigned short)x : 0; return *this; }
    Self& operator>>(short& v) { long long x; v = integer(x) ? (short)x : 0; return *this; }
    Self& operator>>(unsigned long& v) { long long x; v = integer(x) ? (unsigned long)x : 0; return *this; }
    Self& operator>>(unsigned long long& v) { long long x; v = integer(x) ? (unsigned long long)x : 0; return *this; }
    Self& operator>>(double& v)
    {
        v = 0; sentry s(*this); if (!s) return *this;
        char tk; unsigned long long tb; if (token_(tk, tb)) { if (tk == 'd') memcpy(&v, &tb, 8); else v = (double)(long long)tb; return *this; }
        std::string t;
        for (;;) { auto c = this->buf_->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } char k = (char)c; if ((k >= '0' && k <= '9') || k == '+' || k == '-' || k == '.' || k == 'e' || k == 'E') { t += k; this->buf_->sbumpc(); } else break; }
        char* e; v = strtod(t.c_str(), &e); if (t.empty() || *e) { v = 0; this->setstate(ios_base::failbit); }
        return *this;
    }
    Self& operator>>(long double& v) { double d; *this >> d; v = d; return *this; }
    Self& operator>>(float& v) { double d; *this >> d; v = (float)d; return *this; }
    Self& operator>>(bool& v)
    {
        v = false; sentry s(*this); if (!s) return *this;
        if (this->flags() & ios_base::boolalpha) {
            std::string t; const char* words[2] = {"false", "true"};
            for (int k = 0; k < 2; ++k) {
                bool match = true; // consume as long as it matches
                if (T::eq_int_type(this->buf_->sgetc(), T::to_int_type(C(words[k][0])))) {
                    for (const char* p = words[k]; *p; ++p) { auto c = this->buf_->sgetc(); if (!T::eq_int_type(c, T::to_int_type(C(*p)))) { if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); match = false; break; } this->buf_->sbumpc(); }
                    if (match) v = k; else this->setstate(ios_base::failbit);
                    return *this;
                }
            }
            this->setstate(ios_base::failbit);
        } else { long long x; if (integer(x)) { if (x == 0 || x == 1) v = x; else { v = true; this->setstate(ios_base::failbit); } } }
        return *this;
    }
    int_type get() { if (!this->good()) { this->setstate(ios_base::failbit); return T::eof(); } auto c = this->buf_->sbumpc(); gc_ = 1; if (T::eq_int_type(c, T::eof())) { gc_ = 0; this->setstate(ios_base::eofbit | ios_base::failbit); } return c; }
    Self& get(C& c) { auto x = get(); if (!T::eq_int_type(x, T::eof())) c = T::to_char_type(x); return *this; }
    int_type peek() { if (!this->good()) return T::eof(); auto c = this->buf_->sgetc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); return c; }
    Self& read(C* s, streamsize n) { gc_ = 0; if (!this->good()) { this->setstate(ios_base::failbit); return *this; } gc_ = this->buf_->sgetn(s, n); if (gc_ != n) this->setstate(ios_base::eofbit | ios_base::failbit); return *this; }
    Self& ignore(streamsize n = 1) { while (n-- > 0 && !T::eq_int_type(get(), T::eof())) {} return *this; }
    streamsize gcount() const { return gc_; }
    long long tellg() { return this->fail() ? -1 : this->buf_->seekoff_(0, ios_base::cur, ios_base::in); }
    Self& seekg(long long p) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail()) this->buf_->seekoff_(p, ios_base::beg, ios_base::in); return *this; }
    Self& seekg(long long p, int d) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail()) this->buf_->seekoff_(p, d, ios_base::in); return *this; }
    void ws_() { for (;;) { auto c = this->buf_->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); return; } if (!(c == ' ' || (c >= 9 && c <= 13))) return; this->buf_->sbumpc(); } }
private:
    bool integer(long long& v)
    {
        v = 0; sentry s(*this); if (!s) return false;
        char tk; unsigned long long tb; if (token_(tk, tb)) { if (tk == 'i') { v = (long long)tb; return true; } this->setstate(ios_base::failbit); return false; }
        bool neg = false, any = false; auto c = this->buf_->sgetc();
        if (c == '-' || c == '+') { neg = c == '-'; this->buf_->sbumpc(); }
        for (;;) { c = this->buf_->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } if (c < '0' || c > '9') break; any = true; if (v < 400000000000000000ll) v = v * 10 + (c - '0'); this->buf_->sbumpc(); }
        if (!any) { this->setstate(ios_base::failbit); return false; }
        if (neg) v = -v; return true;
    }
    bool token_(char& k, unsigned long long& b)
    {
        if (!T::eq_int_type(this->buf_->sgetc(), T::to_int_type(C(2)))) return false;
        this->buf_->sbumpc(); k = (char)this->buf_->sbumpc(); b = _sh_tokens().v[(char)this->buf_->sbumpc() - '@'];
        if (T::eq_int_type(this->buf_->sgetc(), T::eof())) this->setstate(ios_base::eofbit);
        return true;
    }
    streamsize gc_ = 0;
};
template<class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { i.ws_(); return i; }
template<class C, class T> basic_istream<C, T>& operator>>(basic_istream<C, T>& i, C& c) { typename basic_istream<C, T>::sentry s(i); if (s) i.get(c); return i; }
template<class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T>
{
public:
    basic_iostream() {}
    explicit basic_iostream(basic_streambuf<C, T>* b) { this->init(b); }
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template<class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T>
{
public:
    typedef basic_string<C, T, A> S; S s; size_t g = 0; bool ate = true; size_t p = 0;
    basic_stringbuf() {}
    explicit basic_stringbuf(int) {}
    explicit basic_stringbuf(const S& x, int = 0) : s(x) { ate = false; }
    streamsize xsputn(const C* d, streamsize n) override { if (ate) { s.append(d, (size_t)n); return n; } size_t k = s.size() > p ? s.size() - p : 0; if (k > (size_t)n) k = (size_t)n; s.replace(p, k, d, (size_t)n); p += (size_t)n; return n; }
    typename T::int_type underflow() override { return g < s.size() ? T::to_int_type(s[g]) : T::eof(); }
    typename T::int_type uflow() override { return g < s.size() ? T::to_int_type(s[g++]) : T::eof(); }
    long long seekoff_(long long o, int d, int w) override { long long b = d == ios_base::beg ? 0 : d == ios_base::end ? (long long)s.size() : (w & ios_base::in) ? (long long)g : (ate ? (long long)s.size() : (long long)p); b += o; if (w & ios_base::in) g = (size_t)b; else { if ((size_t)b != s.size() || !ate) { ate = false; p = (size_t)b; } } return b; }
    S str() const { return s; } void str(const S& x) { s = x; g = 0; p = 0; ate = false; }
};
#define SHADOW_SS(NAME, BASE, DEFM) \
    template<class C, class T, class A> class NAME : public BASE<C, T> \
    { public: typedef basic_string<C, T, A> S; \
        NAME() { this->init(&b_); } explicit NAME(int m) { this->init(&b_); b_.ate = true; (void)m; } \
        explicit NAME(const S& s, int m = DEFM) { b_.s = s; b_.ate = (m & ios_base::ate) || s.empty(); this->init(&b_); } \
        NAME(NAME&& o) : b_(std::move(o.b_)) { this->init(&b_); this->copyfmt(o); } \
        NAME& operator=(NAME&& o) { b_ = std::move(o.b_); return *this; } \
        S str() const { return b_.str(); } void str(const S& s) { b_.str(s); if (s.empty()) b_.ate = true; } basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); } \
        void swap(NAME& o) { std::swap(b_, o.b_); } \
      private: basic_stringbuf<C, T, A> b_; };
SHADOW_SS(basic_ostringstream, basic_ostream, ios_base::out)
SHADOW_SS(basic_istringstream, basic_istream, ios_base::in)
SHADOW_SS(basic_stringstream, basic_iostream, (ios_base::in | ios_base::out))
_GLIBCXX_END_NAMESPACE_CXX11

// manipulators
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
struct _Sh_setw { int n; }; inline _Sh_setw setw(int n) { return {n}; }
struct _Sh_setp { int n; }; inline _Sh_setp setprecision(int n) { return {n}; }
template<class C> struct _Sh_setf { C c; }; template<class C> _Sh_setf<C> setfill(C c) { return {c}; }
struct _Sh_flags { int f; bool on; }; inline _Sh_flags setiosflags(int f) { return {f, true}; } inline _Sh_flags resetiosflags(int f) { return {f, false}; }
struct _Sh_base { int b; }; inline _Sh_base setbase(int b) { return {b}; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sh_setw s) { o.width(s.n); return o; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sh_setp s) { o.precision(s.n); return o; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sh_setf<C> s) { o.fill(s.c); return o; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sh_flags s) { if (s.on) o.setf(s.f); else o.unsetf(s.f); return o; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sh_base s) { o.setf(s.b == 16 ? ios_base::hex : s.b == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
template<class C, class T> basic_istream<C, T>& operator>>(basic_istream<C, T>& o, _Sh_setw s) { o.width(s.n); return o; }
template<class C> struct _Sh_quoted { const C* s; size_t n; };
inline _Sh_quoted<char> quoted(const std::string& s) { return {s.data(), s.size()}; }
inline _Sh_quoted<char> quoted(const char* s) { return {s, strlen(s)}; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Sh_quoted<C> q) { o.put('"'); for (size_t i = 0; i < q.n; ++i) { if (q.s[i] == '"' || q.s[i] == '\\') o.put('\\'); o.put(q.s[i]); } return o.put('"'); }

extern ostream cout, cerr, clog; extern istream cin; extern wostream wcout;
template<class C, class T> class istreambuf_iterator
{
public:
    typedef input_iterator_tag iterator_category; typedef C value_type; typedef ptrdiff_t difference_type; typedef C* pointer; typedef C reference;
    istreambuf_iterator() {} istreambuf_iterator(basic_istream<C, T>& s) : b_(s.rdbuf()) { chk(); } istreambuf_iterator(basic_streambuf<C, T>* b) : b_(b) { chk(); }
    C operator*() const { return T::to_char_type(b_->sgetc()); }
    istreambuf_iterator& operator++() { b_->sbumpc(); chk(); return *this; }
    istreambuf_iterator operator++(int) { auto t = *this; ++*this; return t; }
    bool operator==(const istreambuf_iterator& o) const { return !b_ == !o.b_; } bool operator!=(const istreambuf_iterator& o) const { return !(*this == o); }
private:
    void chk() { if (b_ && T::eq_int_type(b_->sgetc(), T::eof())) b_ = nullptr; }
    basic_streambuf<C, T>* b_ = nullptr;
};
template<class C, class T> class ostreambuf_iterator
{
public:
    typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    ostreambuf_iterator(basic_ostream<C, T>& s) : b_(s.rdbuf()) {}
    ostreambuf_iterator& operator=(C c) { b_->sputc(c); return *this; } ostreambuf_iterator& operator*() { return *this; } ostreambuf_iterator& operator++() { return *this; } ostreambuf_iterator& operator++(int) { return *this; }
private: basic_streambuf<C, T>* b_;
};
} // namespace std
