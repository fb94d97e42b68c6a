// Compact stand-in for the libstdc++ stream headers (compiled symbolically with the code under check).
// Behaviour follows libstdc++ in the "C" locale; every check replays sampled paths against the real library.
#pragma once
#include <bits/c++config.h>
#include <iosfwd>
#include <cstddef>
#include <cstring>
#include <exception>
#include <limits>
#include <stdexcept>
#include <string>
#include <bits/localefwd.h>

extern "C" {
double symex_rt_strtod(const char*, char**);
unsigned long symex_select(unsigned long, unsigned long, unsigned long);
int symex_num_scan(const char*, unsigned long, int, double*, unsigned long*, unsigned long*, unsigned*, unsigned*);
unsigned long symex_fmt_double(char*, unsigned long, const char*, double);
void symex_stdout_write(int fd, const char*, unsigned long);
}

namespace std {

class ios_base {
  public:
    typedef unsigned fmtflags;
    typedef unsigned iostate;
    typedef unsigned openmode;
    enum seekdir { beg = 0, cur = 1, end = 2 };
    static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096,
                          unitbuf = 8192, uppercase = 16384, adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    class failure : public std::runtime_error {
      public:
        explicit failure(const std::string& s) : std::runtime_error(s) {}
    };
    class Init {
      public:
        Init() {}
    };
    fmtflags flags() const { return fl_; }
    fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
    void unsetf(fmtflags m) { fl_ &= ~m; }
    streamsize width() const { return w_; }
    streamsize width(streamsize w) { streamsize o = w_; w_ = w; return o; }
    streamsize precision() const { return p_; }
    streamsize precision(streamsize p) { streamsize o = p_; p_ = p; return o; }
    static bool sync_with_stdio(bool = true) { return true; }
    virtual ~ios_base() {}

  protected:
    ios_base() : fl_(skipws | dec), w_(0), p_(6) {}
    fmtflags fl_;
    streamsize w_, p_;
};

template<typename C, typename T>
class basic_streambuf {
  public:
    typedef C char_type;
    typedef T traits_type;
    typedef typename T::int_type int_type;
    virtual ~basic_streambuf() {}
    streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); }
    int_type sputc(C c) { return xsputn(&c, 1) == 1 ? T::to_int_type(c) : T::eof(); }
    int_type sgetc() { return underflow(); }
    int_type sbumpc() { return uflow(); }
    int_type snextc() { return T::eq_int_type(uflow(), T::eof()) ? T::eof() : underflow(); }
    streamsize sgetn(C* s, streamsize n) { streamsize i = 0; for (; i < n; ++i) { int_type c = uflow(); if (T::eq_int_type(c, T::eof())) break; s[i] = T::to_char_type(c); } return i; }
    int_type sungetc() { return unget_(); }
    int_type sputbackc(C) { return unget_(); }
    streamsize in_avail() { return avail_(); }
    int pubsync() { return sync(); }
    virtual const C* symex_rest(size_t&) { return 0; }
    virtual void symex_skip(size_t) {}

  protected:
    basic_streambuf() {}
    virtual streamsize xsputn(const C*, streamsize) { return 0; }
    virtual int_type overflow(int_type c = T::eof()) { return T::eof(); (void)c; }
    virtual int_type underflow() { return T::eof(); }
    virtual int_type uflow() { return T::eof(); }
    virtual int_type unget_() { return T::eof(); }
    virtual streamsize avail_() { return 0; }
    virtual int sync() { return 0; }
};

_GLIBCXX_BEGIN_NAMESPACE_CXX11
template<typename C, typename T, typename A>
class basic_stringbuf : public basic_streambuf<C, T> {
  public:
    typedef typename T::int_type int_type;
    explicit basic_stringbuf(ios_base::openmode m = ios_base::in | ios_base::out) : s_(), g_(0), p_(0), m_(m) {}
    explicit basic_stringbuf(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in | ios_base::out) : s_(s), g_(0), p_(0), m_(m) { place_(); }
    basic_string<C, T, A> str() const { return s_; }
    void str(const basic_string<C, T, A>& s) { s_ = s; g_ = 0; p_ = 0; place_(); }
    size_t g() const { return g_; }
    size_t p() const { return p_; }
    void g(size_t v) { g_ = v; }
    void p(size_t v) { p_ = v; }
    size_t size() const { return s_.size(); }

    const C* symex_rest(size_t& n) { if (!(m_ & ios_base::in) || g_ > s_.size()) return 0; n = s_.size() - g_; return s_.data() + g_; }
    void symex_skip(size_t n) { g_ += n; }

  protected:
    void place_() { if (m_ & (ios_base::ate | ios_base::app)) p_ = s_.size(); }
    streamsize xsputn(const C* s, streamsize n) {
        if (n <= 0) return 0;
        if (!(m_ & ios_base::out)) return 0;
        if (p_ == s_.size()) s_.append(s, n);
        else {
            size_t over = s_.size() - p_;
            if (over > (size_t)n) over = n;
            s_.replace(p_, over, s, n);
        }
        p_ += n;
        return n;
    }
    int_type underflow() { return (m_ & ios_base::in) && g_ < s_.size() ? T::to_int_type(s_[g_]) : T::eof(); }
    int_type uflow() { return (m_ & ios_base::in) && g_ < s_.size() ? T::to_int_type(s_[g_++]) : T::eof(); }
    int_type unget_() { if (!g_) return T::eof(); --g_; return T::to_int_type(s_[g_]); }
    streamsize avail_() { return s_.size() - g_; }
    basic_string<C, T, A> s_;
    size_t g_, p_;
    ios_base::openmode m_;
};
_GLIBCXX_END_NAMESPACE_CXX11

template<typename C, typename T>
class basic_ios : public ios_base {
  public:
    typedef C char_type;
    typedef T traits_type;
    typedef typename T::int_type int_type;
    explicit basic_ios(basic_streambuf<C, T>* b) : sb_(0), st_(0), ex_(0), fill_(C(' ')), tie_(0) { init(b); }
    virtual ~basic_ios() {}
    iostate rdstate() const { return st_; }
    void clear(iostate s = goodbit) { st_ = sb_ ? s : (s | badbit); if (st_ & ex_) throw failure("basic_ios::clear"); }
    void setstate(iostate s) { clear(st_ | s); }
    void _M_setstate(iostate s) { st_ |= s; if (ex_ & s) throw; }
    bool good() const { return st_ == 0; }
    bool eof() const { return (st_ & eofbit) != 0; }
    bool fail() const { return (st_ & (badbit | failbit)) != 0; }
    bool bad() const { return (st_ & badbit) != 0; }
    bool operator!() const { return fail(); }
#if __cplusplus >= 201103L
    explicit operator bool() const { return !fail(); }
#else
    operator void*() const { return fail() ? 0 : const_cast<basic_ios*>(this); }
#endif
    iostate exceptions() const { return ex_; }
    void exceptions(iostate e) { ex_ = e; clear(st_); }
    C fill() const { return fill_; }
    C fill(C c) { C o = fill_; fill_ = c; return o; }
    basic_streambuf<C, T>* rdbuf() const { return sb_; }
    basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { basic_streambuf<C, T>* o = sb_; sb_ = b; clear(); return o; }
    C widen(char c) const { return C(c); }
    char narrow(C c, char) const { return char(c); }
    basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; w_ = o.w_; p_ = o.p_; fill_ = o.fill_; return *this; }

  protected:
    basic_ios() : sb_(0), st_(badbit), ex_(0), fill_(C(' ')), tie_(0) {}
    void init(basic_streambuf<C, T>* b) { sb_ = b; st_ = b ? goodbit : badbit; ex_ = 0; fill_ = C(' '); fl_ = skipws | dec; w_ = 0; p_ = 6; }
    basic_streambuf<C, T>* sb_;
    iostate st_, ex_;
    C fill_;
    void* tie_;
};

template<typename C, typename T>
class basic_ostream : virtual public basic_ios<C, T> {
  public:
    typedef C char_type;
    typedef T traits_type;
    explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
    virtual ~basic_ostream() {}
    class sentry {
        bool ok_;

      public:
        explicit sentry(basic_ostream& o) : ok_(o.good()) { if (!ok_) o.setstate(ios_base::failbit); }
#if __cplusplus >= 201103L
        explicit
#endif
        operator bool() const { return ok_; }
    };
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& operator<<(bool v) {
        if (this->flags() & ios_base::boolalpha) return pad_(v ? "true" : "false", v ? 4 : 5, 0);
        return int_(v, false);
    }
    basic_ostream& operator<<(short v) { return sint_(v, (unsigned short)v); }
    basic_ostream& operator<<(unsigned short v) { return int_(v, false); }
    basic_ostream& operator<<(int v) { return sint_(v, (unsigned)v); }
    basic_ostream& operator<<(unsigned v) { return int_(v, false); }
    basic_ostream& operator<<(long v) { return sint_(v, (unsigned long)v); }
    basic_ostream& operator<<(unsigned long v) { return int_(v, false); }
    basic_ostream& operator<<(long long v) { return sint_(v, (unsigned long long)v); }
    basic_ostream& operator<<(unsigned long long v) { return int_(v, false); }
    basic_ostream& operator<<(float v) { return dbl_(v); }
    basic_ostream& operator<<(double v) { return dbl_(v); }
    basic_ostream& operator<<(long double v) { return dbl_((double)v); }
    basic_ostream& operator<<(const void* p) { ios_base::fmtflags f = this->flags(); this->flags((f & ~ios_base::basefield) | ios_base::hex | ios_base::showbase); int_((unsigned long)p, false); this->flags(f); return *this; }
    basic_ostream& operator<<(basic_streambuf<C, T>* b) {
        if (!b) { this->setstate(ios_base::badbit); return *this; }
        bool any = false;
        for (;;) { typename T::int_type c = b->sbumpc(); if (T::eq_int_type(c, T::eof())) break; put(T::to_char_type(c)); any = true; }
        if (!any) this->setstate(ios_base::failbit);
        return *this;
    }
    basic_ostream& put(C c) { return write(&c, 1); }
    basic_ostream& write(const C* s, streamsize n) {
        sentry ok(*this);
        if (ok && this->rdbuf()->sputn(s, n) != n) this->setstate(ios_base::badbit);
        return *this;
    }
    basic_ostream& flush() { if (this->rdbuf()) this->rdbuf()->pubsync(); return *this; }
    streamoff tellp() { basic_stringbuf<C, T, allocator<C> >* b = dynamic_cast<basic_stringbuf<C, T, allocator<C> >*>(this->rdbuf()); return b ? (streamoff)b->p() : -1; }
    basic_ostream& seekp(streamoff o) { basic_stringbuf<C, T, allocator<C> >* b = dynamic_cast<basic_stringbuf<C, T, allocator<C> >*>(this->rdbuf()); if (b) b->p(o); return *this; }
    basic_ostream& seekp(streamoff o, ios_base::seekdir d) { basic_stringbuf<C, T, allocator<C> >* b = dynamic_cast<basic_stringbuf<C, T, allocator<C> >*>(this->rdbuf()); if (b) b->p(o + (d == ios_base::end ? b->size() : d == ios_base::cur ? b->p() : 0)); return *this; }

  protected:
    basic_ostream() { this->init(0); }
    // text with `pre` leading characters (sign or base prefix) kept in front of internal padding
    basic_ostream& pad_(const char* s, streamsize n, streamsize pre) {
        sentry ok(*this);
        if (!ok) return *this;
        streamsize w = this->width();
        streamsize k = w > n ? w - n : 0;
        ios_base::fmtflags a = this->flags() & ios_base::adjustfield;
        if (a == ios_base::left) { raw_(s, n); fill_n_(k); }
        else if (a == ios_base::internal) { raw_(s, pre); fill_n_(k); raw_(s + pre, n - pre); }
        else { fill_n_(k); raw_(s, n); }
        this->width(0);
        return *this;
    }
    void raw_(const char* s, streamsize n) { if (n && this->rdbuf()->sputn(s, n) != n) this->setstate(ios_base::badbit); }
    void fill_n_(streamsize k) { C c = this->fill(); for (; k > 0; --k) raw_(&c, 1); }
    basic_ostream& sint_(long long v, unsigned long long u) {
        ios_base::fmtflags b = this->flags() & ios_base::basefield;
        if (b == ios_base::hex || b == ios_base::oct) return int_(u, false);
        return v < 0 ? int_(0ull - (unsigned long long)v, true) : int_((unsigned long long)v, false);
    }
    basic_ostream& int_(unsigned long long v, bool neg) {
        char buf[40];
        int i = 40;
        ios_base::fmtflags f = this->flags();
        unsigned base = (f & ios_base::basefield) == ios_base::hex ? 16 : (f & ios_base::basefield) == ios_base::oct ? 8 : 10;
        unsigned long long o = v;
        do { unsigned d = v % base; buf[--i] = d < 10 ? '0' + d : ((f & ios_base::uppercase) ? 'A' : 'a') + d - 10; v /= base; } while (v);
        int pre = 0;
        if ((f & ios_base::showbase) && o) { if (base == 16) { buf[--i] = (f & ios_base::uppercase) ? 'X' : 'x'; buf[--i] = '0'; pre = 2; } else if (base == 8) buf[--i] = '0'; }
        if (neg) { buf[--i] = '-'; pre = 1; }
        else if ((f & ios_base::showpos) && base == 10) { buf[--i] = '+'; pre = 1; }
        return pad_(buf + i, 40 - i, pre);
    }
    basic_ostream& dbl_(double v) {
        char fmt[16], buf[400];
        int k = 0;
        ios_base::fmtflags f = this->flags();
        fmt[k++] = '%';
        if (f & ios_base::showpos) fmt[k++] = '+';
        if (f & ios_base::showpoint) fmt[k++] = '#';
        fmt[k++] = '.';
        unsigned p = this->precision() < 0 ? 6 : (unsigned)this->precision();
        if (p > 99) p = 99;
        if (p >= 10) fmt[k++] = '0' + p / 10;
        fmt[k++] = '0' + p % 10;
        ios_base::fmtflags ff = f & ios_base::floatfield;
        char c = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? 'e' : 'g';
        if (f & ios_base::uppercase) c -= 32;
        fmt[k++] = c;
        fmt[k] = 0;
        unsigned long n = symex_fmt_double(buf, sizeof buf, fmt, v);
        return pad_(buf, n, buf[0] == '-' || buf[0] == '+');
    }
    template<typename CC, typename TT>
    friend basic_ostream<CC, TT>& symex_pad(basic_ostream<CC, TT>& o, const CC* s, streamsize n);
};
template<typename C, typename T>
inline basic_ostream<C, T>& symex_pad(basic_ostream<C, T>& o, const C* s, streamsize n) { return o.pad_(s, n, 0); }
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return symex_pad(o, &c, 1); }
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { return symex_pad(o, (const char*)&c, 1); }
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return symex_pad(o, (const char*)&c, 1); }
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) {
    if (!s) o.setstate(ios_base::badbit);
    else symex_pad(o, s, (streamsize)T::length(s));
    return o;
}
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const signed char* s) { return o << (const char*)s; }
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const unsigned char* s) { return o << (const char*)s; }
template<typename C, typename T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put(C('\n')); return o.flush(); }
template<typename C, typename T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(C()); }
template<typename C, typename T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }

inline bool symex_space(int c) { return c == ' ' || (unsigned)(c - 9) < 5u; }

template<typename C, typename T>
class basic_istream : virtual public basic_ios<C, T> {
  public:
    typedef C char_type;
    typedef T traits_type;
    typedef typename T::int_type int_type;
    explicit basic_istream(basic_streambuf<C, T>* b) : gc_(0) { this->init(b); }
    virtual ~basic_istream() {}
    class sentry {
        bool ok_;

      public:
        explicit sentry(basic_istream& i, bool noskip = false) : ok_(false) {
            if (i.good()) {
                if (!noskip && (i.flags() & ios_base::skipws)) {
                    int_type c = i.rdbuf()->sgetc();
                    while (!T::eq_int_type(c, T::eof()) && symex_space(c)) c = i.rdbuf()->snextc();
                    if (T::eq_int_type(c, T::eof())) i.setstate(ios_base::eofbit | ios_base::failbit);
                }
            }
            if (i.good()) ok_ = true;
            else i.setstate(ios_base::failbit);
        }
#if __cplusplus >= 201103L
        explicit
#endif
        operator bool() const { return ok_; }
    };
    basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
    basic_istream& operator>>(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_istream& operator>>(double& v) { double d = v; if (dbl_(d)) v = d; return *this; }
    basic_istream& operator>>(float& v) { double d = v; if (dbl_(d)) v = (float)d; return *this; }
    basic_istream& operator>>(long double& v) { double d = (double)v; if (dbl_(d)) v = d; return *this; }
    basic_istream& operator>>(short& v) { return int_(v); }
    basic_istream& operator>>(unsigned short& v) { return int_(v); }
    basic_istream& operator>>(int& v) { return int_(v); }
    basic_istream& operator>>(unsigned& v) { return int_(v); }
    basic_istream& operator>>(long& v) { return int_(v); }
    basic_istream& operator>>(unsigned long& v) { return int_(v); }
    basic_istream& operator>>(long long& v) { return int_(v); }
    basic_istream& operator>>(unsigned long long& v) { return int_(v); }
    basic_istream& operator>>(bool& v) { long t = 0; int_(t); if (!this->fail()) { v = t != 0; if (t != 0 && t != 1) this->setstate(ios_base::failbit); } return *this; }
    int_type get() {
        gc_ = 0;
        sentry ok(*this, true);
        int_type c = T::eof();
        if (ok) { c = this->rdbuf()->sbumpc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit | ios_base::failbit); else gc_ = 1; }
        return c;
    }
    basic_istream& get(C& c) { int_type i = get(); if (!T::eq_int_type(i, T::eof())) c = T::to_char_type(i); return *this; }
    int_type peek() { gc_ = 0; sentry ok(*this, true); int_type c = T::eof(); if (ok) { c = this->rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); } return c; }
    basic_istream& unget() { this->clear(this->rdstate() & ~ios_base::eofbit); if (T::eq_int_type(this->rdbuf()->sungetc(), T::eof())) this->setstate(ios_base::badbit); return *this; }
    basic_istream& putback(C) { return unget(); }
    basic_istream& ignore(streamsize n = 1, int_type d = T::eof()) {
        gc_ = 0;
        sentry ok(*this, true);
        if (ok) while (gc_ < n) { int_type c = this->rdbuf()->sbumpc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } ++gc_; if (T::eq_int_type(c, d)) break; }
        return *this;
    }
    basic_istream& read(C* s, streamsize n) { sentry ok(*this, true); gc_ = 0; if (ok) { gc_ = this->rdbuf()->sgetn(s, n); if (gc_ != n) this->setstate(ios_base::eofbit | ios_base::failbit); } return *this; }
    streamsize gcount() const { return gc_; }
    streamoff tellg() { basic_stringbuf<C, T, allocator<C> >* b = dynamic_cast<basic_stringbuf<C, T, allocator<C> >*>(this->rdbuf()); return b && !this->fail() ? (streamoff)b->g() : -1; }
    basic_istream& seekg(streamoff o) { basic_stringbuf<C, T, allocator<C> >* b = dynamic_cast<basic_stringbuf<C, T, allocator<C> >*>(this->rdbuf()); this->clear(this->rdstate() & ~ios_base::eofbit); if (b) b->g(o); return *this; }

  protected:
    basic_istream() : gc_(0) { this->init(0); }
    bool dbl_(double& v) {
        size_t n = 0;
        const C* p = this->good() && (this->flags() & ios_base::skipws) ? this->rdbuf()->symex_rest(n) : 0;
        if (p) {
            double x;
            size_t b, u;
            unsigned got, fin;
            if (!symex_num_scan(p, n, 0, &x, &b, &u, &got, &fin)) {
                unsigned some = b != n;  // something other than blanks is left
                this->rdbuf()->symex_skip(b + u);
                unsigned long xb, vb;  // v = some ? (got ? x : 0.0) : v, without branches
                memcpy(&xb, &x, 8);
                memcpy(&vb, &v, 8);
                vb = symex_select(some, symex_select(got, xb, 0), vb);
                memcpy(&v, &vb, 8);
                ios_base::iostate e = (got ^ 1u) * (unsigned)ios_base::failbit | fin * (unsigned)ios_base::eofbit;
                this->clear(this->rdstate() | e);
                return true;
            }
        }
        sentry ok(*this);
        if (!ok) return false;
        string x;
        bool mant = false, dot = false, sci = false;
        basic_streambuf<C, T>* b = this->rdbuf();
        int_type c = b->sgetc();
        if (c == '+' || c == '-') { x += (char)c; c = b->snextc(); }
        for (;;) {
            if (T::eq_int_type(c, T::eof())) break;
            if ((unsigned)(c - '0') < 10u) { x += (char)c; mant = true; }
            else if (c == '.' && !dot && !sci) { x += '.'; dot = true; }
            else if ((c == 'e' || c == 'E') && !sci && mant) {
                x += 'e'; sci = true;
                c = b->snextc();
                if (!T::eq_int_type(c, T::eof()) && (c == '+' || c == '-')) { x += (char)c; }
                else continue;
            }
            else break;
            c = b->snextc();
        }
        ios_base::iostate e = ios_base::goodbit;
        char* endp;
        v = symex_rt_strtod(x.c_str(), &endp);
        if (endp == x.c_str() || *endp != 0) { v = 0.0; e = ios_base::failbit; }
        else if (v == __builtin_huge_val()) { v = __DBL_MAX__; e = ios_base::failbit; }
        else if (v == -__builtin_huge_val()) { v = -__DBL_MAX__; e = ios_base::failbit; }
        if (T::eq_int_type(c, T::eof())) e |= ios_base::eofbit;
        if (e) this->setstate(e);
        return true;
    }
    template<typename I> basic_istream& int_(I& v) {
        sentry ok(*this);
        if (!ok) return *this;
        basic_streambuf<C, T>* b = this->rdbuf();
        int_type c = b->sgetc();
        bool neg = false, any = false, over = false;
        if (c == '+' || c == '-') { neg = c == '-'; c = b->snextc(); }
        unsigned base = (this->flags() & ios_base::basefield) == ios_base::hex ? 16 : (this->flags() & ios_base::basefield) == ios_base::oct ? 8 : 10;
        unsigned long long r = 0, lim;
        const bool sg = numeric_limits<I>::is_signed;
        lim = sg ? (neg ? (unsigned long long)numeric_limits<I>::max() + 1 : (unsigned long long)numeric_limits<I>::max()) : (unsigned long long)numeric_limits<I>::max();
        for (;; c = b->snextc()) {
            if (T::eq_int_type(c, T::eof())) break;
            unsigned d;
            if ((unsigned)(c - '0') < 10u) d = c - '0';
            else if ((unsigned)((c | 32) - 'a') < 6u) d = (c | 32) - 'a' + 10;
            else break;
            if (d >= base) break;
            any = true;
            if (r > (lim - d) / base) over = true;
            else r = r * base + d;
        }
        ios_base::iostate e = ios_base::goodbit;
        if (!any) { v = 0; e = ios_base::failbit; }
        else if (over) { v = sg ? (neg ? numeric_limits<I>::min() : numeric_limits<I>::max()) : numeric_limits<I>::max(); e = ios_base::failbit; }
        else v = neg ? (I)(0ull - r) : (I)r;
        if (T::eq_int_type(c, T::eof())) e |= ios_base::eofbit;
        if (e) this->setstate(e);
        return *this;
    }
    streamsize gc_;
};
template<typename T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) {
    typename basic_istream<char, T>::sentry ok(i);
    if (ok) { int x = i.rdbuf()->sbumpc(); if (x == -1) i.setstate(ios_base::eofbit | ios_base::failbit); else c = (char)x; }
    return i;
}
template<typename C, typename T> inline basic_istream<C, T>& ws(basic_istream<C, T>& i) {
    int c = i.rdbuf()->sgetc();
    while (c != -1 && symex_space(c)) c = i.rdbuf()->snextc();
    if (c == -1) i.setstate(ios_base::eofbit);
    return i;
}

template<typename C, typename T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
  public:
    explicit basic_iostream(basic_streambuf<C, T>* b) { this->init(b); }
    virtual ~basic_iostream() {}
};

_GLIBCXX_BEGIN_NAMESPACE_CXX11
template<typename C, typename T, typename A>
class basic_ostringstream : public basic_ostream<C, T> {
    basic_stringbuf<C, T, A> b_;

  public:
    explicit basic_ostringstream(ios_base::openmode m = ios_base::out) : b_(m | ios_base::out) { this->init(&b_); }
    explicit basic_ostringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::out) : b_(s, m | ios_base::out) { this->init(&b_); }
    basic_string<C, T, A> str() const { return b_.str(); }
    void str(const basic_string<C, T, A>& s) { b_.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); }
};
template<typename C, typename T, typename A>
class basic_istringstream : public basic_istream<C, T> {
    basic_stringbuf<C, T, A> b_;

  public:
    explicit basic_istringstream(ios_base::openmode m = ios_base::in) : b_(m | ios_base::in) { this->init(&b_); }
    explicit basic_istringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in) : b_(s, m | ios_base::in) { this->init(&b_); }
    basic_string<C, T, A> str() const { return b_.str(); }
    void str(const basic_string<C, T, A>& s) { b_.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); }
};
template<typename C, typename T, typename A>
class basic_stringstream : public basic_iostream<C, T> {
    basic_stringbuf<C, T, A> b_;

  public:
    explicit basic_stringstream(ios_base::openmode m = ios_base::in | ios_base::out) : basic_iostream<C, T>(0), b_(m) { this->init(&b_); }
    explicit basic_stringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in | ios_base::out) : basic_iostream<C, T>(0), b_(s, m) { this->init(&b_); }
    basic_string<C, T, A> str() const { return b_.str(); }
    void str(const basic_string<C, T, A>& s) { b_.str(s); }
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); }
};
_GLIBCXX_END_NAMESPACE_CXX11

inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }

struct _Setw { int n; };
inline _Setw setw(int n) { _Setw s = {n}; return s; }
struct _Setprecision { int n; };
inline _Setprecision setprecision(int n) { _Setprecision s = {n}; return s; }
template<typename C> struct _Setfill { C c; };
template<typename C> inline _Setfill<C> setfill(C c) { _Setfill<C> s = {c}; return s; }
struct _Setiosflags { ios_base::fmtflags f; };
inline _Setiosflags setiosflags(ios_base::fmtflags f) { _Setiosflags s = {f}; return s; }
template<typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setw s) { o.width(s.n); return o; }
template<typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setprecision s) { o.precision(s.n); return o; }
template<typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setfill<C> s) { o.fill(s.c); return o; }
template<typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setiosflags s) { o.setf(s.f); return o; }

// rvalue streams
#if __cplusplus >= 201103L
template<typename O, typename V>
inline typename enable_if<is_base_of<ios_base, O>::value && !is_lvalue_reference<O>::value, O&&>::type operator<<(O&& o, const V& v) { o << v; return std::move(o); }
template<typename I, typename V>
inline typename enable_if<is_base_of<ios_base, I>::value && !is_lvalue_reference<I>::value, I&&>::type operator>>(I&& i, V&& v) { i >> std::forward<V>(v); return std::move(i); }
#endif

class symex_outbuf : public basic_streambuf<char, char_traits<char> > {
    int fd_;

  public:
    explicit symex_outbuf(int fd) : fd_(fd) {}

  protected:
    streamsize xsputn(const char* s, streamsize n) { symex_stdout_write(fd_, s, (unsigned long)n); return n; }
};
extern ostream cout, cerr, clog;
extern istream cin;
} // namespace std
