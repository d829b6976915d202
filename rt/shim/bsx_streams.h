// Stand-in for the parts of libstdc++'s iostreams that bss-util uses; libstdc++ keeps them (locale facets) in its binary, so there is no IR of
// them. Only the symbolic build sees this file: native replays use the real library, and sampled paths are compared with it.
#ifndef BSX_STREAMS
#define BSX_STREAMS
#include <bits/c++config.h>
#include <iosfwd>
#include <bits/char_traits.h>
#include <bits/postypes.h>
#include <bits/localefwd.h>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <system_error>
namespace std {
  typedef ptrdiff_t bsx_ss;
  class ios_base {
  public:
    typedef int iostate; typedef int openmode; typedef int fmtflags; enum seekdir { beg = 0, cur = 1, end = 2 };
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, basefield = dec | hex | oct, floatfield = fixed | scientific, adjustfield = left | right | internal;
    fmtflags flags() const { return _fl; } fmtflags setf(fmtflags f) { fmtflags o = _fl; _fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _fl; _fl = (_fl & ~m) | (f & m); return o; } void unsetf(fmtflags m) { _fl &= ~m; }
    streamsize precision() const { return _prec; } streamsize precision(streamsize p) { streamsize o = _prec; _prec = p; return o; }
    streamsize width() const { return _wid; } streamsize width(streamsize p) { streamsize o = _wid; _wid = p; return o; }
    struct failure {}; class Init {};
    virtual ~ios_base() {}
  protected:
    ios_base() : _fl(skipws | dec), _prec(6), _wid(0) {}
    fmtflags _fl; streamsize _prec, _wid;
  };
  template<class C, class T> class basic_streambuf {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    virtual ~basic_streambuf() {}
    int_type sgetc() { return _g < _ge ? T::to_int_type(*_g) : underflow(); }
    int_type sbumpc() { return _g < _ge ? T::to_int_type(*_g++) : uflow(); }
    int_type snextc() { return T::eq_int_type(sbumpc(), T::eof()) ? T::eof() : sgetc(); }
    streamsize sgetn(C* s, streamsize n) { return xsgetn(s, n); }
    int_type sputbackc(C c) { return (_gb < _g && T::eq(c, _g[-1])) ? T::to_int_type(*--_g) : pbackfail(T::to_int_type(c)); }
    int_type sungetc() { return _gb < _g ? T::to_int_type(*--_g) : pbackfail(T::eof()); }
    int_type sputc(C c) { if(_p < _pe) { *_p++ = c; return T::to_int_type(c); } return overflow(T::to_int_type(c)); }
    streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); }
    streamsize in_avail() { streamsize n = _ge - _g; return n ? n : showmanyc(); }
    pos_type pubseekoff(off_type o, ios_base::seekdir w, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, w, m); }
    pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekpos(p, m); }
    int pubsync() { return sync(); }
  protected:
    basic_streambuf() : _gb(0), _g(0), _ge(0), _pb(0), _p(0), _pe(0) {}
    basic_streambuf(const basic_streambuf&) = default; basic_streambuf& operator=(const basic_streambuf&) = default;
    C* eback() const { return _gb; } C* gptr() const { return _g; } C* egptr() const { return _ge; } void gbump(int n) { _g += n; } void setg(C* a, C* b, C* c) { _gb = a; _g = b; _ge = c; }
    C* pbase() const { return _pb; } C* pptr() const { return _p; } C* epptr() const { return _pe; } void pbump(int n) { _p += n; } void setp(C* a, C* b) { _pb = _p = a; _pe = b; }
    void swap(basic_streambuf& r) { std::swap(_gb, r._gb); std::swap(_g, r._g); std::swap(_ge, r._ge); std::swap(_pb, r._pb); std::swap(_p, r._p); std::swap(_pe, r._pe); }
    virtual basic_streambuf* setbuf(C*, streamsize) { return this; }
    virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode = ios_base::in | ios_base::out) { return pos_type(off_type(-1)); }
    virtual pos_type seekpos(pos_type, ios_base::openmode = ios_base::in | ios_base::out) { return pos_type(off_type(-1)); }
    virtual int sync() { return 0; }
    virtual streamsize showmanyc() { return 0; }
    virtual streamsize xsgetn(C* s, streamsize n) { streamsize r = 0; while(r < n) { streamsize k = _ge - _g; if(k) { if(k > n - r) k = n - r; T::copy(s, _g, k); r += k; s += k; _g += k; } if(r < n) { int_type c = uflow(); if(T::eq_int_type(c, T::eof())) break; *s++ = T::to_char_type(c); ++r; } } return r; }
    virtual int_type underflow() { return T::eof(); }
    virtual int_type uflow() { if(T::eq_int_type(underflow(), T::eof())) return T::eof(); return T::to_int_type(*_g++); }
    virtual int_type pbackfail(int_type = T::eof()) { return T::eof(); }
    virtual streamsize xsputn(const C* s, streamsize n) { streamsize r = 0; while(r < n) { streamsize k = _pe - _p; if(k) { if(k > n - r) k = n - r; T::copy(_p, s, k); r += k; s += k; _p += k; } if(r < n) { int_type c = overflow(T::to_int_type(*s)); if(T::eq_int_type(c, T::eof())) break; ++r; ++s; } } return r; }
    virtual int_type overflow(int_type = T::eof()) { return T::eof(); }
  private:
    C *_gb, *_g, *_ge, *_pb, *_p, *_pe;
  };
  template<class C, class T> class basic_ios : public ios_base {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
    iostate rdstate() const { return _st; } void clear(iostate s = goodbit) { _st = _sb ? s : s | badbit; } void setstate(iostate s) { clear(_st | s); }
    bool good() const { return _st == 0; } bool eof() const { return (_st & eofbit) != 0; } bool fail() const { return (_st & (badbit | failbit)) != 0; } bool bad() const { return (_st & badbit) != 0; }
    basic_streambuf<C, T>* rdbuf() const { return _sb; } basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto o = _sb; _sb = b; clear(); return o; }
    C fill() const { return _fill; } C fill(C c) { C o = _fill; _fill = c; return o; } C widen(char c) const { return (C)c; }
  protected:
    basic_ios() : _st(0), _sb(0), _fill((C)' ') {} void init(basic_streambuf<C, T>* b) { _sb = b; _st = b ? 0 : badbit; }
    iostate _st; basic_streambuf<C, T>* _sb; C _fill;
  };
  template<class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
  public:
    typedef basic_ios<C, T> ios_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
    class sentry { bool _ok; public: explicit sentry(basic_ostream& o) : _ok(o.good()) { if(!_ok) o.setstate(ios_base::failbit); } explicit operator bool() const { return _ok; } };
    basic_ostream& put(C c) { if(!this->good()) { this->setstate(ios_base::failbit | 0); return *this; } if(T::eq_int_type(this->_sb->sputc(c), T::eof())) this->setstate(ios_base::badbit); return *this; }
    basic_ostream& write(const C* s, streamsize n) { if(!this->good()) { this->setstate(ios_base::failbit); return *this; } if(this->_sb->sputn(s, n) != n) this->setstate(ios_base::badbit); return *this; }
    basic_ostream& flush() { if(this->_sb && this->good() && this->_sb->pubsync() == -1) this->setstate(ios_base::badbit); return *this; }
    pos_type tellp() { return this->fail() ? pos_type(off_type(-1)) : this->_sb->pubseekoff(0, ios_base::cur, ios_base::out); }
    basic_ostream& seekp(pos_type p) { if(!this->fail() && this->_sb->pubseekpos(p, ios_base::out) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); return *this; }
    basic_ostream& _txt(const C* s, streamsize n)
    {
      if(!this->good()) { this->setstate(ios_base::failbit); return *this; }
      streamsize w = this->width(0), pad = w > n ? w - n : 0; bool left = (this->_fl & ios_base::adjustfield) == ios_base::left;
      if(!left) while(pad > 0) { this->_sb->sputc(this->_fill); --pad; }
      if(this->_sb->sputn(s, n) != n) this->setstate(ios_base::badbit);
      while(pad > 0) { this->_sb->sputc(this->_fill); --pad; }
      return *this;
    }
    basic_ostream& _num(bool neg, unsigned long long v)
    {
      C b[24]; int k = 24;
      do { b[--k] = (C)('0' + (char)(v % 10)); v /= 10; } while(v);
      if(neg) b[--k] = (C)'-';
      return _txt(b + k, 24 - k);
    }
    basic_ostream& _snum(long long v, int bits) { if((this->_fl & ios_base::basefield) == ios_base::hex) return _hex(bits == 64 ? (unsigned long long)v : ((unsigned long long)v & ((1ull << bits) - 1))); return v < 0 ? _num(true, 0ull - (unsigned long long)v) : _num(false, (unsigned long long)v); }
    basic_ostream& _unum(unsigned long long v) { if((this->_fl & ios_base::basefield) == ios_base::hex) return _hex(v); return _num(false, v); }
    basic_ostream& _hex(unsigned long long v) { C b[24]; int k = 24; do { b[--k] = (C)"0123456789abcdef"[v & 15]; v >>= 4; } while(v); return _txt(b + k, 24 - k); }
    basic_ostream& _flt(double v)
    {
      char b[400]; int p = (int)this->_prec, n; int f = this->_fl & ios_base::floatfield;
      n = f == ios_base::fixed ? snprintf(b, 400, "%.*f", p, v) : f == ios_base::scientific ? snprintf(b, 400, "%.*e", p, v) : snprintf(b, 400, "%.*g", p, v);
      C w[400]; for(int i = 0; i < n; ++i) w[i] = (C)b[i]; return _txt(w, n);
    }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& operator<<(bool v) { if(this->_fl & ios_base::boolalpha) { const char* s = v ? "true" : "false"; C w[6]; int n = 0; for(; s[n]; ++n) w[n] = (C)s[n]; return _txt(w, n); } return _unum(v ? 1 : 0); }
    basic_ostream& operator<<(short v) { return _snum(v, 16); } basic_ostream& operator<<(unsigned short v) { return _unum(v); }
    basic_ostream& operator<<(int v) { return _snum(v, 32); } basic_ostream& operator<<(unsigned int v) { return _unum(v); }
    basic_ostream& operator<<(long v) { return _snum(v, 64); } basic_ostream& operator<<(unsigned long v) { return _unum(v); }
    basic_ostream& operator<<(long long v) { return _snum(v, 64); } basic_ostream& operator<<(unsigned long long v) { return _unum(v); }
    basic_ostream& operator<<(float v) { return _flt(v); } basic_ostream& operator<<(double v) { return _flt(v); } basic_ostream& operator<<(long double v) { return _flt((double)v); }
    basic_ostream& operator<<(const void* v) { return _hex((unsigned long long)v); }
    basic_ostream& operator<<(nullptr_t) { const char* s = "nullptr"; C w[8]; for(int i = 0; i < 7; ++i) w[i] = (C)s[i]; return _txt(w, 7); }
  protected:
    basic_ostream() {}
  };
  template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, C c) { return o._txt(&c, 1); }
  template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, char c) { C w = (C)c; return o._txt(&w, 1); }
  template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o._txt(&c, 1); }
  template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { return o << (char)c; }
  template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return o << (char)c; }
  template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const C* s) { if(!s) { o.setstate(ios_base::badbit); return o; } return o._txt(s, (streamsize)T::length(s)); }
  template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { if(!s) { o.setstate(ios_base::badbit); return o; } return o._txt(s, (streamsize)T::length(s)); }
  template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const char* s) { for(; *s; ++s) o << *s; return o; }
  template<class C, class T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put((C)'\n').flush(); }
  template<class C, class T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }
  template<class C, class T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(C()); }
  inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
  inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
  inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
  inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; } inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
  struct bsx_setw { int n; }; inline bsx_setw setw(int n) { return bsx_setw{ n }; } template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, bsx_setw s) { o.width(s.n); return o; }
  struct bsx_setp { int n; }; inline bsx_setp setprecision(int n) { return bsx_setp{ n }; } template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, bsx_setp s) { o.precision(s.n); return o; }
  template<class C> struct bsx_setf { C n; }; template<class C> inline bsx_setf<C> setfill(C n) { return bsx_setf<C>{ n }; } template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, bsx_setf<C> s) { o.fill(s.n); return o; }
  template<class C, class T> class basic_istream : virtual public basic_ios<C, T> {
  public:
    typedef basic_ios<C, T> ios_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; typedef typename T::int_type int_type;
    explicit basic_istream(basic_streambuf<C, T>* b) : _gc(0) { this->init(b); }
    bool _enter(bool noskip)
    {
      if(!this->good()) { this->setstate(ios_base::failbit); return false; }
      if(!noskip && (this->_fl & ios_base::skipws))
      {
        int_type c = this->_sb->sgetc();
        while(!T::eq_int_type(c, T::eof()) && (c == ' ' || (c >= 9 && c <= 13))) c = this->_sb->snextc();
        if(T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
      }
      return true;
    }
    class sentry { bool _ok; public: explicit sentry(basic_istream& i, bool noskip = false) : _ok(i._enter(noskip)) {} explicit operator bool() const { return _ok; } };
    streamsize gcount() const { return _gc; }
    int_type get() { _gc = 0; if(!_enter(true)) return T::eof(); int_type c = this->_sb->sbumpc(); if(T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit | ios_base::failbit); else _gc = 1; return c; }
    basic_istream& get(C& r) { int_type c = get(); if(_gc) r = T::to_char_type(c); return *this; }
    int_type peek() { _gc = 0; if(!_enter(true)) return T::eof(); int_type c = this->_sb->sgetc(); if(T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); return c; }
    basic_istream& read(C* s, streamsize n) { _gc = 0; if(!_enter(true)) return *this; _gc = this->_sb->sgetn(s, n); if(_gc != n) this->setstate(ios_base::eofbit | ios_base::failbit); return *this; }
    streamsize readsome(C* s, streamsize n) { _gc = 0; if(!_enter(true)) return 0; streamsize k = this->_sb->in_avail(); if(k > 0) _gc = this->_sb->sgetn(s, k < n ? k : n); else if(k == -1) this->setstate(ios_base::eofbit); return _gc; }
    basic_istream& ignore(streamsize n = 1, int_type d = T::eof()) { _gc = 0; if(!_enter(true)) return *this; while(_gc < n) { int_type c = this->_sb->sbumpc(); if(T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } ++_gc; if(T::eq_int_type(c, d)) break; } return *this; }
    basic_istream& unget() { _gc = 0; this->clear(this->_st & ~ios_base::eofbit); if(!_enter(true)) return *this; if(T::eq_int_type(this->_sb->sungetc(), T::eof())) this->setstate(ios_base::badbit); return *this; }
    basic_istream& putback(C c) { _gc = 0; this->clear(this->_st & ~ios_base::eofbit); if(!_enter(true)) return *this; if(T::eq_int_type(this->_sb->sputbackc(c), T::eof())) this->setstate(ios_base::badbit); return *this; }
    pos_type tellg() { if(!_enter(true)) return pos_type(off_type(-1)); return this->_sb->pubseekoff(0, ios_base::cur, ios_base::in); }
    basic_istream& seekg(pos_type p) { this->clear(this->_st & ~ios_base::eofbit); if(!this->fail() && this->_sb->pubseekpos(p, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); return *this; }
    basic_istream& seekg(off_type o, ios_base::seekdir w) { this->clear(this->_st & ~ios_base::eofbit); if(!this->fail() && this->_sb->pubseekoff(o, w, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); return *this; }
    int sync() { return this->_sb->pubsync(); }
    // digits are accumulated as num_get does: the longest run of sign and digits, saturating on overflow with failbit
    template<class N> basic_istream& _int(N& r)
    {
      if(!_enter(false)) return *this;
      int_type c = this->_sb->sgetc(); bool neg = false, any = false, ovf = false; unsigned long long v = 0;
      if(c == '-') { neg = true; c = this->_sb->snextc(); } else if(c == '+') c = this->_sb->snextc();
      const bool sgn = (N)-1 < (N)0; const unsigned long long mx = sgn ? (unsigned long long)((1ull << (sizeof(N) * 8 - 1)) - 1) : (sizeof(N) == 8 ? ~0ull : (1ull << (sizeof(N) * 8)) - 1); const unsigned long long lim = (sgn && neg) ? mx + 1 : mx;
      while(c >= '0' && c <= '9') { unsigned d = (unsigned)(c - '0'); any = true; if(v > (lim - d) / 10) ovf = true; else v = v * 10 + d; c = this->_sb->snextc(); }
      if(T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit);
      if(!any) { r = 0; this->setstate(ios_base::failbit); }
      else if(ovf) { r = (N)((neg && sgn) ? 0 - lim : lim); this->setstate(ios_base::failbit); }
      else r = (N)(neg ? 0 - v : v);
      return *this;
    }
    template<class N> basic_istream& _fltin(N& r)
    {
      if(!_enter(false)) return *this;
      char b[64]; int n = 0; int_type c = this->_sb->sgetc(); bool dot = false, ex = false, dig = false;
      if(c == '+' || c == '-') { b[n++] = (char)c; c = this->_sb->snextc(); }
      for(; n < 62; c = this->_sb->snextc())
      {
        if(c >= '0' && c <= '9') { b[n++] = (char)c; dig = true; }
        else if(c == '.' && !dot && !ex) { b[n++] = '.'; dot = true; }
        else if((c == 'e' || c == 'E') && !ex && dig) { b[n++] = 'e'; ex = true; c = this->_sb->snextc(); if(c == '+' || c == '-') b[n++] = (char)c; else { n += 0; if(c >= '0' && c <= '9') b[n++] = (char)c; else break; } }
        else break;
      }
      b[n] = 0; if(T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit);
      char* e; double d = strtod(b, &e);
      if(e == b || *e) { r = 0; this->setstate(ios_base::failbit); } else r = (N)d;
      return *this;
    }
    basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); } basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_istream& operator>>(bool& v) { long x = 0; _int(x); if(!this->fail()) { v = x != 0; if(x != 0 && x != 1) { v = true; this->setstate(ios_base::failbit); } } else v = false; return *this; }
    basic_istream& operator>>(short& v) { return _int(v); } basic_istream& operator>>(unsigned short& v) { return _int(v); } basic_istream& operator>>(int& v) { return _int(v); } basic_istream& operator>>(unsigned int& v) { return _int(v); }
    basic_istream& operator>>(long& v) { return _int(v); } basic_istream& operator>>(unsigned long& v) { return _int(v); } basic_istream& operator>>(long long& v) { return _int(v); } basic_istream& operator>>(unsigned long long& v) { return _int(v); }
    basic_istream& operator>>(float& v) { return _fltin(v); } basic_istream& operator>>(double& v) { return _fltin(v); }
  protected:
    basic_istream() : _gc(0) {}
    streamsize _gc;
  };
  template<class C, class T> inline basic_istream<C, T>& operator>>(basic_istream<C, T>& i, C& c) { if(i._enter(false)) { int k = i.rdbuf()->sbumpc(); if(T::eq_int_type(k, T::eof())) i.setstate(ios_base::eofbit | ios_base::failbit); else c = (C)k; } return i; }
  template<class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, unsigned char& c) { return i >> (char&)c; }
  template<class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, signed char& c) { return i >> (char&)c; }
  template<class C, class T> inline basic_istream<C, T>& ws(basic_istream<C, T>& i) { auto c = i.rdbuf()->sgetc(); while(!T::eq_int_type(c, T::eof()) && (c == ' ' || (c >= 9 && c <= 13))) c = i.rdbuf()->snextc(); if(T::eq_int_type(c, T::eof())) i.setstate(ios_base::eofbit); return i; }
  template<class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: explicit basic_iostream(basic_streambuf<C, T>* b) { this->init(b); } protected: basic_iostream() {} };
}
#include <string>
#include <bits/stl_vector.h>
namespace std {
  inline ostream& operator<<(ostream& o, const string& s) { return o._txt(s.data(), (streamsize)s.size()); }
  inline istream& getline(istream& i, string& s, char d) { s.clear(); if(!i._enter(true)) return i; bool any = false; for(;;) { int c = i.rdbuf()->sbumpc(); if(c == -1) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } any = true; if((char)c == d) break; s += (char)c; } return i; }
  inline istream& getline(istream& i, string& s) { return getline(i, s, '\n'); }
  inline namespace __cxx11 {
  template<class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {
  public:
    typedef basic_string<C, T, A> str_t; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_stringbuf(ios_base::openmode m = ios_base::in | ios_base::out) : _m(m), _buf(0), _cap(0), _hi(0) {}
    explicit basic_stringbuf(const str_t& s, ios_base::openmode m = ios_base::in | ios_base::out) : _m(m), _buf(0), _cap(0), _hi(0) { str(s); }
    ~basic_stringbuf() { if(_buf) ::free(_buf); }
    str_t str() const { if(this->pptr()) { const C* h = this->pptr(); if(_m & ios_base::in) { if(this->egptr() > h) h = this->egptr(); } return str_t(_buf, (size_t)(h - _buf)); } return _buf && (_m & ios_base::in) ? str_t(_buf, _hi) : str_t(); }
    void str(const str_t& s) { if(_buf) ::free(_buf); _cap = s.size(); _hi = _cap; _buf = (C*)::malloc((_cap ? _cap : 1) * sizeof(C)); T::copy(_buf, s.data(), _cap); if(_m & ios_base::in) this->setg(_buf, _buf, _buf + _hi); if(_m & ios_base::out) { this->setp(_buf, _buf + _cap); if(_m & (ios_base::ate | ios_base::app)) this->pbump((int)_cap); } }
  protected:
    void _up() { if(this->pptr() && (size_t)(this->pptr() - _buf) > _hi) _hi = this->pptr() - _buf; if((_m & ios_base::in) && _buf) this->setg(_buf, this->gptr() ? this->gptr() : _buf, _buf + _hi); }
    int_type underflow() override { if(!(_m & ios_base::in)) return T::eof(); _up(); return this->gptr() < this->egptr() ? T::to_int_type(*this->gptr()) : T::eof(); }
    int_type pbackfail(int_type c = T::eof()) override { if(this->eback() < this->gptr()) { if(T::eq_int_type(c, T::eof())) { this->gbump(-1); return 0; } if(T::eq(T::to_char_type(c), this->gptr()[-1]) || (_m & ios_base::out)) { this->gbump(-1); *this->gptr() = T::to_char_type(c); return c; } } return T::eof(); }
    int_type overflow(int_type c = T::eof()) override
    {
      if(!(_m & ios_base::out)) return T::eof(); if(T::eq_int_type(c, T::eof())) return 0;
      size_t p = this->pptr() ? this->pptr() - _buf : 0, g = this->gptr() ? this->gptr() - _buf : 0; if(p > _hi) _hi = p;
      if(!_buf || p >= _cap) { size_t nc = _cap < 64 ? 128 : _cap * 2; C* nb = (C*)::malloc(nc * sizeof(C)); if(_buf) { T::copy(nb, _buf, _hi); ::free(_buf); } _buf = nb; _cap = nc; }
      this->setp(_buf, _buf + _cap); this->pbump((int)p); *this->pptr() = T::to_char_type(c); this->pbump(1); if(p + 1 > _hi) _hi = p + 1; if(_m & ios_base::in) this->setg(_buf, _buf + g, _buf + _hi); return c;
    }
    pos_type seekoff(off_type o, ios_base::seekdir w, ios_base::openmode m = ios_base::in | ios_base::out) override
    {
      bool ti = (_m & m & ios_base::in) != 0, to = (_m & m & ios_base::out) != 0; if(!ti && !to) return pos_type(off_type(-1)); if(ti && to && w == ios_base::cur) return pos_type(off_type(-1)); _up();
      if(!_buf) return o == 0 ? pos_type(off_type(0)) : pos_type(off_type(-1));
      off_type b = w == ios_base::beg ? 0 : w == ios_base::end ? (off_type)_hi : ti ? this->gptr() - _buf : this->pptr() - _buf; off_type n = b + o;
      if(n < 0 || n > (off_type)_hi) return pos_type(off_type(-1));
      if(ti) this->setg(_buf, _buf + n, _buf + _hi); if(to) { this->setp(_buf, _buf + _cap); this->pbump((int)n); } return pos_type(n);
    }
    pos_type seekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) override { return seekoff(off_type(p), ios_base::beg, m); }
    ios_base::openmode _m; C* _buf; size_t _cap, _hi;
  };
  template<class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { basic_stringbuf<C, T, A> _b; public:
    explicit basic_istringstream(ios_base::openmode m = ios_base::in) : _b(m | ios_base::in) { this->init(&_b); } explicit basic_istringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in) : _b(s, m | ios_base::in) { this->init(&_b); }
    basic_string<C, T, A> str() const { return _b.str(); } void str(const basic_string<C, T, A>& s) { _b.str(s); } };
  template<class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { basic_stringbuf<C, T, A> _b; public:
    explicit basic_ostringstream(ios_base::openmode m = ios_base::out) : _b(m | ios_base::out) { this->init(&_b); } explicit basic_ostringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::out) : _b(s, m | ios_base::out) { this->init(&_b); }
    basic_string<C, T, A> str() const { return _b.str(); } void str(const basic_string<C, T, A>& s) { _b.str(s); } };
  template<class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { basic_stringbuf<C, T, A> _b; public:
    explicit basic_stringstream(ios_base::openmode m = ios_base::in | ios_base::out) : _b(m) { this->init(&_b); } explicit basic_stringstream(const basic_string<C, T, A>& s, ios_base::openmode m = ios_base::in | ios_base::out) : _b(s, m) { this->init(&_b); }
    basic_string<C, T, A> str() const { return _b.str(); } void str(const basic_string<C, T, A>& s) { _b.str(s); } };
  }
  extern "C" void bsx_nofile();
  template<class C, class T> class basic_ofstream : public basic_ostream<C, T> { public: basic_ofstream() {} explicit basic_ofstream(const char*, ios_base::openmode = ios_base::out) { bsx_nofile(); } explicit basic_ofstream(const string&, ios_base::openmode = ios_base::out) { bsx_nofile(); } void open(const char*, ios_base::openmode = ios_base::out) { bsx_nofile(); } void close() {} bool is_open() const { return false; } };
  template<class C, class T> class basic_ifstream : public basic_istream<C, T> { public: basic_ifstream() {} explicit basic_ifstream(const char*, ios_base::openmode = ios_base::in) { bsx_nofile(); } explicit basic_ifstream(const string&, ios_base::openmode = ios_base::in) { bsx_nofile(); } void open(const char*, ios_base::openmode = ios_base::in) { bsx_nofile(); } void close() {} bool is_open() const { return false; } };
  template<class C, class T> class basic_fstream : public basic_iostream<C, T> { public: basic_fstream() {} explicit basic_fstream(const char*, ios_base::openmode) { bsx_nofile(); } void close() {} };
  extern ostream cout, cerr, clog; extern istream cin; extern wostream wcout, wcerr;
}
#endif
