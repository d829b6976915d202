//BSX property=P18 covers=1,2 variants=0,1,2,3,4,5,6,7 def.quick=LEN=5,CMD=7 def.thorough=LEN=7,CMD=9 sources=ConvertUTF.c,bss_util_c.c
//BSX bounds: strings of up to LEN symbolic characters (any byte value unless stated) in exactly sized storage; command lines of up to CMD characters over {letter, space, tab, quote} whose quotes are closed; integers from windows of 256 symbolic values at every boundary, in radix 2, 8, 10, 16 and 36 and every buffer size; concatenation in every form of strings of 0, 1, 15, 16, 30 and 40 characters with and without spare capacity
#include "bsx.h"
#include "bss-util/Str.h"
#include "bss-util/bss_util.h"
#include "bss-util/bss_util_c.h"
using namespace bss;
typedef unsigned char u8;
static int N_; static u8 src[32];
static char* mk(int max) { N_ = bsx_choice(max + 1, "n"); char* s = (char*)malloc(N_ + 1); for(int i = 0; i < N_; ++i) { s[i] = sym<char>("c"); ASSUME(s[i] != 0); } s[N_] = 0; for(int i = 0; i <= N_; ++i) src[i] = (u8)s[i]; return s; }
static bool ws(u8 c) { return c >= 1 && c < 33; }
static int enc(uint32_t c, u8* o) {
  if(c < 0x80) { o[0] = (u8)c; return 1; }
  if(c < 0x800) { o[0] = (u8)(0xC0 | (c >> 6)); o[1] = (u8)(0x80 | (c & 63)); return 2; }
  if(c < 0x10000) { o[0] = (u8)(0xE0 | (c >> 12)); o[1] = (u8)(0x80 | ((c >> 6) & 63)); o[2] = (u8)(0x80 | (c & 63)); return 3; }
  o[0] = (u8)(0xF0 | (c >> 18)); o[1] = (u8)(0x80 | ((c >> 12) & 63)); o[2] = (u8)(0x80 | ((c >> 6) & 63)); o[3] = (u8)(0x80 | (c & 63)); return 4;
}
static void same(const Str& s, const u8* p, int n, const char* m) { bsx_check(s.size() == (size_t)n, m); for(int i = 0; i < n; ++i) bsx_check((u8)s[i] == p[i], m); bsx_check(s.c_str()[n] == 0, m); }
int main() {
#if VARIANT == 0 // in-place helpers
  char* s = mk(LEN); COVER(1);
  switch(bsx_choice(5, "op")) {
  case 0: { char f = sym<char>("f"), r = sym<char>("r"); ASSUME(r != 0); ASSUME(f != 0); CHECK(strreplace<char>(s, f, r) == s); for(int i = 0; i < N_; ++i) { u8 e = src[i]; if(e == (u8)f) e = (u8)r; CHECK((u8)s[i] == e); } CHECK(s[N_] == 0); CHECK(strreplace<char>(0, f, r) == 0); break; }
  case 1: { char c = sym<char>("f"); size_t k = 0; for(int i = 0; i < N_; ++i) if(src[i] == (u8)c) ++k; CHECK(strccount<char>(s, c, N_) == k); if(c) CHECK(strccount<char>(s, c) == k); break; }
  case 2: { char* r = strltrim<char>(s); int k = 0; while(k < N_ && ws(src[k])) ++k; CHECKM(r == s + k, "left trim skips exactly the leading white space"); break; }
  case 3: { CHECK(strrtrim<char>(s) == s); int k = N_; while(k > 0 && ws(src[k - 1])) --k; for(int i = 0; i < k; ++i) CHECKM((u8)s[i] == src[i], "right trim keeps the rest"); CHECKM(s[k] == 0, "right trim removes exactly the trailing white space"); break; }
  case 4: { char* r = strtrim<char>(s); int a = 0, b = N_; while(a < b && ws(src[a])) ++a; while(b > a && ws(src[b - 1])) --b; CHECK(r == s + a); for(int i = a; i < b; ++i) CHECK((u8)s[i] == src[i]); CHECK(s[b] == 0); COVER(2); break; }
  }
  free(s);
#elif VARIANT == 1 // command lines
  static const char al[] = { 'a', ' ', '"', '\t' }; int n = bsx_choice(CMD + 1, "n"); char* s = (char*)malloc(n + 1); for(int i = 0; i < n; ++i) s[i] = al[bsx_choice(4, "c")]; s[n] = 0; COVER(1);
  int st[CMD], le[CMD], k = 0; bool ok = true;
  for(int i = 0; i < n;) { if(s[i] == ' ' || s[i] == '\t') { ++i; continue; } if(s[i] == '"') { int b = ++i; while(i < n && !(s[i] == '"' && (i + 1 == n || s[i + 1] == ' ' || s[i + 1] == '\t'))) ++i; if(i >= n) ok = false; st[k] = b; le[k++] = i - b; ++i; } else { int b = i; while(i < n && s[i] != ' ' && s[i] != '\t') ++i; st[k] = b; le[k++] = i - b; } }
  ASSUME(ok); char c0[CMD + 1]; for(int i = 0; i <= n; ++i) c0[i] = s[i];
  CHECKM(ToArgV<char>(0, s) == k, "argument count"); for(int i = 0; i <= n; ++i) CHECK(s[i] == c0[i]);
  char** av = (char**)malloc(sizeof(char*) * k + 1); CHECKM(ToArgV<char>(av, s) == k, "argument count"); COVER(2);
  for(int i = 0; i < k; ++i) { CHECKM(av[i] == s + st[i], "argument start"); for(int j = 0; j < le[i]; ++j) CHECKM(av[i][j] == c0[st[i] + j], "argument text"); CHECKM(av[i][le[i]] == 0, "argument end"); }
  free(av); free(s);
#elif VARIANT == 2 // argument groups
  int n = bsx_choice(LEN + 1, "argc"); char st[LEN + 1][3]; const char* av[LEN + 1]; for(int i = 0; i < n; ++i) { st[i][0] = sym<char>("c"); st[i][1] = 'x'; st[i][2] = 0; av[i] = st[i]; } char d = sym<char>("div"); COVER(1);
  int next = 0; ProcessCmdArgs(n, av, [&](const char* const* p, int num) { CHECKM(p == av + next, "groups follow each other without gaps"); CHECK(num > 0); CHECK(next + num <= n); if(next > 0) CHECKM(p[0][0] == d, "every group after the first starts with the divider"); for(int i = 1; i < num; ++i) CHECKM(p[i][0] != d, "a divider starts a new group"); next += num; }, d); CHECKM(next == n, "every argument is delivered"); COVER(2);
  int calls = 0; ProcessCmdArgs(n, (const char* const*)0, [&](const char* const*, int) { ++calls; }); CHECK(calls == 0);
#elif VARIANT == 3 // integers
  static const unsigned base[] = { 0u, 0xFFFFFF00u, 0x80000000u, 0x7FFFFF00u, 0x80000100u, 99900u, 999999900u, 1000000000u - 128 }; static const unsigned radix[] = { 2, 8, 10, 16, 36 };
  unsigned b = base[bsx_choice(8, "base")]; unsigned rx = radix[bsx_choice(5, "radix")]; unsigned uv = b | 0; uv += sym<u8>("v"); int v = (int)uv; COVER(1);
  unsigned mag = uv; int neg = 0; if(v < 0) { neg = 1; mag = 0u - uv; }
  char buf[40]; for(int i = 0; i < 40; ++i) buf[i] = 1; bool small = bsx_choice(2, "small") != 0; int sz = small ? 2 + bsx_choice(3, "sz") : 34;
  CHECK(itoa_r(v, buf, sz, rx) == 0); CHECKM(buf[sz] == 1, "never writes outside the buffer"); int l = 0; while(l < sz && buf[l]) ++l; CHECKM(l < sz, "always terminated");
  if(!small) { COVER(2); if(neg) CHECK(buf[0] == '-'); CHECK(l > neg); uint64_t acc = 0; for(int i = neg; i < l; ++i) { char c = buf[i]; int dg; if(c <= '9') { dg = c - '0'; CHECK(dg >= 0); } else { dg = c - 'A' + 10; CHECK(dg >= 10); } CHECKM(dg < (int)rx, "digits of the radix"); acc = acc * rx + (unsigned)dg; } CHECKM(acc == mag, "the digits denote the value"); if(l > neg + 1) CHECKM(buf[neg] != '0', "no leading zero"); }
  CHECK(itoa_r(v, buf, 1, rx) != 0); CHECK(itoa_r(v, 0, 10, rx) != 0); CHECK(itoa_r(v, buf, 10, 1) != 0);
#elif VARIANT == 4 // Str operations
  size_t l0 = bsx_live(); char* s = mk(LEN); {
  Str a(s); same(a, src, N_, "construction"); COVER(1); u8 ref[64]; int m = 0;
  switch(bsx_choice(8, "op")) {
  case 0: { int x = 0, y = N_; while(x < y && ws(src[x])) ++x; while(y > x && ws(src[y - 1])) --y; same(a.Trim(), src + x, y - x, "Trim removes exactly the white space at both ends"); same(a, src, N_, "Trim leaves the original"); break; }
  case 1: { char f = sym<char>("f"), r = sym<char>("r"); for(int i = 0; i < N_; ++i) { u8 e = src[i]; if(e == (u8)f) e = (u8)r; ref[i] = e; } same(a.ReplaceChar(f, r), ref, N_, "ReplaceChar"); break; }
  case 2: { char c = sym<char>("c"); ASSUME(c != 0); for(int i = 0; i < N_; ++i) if(src[i] != (u8)c) ref[m++] = src[i]; same(Str::StripChar(s, c), ref, m, "StripChar"); break; }
  case 3: { char c = sym<char>("c"); ASSUME(c != 0); uint16_t ix = bsx_choice(4, "ix"); int p = 0; uint16_t k = 0; while(k < ix && p <= N_) { while(p < N_ && src[p] != (u8)c) ++p; ++p; ++k; } if(p <= N_) while(p + m < N_ && src[p + m] != (u8)c) ++m; same(Str(ix, s, c), src + (p <= N_ ? p : 0), m, "the index-th chunk"); break; }
  case 4: { char c = sym<char>("c"); ASSUME(c != 0); std::vector<Str> v = Str::Explode(c, s); size_t k = 0; int i = 0; while(i < N_) { while(i < N_ && src[i] == (u8)c) ++i; if(i >= N_) break; int b = i; while(i < N_ && src[i] != (u8)c) ++i; CHECK(k < v.size()); same(v[k], src + b, i - b, "Explode: non-empty pieces in order"); ++k; } CHECKM(v.size() == k, "Explode: number of pieces"); COVER(2); break; }
  case 5: { int t = bsx_choice(3, "tl"); u8 tb[3] = { sym<u8>("t0"), sym<u8>("t1"), 0 }; ASSUME(tb[0] && tb[1]); tb[t] = 0; Str b((const char*)tb); for(int i = 0; i < N_; ++i) ref[i] = src[i]; for(int i = 0; i < t; ++i) ref[N_ + i] = tb[i]; int q = N_ + t;
      switch(bsx_choice(9, "form")) { case 0: same(a + b, ref, q, "s + s"); break; case 1: same(a + (const char*)tb, ref, q, "s + chars"); break; case 2: same((const char*)s + b, ref, q, "chars + s"); break; case 3: same(Str(a) + b, ref, q, "moved s + s"); break; case 4: same(a + Str(b), ref, q, "s + moved s"); break; case 5: same(Str(a) + Str(b), ref, q, "moved + moved"); break;
      case 6: a += b; same(a, ref, q, "s += s"); break; case 7: a += (const char*)tb; same(a, ref, q, "s += chars"); a += (const char*)0; same(a, ref, q, "s += null"); break; case 8: ref[N_] = tb[0]; same(a + (char)tb[0], ref, N_ + 1, "s + char"); if(N_ == 0) same((char)tb[0] + Str("xy"), (const u8*)((std::string(1, (char)tb[0]) + "xy").c_str()), 3, "char + s"); break; } break; }
  case 6: { Str b; b = s; same(b, src, N_, "assign"); b = (const char*)0; same(b, src, 0, "assign null"); Str c((const char*)0); same(c, src, 0, "null"); Str d(std::move(a)); same(d, src, N_, "move"); Str e(s, (size_t)N_); same(e, src, N_, "counted"); e.UnsafeString()[0] = 0; e.RecalcSize(); if(N_) same(e, (const u8*)"", 0, "RecalcSize"); break; }
  case 7: { static const char dl[] = ",;"; std::vector<int> v; size_t r = Str::ParseTokens<int>((const char*)s, dl, v, [](const char* t) { int k = 0; while(t[k]) ++k; return k * 256 + (u8)t[0]; }); size_t k = 0; int i = 0; while(i < N_) { while(i < N_ && (src[i] == ',' || src[i] == ';')) ++i; if(i >= N_) break; int b = i; while(i < N_ && src[i] != ',' && src[i] != ';') ++i; CHECK(k < v.size()); CHECKM(v[k] == (i - b) * 256 + src[b], "token"); ++k; } CHECK(r == k); CHECK(v.size() == k); break; }
  } } free(s); CHECK(bsx_live() == l0);
#elif VARIANT == 5 // conversions between the character types
  size_t l0 = bsx_live(); { int n = bsx_choice(4, "n"); char32_t* w = (char32_t*)malloc(4 * (n + 1)); char32_t* x = (char32_t*)malloc(4 * n + 1); u8 ref[16]; int m = 0; for(int i = 0; i < n; ++i) { uint32_t c = sym<uint32_t>("c"); ASSUME(c != 0); ASSUME(c < 0xD800 || (c >= 0xE000 && c <= 0x10FFFF)); w[i] = c; x[i] = c; m += enc(c, ref + m); } w[n] = 0; COVER(1);
  typedef StrT<char32_t> Str32; Str a; Str32 b;
  switch(bsx_choice(5, "form")) { case 0: a = Str(w); break; case 1: a = Str(x, (size_t)n); break; case 2: { Str32 t(w); a = Str(t); break; } case 3: a = "old"; a = w; break; case 4: { Str32 t(w); a = "old"; a = t; break; } }
  same(a, ref, m, "UTF-32 to Str"); COVER(2);
  char* y = (char*)malloc(m + 1); for(int i = 0; i < m; ++i) y[i] = (char)ref[i]; switch(bsx_choice(4, "back")) { case 0: b = Str32(a.c_str()); break; case 1: b = Str32(y, (size_t)m); break; case 2: b = Str32(a); break; case 3: b = a; break; }
  CHECKM(b.size() == (size_t)n, "Str to UTF-32"); for(int i = 0; i < n; ++i) CHECKM(b[i] == w[i], "Str to UTF-32"); free(y); free(x); free(w); } CHECK(bsx_live() == l0);
#elif VARIANT == 7 // concatenation around the in-place size of strings
  size_t l0 = bsx_live(); { static const int ln[] = { 0, 1, 15, 16, 30, 40 }; int p = ln[bsx_choice(6, "p")], q = ln[bsx_choice(6, "q")]; u8 ref[96]; char pa[48], pb[48]; for(int i = 0; i < p; ++i) ref[i] = (u8)(pa[i] = (char)(130 + i)); pa[p] = 0; for(int i = 0; i < q; ++i) ref[p + i] = (u8)(pb[i] = (char)(60 + i)); pb[q] = 0; ref[p + q] = 0;
  Str a(pa), b(pb); if(bsx_choice(2, "ra")) a.reserve(90); if(bsx_choice(2, "rb")) b.reserve(90); COVER(1); char x = 'x'; ref[p + q] = 'x';
  switch(bsx_choice(10, "form")) {
    case 0: same(std::move(a) + std::move(b), ref, p + q, "moved + moved"); break; case 1: same(std::move(a) + b, ref, p + q, "moved + s"); same(b, ref + p, q, "right side is kept"); break; case 2: same(a + std::move(b), ref, p + q, "s + moved"); same(a, ref, p, "left side is kept"); break; case 3: same(a + b, ref, p + q, "s + s"); same(a, ref, p, "left side is kept"); same(b, ref + p, q, "right side is kept"); break;
    case 4: same((const char*)pa + std::move(b), ref, p + q, "chars + moved"); break; case 5: same(std::move(a) + (const char*)pb, ref, p + q, "moved + chars"); break; case 6: same(std::move(a) + b + x, ref, p + q + 1, "moved + char"); same((Str(pa) + b) + x, ref, p + q + 1, "moved + char"); break;
    case 7: { u8 r2[50]; r2[0] = 'x'; for(int i = 0; i < q; ++i) r2[i + 1] = ref[p + i]; same(x + b, r2, q + 1, "char + s"); same(x + std::move(b), r2, q + 1, "char + moved"); break; }
    case 8: a += b; a += x; same(a, ref, p + q + 1, "append"); b = a; same(b, ref, p + q + 1, "copy"); b = std::move(a); same(b, ref, p + q + 1, "move"); break; case 9: { Str c((size_t)50); same(c, ref, 0, "a reserved string is empty"); c += a; c += pb; same(c, ref, p + q, "append"); if(p) { c.GetChar(0) = 'y'; CHECK(c[0] == 'y' && a[0] == pa[0]); } break; } }
  COVER(2); } CHECK(bsx_live() == l0);
#else // OutputUnicode
  int n = bsx_choice(3, "n"); Str s; u8 ref[16]; int m = 0; for(int i = 0; i < n; ++i) { ref[m++] = (u8)('a' + i); s += (char)('a' + i); } uint32_t c = sym<uint32_t>("c"); ASSUME(c < 0x80000000u); ASSUME(c < 0xD800 || c >= 0xE000); OutputUnicode(s, (int)c); COVER(1); if(c <= 0x10FFFF) { m += enc(c, ref + m); COVER(2); } same(s, ref, m, "appends the UTF-8 form of a code point, nothing for what is none");
#endif
}
