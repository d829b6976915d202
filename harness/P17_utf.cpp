//BSX property=P17 covers=1,2,3 variants=0,1,2,3,4 def.quick=CPS=3,BYTES=5 def.thorough=CPS=4,BYTES=7 sources=ConvertUTF.c
//BSX bounds: strings of up to CPS fully symbolic code points, byte strings of up to BYTES fully symbolic bytes; NUL-terminated or with explicit length in exactly sized storage; output capacities from 0 up to more than needed
#include "bsx.h"
#include "bss-util/utf_conv.h"
extern "C" char isLegalUTF8Sequence(const unsigned char*, const unsigned char*);
typedef unsigned char u8;
static bool scalar(uint32_t c) { return c < 0xD800 || (c >= 0xE000 && c <= 0x10FFFF); }
// length of the well-formed sequence at s (Unicode table 3-7), 0 if there is none in n bytes
static int wf(const u8* s, int n) {
  u8 a = s[0]; if(a < 0x80) return 1; if(a < 0xC2 || a > 0xF4) return 0;
  int k = a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4; if(n < k) return 0;
  u8 lo = 0x80, hi = 0xBF; if(a == 0xE0) lo = 0xA0; else if(a == 0xED) hi = 0x9F; else if(a == 0xF0) lo = 0x90; else if(a == 0xF4) hi = 0x8F;
  if(s[1] < lo) return 0; if(s[1] > hi) return 0;
  for(int i = 2; i < k; ++i) { if(s[i] < 0x80) return 0; if(s[i] > 0xBF) return 0; }
  return k;
}
static uint32_t dec(const u8* s, int k) { switch(k) { case 1: return s[0]; case 2: return (uint32_t)(s[0] & 31) << 6 | (s[1] & 63); case 3: return (uint32_t)(s[0] & 15) << 12 | (uint32_t)(s[1] & 63) << 6 | (s[2] & 63); default: return (uint32_t)(s[0] & 7) << 18 | (uint32_t)(s[1] & 63) << 12 | (uint32_t)(s[2] & 63) << 6 | (s[3] & 63); } }
static int enc(uint32_t c, u8* o) {
  if(c < 0x80) { o[0] = (u8)c; return 1; }
  if(c < 0x800) { o[0] = (u8)(0xC0 | (c >> 6)); o[1] = (u8)(0x80 | (c & 63)); return 2; }
  if(c < 0x10000) { o[0] = (u8)(0xE0 | (c >> 12)); o[1] = (u8)(0x80 | ((c >> 6) & 63)); o[2] = (u8)(0x80 | (c & 63)); return 3; }
  o[0] = (u8)(0xF0 | (c >> 18)); o[1] = (u8)(0x80 | ((c >> 12) & 63)); o[2] = (u8)(0x80 | ((c >> 6) & 63)); o[3] = (u8)(0x80 | (c & 63)); return 4;
}
int main() {
#if VARIANT == 0 // scalar values: encode, compare with the definition, decode again
  int n = 1 + bsx_choice(CPS, "n"), term = bsx_choice(2, "term"); char32_t* in = (char32_t*)malloc(4 * (n + term)); u8 ref[4 * CPS + 1]; int len = 0;
  for(int i = 0; i < n; ++i) { uint32_t c = sym<uint32_t>("cp"); ASSUME(scalar(c)); ASSUME(c != 0); in[i] = c; len += enc(c, ref + len); }
  if(term) { in[n] = 0; ref[len] = 0; }
  ptrdiff_t sl = term ? (bsx_choice(2, "len") ? n + 1 : -1) : n;
  size_t need = UTF32toUTF8(in, sl, 0, 0); CHECKM(need >= (size_t)len + term, "the size query covers the whole conversion"); COVER(1);
  char* out = (char*)malloc(need); size_t r = UTF32toUTF8(in, sl, out, need); CHECKM(r == (size_t)(len + term), "UTF-8 length");
  for(int i = 0; i < len + term; ++i) CHECKM((u8)out[i] == ref[i], "UTF-8 encoding of a scalar value"); COVER(2);
  char* ex = (char*)malloc(len + term); for(int i = 0; i < len + term; ++i) ex[i] = out[i]; ptrdiff_t el = term ? (sl < 0 ? -1 : len + 1) : len;
  size_t n2 = UTF8toUTF32(ex, el, 0, 0); CHECK(n2 >= (size_t)(n + term)); char32_t* back = (char32_t*)malloc(4 * n2); size_t q = UTF8toUTF32(ex, el, back, n2);
  CHECKM(q == (size_t)(n + term), "decoding restores the length"); for(int i = 0; i < n + term; ++i) CHECKM(back[i] == in[i], "decoding restores every code point"); COVER(3);
  free(back); free(ex); free(out); free(in);
#elif VARIANT == 1 // arbitrary bytes, any output capacity
  int n = 1 + bsx_choice(BYTES, "n"); u8* in = (u8*)malloc(n); for(int i = 0; i < n; ++i) { in[i] = sym<u8>("b"); ASSUME(in[i] != 0); }
  size_t need = UTF8toUTF32((char*)in, n, 0, 0); COVER(1);
  uint32_t ref[BYTES]; int m = 0; for(int i = 0; i < n;) { int k = wf(in + i, n - i); if(!k) { COVER(2); break; } ref[m++] = dec(in + i, k); i += k; }
  int cap = bsx_choice(n + 2, "cap"); char32_t* out = (char32_t*)malloc(4 * cap + 1); size_t r = UTF8toUTF32((char*)in, n, out, cap);
  CHECKM(need >= (size_t)m, "the size query covers the whole conversion"); int e = m; if(cap < e) { e = cap; COVER(3); } CHECKM(r == (size_t)e, "stops exactly at the capacity or the first ill-formed sequence");
  for(int i = 0; i < e; ++i) CHECKM(out[i] == ref[i], "decoded value");
  free(out); free(in);
#elif VARIANT == 2 // arbitrary 32-bit values, any output capacity
  int n = 1 + bsx_choice(CPS, "n"); char32_t* in = (char32_t*)malloc(4 * n); u8 ref[4 * CPS]; int end[CPS + 1], w = 0; end[0] = 0;
  for(int i = 0; i < n; ++i) { uint32_t c = sym<uint32_t>("c"); ASSUME(c < 0xD800 || c >= 0xE000); ASSUME(c != 0); in[i] = c; if(c > 0x10FFFF) { c = 0xFFFD; COVER(2); } w += enc(c, ref + w); end[i + 1] = w; }
  size_t need = UTF32toUTF8(in, n, 0, 0); CHECK(need >= (size_t)w); COVER(1);
  int cap = bsx_choice(w + 2, "cap"); char* out = (char*)malloc(cap + 1); out[cap] = 77; size_t r = UTF32toUTF8(in, n, out, cap); int e = 0; for(int i = 0; i <= n; ++i) if(end[i] <= cap) e = end[i]; if(e < w) COVER(3);
  CHECKM(r == (size_t)e, "only whole characters that fit are written"); CHECK(out[cap] == 77); for(int i = 0; i < e; ++i) CHECKM((u8)out[i] == ref[i], "encoded value (U+FFFD for what no UTF-8 can express)");
  free(out); free(in);
#elif VARIANT == 3 // legality predicate
  int n = 1 + bsx_choice(5, "n"); u8* in = (u8*)malloc(n); for(int i = 0; i < n; ++i) in[i] = sym<u8>("b");
  int k = wf(in, n); bool r = isLegalUTF8Sequence(in, in + n) != 0; COVER(1); if(k) COVER(2); if(!k) COVER(3); CHECKM(r == (k != 0), "a sequence is legal iff Unicode table 3-7 says so"); free(in);
#else // NUL inside an explicit length, zero length
  int n = 2 + bsx_choice(3, "n"), z = bsx_choice(n, "z"); u8* in = (u8*)malloc(n); char32_t* w = (char32_t*)malloc(4 * n); for(int i = 0; i < n; ++i) { in[i] = (u8)(1 + (sym<u8>("b") & 0x3f)); w[i] = in[i]; } in[z] = 0; w[z] = 0;
  char32_t out[8]; char o8[8]; ptrdiff_t sl = bsx_choice(2, "len") ? n : -1; COVER(1);
  CHECK(UTF8toUTF32((char*)in, sl, out, 8) == (size_t)z + 1); CHECK(UTF32toUTF8(w, sl, o8, 8) == (size_t)z + 1); COVER(2); for(int i = 0; i <= z; ++i) { CHECK(out[i] == in[i]); CHECK((u8)o8[i] == in[i]); }
  CHECK(UTF8toUTF32((char*)in, sl, 0, 0) == (size_t)z + 1); CHECK(UTF32toUTF8(w, sl, 0, 0) == (size_t)z + 1);
  CHECK(UTF8toUTF32((char*)in, 0, out, 8) == 0); CHECK(UTF32toUTF8(w, 0, o8, 8) == 0); COVER(3); free(in); free(w);
#endif
}
