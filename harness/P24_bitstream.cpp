//BSX property=P24 covers=1,2 variants=0,1,2 def.quick=FLD=3,MAXB=20 def.thorough=FLD=4,MAXB=20
//BSX bounds: FLD consecutive fields, each any of 16 widths up to MAXB bits (7 widths from the third field on) with every symbolic content, written with one bit stream and read back with another; a symbolic mixture of typed fields (bool, 8, 16, 32 bit) in variant 1; a writer and a reader moved, copied or assigned after 0 to 8 bits, followed by 1 to 9 bits, in variant 2
#include "bsx.h"
#include "bss-util/BitStream.h"
using namespace bss;
struct Mem { uint8_t b[64]; int w = 0, r = 0; void put(char c) { CHECK(w < 64); b[w++] = (uint8_t)c; } int peek() { return r < w ? b[r] : -1; } Mem& get(char& c) { CHECKM(r < w, "reads only what was written"); c = (char)b[r++]; return *this; } };
int main() {
  Mem m;
#if VARIANT == 2
  // a stream handed over in the middle of a byte
  int w0 = bsx_choice(9, "before"); int w1 = 1 + bsx_choice(9, "after"); int how = bsx_choice(3, "how"); uint16_t a = sym<uint16_t>("a"); uint16_t b = sym<uint16_t>("b"); uint16_t p = sym<uint16_t>("p"); Mem other; int ow = bsx_choice(3, "other");
  { BitStream<Mem> o1(m); if(w0) o1.Write(&a, w0);
    if(how == 0) { BitStream<Mem> o2(std::move(o1)); o2.Write(&b, w1); o2.Write(&p, 8); }
    else if(how == 1) { BitStream<Mem> o2(other); if(ow) o2.Write(&p, ow * 3); o2 = std::move(o1); o2.Write(&b, w1); o2.Write(&p, 8); }
    else { BitStream<Mem> o2(o1); o2.Write(&b, w1); o2.Write(&p, 8); BitStream<Mem> o3(other); o3 = o2; CHECK(m.w == (w0 + w1 + 8) / 8); } }
  for(int k = 0; k < w0; ++k) CHECKM(((m.b[k >> 3] >> (k & 7)) & 1) == ((a >> k) & 1), "bits written before the move are in place");
  for(int k = 0; k < w1; ++k) { int bit = w0 + k; CHECKM(((m.b[bit >> 3] >> (bit & 7)) & 1) == ((b >> k) & 1), "bits written after the move follow"); }
  COVER(1);
  BitStream<Mem> i1(m); uint16_t x = 0; if(w0) i1.Read(&x, w0); CHECK(x == (a & ((1 << w0) - 1))); x = 0; 
  if(how == 0) { BitStream<Mem> i2(std::move(i1)); i2.Read(&x, w1); } else { BitStream<Mem> i2(other); if(how == 1) i2 = std::move(i1); else i2 = i1; i2.Read(&x, w1); }
  CHECKM(x == (b & ((1 << w1) - 1)), "reading goes on where the moved stream stood"); COVER(2);
#elif VARIANT == 0
  static const int ws[] = { 1, 8, 3, 13, 5, 16, 7, 2, 4, 6, 9, 10, 11, 15, 17, 20 };
  uint32_t v[FLD]; int w[FLD]; int total = 0;
  { BitStream<Mem> out(m); for(int i = 0; i < FLD; ++i) { w[i] = ws[bsx_choice(i < 2 ? 16 : 7, "width")]; v[i] = sym<uint32_t>("v"); out.Write(&v[i], w[i]); total += w[i]; CHECKM(m.w == total / 8, "a byte is written as soon as it is complete"); } uint8_t pad = 0; out.Write(&pad, 8); }
  for(int i = 0, bit = 0; i < FLD; ++i) for(int k = 0; k < w[i]; ++k, ++bit) CHECKM(((m.b[bit >> 3] >> (bit & 7)) & 1) == ((v[i] >> k) & 1), "bits are laid out consecutively, lowest first");
  COVER(1);
  BitStream<Mem> in(m); for(int i = 0; i < FLD; ++i) { uint32_t x; bsx_undef(&x, 4); in.Read(&x, w[i]); uint32_t nb = (w[i] + 7) / 8; uint32_t keep = nb == 4 ? ~0u : (1u << (nb * 8)) - 1; CHECKM((x & keep) == (v[i] & ((1u << w[i]) - 1)), "a field is read back exactly as written, whatever the destination held"); }
  COVER(2);
#else
  int t[FLD + 2]; uint32_t v[FLD + 2];
  { BitStream<Mem> out(m); for(int i = 0; i < FLD + 2; ++i) { t[i] = bsx_choice(4, "type"); v[i] = sym<uint32_t>("v"); switch(t[i]) { case 0: v[i] &= 1; out << (v[i] != 0); break; case 1: out << (uint8_t)v[i]; break; case 2: out << (int16_t)v[i]; break; case 3: out << v[i]; break; } } out.Write<uint8_t>(0); }
  COVER(1);
  BitStream<Mem> in(m); for(int i = 0; i < FLD + 2; ++i) switch(t[i]) { case 0: { uint8_t b = 0; in.Read(&b, 1); CHECKM((b & 1) == v[i], "a field is read back exactly as written"); break; } case 1: { uint8_t x; in >> x; CHECK(x == (uint8_t)v[i]); break; } case 2: { int16_t x; in >> x; CHECK(x == (int16_t)v[i]); break; } case 3: { uint32_t x; in >> x; CHECK(x == v[i]); break; } }
  COVER(2);
#endif
}
