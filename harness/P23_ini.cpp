//BSX property=P23 covers=1 variants=0,1,2,3,4,5 shim=1 sources=INIParser.c,INIentry.cpp,INIsection.cpp,INIstorage.cpp,ConvertUTF.c,bss_util_c.c def.quick=NBY=6,LN=4,FB=6 def.thorough=NBY=7,LN=5,FB=7
//BSX bounds: parser: every file of NBY bytes (any non-zero value) with and without a preceding section line; lookups in the text: every text of FB bytes after a fixed line; storage: every document of LN lines out of 6 kinds (repeated and differently cased sections and keys), then a copy, move or assignment; edits: one edit, insertion or removal of an entry or section in a document of LN-1 lines, with and without a section line in front; files are modelled by a byte buffer behind fopen/fgets/fread/fwrite
#include "bsx.h"
#include "bss-util/INIstorage.h"
#include "bss-util/INIparse.h"
using namespace bss;
static char doc[512]; static size_t dlen, dpos, woff; static char wrote[512]; static size_t wlen; static int handle;
extern "C" {
char* fgets(char* b, int n, FILE*) { if(dpos >= dlen || n < 2) return 0; int i = 0; while(i < n - 1 && dpos < dlen) { char c = doc[dpos++]; b[i++] = c; if(c == '\n') break; } b[i] = 0; return b; }
int feof(FILE*) { return dpos >= dlen; }
FILE* _IO_fopen(const char*, const char*); int _IO_fclose(FILE*); // the C library's own, for the replay driver
FILE* fopen(const char* f, const char* md) { if(f[0] && f[1]) return _IO_fopen(f, md); dpos = 0; return (FILE*)&handle; }
int fclose(FILE* f) { return f == (FILE*)&handle ? 0 : _IO_fclose(f); }
int fseek(FILE*, long o, int w) { dpos = w == SEEK_END ? dlen : (size_t)o; return 0; }
long ftell(FILE*) { return (long)dpos; }
size_t fread(void* p, size_t s, size_t n, FILE*) { size_t k = 0; char* c = (char*)p; while(k < s * n && dpos < dlen) c[k++] = doc[dpos++]; return k / s; }
size_t fwrite(const void* p, size_t s, size_t n, FILE*) { wlen = s * n; CHECK(wlen < sizeof(wrote)); memcpy(wrote, p, wlen); return n; }
}
static bool ws(char c) { return (unsigned char)c < 33; }
static bool same(const char* a, const char* b, size_t n) { for(size_t i = 0; i < n; ++i) if(a[i] != b[i]) return false; return a[n] == 0; }
static void trim(const char*& a, const char*& b) { while(a < b && ws(*a)) ++a; while(b > a && ws(b[-1])) --b; }
static void parser() {
  dlen = 0; if(bsx_choice(2, "pre")) { memcpy(doc, "[s]\n", 4); dlen = 4; } for(int i = 0; i < NBY; ++i) { char c = sym<char>("c"); ASSUME(c != 0); doc[dlen++] = c; } dpos = 0;
  INIParser p; CHECK(bssInitINI(&p, (FILE*)&handle) == 1); size_t i = 0;
  while(i < dlen) {
    size_t e = i; while(e < dlen && doc[e] != '\n') ++e; const char* l = doc + i; const char* q = doc + (e < dlen ? e + 1 : e); i = e + 1;
    const char* k = l; while(k < q && *k != ';' && *k != '=' && *k != '[') ++k; if(k == q || *k == ';') continue;
    if(*k == '=') { const char* a = l, *b = k; trim(a, b); if(a == b) continue; const char* v = k + 1, *w = v; while(w < q && *w != ';') ++w; trim(v, w); CHECKM(bssParseLine(&p) == 1, "an entry is reported"); CHECK(!p.newsection); CHECKM(same(p.curkey, a, b - a), "key without surrounding blanks"); CHECKM(same(p.curvalue, v, w - v), "value without surrounding blanks or comment"); }
    else { const char* z = k + 1; while(z < q && *z != ']' && *z != ';') ++z; if(z < q && *z == ';') continue; if(z == k + 1) continue; const char* a = k + 1, *b = z; trim(a, b); CHECKM(bssParseLine(&p) == -1, "a section is reported"); CHECK(p.newsection); CHECKM(same(p.cursection, a, b - a), "section name"); }
  }
  CHECKM(bssParseLine(&p) == 0, "nothing after the last line"); CHECK(bssParseLine(&p) == 0); bssDestroyINI(&p);
}
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool nameis(const char* a, const char* b, const char* n) { trim(a, b); if((size_t)(b - a) != strlen(n)) return false; for(; a < b; ++a, ++n) if(low(*a) != low(*n)) return false; return true; }
static void finder() { // text: lines of symbolic bytes after a first section
  dlen = 0; bool sec = bsx_choice(2, "sec") != 0; if(!sec) { memcpy(doc, "[s]\n", 4); dlen = 4; } else { memcpy(doc, "[ab]\nx=1\n", 9); dlen = 9; } for(int i = 0; i < FB; ++i) { char c = sym<char>("c"); ASSUME((c == 'a') | (c == 'B') | (c == '[') | (c == ']') | (c == '=') | (c == '\n') | (c == ' ') | (c == ';')); doc[dlen++] = c; } doc[dlen] = 0;
  size_t inst = (size_t)bsx_choice(2, "inst"); const char* names[3] = { "ab", "a", "a;" }; const char* nm = names[bsx_choice(3, "name")];
  if(sec) {
    INICHUNK c = bssFindINISection(doc, dlen, nm, inst); const char* st = 0, *en = doc + dlen; size_t n = 0;
    for(size_t i = 0; i < dlen;) { size_t e = i; while(e < dlen && doc[e] != '\n') ++e; const char* k = doc + i, *q = doc + e; while(k < q && *k != ';' && *k != '=' && *k != '[') ++k; if(k < q && *k == '[') { if(st) { en = doc + i - 1; break; } const char* z = k + 1; while(z < q && *z != ']' && *z != ';') ++z; if(!(z < q && *z == ';') && z != k + 1 && nameis(k + 1, z, nm) && n++ == inst) st = k; } i = e + 1; }
    CHECKM(c.start == st, "the section's start is found exactly when it exists"); if(st) CHECKM(c.end == en, "the section ends where the next begins");
  } else {
    INICHUNK all = { doc, doc + dlen }; INICHUNK c = bssFindINIEntry(all, nm, inst); const char* st = 0, *en = 0; size_t n = 0;
    for(size_t i = 0; i < dlen && !st;) { size_t e = i; while(e < dlen && doc[e] != '\n') ++e; const char* k = doc + i, *q = doc + e; while(k < q && *k != ';' && *k != '=' && *k != '[') ++k; if(k < q && *k == '=') { const char* a = doc + i, *b = k; trim(a, b); if(a < b && nameis(a, b, nm) && n++ == inst) { st = a; en = k + 1; while(en < q && *en != ';') ++en; } } i = e + 1; }
    CHECKM(c.start == st, "the entry is found exactly when it exists"); if(st) CHECKM(c.end == en, "the entry ends at its comment or line end");
  }
}
// model of a document: sections in order of first appearance, repeated ones beside their first; the same for entries
static const char* SN[3] = { "", "alpha", "a section name that does not fit inside the string" }; static const char* KN[2] = { "k", "a key that is long enough to be allocated separately" };
struct Ent { int key; char val; }; struct Sec { int name; int n; Ent e[8]; }; struct Mod { int n; Sec s[8];
  int find(int name, int inst) const { for(int i = 0; i < n; ++i) if(s[i].name == name && inst-- == 0) return i; return -1; } int count(int name) const { int c = 0; for(int i = 0; i < n; ++i) c += s[i].name == name; return c; }
  int add(int name) { int at = n; for(int i = 0; i < n; ++i) if(s[i].name == name) at = i + 1; for(int i = n; i > at; --i) s[i] = s[i - 1]; ++n; s[at].name = name; s[at].n = 0; return at; }
  static int findE(const Sec& c, int key, int inst) { for(int i = 0; i < c.n; ++i) if(c.e[i].key == key && inst-- == 0) return i; return -1; } static int countE(const Sec& c, int key) { int r = 0; for(int i = 0; i < c.n; ++i) r += c.e[i].key == key; return r; }
  static void addE(Sec& c, int key, char v) { int at = c.n; for(int i = 0; i < c.n; ++i) if(c.e[i].key == key) at = i + 1; for(int i = c.n; i > at; --i) c.e[i] = c.e[i - 1]; ++c.n; c.e[at] = Ent{ key, v }; }
  void rem(int at) { for(int i = at; i + 1 < n; ++i) s[i] = s[i + 1]; --n; } static void remE(Sec& c, int at) { for(int i = at; i + 1 < c.n; ++i) c.e[i] = c.e[i + 1]; --c.n; }
};
static void put(const char* t) { size_t n = strlen(t); memcpy(doc + dlen, t, n); dlen += n; }
static Mod m;
static void build(int lines, int nk, bool pre = false) {
  m.n = 0; dlen = 0; dpos = 0; int cur = -1; if(pre) { put("[alpha]\n"); cur = m.add(1); } for(int i = 0; i < lines; ++i) { int k = bsx_choice(nk, "line"); if(k < 2) { put(i == 1 && k == 0 ? "[ALPHA]\n" : (k == 0 ? "[alpha]\n" : "[a section name that does not fit inside the string]\n")); cur = m.add(k + 1); } else { if(cur < 0) cur = m.add(0); char v = 0; if(k < 5) { v = sym<char>("v"); ASSUME((v >= 'g') & (v <= 'w')); } put(KN[k == 3]); if(k == 4) { char t[10] = { ' ', '=', ' ', v, ' ', ';', '=', '[', '\n', 0 }; put(t); } else if(k == 5) put("=\n"); else { char t[4] = { '=', v, '\n', 0 }; put(t); } m.addE(m.s[cur], k == 3, v); } }
  if(dlen && bsx_choice(2, "eof")) --dlen; // the last line may lack its line end
}
static void verify(const INIstorage& s, const Mod& m, bool order = true) {
  if(order) { const INIstorage::_NODE* p = s.Front(); for(int i = 0; i < m.n; ++i) { CHECKM(p != 0, "every section is listed"); if(!p) return; CHECKM(!strcasecmp(p->val.GetName(), SN[m.s[i].name]), "sections in order"); CHECKM(p->val.GetParent() == &s, "a section belongs to its storage"); const INIsection::_NODE* q = p->val.Front(); for(int j = 0; j < m.s[i].n; ++j) { CHECKM(q != 0, "every entry is listed"); if(!q) return; CHECKM(!strcmp(q->val.GetKey(), KN[m.s[i].e[j].key]), "entries in order"); CHECKM(q->val.GetString()[0] == m.s[i].e[j].val && strlen(q->val.GetString()) == (m.s[i].e[j].val != 0) && q->val.GetInt() == (m.s[i].e[j].val == '9' ? 9 : 0), "entry value"); if(j + 1 == m.s[i].n) CHECK(p->val.Back() == q); q = q->next; } CHECKM(q == 0, "no further entry"); if(i + 1 == m.n) CHECK(s.Back() == p); p = p->next; } CHECKM(p == 0, "no further section"); } else { int n = 0; for(const INIstorage::_NODE* p = s.Front(); p; p = p->next) ++n; CHECKM(n == m.n, "number of sections after saving and loading"); }
  for(int n = 0; n < 3; ++n) { int c = m.count(n); CHECKM((int)s.GetNumSections(SN[n]) == c, "number of sections of a name"); for(int i = 0; i <= c; ++i) { INIsection* x = s.GetSection(SN[n], i); CHECKM((x != 0) == (i < c), "a section instance is found exactly when it exists"); if(!x || i >= c) continue; CHECKM((int)x->GetIndex() == i, "instance index"); const Sec& sc = m.s[m.find(n, i)]; for(int k = 0; k < 2; ++k) { int d = Mod::countE(sc, k); CHECKM((int)x->GetNumEntries(KN[k]) == d, "number of entries of a key"); for(int j = 0; j <= d; ++j) { INIentry* e = s.GetEntryPtr(SN[n], KN[k], j, i); CHECKM((e != 0) == (j < d), "an entry instance is found exactly when it exists"); if(e && j < d) CHECKM(e->GetString()[0] == sc.e[Mod::findE(sc, k, j)].val, "the entry of that instance"); } CHECK(s.GetEntry(SN[n], KN[k], d, i).IsValid() == false); } } }
}
static void copies() {
  build(LN, 4); INIstorage* a = new INIstorage((FILE*)&handle); verify(*a, m); INIstorage* b = 0;
  switch(bsx_choice(6, "op")) {
  case 0: break;
  case 1: b = new INIstorage(*a); verify(*a, m); break;
  case 2: b = new INIstorage(std::move(*a)); break;
  case 3: case 4: { dlen = 0; dpos = 0; put("[alpha]\nk=7\n[alpha]\nk=8\n"); b = new INIstorage((FILE*)&handle); if(bsx_choice(2, "mv")) *b = std::move(*a); else { *b = *a; verify(*a, m); } break; }
  case 5: { INIstorage& r = *a; *a = r; verify(*a, m); break; }
  }
  INIstorage& z = b ? *b : *a; for(int n = 1; n < 3; ++n) { INIsection* x = z.GetSection(SN[n], 1); if(!x) continue; INIsection c(*x), d, e(std::move(c)); d = e; INIsection g; g = std::move(d); CHECKM(g.GetIndex() == 1 && !strcmp(g.GetName(), x->GetName()) && g.GetParent() == x->GetParent(), "a copied or moved section is the same section"); for(int k = 0; k < 2; ++k) { size_t w = x->GetNumEntries(KN[k]); CHECKM(g.GetNumEntries(KN[k]) == w && e.GetNumEntries(KN[k]) == w, "entries of a copied or moved section"); for(size_t i = 0; i < w; ++i) CHECKM(g.GetEntry(KN[k], i) == x->GetEntry(KN[k], i) && e.GetEntry(KN[k], i) == x->GetEntry(KN[k], i), "entries of a copied or moved section"); } }
  if(b) { delete a; verify(*b, m); delete b; } else delete a;
}
static void edits(bool pre) {
  build(LN - 1, pre ? 4 : 6, pre); INIstorage* a = new INIstorage((FILE*)&handle); int op = bsx_choice(5, "op"), n = bsx_choice(3, "sec"), k = bsx_choice(2, "key"), i = bsx_choice(2, "si"), j = bsx_choice(pre ? 3 : 2, "ki");
  if(n == 0) ASSUME(0); int at = m.find(n, i);
  switch(op) {
  case 0: { if(k || j || i) ASSUME(0); INIsection& s = a->AddSection(SN[n]); int w = m.add(n); CHECK((int)s.GetIndex() == m.count(n) - 1); (void)w; break; }
  case 1: { if(k || j) ASSUME(0); bool r = a->RemoveSection(SN[n], i); CHECKM(r == (at >= 0), "a section is removed exactly when it exists"); if(at >= 0) m.rem(at); break; }
  case 2: { bool del = bsx_choice(2, "del") != 0; char r = a->EditEntry(SN[n], KN[k], del ? 0 : "9", j, i); int e = at < 0 ? -1 : Mod::findE(m.s[at], k, j); CHECKM((r == 0) == (e >= 0), "an entry is edited exactly when it exists"); if(e >= 0) { if(!del) m.s[at].e[e].val = '9'; else Mod::remE(m.s[at], e); } break; }
  case 4: { if(j || i) ASSUME(0); CHECKM(a->EditEntry(SN[n], KN[k], "9", (size_t)~0, (size_t)~0) == 0, "a section and an entry are added"); at = m.add(n); Mod::addE(m.s[at], k, '9'); break; }
  case 3: { if(j) ASSUME(0); char r = a->EditEntry(SN[n], KN[k], "9", (size_t)~0, i); CHECKM((r == 0) == (at >= 0), "an entry is added exactly when its section exists"); if(at >= 0) Mod::addE(m.s[at], k, '9'); break; }
  }
  verify(*a, m); wlen = 0; a->EndINIEdit("f"); delete a; memcpy(doc, wrote, wlen); dlen = wlen; dpos = 0; INIstorage* b = new INIstorage((FILE*)&handle); verify(*b, m, false); delete b;
}
static void values() {
  char t[24]; int n = 0; int64_t v = 0; int k = bsx_choice(3, "kind"); bool neg = false; if(k == 1) { t[n++] = '0'; t[n++] = bsx_choice(2, "X") ? 'X' : 'x'; } else neg = bsx_choice(2, "neg") != 0; if(neg) t[n++] = '-';
  for(int i = 0; i < 3; ++i) { char c = k == 2 ? (char)("159"[bsx_choice(3, "digit")]) : sym<char>("d"); if(k == 1) { ASSUME(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))); v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } else { ASSUME((c >= '1') & (c <= '9')); v = v * 10 + (c - '0'); } t[n++] = c; } int64_t whole = v; if(k == 2) { t[n++] = '.'; t[n++] = '5'; } t[n] = 0; if(neg) whole = -whole;
  INIentry e("key", t); CHECKM(e.GetInt() == whole, "integer value of an entry"); CHECKM(!strcmp(e.GetString(), t), "text of an entry"); CHECKM(!strcmp(e.GetKey(), "key") && e.IsValid(), "key of an entry"); double d = (double)whole; if(k == 2) d += neg ? -0.5 : 0.5; if(k == 2) CHECKM(e.GetDouble() == d, "floating-point value of an entry"); CHECK((int)e == (int)whole && (bool)e == (whole != 0) && (int64_t)e == whole);
  e.Set(0); CHECK(e.GetInt() == whole); INIentry f(e); if(k == 2) CHECK(f == e); f = "12"; CHECKM(f.GetInt() == 12 && f.GetDouble() == 12.0, "assignment replaces every form of the value"); f = (int64_t)-7; CHECK(f.GetInt() == -7 && !strcmp(f.GetString(), "-7") && f.GetDouble() == -7.0); if(k == 2) { CHECK(f != e); INIentry g("key", t); CHECK(g == e); g = d; CHECKM(g.GetDouble() == d && g.GetInt() == whole, "assignment of a number"); } f.SetInt(v); CHECK(f.GetInt() == v);
}
int main() {
#if VARIANT == 0
  parser();
#elif VARIANT == 1
  finder();
#elif VARIANT == 2
  copies();
#elif VARIANT == 3
  edits(false);
#elif VARIANT == 5
  edits(true);
#else
  values();
#endif
  COVER(1);
}
