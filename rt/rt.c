// libc subset compiled to bitcode and linked into every harness module
typedef unsigned long size_t; typedef int wchar_t;
void* malloc(size_t); 
size_t strlen(const char* s) { size_t n = 0; while(s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while(n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while(*a && *a == *b) ++a, ++b; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while(n && *a && *a == *b) ++a, ++b, --n; if(!n) return 0; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
static int lc(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while(*a && lc((unsigned char)*a) == lc((unsigned char)*b)) ++a, ++b; return lc((unsigned char)*a) - lc((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while(n && *a && lc((unsigned char)*a) == lc((unsigned char)*b)) ++a, ++b, --n; if(!n) return 0; return lc((unsigned char)*a) - lc((unsigned char)*b); }
char* strcpy(char* d, const char* s) { char* r = d; while((*d++ = *s++)); return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for(; i < n && s[i]; ++i) d[i] = s[i]; for(; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); while(n-- && *s) *e++ = *s++; *e = 0; return d; }
char* strchr(const char* s, int c) { for(;; ++s) { if(*s == (char)c) return (char*)s; if(!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for(;; ++s) { if(*s == (char)c) r = s; if(!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for(;; ++h) { if(!strncmp(h, n, l)) return (char*)h; if(!*h) return 0; } }
size_t strspn(const char* s, const char* a) { size_t n = 0; while(s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while(s[n] && !strchr(a, s[n])) ++n; return n; }
char* strpbrk(const char* s, const char* a) { for(; *s; ++s) if(strchr(a, *s)) return (char*)s; return 0; }
char* strtok_r(char* s, const char* d, char** sv) { if(!s) s = *sv; s += strspn(s, d); if(!*s) { *sv = s; return 0; } char* e = s + strcspn(s, d); if(*e) *e++ = 0; *sv = e; return s; }
static char* tok_sv; char* strtok(char* s, const char* d) { return strtok_r(s, d, &tok_sv); }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); for(size_t i = 0; i < n; ++i) r[i] = s[i]; return r; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for(size_t i = 0; i < n; ++i) if(s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while(s[n]) ++n; return n; }
int wcscmp(const wchar_t* a, const wchar_t* b) { while(*a && *a == *b) ++a, ++b; return *a < *b ? -1 : *a > *b; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for(size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
static int dig(int c) { if(c >= '0' && c <= '9') return c - '0'; if(c >= 'a' && c <= 'z') return c - 'a' + 10; if(c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long cvt(const char* s, char** e, int base, int sgn) {
  const char* p = s; while(isspace((unsigned char)*p)) ++p; int neg = 0; if(*p == '+' || *p == '-') neg = *p++ == '-';
  if((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig((unsigned char)p[2]) < 16) { p += 2; base = 16; } else if(base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0, ovf = 0; unsigned long lim = sgn ? (neg ? 0x8000000000000000ul : 0x7ffffffffffffffful) : ~0ul;
  for(; dig((unsigned char)*p) < base; ++p) { unsigned long d = dig((unsigned char)*p); any = 1; if(v > (lim - d) / base) ovf = 1; else v = v * base + d; }
  if(e) *e = (char*)(any ? p : s); if(ovf) return lim; return neg ? 0 - v : v;
}
long strtol(const char* s, char** e, int b) { return (long)cvt(s, e, b, 1); }
long long strtoll(const char* s, char** e, int b) { return (long long)cvt(s, e, b, 1); }
unsigned long strtoul(const char* s, char** e, int b) { return cvt(s, e, b, 0); }
unsigned long long strtoull(const char* s, char** e, int b) { return cvt(s, e, b, 0); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
long long atoll(const char* s) { return strtoll(s, 0, 10); }
double bsx_strtod(const char*, char**); // the engine's: makes its input concrete, so it is only given what can be part of a number
double strtod(const char* s, char** e) {
  const char* p = s; while(isspace((unsigned char)*p)) ++p; unsigned char c = *p;
  if(!(isdigit(c) || c == '+' || c == '-' || c == '.' || c == 'i' || c == 'I' || c == 'n' || c == 'N')) { if(e) *e = (char*)s; return 0; }
  char b[128]; int n = 0; for(; n < 127; ++n) { c = p[n]; if(!(isalnum(c) || c == '+' || c == '-' || c == '.')) break; b[n] = (char)c; } b[n] = 0;
  char* q; double r = bsx_strtod(b, &q); if(e) *e = (char*)(q == b ? s : p + (q - b)); return r;
}
double atof(const char* s) { return strtod(s, 0); }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
static unsigned long rs = 1; int rand(void) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; return (int)((rs >> 33) & 0x7fffffff); }
static void swapb(char* a, char* b, size_t n) { for(size_t i = 0; i < n; ++i) { char t = a[i]; a[i] = b[i]; b[i] = t; } }
void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) { char* b = (char*)base; for(size_t i = 1; i < n; ++i) for(size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; --j) swapb(b + (j - 1) * sz, b + j * sz, sz); }
void* bsearch(const void* k, const void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) { size_t lo = 0, hi = n; while(lo < hi) { size_t m = (lo + hi) / 2; const char* p = (const char*)base + m * sz; int c = cmp(k, p); if(!c) return (void*)p; if(c < 0) hi = m; else lo = m + 1; } return 0; }
int bsx_alf(size_t n, const volatile void* p) __asm__("__atomic_is_lock_free"); int bsx_alf(size_t n, const volatile void* p) { return n <= 8; }
long __isoc23_strtol(const char* s, char** e, int b) { return (long)cvt(s, e, b, 1); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return (long long)cvt(s, e, b, 1); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return cvt(s, e, b, 0); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return cvt(s, e, b, 0); }
