// libc functions (no headers, so that the declarations cannot clash)
typedef unsigned long size_t;
struct ldiv_t { long quot, rem; }; struct lldiv_t { long long quot, rem; }; struct div_t { int quot, rem; };
struct FILE;
extern "C" {
struct timespec;
int* __errno_location();
#define errno (*__errno_location())
#define ERANGE 34
#define ETIMEDOUT 110
#define noexcept
void eng_wait_changed(void*, unsigned); void eng_cv_wait(void*, void*); int eng_cv_timedwait(void*, void*);
void rt_sleep_(long long); void* malloc(size_t); void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); size_t strlen(const char*);
int strncmp(const char* a, const char* b, size_t n);
int nanosleep(const struct timespec* t, struct timespec*) { long long s = ((const long long*)t)[0], n = ((const long long*)t)[1]; rt_sleep_(s * 1000000000ll + n); return 0; }
int clock_nanosleep(int, int, const struct timespec* t, struct timespec* r) { return nanosleep(t, r); }
int pthread_once(int* c, void (*f)()) 
{
    for (;;) {
        int v = __atomic_load_n(c, __ATOMIC_ACQUIRE); if (v == 2) return 0;
        if (v == 1) { eng_wait_changed(c, 1); continue; }
        int e = 0; if (!__atomic_compare_exchange_n(c, &e, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) continue;
        try { f(); } catch (...) { __atomic_store_n(c, 0, __ATOMIC_RELEASE); throw; }
        __atomic_store_n(c, 2, __ATOMIC_RELEASE); return 0;
    }
}
int pthread_cond_wait(void* c, void* m) { eng_cv_wait(c, m); return 0; }
int pthread_cond_timedwait(void* c, void* m, const struct timespec*) { return eng_cv_timedwait(c, m) ? ETIMEDOUT : 0; }
int pthread_cond_clockwait(void* c, void* m, int, const struct timespec*) { return eng_cv_timedwait(c, m) ? ETIMEDOUT : 0; }
// C library bits
#define IN(a, b) ((unsigned)(c - (a)) <= (unsigned)((b) - (a)))
int isdigit(int c) { return IN('0', '9'); }
int isupper(int c) { return IN('A', 'Z'); }
int islower(int c) { return IN('a', 'z'); }
int isalpha(int c) { return IN('A', 'Z') | IN('a', 'z'); }
int isalnum(int c) { return IN('0', '9') | IN('A', 'Z') | IN('a', 'z'); }
int isxdigit(int c) { return IN('0', '9') | IN('A', 'F') | IN('a', 'f'); }
int isspace(int c) { return (c == ' ') | IN(9, 13); }
int isprint(int c) { return IN(32, 126); }
int ispunct(int c) { return IN(33, 126) & !isalnum(c); }
int iscntrl(int c) { return IN(0, 31) | (c == 127); }
int isgraph(int c) { return IN(33, 126); }
int tolower(int c) { return IN('A', 'Z') ? c + 32 : c; }
int toupper(int c) { return IN('a', 'z') ? c - 32 : c; }
static long long stol_(const char* s, char** e, int base, bool& ovf, bool uns)
{
    const char* p = s; while (isspace((unsigned char)*p)) ++p;
    bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false; ovf = false;
    for (;; ++p) { int c = (unsigned char)*p, d; if (IN('0', '9')) d = c - '0'; else if (IN('a', 'z')) d = c - 'a' + 10; else if (IN('A', 'Z')) d = c - 'A' + 10; else break; if (d >= base) break; any = true; if (v > (~0ull - d) / base) ovf = true; v = v * base + d; }
    if (e) *e = (char*)(any ? p : s);
    if (!uns) { if (neg ? v > 9223372036854775808ull : v > 9223372036854775807ull) ovf = true; if (ovf) return neg ? (long long)(-9223372036854775807ll - 1) : 9223372036854775807ll; }
    else if (ovf) return -1;
    return neg ? -(long long)v : (long long)v;
}
long strtol(const char* s, char** e, int b) noexcept { bool o; long r = stol_(s, e, b, o, false); if (o) errno = ERANGE; return r; }
long long strtoll(const char* s, char** e, int b) noexcept { bool o; long long r = stol_(s, e, b, o, false); if (o) errno = ERANGE; return r; }
unsigned long strtoul(const char* s, char** e, int b) noexcept { bool o; long r = stol_(s, e, b, o, true); if (o) errno = ERANGE; return r; }
unsigned long long strtoull(const char* s, char** e, int b) noexcept { bool o; long long r = stol_(s, e, b, o, true); if (o) errno = ERANGE; return r; }
long __isoc23_strtol(const char* s, char** e, int b) noexcept { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) noexcept { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) noexcept { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) noexcept { return strtoull(s, e, b); }
int atoi(const char* s) noexcept { return (int)strtol(s, nullptr, 10); }
ldiv_t ldiv(long a, long b) noexcept { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
lldiv_t lldiv(long long a, long long b) noexcept { lldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
div_t div(int a, int b) noexcept { div_t r; r.quot = a / b; r.rem = a % b; return r; }
char* strchr(const char* s, int c) noexcept { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) noexcept { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) noexcept { size_t k = strlen(n); for (;; ++h) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return nullptr; } }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
char* strcpy(char* d, const char* s) noexcept { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) noexcept { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
char* strerror(int) noexcept { return (char*)"error"; }
char* getenv(const char*) noexcept { return nullptr; }
size_t wcslen(const wchar_t* s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) noexcept { memcpy(d, s, n * 4); return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) noexcept { memmove(d, s, n * 4); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
int fprintf(FILE*, const char*, ...) { return 0; }
int vfprintf(FILE*, const char*, __builtin_va_list) { return 0; }
int fflush(FILE*) { return 0; }
int fputc(int c, FILE*) { return c; }
int fputs(const char*, FILE*) { return 0; }
size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
FILE* stderr; FILE* stdout; FILE* stdin;
}
extern "C" wchar_t* wmemchr(const wchar_t* s, wchar_t c, __SIZE_TYPE__ n) { for (; n; --n, ++s) if (*s == c) return (wchar_t*)s; return 0; }
extern "C" int wmemcmp(const wchar_t* a, const wchar_t* b, __SIZE_TYPE__ n) { for (; n; --n, ++a, ++b) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
