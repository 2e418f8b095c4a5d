// What libc does to memory on behalf of the library counts as an access of the library's (race build only): a switch
// is possible before it and, as it takes long, after it.
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
void race_access(const void* p, size_t n, bool store);
extern "C" {
void* __asan_memcpy(void*, const void*, size_t);
void* __asan_memmove(void*, const void*, size_t);
void* __asan_memset(void*, int, size_t);
#define PRE(d, s, n) race_access(s, n, false); race_access(d, n, true)
#define POST(d, n) race_access(d, n, true)
void* race___asan_memcpy(void* d, const void* s, size_t n) { PRE(d, s, n); __asan_memcpy(d, s, n); POST(d, n); return d; }
void* race___asan_memmove(void* d, const void* s, size_t n) { PRE(d, s, n); __asan_memmove(d, s, n); POST(d, n); return d; }
void* race___asan_memset(void* d, int c, size_t n) { race_access(d, n, true); __asan_memset(d, c, n); POST(d, n); return d; }
void* race_memcpy(void* d, const void* s, size_t n) { PRE(d, s, n); memcpy(d, s, n); POST(d, n); return d; }
void* race_memmove(void* d, const void* s, size_t n) { PRE(d, s, n); memmove(d, s, n); POST(d, n); return d; }
void* race_memset(void* d, int c, size_t n) { race_access(d, n, true); memset(d, c, n); POST(d, n); return d; }
int race_vsnprintf(char* d, size_t n, const char* f, va_list v) { race_access(d, n, true); int r = vsnprintf(d, n, f, v); POST(d, n); return r; }
int race_vsprintf(char* d, const char* f, va_list v) { race_access(d, 1, true); int r = vsprintf(d, f, v); POST(d, 1); return r; }
int race_snprintf(char* d, size_t n, const char* f, ...) { va_list v; va_start(v, f); int r = race_vsnprintf(d, n, f, v); va_end(v); return r; }
int race_sprintf(char* d, const char* f, ...) { va_list v; va_start(v, f); int r = race_vsprintf(d, f, v); va_end(v); return r; }
char* race_strcpy(char* d, const char* s) { PRE(d, s, 1); strcpy(d, s); POST(d, 1); return d; }
char* race_strncpy(char* d, const char* s, size_t n) { PRE(d, s, n); strncpy(d, s, n); POST(d, n); return d; }
char* race_strcat(char* d, const char* s) { PRE(d, s, 1); strcat(d, s); POST(d, 1); return d; }
char* race_strncat(char* d, const char* s, size_t n) { PRE(d, s, n); strncat(d, s, n); POST(d, n); return d; }
size_t race_strlen(const char* s) { race_access(s, 1, false); return strlen(s); }
int race_strcmp(const char* a, const char* b) { race_access(a, 1, false); race_access(b, 1, false); return strcmp(a, b); }
int race_strncmp(const char* a, const char* b, size_t n) { race_access(a, n, false); race_access(b, n, false); return strncmp(a, b, n); }
int race_memcmp(const void* a, const void* b, size_t n) { race_access(a, n, false); race_access(b, n, false); return memcmp(a, b, n); }
}
