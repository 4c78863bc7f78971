/* the C library's memory functions, as plain loops, so that what they do with
   secrets is in the trace too */
#include <stddef.h>
typedef unsigned char u8;
void *memcpy(void *d, const void *s, size_t n) { u8 *a = d; const u8 *b = s; for (size_t i = 0; i < n; i++) { a[i] = b[i]; __asm__ volatile("" ::: "memory"); } return d; }
void *memmove(void *d, const void *s, size_t n) { u8 *a = d; const u8 *b = s; if (a < b) for (size_t i = 0; i < n; i++) { a[i] = b[i]; __asm__ volatile("" ::: "memory"); } else while (n--) { a[n] = b[n]; __asm__ volatile("" ::: "memory"); } return d; }
void *memset(void *d, int c, size_t n) { u8 *a = d; for (size_t i = 0; i < n; i++) { a[i] = c; __asm__ volatile("" ::: "memory"); } return d; }
int memcmp(const void *d, const void *s, size_t n) { const u8 *a = d, *b = s; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] - b[i]; return 0; }
int bcmp(const void *d, const void *s, size_t n) { return memcmp(d, s, n); }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (u8)*a - (u8)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (u8)*a - (u8)*b : 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
