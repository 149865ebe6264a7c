/* C23 oracle: enumerates library calls and what the C library of the system does with them.
   usage: oracle JOB BOUND SHARD SHARDS  -> binary records on standard output (see library.mjs) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
static long shard, shards, seq; static unsigned long count;
static int mine(void) { return seq++ % shards == shard; }
static void put(const void *p, size_t n) { fwrite(p, 1, n, stdout); }
static void u8(int v) { unsigned char c = v; put(&c, 1); }
static void u16(int v) { uint16_t c = v; put(&c, 2); }
static void i32(int32_t v) { put(&v, 4); }
static void strto(const char *s, int base) {
  if (!mine()) return;
  char *e, *f; int64_t a = strtol(s, &e, base); uint64_t b = strtoul(s, &f, base);
  u8(strlen(s)); put(s, strlen(s)); u8(base); put(&a, 8); u8(e - s); put(&b, 8); u8(f - s); count++;
}
static const int bases[] = {0, 2, 8, 10, 16, 36, 7};
static void words(char *buf, int at, int left, const char *al, int na, void (*f)(char *)) {
  buf[at] = 0; f(buf);
  if (left) for (int i = 0; i < na; i++) { buf[at] = al[i]; words(buf, at + 1, left - 1, al, na, f); }
}
static void strtoword(char *s) { for (unsigned i = 0; i < 6; i++) strto(s, bases[i]); }
static void digits(char *out, unsigned __int128 v, int base, int up) {
  char t[140]; int n = 0; do { int d = v % base; t[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; } while (v);
  while (n) *out++ = t[--n]; *out = 0;
}
static void limits(int th) {
  unsigned __int128 one = 1, m[] = {0, (one << 31) - 1, one << 31, one << 32, (one << 63) - 1, one << 63, (one << 64) - 1, one << 64, (one << 65), one << 100, 9007199254740992ULL};
  const char *sg[] = {"", "+", "-", " ", "\t-", "\n\v\f\r +", "--", "+-", "- "}, *px[] = {"", "0", "0x", "0X", "00", "x"}, *tr[] = {"", "z", " ", "9", "g", "_", "\x80", "-", "0x1"};
  for (int b = 0; b <= 36; b++) { if (b == 1) continue;
    for (unsigned i = 0; i < sizeof m / sizeof *m; i++) for (int d = -2; d <= 2; d++) { if (m[i] == 0 && d < 0) continue; if (!th && b % 4 > 0 && b != 10 && b != 2 && b != 3 && b != 35 && b != 7) continue;
      for (unsigned s = 0; s < 9; s++) for (unsigned p = 0; p < 6; p++) for (unsigned t = 0; t < 9; t++) if (th || t < 3 || s < 2) for (int up = 0; up < 2; up++) {
        if (up && b < 11) continue;
        char buf[256], dg[140]; digits(dg, m[i] + d, b ? b : (p >= 2 && p <= 3) ? 16 : p == 1 || p == 4 ? 8 : 10, up);
        snprintf(buf, sizeof buf, "%s%s%s%s", sg[s], px[p], dg, tr[t]); strto(buf, b); } } }
}
static void bytes(void) {
  for (int c = 1; c < 256; c++) for (int b = 0; b <= 36; b++) { if (b == 1) continue;
    char x[8]; const char *f[] = {"%c", "1%c", "%c1", "0x%c", "0x1%c", "+%c", "0%c", " %c1", "-1%c0"};
    for (unsigned i = 0; i < 9; i++) { snprintf(x, 8, f[i], c); strto(x, b); } }
}
/* ---- strlen, strstr */
static char hay[16];
static void needle(char *n) { if (!mine()) return; char *p = strstr(hay, n); u8(strlen(hay)); put(hay, strlen(hay)); u8(strlen(n)); put(n, strlen(n)); i32(p ? p - hay : -1); count++; }
static int nn; static const char *al3 = "ab\x80";
static void haystack(char *h) { strcpy(hay, h); char b[16]; words(b, 0, nn, al3, 3, needle); }
/* ---- printf */
static const char *pool[] = {"", "abc", "%d%s", "\xc3\xa9\x80\xff\x01", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789", "\n"};
#define NPOOL 6
#define POOLAT 4096
static int poolat(int i) { int a = POOLAT; while (i--) a += strlen(pool[i]) + 1; return a; }
static const char *dir[] = {"%d", "%i", "%u", "%hd", "%hi", "%hu", "%ld", "%li", "%lu", "%f", "%c", "%s", "%%", "a", "\n", "\xff", " 5d"};
#define NDIR 17
static const int64_t iv[] = {-1, INT32_MIN, 42, 0, INT32_MAX, 1, -70000}, hv[] = {-1, -32768, 65535, 0, 32767, 70000, 1}, cv[] = {'A', 255, -1, 0, '\n', 300, '%', -128};
static const int64_t lv[] = {-1, INT64_MIN, 5000000000, 0, INT64_MAX, 4294967295, -4294967296};
static double fv[] = {-2.25, 0.0000005, 1e300, 0, -0.0, 1.5, 0.1, 123456.789, 9.9999995, 9007199254740993.0, 1e-320, INFINITY, -INFINITY, NAN};
static int nval(int d) { return d < 3 ? 7 : d < 6 ? 7 : d < 9 ? 7 : d == 9 ? 14 : d == 10 ? 8 : d == 11 ? NPOOL : 1; }
static char fmt[256], arg[256], res[8192]; static int fl, an, rn;
static void add(int d, int v) {
  strcpy(fmt + fl, dir[d]); fl += strlen(dir[d]);
  int64_t x; int n; int s = sizeof res - rn;
  if (d < 3 || (d >= 3 && d < 6)) { x = d < 3 ? iv[v] : hv[v]; int y = x; memcpy(arg + an, &y, 4); an += 4; n = snprintf(res + rn, s, dir[d], y); }
  else if (d < 9) { x = lv[v]; memcpy(arg + an, &x, 8); an += 8; n = snprintf(res + rn, s, dir[d], x); }
  else if (d == 9) { memcpy(arg + an, &fv[v], 8); an += 8; n = snprintf(res + rn, s, "%f", fv[v]); }
  else if (d == 10) { int y = cv[v]; memcpy(arg + an, &y, 4); an += 4; n = snprintf(res + rn, s, "%c", y); }
  else if (d == 11) { int y = poolat(v); memcpy(arg + an, &y, 4); an += 4; n = snprintf(res + rn, s, "%s", pool[v]); }
  else if (d == 12) n = snprintf(res + rn, s, "%%");
  else { strcpy(res + rn, dir[d]); n = strlen(dir[d]); }
  rn += n;
}
static void emit(void) { u16(fl); put(fmt, fl); u16(an); put(arg, an); u16(rn); put(res, rn); count++; }
static void prints(int left, int cap) {
  if (mine()) emit();
  if (!left) return;
  int f0 = fl, a0 = an, r0 = rn;
  for (int d = 0; d < NDIR; d++) for (int v = 0; v < nval(d) && v < cap; v++) { add(d, v); prints(left - 1, cap); fl = f0; an = a0; rn = r0; }
}
static void one(int d, const void *p, int n) { if (!mine()) return; fl = strlen(dir[d]); strcpy(fmt, dir[d]); an = n; memcpy(arg, p, n); double x; int y; memcpy(&x, p, n); memcpy(&y, p, 4); rn = d == 9 ? snprintf(res, sizeof res, "%f", x) : snprintf(res, sizeof res, dir[d], y); emit(); }
static void values(int th) {
  for (int h = -33000; h < 66000; h += 1) for (int d = 3; d < 6; d++) { if (!th && (h % 7) && h > -32700 && h < 32700) continue; one(d, &h, 4); }
  for (int c = -130; c < 600; c++) one(10, &c, 4);
  for (int e = 0; e < 2047; e++) for (int m = 0; m < 8; m++) for (int s = 0; s < 2; s++) {
    if (!th && e > 1300 && e % 8) continue;
    uint64_t mm[] = {0, 1, (1ULL << 52) - 1, 1ULL << 51, 0x999999999999aULL, 0x5555555555555ULL, (1ULL << 51) - 1, 0xfffffULL};
    uint64_t b = (uint64_t)s << 63 | (uint64_t)e << 52 | mm[m]; one(9, &b, 8); }
  for (int k = -6000; k < 6000; k++) { double x = k / 128.0; one(9, &x, 8); x = k / 1e6; one(9, &x, 8); double y = nextafter(x, 1e9); one(9, &y, 8); x = (k + 0.5) / 1e6; one(9, &x, 8); y = nextafter(x, -1e9); one(9, &y, 8); }
}
int main(int c, char **v) {
  (void)c; const char *j = v[1]; int n = atoi(v[2]); shard = atoi(v[3]); shards = atoi(v[4]); char b[64];
  if (!strcmp(j, "strto")) words(b, 0, n, " +-019xXaAzg\n\x80", 14, strtoword);
  else if (!strcmp(j, "limits")) limits(n);
  else if (!strcmp(j, "bytes")) bytes();
  else if (!strcmp(j, "strstr")) { nn = n - 2; words(b, 0, n, al3, 3, haystack); }
  else if (!strcmp(j, "printf")) { u16(NPOOL); for (int i = 0; i < NPOOL; i++) { u16(strlen(pool[i])); put(pool[i], strlen(pool[i])); } prints(n / 100, n % 100); }
  else if (!strcmp(j, "values")) { u16(0); values(n); }
  fprintf(stderr, "%lu\n", count);
  return fflush(stdout) != 0;
}
