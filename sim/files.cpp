#include "files.h"
#include <cerrno>
#include <cstring>
#include <cstdarg>
namespace hx {
namespace fs {
enum { MAXH = 64 };
// one handle per fopen; handles are never reused inside a run, so that use after close is always recognised
struct Handle { const File *f; size_t pos; bool open, eof, err; int unget; uint64_t at; };
static Handle g_h[MAXH];
static int g_n;
static std::map<std::string, File> &files() { static std::map<std::string, File> m; return m; }
static int g_block = 4096;
static std::vector<Fault> g_f;
static uint64_t g_reads;
static bool g_dead;      // the disk no longer answers
static Seen g_seen;
static int64_t g_eof = -1;
static bool g_late;      // a known defect: this load uses its file after closing it

void add(const std::string &n, const std::vector<unsigned char> &d) { NotSut ns; files()[n] = File{n, d}; }
void arm(const std::vector<Fault> &f, int block) {
    g_f = f; g_block = block < 1 ? 1 : block; g_reads = 0; g_dead = false; g_late = false; g_eof = -1;
    g_seen = Seen(); g_seen.eof_at = -1;
    for (auto &x : f) if (x.kind == FK_READ_EOF) g_eof = x.k;
}
void disarm() { g_f.clear(); g_dead = false; g_late = false; g_eof = -1; }
int open_now() { int n = 0; for (int i = 0; i < g_n; i++) n += g_h[i].open; return n; }
void abandon() { for (int i = 0; i < g_n; i++) g_h[i].open = false; }
void tolerate_late(bool on) { g_late = on; }
Seen seen() { Seen s = g_seen; s.reads = g_reads; s.open_now = 0; for (int i = 0; i < g_n; i++) if (g_h[i].open) s.open_now++; return s; }
void finished(const char *where) {
    for (int i = 0; i < g_n; i++) if (g_h[i].open) violation("file:not-closed", "%s leaves its file open", where);
}
static Handle *get(FILE *p, const char *what) {
    uintptr_t a = (uintptr_t)p;
    if (a < (uintptr_t)g_h || a >= (uintptr_t)(g_h + MAXH)) return nullptr;
    Handle *h = (Handle *)p;
    if (!h->open && !(g_late && known("jpeg-closed-before-finish"))) violation("file:use-after-close", "%s is called on a file that has been closed", what);
    return h;
}
static size_t size_of(Handle *h) { size_t n = h->f->data.size(); if (g_eof >= 0 && (uint64_t)g_eof < n) n = (size_t)g_eof; return n; }
// one read of the operating system: returns bytes, 0 at the end, -1 on error
static long os_read(Handle *h, unsigned char *out, size_t n) {
    uint64_t k = g_reads++;
    if (!h->open) { errno = EBADF; ev(0xC1); return -1; }
    if (g_dead) { errno = EIO; return -1; }
    for (auto &x : g_f) if (x.kind == FK_READ_ERR && (uint64_t)x.k == k) { g_dead = true; g_seen.damaged = g_seen.damaged_reads = true; g_sh->fired[FK_READ_ERR]++; errno = EIO; ev(0xE10); return -1; }
    size_t end = size_of(h), have = h->pos < end ? end - h->pos : 0;
    if (n > (size_t)g_block) n = (size_t)g_block;
    if (n > have) n = have;
    for (auto &x : g_f) if (x.kind == FK_READ_SHORT && (uint64_t)x.k == k && n > 1) { n = 1 + n / 3; g_sh->fired[FK_READ_SHORT]++; ev(0x5407); }
    if (n < have || end == h->f->data.size()) {} else if (n == 0 && !g_seen.truncated) { g_seen.truncated = true; g_seen.damaged = true; g_sh->fired[FK_READ_EOF]++; ev(0xE0F); }
    memcpy(out, h->f->data.data() + h->pos, n);
    for (auto &x : g_f) if (x.kind == FK_CORRUPT) {
        uint64_t b = (uint64_t)x.k / 8;
        if (b >= h->pos && b < h->pos + n) { out[b - h->pos] ^= (unsigned char)(1u << (x.k % 8)); g_seen.damaged = true; g_sh->fired[FK_CORRUPT]++; ev(0xC0); }
    }
    h->pos += n;
    return (long)n;
}
static size_t read_all(Handle *h, unsigned char *out, size_t n) {
    size_t done = 0;
    if (n && h->unget >= 0) { out[done++] = (unsigned char)h->unget; h->unget = -1; }
    while (done < n) {
        if (h->eof) break;
        long r = os_read(h, out + done, n - done);
        if (r < 0) { h->err = true; break; }
        if (r == 0) { h->eof = true; break; }
        done += (size_t)r;
    }
    return done;
}
}
}
using namespace hx;
using namespace hx::fs;
extern "C" {
#define REAL(ret, name, args) ret __real_##name args
REAL(FILE *, fopen, (const char *, const char *)); REAL(int, fclose, (FILE *)); REAL(size_t, fread, (void *, size_t, size_t, FILE *)); REAL(int, ferror, (FILE *)); REAL(int, feof, (FILE *));
REAL(void, clearerr, (FILE *)); REAL(int, fgetc, (FILE *)); REAL(int, ungetc, (int, FILE *)); REAL(char *, fgets, (char *, int, FILE *)); REAL(int, fseeko, (FILE *, off_t, int)); REAL(off_t, ftello, (FILE *));
REAL(int, setvbuf, (FILE *, char *, int, size_t)); REAL(int, fflush, (FILE *)); REAL(size_t, fwrite, (const void *, size_t, size_t, FILE *));

FILE *__wrap_fopen(const char *name, const char *mode) {
    if (tl_sut <= 0) return __real_fopen(name, mode);
    NotSut ns;
    for (auto &x : g_f) if (x.kind == FK_OPEN_FAIL) { g_sh->fired[FK_OPEN_FAIL]++; g_seen.open_failed = true; errno = x.k % 2 ? EMFILE : EACCES; ev(0x0F); return nullptr; }
    auto it = files().find(name);
    if (it == files().end() || mode[0] != 'r') { errno = ENOENT; return nullptr; }
    if (g_n >= MAXH) harness_error("too many files");
    Handle *h = &g_h[g_n++];
    *h = Handle{&it->second, 0, true, false, false, -1, 0};
    g_seen.opened++;
    ev(0x09E4);
    return (FILE *)h;
}
FILE *__wrap_fopen64(const char *n, const char *m) { return __wrap_fopen(n, m); }
int __wrap_fclose(FILE *f) {
    Handle *h = get(f, "fclose");
    if (!h) return __real_fclose(f);
    if (!h->open) { errno = EBADF; ev(0xC2); return EOF; }
    h->open = false; g_seen.closed++;
    ev(0xC105E);
    return 0;
}
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) {
    Handle *h = get(f, "fread");
    if (!h) return __real_fread(p, s, n, f);
    if (!s || !n) return 0;
    NotSut ns;
    size_t r = read_all(h, (unsigned char *)p, s * n);
    ev(r);
    return r / s;
}
size_t __wrap_fread_unlocked(void *p, size_t s, size_t n, FILE *f) { return __wrap_fread(p, s, n, f); }
int __wrap_ferror(FILE *f) { Handle *h = get(f, "ferror"); return h ? h->err : __real_ferror(f); }
int __wrap_feof(FILE *f) { Handle *h = get(f, "feof"); return h ? h->eof : __real_feof(f); }
void __wrap_clearerr(FILE *f) { Handle *h = get(f, "clearerr"); if (!h) { __real_clearerr(f); return; } h->eof = h->err = false; }
int __wrap_fgetc(FILE *f) { Handle *h = get(f, "fgetc"); if (!h) return __real_fgetc(f); unsigned char c; return read_all(h, &c, 1) == 1 ? c : EOF; }
int __wrap_getc(FILE *f) { return __wrap_fgetc(f); }
int __wrap_ungetc(int c, FILE *f) { Handle *h = get(f, "ungetc"); if (!h) return __real_ungetc(c, f); if (c == EOF) return EOF; h->unget = c & 255; h->eof = false; return c; }
char *__wrap_fgets(char *s, int n, FILE *f) {
    Handle *h = get(f, "fgets");
    if (!h) return __real_fgets(s, n, f);
    int i = 0; unsigned char c;
    while (i < n - 1 && read_all(h, &c, 1) == 1) { s[i++] = (char)c; if (c == '\n') break; }
    if (!i) return nullptr;
    s[i] = 0; return s;
}
int __wrap_fseeko(FILE *f, off_t o, int wh) {
    Handle *h = get(f, "fseek");
    if (!h) return __real_fseeko(f, o, wh);
    long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)h->pos - (h->unget >= 0) : (long)size_of(h);
    if (base + o < 0) { errno = EINVAL; return -1; }
    h->pos = (size_t)(base + o); h->eof = false; h->unget = -1;
    return 0;
}
int __wrap_fseek(FILE *f, long o, int wh) { return __wrap_fseeko(f, o, wh); }
off_t __wrap_ftello(FILE *f) { Handle *h = get(f, "ftell"); return h ? (off_t)h->pos - (h->unget >= 0) : __real_ftello(f); }
long __wrap_ftell(FILE *f) { return __wrap_ftello(f); }
void __wrap_rewind(FILE *f) { __wrap_fseeko(f, 0, SEEK_SET); __wrap_clearerr(f); }
int __wrap_setvbuf(FILE *f, char *b, int m, size_t n) { Handle *h = get(f, "setvbuf"); return h ? 0 : __real_setvbuf(f, b, m, n); }
void __wrap_setbuf(FILE *f, char *b) { __wrap_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
int __wrap_fflush(FILE *f) { if (!f) return __real_fflush(f); Handle *h = get(f, "fflush"); return h ? 0 : __real_fflush(f); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { Handle *h = get(f, "fwrite"); return h ? 0 : __real_fwrite(p, s, n, f); }
}
