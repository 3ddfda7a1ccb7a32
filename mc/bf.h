// Helpers shared by the harnesses; independent of the library's implementation.
#pragma once
#include "mc.h"
#include <bigfile.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <dirent.h>
#include <sys/stat.h>
#include <map>
#include <set>
#include <algorithm>
#include <memory>
typedef std::string str;
typedef std::vector<size_t> sizes_t;

static inline bool exists(const str &p) { struct stat st; return stat(p.c_str(), &st) == 0; }
static inline bool slurp(const str &p, str &out) {
    int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false;
    out.clear(); char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) out.append(b, n); close(fd); return true;
}
static inline str slurp(const str &p) { str s; MC_CHECK(slurp(p, s), "file %s is missing", p.c_str()); return s; }
static inline void put(const str &p, const str &d) {
    int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) { perror(p.c_str()); abort(); }
    if (write(fd, d.data(), d.size()) != (ssize_t)d.size()) abort();
    close(fd);
}
static inline void mkdirs(const str &p) { for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); }
static inline void tree_r(const str &d, std::map<str, str> &out) {
    DIR *h = opendir(d.c_str()); if (!h) return; struct dirent *e;
    while ((e = readdir(h))) { str n = e->d_name; if (n == "." || n == "..") continue; str p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { out[p + "/"] = ""; tree_r(p, out); } else { str s; slurp(p, s); out[p] = s; } }
    closedir(h);
}
static inline std::map<str, str> tree(const str &d) { std::map<str, str> m; tree_r(d, m); return m; }
static inline uint64_t tree_hash(const std::map<str, str> &t, uint64_t h = 1) { for (auto &x : t) { h = mc_hash_str(x.first, h); h = mc_hash_str(x.second, h); } return h; }
static inline str hex(const str &s) { str r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02X", c); r += b; } return r; }
static inline str show(const str &s) { str r; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) r += c; else { snprintf(b, 8, "\\x%02x", c); r += b; } } return r; }
static inline unsigned bytesum(const str &s) { unsigned u = 0; for (unsigned char c : s) u += c; return u; }
static inline unsigned sysv(unsigned s) { unsigned r = (s & 0xffff) + (s >> 16); return (r & 0xffff) + (r >> 16); }
static inline str fname(int i) { char b[32]; snprintf(b, sizeof b, "%06X", i); return b; }
static inline str fmt_sizes(const sizes_t &v) { str s = "["; for (auto x : v) s += std::to_string(x) + " "; return s + "]"; }
static inline str sprintfs(const char *f, ...) __attribute__((format(printf, 1, 2)));
static inline str sprintfs(const char *f, ...) { char b[4096]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return b; }
static inline const char *errmsg() { char *e = big_file_get_error_message(); return e ? e : "(no message)"; }
#define OK(call) do { int rt__ = (call); if (rt__ != 0) mc_fail("%s failed (%d): %s", #call, rt__, errmsg()); } while (0)

// header parsed the way the documentation describes it
struct Header { str dtype; int nmemb = 0, nfile = 0; sizes_t fsize; std::vector<unsigned> sum, sysv; };
static inline bool parse_header(const str &t, Header &h) {
    size_t p = 0;
    auto line = [&](str &l) { size_t e = t.find('\n', p); if (e == str::npos) return false; l = t.substr(p, e - p); p = e + 1; return true; };
    str l; char b[64]; int n;
    if (!line(l) || sscanf(l.c_str(), "DTYPE: %63s%n", b, &n) != 1 || (size_t)n != l.size()) return false;
    h.dtype = b;
    if (!line(l) || sscanf(l.c_str(), "NMEMB: %d%n", &h.nmemb, &n) != 1 || (size_t)n != l.size()) return false;
    if (!line(l) || sscanf(l.c_str(), "NFILE: %d%n", &h.nfile, &n) != 1 || (size_t)n != l.size()) return false;
    for (int i = 0; i < h.nfile; i++) {
        size_t sz; unsigned a, c;
        if (!line(l)) return false;
        str pre = fname(i) + ": ";
        if (l.compare(0, pre.size(), pre) || sscanf(l.c_str() + pre.size(), "%zu : %u : %u%n", &sz, &a, &c, &n) != 3 || pre.size() + n != l.size()) return false;
        h.fsize.push_back(sz); h.sum.push_back(a); h.sysv.push_back(c);
    }
    return p == t.size();
}
static inline str make_header(const str &dtype, int nmemb, const sizes_t &fs, const std::vector<unsigned> &sums) {
    str s = "DTYPE: " + dtype + "\nNMEMB: " + std::to_string(nmemb) + "\nNFILE: " + std::to_string(fs.size()) + "\n";
    for (size_t i = 0; i < fs.size(); i++) s += fname(i) + ": " + std::to_string(fs[i]) + " : " + std::to_string(sums[i]) + " : " + std::to_string(sysv(sums[i])) + "\n";
    return s;
}
static inline int width(const str &dt) { return atoi(dt.c_str() + (strchr("<>=|", dt[0]) ? 2 : 1)); }
// pseudo random, never zero byte
static inline unsigned char pat(unsigned stamp, size_t row, unsigned k) { uint64_t x = (stamp * 2654435761u + row * 40503u + k * 97u + 12345u); x ^= x >> 13; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 31; unsigned char c = x % 251 + 1; return c; }
static inline str rowpat(unsigned stamp, size_t row, size_t rowsize) { str s(rowsize, 0); for (size_t k = 0; k < rowsize; k++) s[k] = pat(stamp, row, k); return s; }
// exact-size heap copy so that ASan sees any overrun
struct Buf { char *p; size_t n; Buf(size_t n_, int fill = 0xEE) : p((char *)malloc(n_)), n(n_) { memset(p, fill, n_); } Buf(const str &s) : p((char *)malloc(s.size())), n(s.size()) { memcpy(p, s.data(), n); } ~Buf() { free(p); } Buf(const Buf &) = delete; str s() const { return str(p, n); } };

// write/read rows with the block's own type (bit exact)
static inline int wr(BigBlock *b, BigBlockPtr *ptr, const str &bytes, const char *dtype, int nmemb) {
    int rs = width(dtype) * (nmemb ? nmemb : 1);
    Buf buf(bytes); BigArray a; size_t dims[2] = {bytes.size() / rs, (size_t)(nmemb ? nmemb : 1)};
    big_array_init(&a, buf.p, dtype, 2, dims, NULL);
    int rt = big_block_write(b, ptr, &a); mc_transitions();
    MC_CHECK(buf.s() == bytes, "write changed the caller's array");
    return rt;
}
static inline int rd(BigBlock *b, BigBlockPtr *ptr, size_t n, str &out, const char *dtype, int nmemb) {
    int rs = width(dtype) * (nmemb ? nmemb : 1);
    Buf buf(n * rs); BigArray a; size_t dims[2] = {n, (size_t)(nmemb ? nmemb : 1)};
    big_array_init(&a, buf.p, dtype, 2, dims, NULL);
    int rt = big_block_read(b, ptr, &a); mc_transitions();
    out = buf.s(); return rt;
}
static inline int wr_at(BigBlock *b, ptrdiff_t off, const str &bytes, const char *dtype, int nmemb) { BigBlockPtr p; memset(&p, 0, sizeof p); int rt = big_block_seek(b, &p, off); if (rt) return rt; return wr(b, &p, bytes, dtype, nmemb); }
static inline int rd_at(BigBlock *b, ptrdiff_t off, size_t n, str &out, const char *dtype, int nmemb) { BigBlockPtr p; memset(&p, 0, sizeof p); int rt = big_block_seek(b, &p, off); if (rt) return rt; return rd(b, &p, n, out, dtype, nmemb); }
static inline int rd_simple(BigBlock *b, ptrdiff_t off, ptrdiff_t n, str &out, size_t &rows, const char *dtype) {
    BigArray a; memset(&a, 0, sizeof a); int rt = big_block_read_simple(b, off, n, &a, dtype); mc_transitions();
    if (rt == 0) { rows = a.dims[0]; out.assign((char *)a.data, a.size * width(a.dtype)); free(a.data); }
    return rt;
}
// compositions of n into k non negative parts
static inline void parts(size_t n, int k, std::vector<sizes_t> &out, sizes_t cur = {}) {
    if (k == 1) { cur.push_back(n); out.push_back(cur); return; }
    for (size_t i = 0; i <= n; i++) { sizes_t c = cur; c.push_back(i); parts(n - i, k - 1, out, c); }
}
static inline size_t total(const sizes_t &v) { size_t s = 0; for (auto x : v) s += x; return s; }
