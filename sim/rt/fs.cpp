// Simulated file system under /sim/ . Kernel page cache semantics for a killed process:
// what a completed write() handed over survives, user-space buffers do not.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <set>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>

extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__real_fopen64(const char *, const char *);
int __real_fclose(FILE *);
int __real_fileno(FILE *);
int __real_fflush(FILE *);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
off64_t __real_lseek64(int, off64_t, int);
off_t __real_lseek(int, off_t, int);
int __real_fstat64(int, struct stat64 *);
int __real_fstat(int, struct stat *);
int __real_stat(const char *, struct stat *);
int __real_stat64(const char *, struct stat64 *);
int __real_lstat(const char *, struct stat *);
int __real_access(const char *, int);
int __real_poll(struct pollfd *, nfds_t, int);
int __real_ioctl(int, unsigned long, ...);
int __real_close(int);
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);
int __real_unlink(const char *);
int __real_remove(const char *);
int __real_rename(const char *, const char *);
int __real_mkdir(const char *, mode_t);
int __real_rmdir(const char *);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_ftruncate64(int, off64_t);
int __real_ftruncate(int, off_t);
int __real_truncate(const char *, off_t);
}

namespace sim { namespace fs {
std::function<void(const char *, const std::string &)> g_onIo;
bool g_faultsOn = true;
namespace {
struct Inode { std::string data; uint64_t id; };
struct Open { std::shared_ptr<Inode> ino; std::string path; long long pos = 0; bool rd = false, wr = false, app = false; FILE *file = nullptr; bool harness = false; int inc = 0; };
std::map<std::string, std::shared_ptr<Inode>> *files;
std::set<std::string> *dirs;
std::map<int, Open> *opens;
std::map<FILE *, int> *fileToFd;
std::map<std::string, long long> *counts;
const int Base = 1 << 20;
int nextFd = Base; uint64_t nextIno = 1; int incarnation = 0; int maxOpen = 0;

void init() {
  if (files) return;
  files = new std::map<std::string, std::shared_ptr<Inode>>; dirs = new std::set<std::string>; opens = new std::map<int, Open>;
  fileToFd = new std::map<FILE *, int>; counts = new std::map<std::string, long long>;
  dirs->insert("/sim");
}
std::string norm(const std::string &p) {
  std::string r; for (char c : p) { if (c == '\\') c = '/'; if (c == '/' && !r.empty() && r.back() == '/') continue; r += c; }
  while (r.size() > 1 && r.back() == '/') r.pop_back();
  // resolve /./ and /../
  std::vector<std::string> parts; std::string cur;
  for (size_t i = 1; i <= r.size(); ++i) { if (i == r.size() || r[i] == '/') { if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (cur != "." && !cur.empty()) parts.push_back(cur); cur.clear(); } else cur += r[i]; }
  std::string o; for (auto &x : parts) o += "/" + x; return o.empty() ? "/" : o;
}
bool isSim(const char *p) { return p && g_running && strncmp(p, "/sim", 4) == 0 && (p[4] == 0 || p[4] == '/' || p[4] == '\\'); }
std::string parent(const std::string &p) { auto i = p.rfind('/'); return i == 0 || i == std::string::npos ? "/" : p.substr(0, i); }

// One I/O event: a scheduling point, a crash point and a fault point.
// Returns 0, or an errno to fail with. `partial` (writes/reads): bytes to let through.
int ioEvent(const char *cls, const std::string &path, size_t n, long long *partial, long long at = 0) { alloc::Pause pause;
  if (g_quiet) return 0;
  schedPoint(cls, nullptr);
  Quiet q;
  long long nth = ++(*counts)[cls];
  long long any = ++(*counts)["any"];
  if (g_onIo) { auto f = g_onIo; f(cls, path); }
  trace("io %s %s %zu", cls, path.c_str(), n);
  if (!g_faultsOn) return 0;
  int err = 0;
  // the kernel moves whole pages: a write cut short by a kill or a full disk ends at a page boundary
  auto pageCut = [&](long long want) { long long end = (at + want) / 4096 * 4096; return std::max(0ll, std::min<long long>(n, end - at)); };
  long long all = nth; size_t index = 0;
  for (auto &f : g_plan->faults) {
    // a kind may be narrowed to the files whose path contains a word: read_err:word
    size_t colon = f.kind.find(':'); std::string kind = f.kind.substr(0, colon); ++index; nth = all;
    if (colon != std::string::npos) {
      if ((kind != "crash" && kind.compare(0, strlen(cls) + 1, std::string(cls) + "_") != 0) || path.find(f.kind.substr(colon + 1)) == std::string::npos) continue;
      nth = ++(*counts)["fault#" + std::to_string(index)];
    }
    if (kind == "crash" && (colon == std::string::npos ? any : nth) == f.at) {
      if (strcmp(cls, "write") == 0 && f.arg > 0 && partial) { *partial = f.arg >= 1000 ? (long long)n : pageCut((long long)n * f.arg / 1000); return -2; }
      return -1;
    }
    if (kind == std::string(cls) + "_err" && nth >= f.at && nth < f.at + std::max(1ll, f.len)) {
      count((std::string("fault.") + kind + (f.arg == ENOSPC ? ".ENOSPC" : f.arg == EMFILE ? ".EMFILE" : f.arg == EACCES ? ".EACCES" : "")).c_str());
      trace("FAULT %s #%lld", f.kind.c_str(), nth);
      err = f.arg > 0 ? (int)f.arg : EIO;
      if (f.arg == ENOSPC && partial) { long long c = pageCut((long long)n - 1); if (c > 0) *partial = c; }
    }
    if (kind == std::string(cls) + "_partial" && nth >= f.at && nth < f.at + std::max(1ll, f.len) && partial && n > 1 && !err) {
      long long k = std::max<long long>(1, (long long)n * std::max(1ll, f.arg % 1000) / 1000);
      if (strcmp(cls, "write") == 0 && f.arg < 1000) k = pageCut(k); // >= 1000: cut anywhere (run without kills)
      if (k > 0) { *partial = k; count((std::string("fault.") + kind).c_str()); }
    }
    if (kind == std::string(cls) + "_eintr" && nth == f.at && !err) { count((std::string("fault.") + kind).c_str()); err = EINTR; }
  }
  return err;
}

int openSim(const std::string &path0, bool rd, bool wr, bool app, bool creat, bool trunc, bool excl) { alloc::Pause pause;
  init();
  std::string path = norm(path0);
  int e = ioEvent("open", path + (wr ? (trunc ? " wt" : " w") : " r"), 0, nullptr);
  if (e == -1) crashProcess("before open");
  if (e > 0) { errno = e; return -1; }
  Quiet q;
  if (dirs->count(path)) { if (wr) { errno = EISDIR; return -1; } errno = EISDIR; return -1; }
  auto i = files->find(path);
  if (i == files->end()) {
    if (!creat) { errno = ENOENT; return -1; }
    if (!dirs->count(parent(path))) { errno = ENOENT; return -1; }
    auto n = std::make_shared<Inode>(); n->id = nextIno++;
    i = files->emplace(path, n).first;
  } else if (excl) { errno = EEXIST; return -1; }
  if (trunc && wr) i->second->data.clear();
  int fd = nextFd++;
  Open o; o.ino = i->second; o.path = path; o.rd = rd; o.wr = wr; o.app = app; o.harness = q.prev; o.inc = incarnation;
  (*opens)[fd] = o;
  int live = 0; for (auto &x : *opens) if (!x.second.harness) ++live;
  if (live > maxOpen) maxOpen = live;
  return fd;
}
Open *get(int fd) { if (fd < Base || !opens) return nullptr; auto i = opens->find(fd); return i == opens->end() ? nullptr : &i->second; }

ssize_t doRead(int fd, void *b, size_t n) {
  Open *o = get(fd); if (!o) { errno = EBADF; return -1; }
  long long part = -1;
  { std::string p = o->path; int e = ioEvent("read", p, n, &part); if (e == -1) crashProcess("read"); if (e > 0) { errno = e; return -1; } }
  o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (!o->rd) { errno = EBADF; return -1; }
  raceAccess(o, 1, true, __builtin_return_address(0));
  if (part >= 0 && (size_t)part < n) n = part;
  auto &d = o->ino->data;
  if (o->pos >= (long long)d.size()) return 0;
  size_t k = std::min<size_t>(n, d.size() - o->pos);
  memcpy(b, d.data() + o->pos, k); o->pos += k;
  return k;
}
ssize_t doWrite(int fd, const char *b, size_t n) {
  Open *o = get(fd); if (!o) { errno = EBADF; return -1; }
  long long part = -1; int e;
  { std::string p = o->path; e = ioEvent("write", p, n, &part, o->app ? (long long)o->ino->data.size() : o->pos); }
  if (e == -1) crashProcess("before write");
  o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (e > 0 && part < 0) { errno = e; return -1; }
  if (!o->wr) { errno = EBADF; return -1; }
  raceAccess(o, 1, true, __builtin_return_address(0));
  size_t k = part >= 0 ? std::min<size_t>(n, part) : n;
  { Quiet q;
    auto &d = o->ino->data;
    if (o->app) o->pos = d.size();
    if ((long long)d.size() < o->pos) d.resize(o->pos, 0);
    d.replace(o->pos, std::min<size_t>(k, d.size() - o->pos), b, k);
    o->pos += k; }
  if (e == -2) crashProcess("torn write");
  return k;
}
long long doSeek(int fd, long long off, int wh) { alloc::Pause pause;
  Open *o = get(fd); if (!o) { errno = EBADF; return -1; }
  raceAccess(o, 1, true, __builtin_return_address(0));
  long long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (long long)o->ino->data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  o->pos = base + off;
  return o->pos;
}
int doClose(int fd) { alloc::Pause pause;
  Open *o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->inc == incarnation) {
    std::string p = o->path; int e = ioEvent("close", p, 0, nullptr);
    if (e == -1) crashProcess("close");
  }
  Quiet q; opens->erase(fd);
  return 0;
}
int doUnlink(const char *path0) { alloc::Pause pause;
  init(); std::string path = norm(path0);
  int e = ioEvent("unlink", path, 0, nullptr);
  if (e == -1) crashProcess("before unlink");
  if (e > 0) { errno = e; return -1; }
  Quiet q;
  if (!files->erase(path)) { errno = ENOENT; return -1; }
  return 0;
}
// cookies for C stdio
ssize_t cRead(void *c, char *b, size_t n) { return doRead((int)(intptr_t)c, b, n); }
ssize_t cWrite(void *c, const char *b, size_t n) { ssize_t r = doWrite((int)(intptr_t)c, b, n); return r < 0 ? 0 : r; }
int cSeek(void *c, off64_t *o, int w) { long long r = doSeek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
int cClose(void *c) { return doClose((int)(intptr_t)c); }

FILE *openFile(const char *path, const char *mode) { alloc::Pause pause;
  bool plus = strchr(mode, '+'), w = mode[0] == 'w', a = mode[0] == 'a', r = mode[0] == 'r', x = strchr(mode, 'x');
  int fd = openSim(path, r || plus, w || a || plus, a, w || a, w, x);
  if (fd < 0) return nullptr;
  Quiet q;
  cookie_io_functions_t io{cRead, cWrite, cSeek, cClose};
  FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
  (*opens)[fd].file = f; (*fileToFd)[f] = fd;
  return f;
}
void fillStat(struct stat *st, long long size, bool dir) { memset(st, 0, sizeof *st); st->st_mode = dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = size; st->st_nlink = 1; st->st_blksize = 4096; }
int doStat(const char *p0, struct stat *st) { alloc::Pause pause;
  init(); std::string p = norm(p0); schedPoint("stat", nullptr);
  Quiet q;
  if (dirs->count(p)) { fillStat(st, 0, true); return 0; }
  auto i = files->find(p); if (i == files->end()) { errno = ENOENT; return -1; }
  fillStat(st, i->second->data.size(), false); return 0;
}
}

bool exists(const std::string &p) { Quiet q; init(); return files->count(norm(p)) > 0; }
std::string read(const std::string &p) { Quiet q; init(); auto i = files->find(norm(p)); return i == files->end() ? "" : i->second->data; }
void mkdirs(const std::string &p0) { Quiet q; init(); std::string p = norm(p0); while (p.size() > 1) { dirs->insert(p); p = parent(p); } }
void write(const std::string &p0, const std::string &d) { Quiet q; init(); std::string p = norm(p0); mkdirs(parent(p)); auto &i = (*files)[p]; if (!i) { i = std::make_shared<Inode>(); i->id = nextIno++; } i->data = d; }
void remove(const std::string &p) { Quiet q; init(); files->erase(norm(p)); }
std::vector<std::string> list(const std::string &prefix) { Quiet q; init(); std::vector<std::string> r; for (auto &f : *files) if (f.first.compare(0, prefix.size(), prefix) == 0) r.push_back(f.first); return r; }
int openHandles() { return openHandles(""); }
int openHandles(const std::string &infix) { Quiet q; init(); int n = 0; for (auto &o : *opens) if (!o.second.harness && o.second.inc == incarnation && o.second.path.find(infix) != std::string::npos) ++n; return n; }
int maxOpenHandles() { return maxOpen; }
void dropHandles() { Quiet q; init(); ++incarnation; for (auto i = opens->begin(); i != opens->end();) { if (i->second.file) fileToFd->erase(i->second.file); i = opens->erase(i); } maxOpen = 0; }
void reset() { Quiet q; init(); files->clear(); dirs->clear(); dirs->insert("/sim"); opens->clear(); fileToFd->clear(); counts->clear(); }
std::map<std::string, std::string> snapshot() { Quiet q; init(); std::map<std::string, std::string> m; for (auto &f : *files) m[f.first] = f.second->data; return m; }
void restore(const std::map<std::string, std::string> &m) { Quiet q; init(); files->clear(); for (auto &x : m) write(x.first, x.second); }
void importReal(const std::string &r, const std::string &s) {
  Quiet q; FILE *f = __real_fopen(r.c_str(), "rb"); if (!f) harnessError("cannot read " + r);
  std::string d; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) d.append(b, n); __real_fclose(f);
  write(s, d);
}
long long ioCount(const char *cls) { Quiet q; init(); return (*counts)[cls]; }
}} // namespace

using namespace sim; using namespace sim::fs;
extern "C" {
FILE *__wrap_fopen(const char *p, const char *m) { return isSim(p) ? openFile(p, m) : __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return isSim(p) ? openFile(p, m) : __real_fopen64(p, m); }
int __wrap_fclose(FILE *f) {
  if (fileToFd && g_running) { Quiet q; fileToFd->erase(f); }
  return __real_fclose(f);
}
int __wrap_fileno(FILE *f) {
  if (fileToFd && g_running) { Quiet q; auto i = fileToFd->find(f); if (i != fileToFd->end()) return i->second; }
  return __real_fileno(f);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return fd >= Base ? doRead(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return fd >= Base ? doWrite(fd, (const char *)b, n) : __real_write(fd, b, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) {
  if (fd < Base) return __real_writev(fd, v, c);
  std::string *d; { Quiet q; d = new std::string; for (int i = 0; i < c; ++i) d->append((const char *)v[i].iov_base, v[i].iov_len); }
  ssize_t r = doWrite(fd, d->data(), d->size());
  int e = errno; { Quiet q; delete d; } errno = e;
  return r;
}
off64_t __wrap_lseek64(int fd, off64_t o, int w) { return fd >= Base ? doSeek(fd, o, w) : __real_lseek64(fd, o, w); }
off_t __wrap_lseek(int fd, off_t o, int w) { return fd >= Base ? doSeek(fd, o, w) : __real_lseek(fd, o, w); }
int __wrap_fstat64(int fd, struct stat64 *s) { if (fd < Base) return __real_fstat64(fd, s); Open *o = get(fd); if (!o) { errno = EBADF; return -1; } fillStat((struct stat *)s, o->ino->data.size(), false); return 0; }
int __wrap_fstat(int fd, struct stat *s) { if (fd < Base) return __real_fstat(fd, s); Open *o = get(fd); if (!o) { errno = EBADF; return -1; } fillStat(s, o->ino->data.size(), false); return 0; }
int __wrap_stat(const char *p, struct stat *s) { return isSim(p) ? doStat(p, s) : __real_stat(p, s); }
int __wrap_stat64(const char *p, struct stat64 *s) { return isSim(p) ? doStat(p, (struct stat *)s) : __real_stat64(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { return isSim(p) ? doStat(p, s) : __real_lstat(p, s); }
int __wrap_access(const char *p, int m) { if (!isSim(p)) return __real_access(p, m); struct stat s; return doStat(p, &s); }
int __wrap_poll(struct pollfd *f, nfds_t n, int t) { if (n >= 1 && f[0].fd >= Base) { f[0].revents = f[0].events & POLLIN; return 1; } return __real_poll(f, n, t); }
int __wrap_ioctl(int fd, unsigned long r, void *a) {
  if (fd < Base) return __real_ioctl(fd, r, a);
  Open *o = get(fd); if (o && r == FIONREAD) { *(int *)a = (int)std::max<long long>(0, (long long)o->ino->data.size() - o->pos); return 0; }
  errno = ENOTTY; return -1;
}
int __wrap_close(int fd) { return fd >= Base ? doClose(fd) : __real_close(fd); }
static int openFlags(const char *p, int fl) { return openSim(p, (fl & O_ACCMODE) != O_WRONLY, (fl & O_ACCMODE) != O_RDONLY, fl & O_APPEND, fl & O_CREAT, fl & O_TRUNC, fl & O_EXCL); }
int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); return isSim(p) ? openFlags(p, fl) : __real_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); return isSim(p) ? openFlags(p, fl) : __real_open64(p, fl, m); }
int __wrap_unlink(const char *p) { return isSim(p) ? doUnlink(p) : __real_unlink(p); }
int __wrap_remove(const char *p) { return isSim(p) ? doUnlink(p) : __real_remove(p); }
int __wrap_rename(const char *a, const char *b) { alloc::Pause pause;
  if (!isSim(a)) return __real_rename(a, b);
  int e = ioEvent("rename", a, 0, nullptr); if (e == -1) crashProcess("before rename"); if (e > 0) { errno = e; return -1; }
  Quiet q; auto i = files->find(norm(a)); if (i == files->end()) { errno = ENOENT; return -1; }
  if (!dirs->count(parent(norm(b)))) { errno = ENOENT; return -1; }
  auto n = i->second; files->erase(i); (*files)[norm(b)] = n; return 0;
}
int __wrap_mkdir(const char *p, mode_t m) { if (!isSim(p)) return __real_mkdir(p, m); Quiet q; init(); std::string n = norm(p); if (dirs->count(n)) { errno = EEXIST; return -1; } if (!dirs->count(parent(n))) { errno = ENOENT; return -1; } dirs->insert(n); return 0; }
int __wrap_rmdir(const char *p) { if (!isSim(p)) return __real_rmdir(p); Quiet q; init(); return dirs->erase(norm(p)) ? 0 : (errno = ENOENT, -1); }
int __wrap_fsync(int fd) { return fd >= Base ? 0 : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return fd >= Base ? 0 : __real_fdatasync(fd); }
int __wrap_ftruncate64(int fd, off64_t n) { if (fd < Base) return __real_ftruncate64(fd, n); Open *o = get(fd); if (!o) { errno = EBADF; return -1; } int e = ioEvent("write", o->path, 0, nullptr); if (e == -1) crashProcess("truncate"); if (e > 0) { errno = e; return -1; } Quiet q; o->ino->data.resize(n); return 0; }
int __wrap_ftruncate(int fd, off_t n) { if (fd < Base) return __real_ftruncate(fd, n); return __wrap_ftruncate64(fd, n); }
int __wrap_truncate(const char *p, off_t n) { if (!isSim(p)) return __real_truncate(p, n); int e = ioEvent("write", p, 0, nullptr); if (e == -1) crashProcess("truncate"); if (e > 0) { errno = e; return -1; } Quiet q; auto i = files->find(norm(p)); if (i == files->end()) { errno = ENOENT; return -1; } i->second->data.resize(n); return 0; }
}
