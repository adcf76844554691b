/* Simulated disk. Files live in the run's scratch directory (the process's
 * working directory); every open/read/lseek/close the library (through
 * libstdc++ or C stdio) makes on them passes here, where the script's faults
 * are injected at exact byte offsets and call counts. */
#include "sim.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <cstdarg>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
extern std::string g_root;
namespace {
struct FFile {
  int chunk = 0, eintr = 0;
  struct At {
    long off;
    int on_open;
  };
  std::vector<At> eio, eof;
  struct Op {
    int nth, err;
  };
  std::vector<Op> openf;
  struct Sw {
    int nth;
    std::string content;
  };
  std::vector<Sw> sw;
  long opens = 0, fired = 0;
};
struct Fd {
  std::string name;
  long off = 0;
  long reads = 0;
  int nopen = 0;
  bool used = false;
};
std::map<std::string, FFile> *files = nullptr;
Fd *fds = nullptr;
constexpr int MAXFD = 1024;
long nfired = 0, nreads = 0;
bool active = false;

std::string norm(const char *p) {
  std::string s(p);
  while (s.compare(0, 2, "./") == 0)
    s = s.substr(2);
  return s;
}
FFile *lookup(const char *p) {
  if (!active || !p)
    return nullptr;
  NoLib nl;
  auto it = files->find(norm(p));
  return it == files->end() ? nullptr : &it->second;
}
void raw_write(const std::string &name, const std::string &content) {
  int fd = (int)::open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644);
  if (fd < 0) {
    fprintf(stderr, "simulated disk: cannot create %s\n", name.c_str());
    _exit(4);
  }
  size_t o = 0;
  while (o < content.size()) {
    ssize_t n = ::write(fd, content.data() + o, content.size() - o);
    if (n <= 0)
      _exit(4);
    o += (size_t)n;
  }
  ::close(fd);
}
/* called for an open of a simulated file; returns errno to inject or 0 */
int on_open(const char *path, FFile *f) {
  NoLib nl;
  f->opens++;
  for (auto &s : f->sw)
    if (s.nth == f->opens) {
      bool a = active;
      active = false;
      raw_write(path, s.content);
      active = a;
      fault("file_replaced_between_opens");
    }
  for (auto &o : f->openf)
    if (o.nth < 0 || o.nth == f->opens) {
      fault(o.err == ENOENT   ? "open_enoent"
            : o.err == EACCES ? "open_eacces"
                              : "open_emfile");
      f->fired++;
      nfired++;
      return o.err;
    }
  return 0;
}
void adopt(int fd, const char *path, FFile *f) {
  if (fd < 0 || fd >= MAXFD)
    return;
  NoLib nl;
  fds[fd].name = norm(path);
  fds[fd].off = 0;
  fds[fd].reads = 0;
  fds[fd].nopen = (int)f->opens;
  fds[fd].used = true;
}
/* decide what a read of up to n bytes may return: -1 with errno, or a cap */
ssize_t gate(int fd, size_t n, size_t &cap) {
  cap = n;
  if (!active || fd < 0 || fd >= MAXFD || !fds[fd].used)
    return 0;
  NoLib nl;
  Fd &d = fds[fd];
  FFile &f = (*files)[d.name];
  if (++nreads > 200000)
    fail("hang", "more than 200000 reads in one run (%s)", d.name.c_str());
  d.reads++;
  if (f.eintr > 0 && d.reads % f.eintr == 0) {
    fault("eintr");
    errno = EINTR;
    return -1;
  }
  if (f.chunk > 0 && cap > (size_t)f.chunk) {
    cap = (size_t)f.chunk;
    fault("short_read");
  }
  for (auto &e : f.eof)
    if (e.on_open < 0 || e.on_open == d.nopen) {
      if (d.off >= e.off) {
        cap = 0;
        fault("early_eof");
        f.fired++;
        nfired++;
      } else if ((long)cap > e.off - d.off)
        cap = (size_t)(e.off - d.off);
    }
  for (auto &e : f.eio)
    if (e.on_open < 0 || e.on_open == d.nopen) {
      if (d.off >= e.off) {
        fault("eio");
        f.fired++;
        nfired++;
        errno = EIO;
        return -1;
      }
      if ((long)cap > e.off - d.off)
        cap = (size_t)(e.off - d.off);
    }
  return 0;
}
template <class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
} // namespace

const std::string &Disk::root() { return g_root; }
void Disk::reset() {
  if (!files)
    files = new std::map<std::string, FFile>;
  if (!fds)
    fds = new Fd[MAXFD];
  files->clear();
  nfired = nreads = 0;
  active = true;
}
void Disk::put(const std::string &name, const std::string &content) {
  NoLib nl;
  (*files)[name];
  bool a = active;
  active = false;
  raw_write(name, content);
  active = a;
}
void Disk::remove(const std::string &name) {
  (*files)[name];
  ::unlink(name.c_str());
}
void Disk::mkdir(const std::string &name) { ::mkdir(name.c_str(), 0755); }
void Disk::chunk(const std::string &n, int b) { (*files)[n].chunk = b; }
void Disk::eintr(const std::string &n, int e) { (*files)[n].eintr = e == 1 ? 2 : e; }
void Disk::eio(const std::string &n, long o, int w) { (*files)[n].eio.push_back({o, w}); }
void Disk::eof(const std::string &n, long o, int w) { (*files)[n].eof.push_back({o, w}); }
void Disk::open_fail(const std::string &n, int k, int e) { (*files)[n].openf.push_back({k, e}); }
void Disk::swap_on_open(const std::string &n, int k, const std::string &c) { (*files)[n].sw.push_back({k, c}); }
long Disk::opens(const std::string &n) { return (*files)[n].opens; }
long Disk::fired() { return nfired; }
long Disk::fired(const std::string &n) { return (*files)[n].fired; }
int Disk::open_fds() {
  int n = 0;
  if (fds)
    for (int i = 0; i < MAXFD; i++)
      n += fds[i].used;
  return n;
}
} // namespace sim

using namespace sim;
extern "C" {
int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  static auto fn = real<int (*)(const char *, int, ...)>("open");
  FFile *f = lookup(path);
  if (f)
    if (int e = on_open(path, f)) {
      errno = e;
      return -1;
    }
  int fd = fn(path, flags, mode);
  if (f)
    adopt(fd, path, f);
  return fd;
}
int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return open(path, flags, mode);
}
/* C stdio would read inside libc, past the seam: serve such streams through the
 * gated calls. libstdc++ (which opens with fopen but reads the descriptor
 * itself) keeps a plain stream. */
static ssize_t ck_read(void *c, char *b, size_t n) {
  ssize_t r;
  do /* stdio users do not expect interrupted reads of regular files */
    r = read((int)(long)c, b, n);
  while (r < 0 && errno == EINTR);
  return r;
}
static int ck_seek(void *c, off64_t *o, int w) {
  off_t r = lseek((int)(long)c, *o, w);
  if (r < 0)
    return -1;
  *o = r;
  return 0;
}
static int ck_close(void *c) { return close((int)(long)c); }
FILE *fopen(const char *path, const char *mode) {
  static auto fn = real<FILE *(*)(const char *, const char *)>("fopen");
  FFile *f = lookup(path);
  if (f)
    if (int e = on_open(path, f)) {
      errno = e;
      return nullptr;
    }
  Dl_info di;
  if (f && mode[0] == 'r' && !strchr(mode, '+') && dladdr(__builtin_return_address(0), &di) && !strstr(di.dli_fname, "libstdc++")) {
    static auto op = real<int (*)(const char *, int, ...)>("open");
    int fd = op(path, O_RDONLY);
    if (fd < 0)
      return nullptr;
    adopt(fd, path, f);
    cookie_io_functions_t io = {ck_read, nullptr, ck_seek, ck_close};
    return fopencookie((void *)(long)fd, mode, io);
  }
  FILE *r = fn(path, mode);
  if (f && r)
    adopt(fileno(r), path, f);
  return r;
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
ssize_t read(int fd, void *buf, size_t n) {
  static auto fn = real<ssize_t (*)(int, void *, size_t)>("read");
  size_t cap;
  if (gate(fd, n, cap) < 0)
    return -1;
  ssize_t r = cap == 0 && n > 0 ? 0 : fn(fd, buf, cap);
  if (r > 0 && fd >= 0 && fd < MAXFD && fds && fds[fd].used)
    fds[fd].off += r;
  return r;
}
ssize_t readv(int fd, const struct iovec *iov, int k) {
  static auto fn = real<ssize_t (*)(int, const struct iovec *, int)>("readv");
  if (fds && fd >= 0 && fd < MAXFD && fds[fd].used && k > 0)
    return read(fd, iov[0].iov_base, iov[0].iov_len);
  return fn(fd, iov, k);
}
off_t lseek(int fd, off_t off, int wh) {
  static auto fn = real<off_t (*)(int, off_t, int)>("lseek");
  off_t r = fn(fd, off, wh);
  if (r >= 0 && fds && fd >= 0 && fd < MAXFD && fds[fd].used)
    fds[fd].off = (long)r;
  return r;
}
off64_t lseek64(int fd, off64_t off, int wh) { return lseek(fd, off, wh); }
int close(int fd) {
  static auto fn = real<int (*)(int)>("close");
  if (fds && fd >= 0 && fd < MAXFD)
    fds[fd].used = false;
  return fn(fd);
}
int fclose(FILE *fp) {
  static auto fn = real<int (*)(FILE *)>("fclose");
  int fd = fp ? fileno(fp) : -1;
  if (fds && fd >= 0 && fd < MAXFD)
    fds[fd].used = false;
  return fn(fp);
}
}
