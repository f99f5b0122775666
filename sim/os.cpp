// Simulated operating system: files, mappings, POSIX shared memory, semaphores, threads, clocks.
#include "sim_int.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sched.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <algorithm>

namespace sim {
static const int FD0 = 1000;
static const uint64_t PG = 4096;
static uint64_t up(uint64_t x) { return (x + PG - 1) & ~(PG - 1); }

static void obj_unref(Obj *o) {
  if (--o->refs > 0) return;
  if (o->file) return;
  if (o->memfd >= 0) close(o->memfd);
  o->memfd = -1;
}
static Obj *new_obj(const std::string &name) {
  Obj *o = new Obj; o->id = S.next_obj++; o->name = name;
  return o;
}
static void obj_back(Obj *o) {
  o->memfd = memfd_create("sim", 0);
  if (o->memfd < 0) harness_error("memfd_create failed");
}
void remove_file(const std::string &path) { In in; S.files.erase(path); }   // open descriptors keep the contents
void put_file(const std::string &path, const std::string &c) {
  In in;
  Obj *o = new_obj(path); o->file = true; obj_back(o);
  size_t done = 0;
  while (done < c.size()) {
    ssize_t k = write(o->memfd, c.data() + done, c.size() - done);
    if (k <= 0) harness_error("cannot write simulated file");
    done += (size_t)k;
  }
  o->size = c.size(); o->refs = 1;
  S.files[path] = o;
}

void set_os_fault_plan(Proc *p, const std::vector<OsFaultPlan> &plan) { p->plan = plan; }
int os_calls(Proc *p, const std::string &n) { auto it = p->sys_nth.find(n); return it == p->sys_nth.end() ? 0 : it->second; }
std::vector<std::string> os_faults_fired() { return S.os_faults; }

// Every system call passes here: scheduling point, crash point, fault point.  Returns an errno or 0.
static int enter(const char *name, uint64_t tag = 0) {
  Proc *p = g_cp;
  point_impl(E_SYS, hash_str(name), tag);
  p = g_cp;
  p->syscalls++;
  g_res->syscalls++;
  if (p->kill_at_sys && p->syscalls >= p->kill_at_sys && !p->killed) {
    p->kill_at_sys = 0;
    p->kill_at = p->events + 1;          // dies at its next scheduling point: right here
    point_impl(E_SYS, 1, 0);
  }
  int nth = ++p->sys_nth[name];
  for (auto &f : p->plan) if (f.name == name && (f.nth == nth || (f.nth < 0 && nth >= -f.nth))) {
    g_res->faults[F_SYSCALL]++;
    S.os_faults.push_back(name);
    if (S.tracing) trace("%s #%d fails with errno %d (injected)", name, nth, f.err);
    return f.err;
  }
  if (S.tracing) trace("syscall %s", name);
  return 0;
}

static Fd *getfd(int fd) {
  Proc *p = g_cp;
  int i = fd - FD0;
  if (i < 0 || (size_t)i >= p->fds.size() || !p->fds[i].used || !p->fds[i].obj) return nullptr;
  return &p->fds[i];
}
static int newfd(Obj *o, int flags) {
  Proc *p = g_cp;
  size_t i = 3;
  for (; i < p->fds.size(); i++) if (!p->fds[i].used) break;
  if (i == p->fds.size()) p->fds.emplace_back();
  p->fds[i] = Fd(); p->fds[i].used = true; p->fds[i].obj = o; p->fds[i].flags = flags;
  o->refs++;
  return FD0 + (int)i;
}

void reap_proc(Proc *p) {
  for (auto &f : p->fds) if (f.used && f.obj) { obj_unref(f.obj); f.used = false; f.obj = nullptr; }
  for (auto &m : p->maps) { munmap((void *)m.start, up(m.len)); obj_unref(m.obj); }
  p->maps.clear();
  for (auto &kv : p->sems) if (kv.second.open) kv.second.sem->refs--;
  p->sems.clear();
}

Ledger ledger(Proc *p) {
  if (!p) p = g_cp;
  Ledger l; memset(&l, 0, sizeof l);
  for (auto &f : p->fds) l.fds += f.used && f.obj;
  l.maps = (long)p->maps.size();
  for (auto &kv : p->sems) l.sems += kv.second.open ? kv.second.refs : 0;
  for (auto f : p->fibers) l.threads += f->sut_thread && !(f->st == DONE && (f->joined || f->detached));
  l.allocs = p->allocs; l.bytes = p->alloc_bytes;
  return l;
}
std::string ledger_detail(Proc *p) {
  Ledger l = ledger(p);
  char b[200];
  snprintf(b, sizeof b, "fds=%ld mappings=%ld semaphores=%ld threads=%ld heap blocks=%ld (%zu bytes)", l.fds, l.maps, l.sems, l.threads, l.allocs, l.bytes);
  return b;
}
std::vector<std::string> named_objects() {
  std::vector<std::string> v;
  for (auto &k : S.shms) v.push_back("shm:" + k.first);
  for (auto &k : S.sems) v.push_back("sem:" + k.first);
  return v;
}
}  // namespace sim
using namespace sim;

#define FAIL(e) do { errno = (e); return -1; } while (0)
#define CANCEL_REAL(call) if (!on()) return call; In in

extern "C" {
// ------------------------------------------------------------ files
int __wrap_open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  CANCEL_REAL(open(path, flags, mode));
  if (int e = enter("open", hash_str(path))) FAIL(e);
  auto it = S.files.find(path);
  if (it == S.files.end()) FAIL(ENOENT);
  return newfd(it->second, flags);
}
int __wrap_open64(const char *path, int flags, ...) { return __wrap_open(path, flags, 0600); }
int __wrap_close(int fd) {
  if (!on() || (fd >= 0 && fd < FD0)) { if (on() && fd < FD0) { } return close(fd); }
  In in;
  enter("close");
  Fd *f = getfd(fd);
  if (!f) FAIL(EBADF);
  obj_unref(f->obj); f->used = false; f->obj = nullptr;
  return 0;
}
static int do_fstat(Obj *o, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_size = (off_t)o->size; st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_blksize = 4096; st->st_blocks = (o->size + 511) / 512; st->st_ino = (ino_t)o->id;
  return 0;
}
int __wrap_fstat(int fd, struct stat *st) {
  if (!on() || (fd >= 0 && fd < FD0)) return fstat(fd, st);
  In in;
  if (int e = enter("fstat")) FAIL(e);
  Fd *f = getfd(fd);
  if (!f) FAIL(EBADF);
  return do_fstat(f->obj, st);
}
int __wrap_fstat64(int fd, struct stat *st) { return __wrap_fstat(fd, st); }
int __wrap_stat(const char *path, struct stat *st) {
  CANCEL_REAL(stat(path, st));
  if (int e = enter("stat")) FAIL(e);
  auto it = S.files.find(path);
  if (it == S.files.end()) FAIL(ENOENT);
  return do_fstat(it->second, st);
}
int __wrap_stat64(const char *p, struct stat *st) { return __wrap_stat(p, st); }
int __wrap_access(const char *path, int m) {
  CANCEL_REAL(access(path, m));
  if (int e = enter("access")) FAIL(e);
  if (!S.files.count(path)) FAIL(ENOENT);
  return 0;
}
ssize_t __wrap_pread(int fd, void *buf, size_t n, off_t off) {
  if (!on() || (fd >= 0 && fd < FD0)) return pread(fd, buf, n, off);
  In in;
  if (int e = enter("pread")) FAIL(e);
  Fd *f = getfd(fd);
  if (!f) FAIL(EBADF);
  range_access((uint64_t)buf, n, true, nullptr);
  return pread(f->obj->memfd, buf, n, off);
}
ssize_t __wrap_pread64(int fd, void *buf, size_t n, off_t off) { return __wrap_pread(fd, buf, n, off); }
static ssize_t do_read(Fd *f, void *buf, size_t n) {
  int64_t cut;
  if (fault(F_EINTR)) FAIL(EINTR);
  if (n > 1 && fault(F_SHORT, &cut, (int64_t)std::min<uint64_t>(n, std::max<uint64_t>(f->obj->size, 2)) - 1)) n = (size_t)cut + 1;
  ssize_t k = pread(f->obj->memfd, buf, n, (off_t)f->pos);
  if (k > 0) f->pos += (uint64_t)k;
  return k;
}
ssize_t __wrap_read(int fd, void *buf, size_t n) {
  if (!on() || (fd >= 0 && fd < FD0)) return read(fd, buf, n);
  In in;
  if (int e = enter("read")) FAIL(e);
  Fd *f = getfd(fd);
  if (!f) FAIL(EBADF);
  range_access((uint64_t)buf, n, true, nullptr);
  return do_read(f, buf, n);
}
// C streams: real ones whose input comes from the simulated file (libstdc++'s file streams use their descriptor)
static ssize_t stream_read(void *c, char *buf, size_t n) {
  In in;
  if (int e = enter("read")) FAIL(e);
  Fd *f = getfd((int)(intptr_t)c);
  if (!f) FAIL(EBADF);
  return do_read(f, buf, n);
}
static int stream_seek(void *c, off64_t *o, int wh) {
  In in;
  Fd *f = getfd((int)(intptr_t)c);
  if (!f) FAIL(EBADF);
  off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)f->pos : (off64_t)f->obj->size;
  if (b + *o < 0) FAIL(EINVAL);
  f->pos = (uint64_t)(b + *o); *o = (off64_t)f->pos;
  return 0;
}
static int stream_close(void *) { return 0; }
FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!on()) return fopen(path, mode);
  In in;
  auto it = S.files.find(path);
  if (it == S.files.end() && strncmp(path, "/sim/", 5)) return fopen(path, mode);   // not a simulated file
  if (int e = enter("open", hash_str(path))) { errno = e; return nullptr; }
  if (it == S.files.end()) { errno = ENOENT; return nullptr; }
  int fd = newfd(it->second, O_RDONLY);
  cookie_io_functions_t io = {stream_read, nullptr, stream_seek, stream_close};
  FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
  if (!f) harness_error("fopencookie failed");
  g_cp->streams[f] = fd;
  return f;
}
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
int __wrap_fileno(FILE *f) {
  if (g_cp) { auto it = g_cp->streams.find(f); if (it != g_cp->streams.end()) return it->second; }
  return fileno(f);
}
int __wrap_fclose(FILE *f) {
  if (!on()) return fclose(f);
  In in;
  auto it = g_cp->streams.find(f);
  if (it == g_cp->streams.end()) return fclose(f);
  enter("close");
  Fd *d = getfd(it->second);
  if (d) { obj_unref(d->obj); d->used = false; d->obj = nullptr; }
  g_cp->streams.erase(it);
  return fclose(f);
}
off_t __wrap_lseek(int fd, off_t o, int wh) {
  if (!on() || (fd >= 0 && fd < FD0)) return lseek(fd, o, wh);
  In in;
  if (int e = enter("lseek")) FAIL(e);
  Fd *f = getfd(fd);
  if (!f) FAIL(EBADF);
  off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)f->pos : (off_t)f->obj->size;
  if (b + o < 0) FAIL(EINVAL);
  return (off_t)(f->pos = (uint64_t)(b + o));
}
off_t __wrap_lseek64(int fd, off_t o, int wh) { return __wrap_lseek(fd, o, wh); }
int __wrap_ftruncate(int fd, off_t n) {
  CANCEL_REAL(ftruncate(fd, n));
  if (int e = enter("ftruncate", (uint64_t)n)) FAIL(e);
  Fd *f = getfd(fd);
  if (!f) FAIL(EBADF);
  if (n < 0 || (f->flags & O_ACCMODE) == O_RDONLY) FAIL(EINVAL);
  if (f->obj->file) FAIL(EINVAL);
  if (ftruncate(f->obj->memfd, n)) harness_error("real ftruncate failed");
  f->obj->size = (uint64_t)n;
  return 0;
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_posix_fallocate(int fd, off_t o, off_t n) {
  CANCEL_REAL(posix_fallocate(fd, o, n));
  if (int e = enter("posix_fallocate")) return e;
  Fd *f = getfd(fd);
  if (!f) return EBADF;
  if ((uint64_t)(o + n) > f->obj->size) { if (ftruncate(f->obj->memfd, o + n)) harness_error("ftruncate"); f->obj->size = (uint64_t)(o + n); }
  return 0;
}
int __wrap_dup(int fd) {
  if (!on() || (fd >= 0 && fd < FD0)) return dup(fd);
  In in;
  if (int e = enter("dup")) FAIL(e);
  Fd *f = getfd(fd);
  if (!f) FAIL(EBADF);
  return newfd(f->obj, f->flags);
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (!on() || (fd >= 0 && fd < FD0)) return fcntl(fd, cmd, a);
  return getfd(fd) ? 0 : (errno = EBADF, -1);
}

// ------------------------------------------------------------ mappings
void *__wrap_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  CANCEL_REAL(mmap(addr, len, prot, flags, fd, off));
  if (int e = enter("mmap", len)) { errno = e; return MAP_FAILED; }
  Proc *p = g_cp;
  if (len == 0 || (off & (PG - 1))) { errno = EINVAL; return MAP_FAILED; }
  Obj *o;
  if (flags & MAP_ANONYMOUS) { o = new_obj("anon"); o->anon = true; o->size = len; }
  else {
    Fd *f = getfd(fd);
    if (!f) { errno = EBADF; return MAP_FAILED; }
    o = f->obj;
    if ((prot & PROT_WRITE) && (flags & MAP_SHARED) && (f->flags & O_ACCMODE) != O_RDWR) { errno = EACCES; return MAP_FAILED; }
  }
  uint64_t a;
  uint64_t L = up(len);
  if (flags & MAP_FIXED) {
    a = (uint64_t)addr;
    if ((a & (PG - 1)) || a < MAP_BASE + ((uint64_t)p->idx << MAP_SHIFT) || a + L > p->map_next) harness_error("MAP_FIXED outside the simulated address space");
    // replace whatever is there
    std::vector<Mapping> keep;
    for (auto &m : p->maps) {
      uint64_t ms = m.start, me = m.start + up(m.len);
      if (me <= a || ms >= a + L) { keep.push_back(m); continue; }
      if (ms < a) { Mapping x = m; x.len = a - ms; m.obj->refs++; keep.push_back(x); }
      if (me > a + L) { Mapping x = m; x.start = a + L; x.len = me - (a + L); x.off = m.off + (a + L - ms); m.obj->refs++; keep.push_back(x); }
      obj_unref(m.obj);
    }
    p->maps.swap(keep);
  } else {
    a = p->map_next;
    p->map_next += L + 16 * PG;
    if (p->map_next >= MAP_BASE + ((uint64_t)(p->idx + 1) << MAP_SHIFT)) harness_error("simulated address space exhausted");
  }
  int rf = MAP_FIXED | MAP_NORESERVE | ((flags & MAP_ANONYMOUS) ? MAP_ANONYMOUS | MAP_PRIVATE : (flags & (MAP_SHARED | MAP_PRIVATE)));
  void *r = mmap((void *)a, L, prot, rf, o->anon ? -1 : o->memfd, o->anon ? 0 : off);
  if (r != (void *)a) harness_error("real mmap failed: %s (len %lu)", strerror(errno), (unsigned long)L);
  o->refs++;
  Mapping m{a, len, (uint64_t)off, o, prot, !!(flags & MAP_SHARED)};
  p->maps.insert(std::lower_bound(p->maps.begin(), p->maps.end(), m, [](const Mapping &x, const Mapping &y) { return x.start < y.start; }), m);
  p->map_hint = 0;
  return r;
}
void *__wrap_mmap64(void *addr, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(addr, len, prot, flags, fd, off); }
int __wrap_munmap(void *addr, size_t len) {
  CANCEL_REAL(munmap(addr, len));
  enter("munmap", len);
  Proc *p = g_cp;
  uint64_t a = (uint64_t)addr, L = up(len);
  if ((a & (PG - 1)) || len == 0) FAIL(EINVAL);
  if (a < MAP_BASE + ((uint64_t)p->idx << MAP_SHIFT) || a + L > MAP_BASE + ((uint64_t)(p->idx + 1) << MAP_SHIFT)) {
    // the address does not come from a successful mmap: unmapping it could destroy anything
    if (a + PG == 0) FAIL(EINVAL);
    violation("memory:bad-munmap", "munmap of an address that was never mapped");
  }
  std::vector<Mapping> keep;
  for (auto &m : p->maps) {
    uint64_t ms = m.start, me = m.start + up(m.len);
    if (me <= a || ms >= a + L) { keep.push_back(m); continue; }
    if (ms < a) { Mapping x = m; x.len = a - ms; m.obj->refs++; keep.push_back(x); }
    if (me > a + L) { Mapping x = m; x.start = a + L; x.len = me - (a + L); x.off = m.off + (a + L - ms); m.obj->refs++; keep.push_back(x); }
    obj_unref(m.obj);
  }
  p->maps.swap(keep); p->map_hint = 0;
  munmap(addr, L);
  return 0;
}
int __wrap_mprotect(void *addr, size_t len, int prot) {
  CANCEL_REAL(mprotect(addr, len, prot));
  enter("mprotect");
  Mapping *m = find_map(g_cp, (uint64_t)addr);
  if (m) m->prot = prot;
  return mprotect(addr, len, prot);
}
int __wrap_madvise(void *a, size_t n, int adv) { if (!on()) return madvise(a, n, adv); In in; enter("madvise"); return 0; }
int __wrap_posix_madvise(void *a, size_t n, int adv) { return __wrap_madvise(a, n, adv); }
int __wrap_msync(void *a, size_t n, int f) { if (!on()) return msync(a, n, f); In in; enter("msync"); return 0; }
int __wrap_mlock(const void *a, size_t n) { if (!on()) return mlock(a, n); In in; enter("mlock"); return 0; }

// ------------------------------------------------------------ named shared memory
static int bad_name(const char *n) { size_t l = strlen(n); return l < 2 ? EINVAL : l > 255 ? ENAMETOOLONG : strchr(n + 1, '/') ? EINVAL : 0; }
int __wrap_shm_open(const char *name, int flags, mode_t mode) {
  CANCEL_REAL(shm_open(name, flags, mode));
  if (int e = enter("shm_open")) FAIL(e);
  if (int e = bad_name(name)) FAIL(e);
  auto it = S.shms.find(name);
  Obj *o;
  if (it == S.shms.end()) {
    if (!(flags & O_CREAT)) FAIL(ENOENT);
    o = new_obj(name); obj_back(o); o->refs = 1;
    S.shms[name] = o;
    note_progress();
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) FAIL(EEXIST);
    o = it->second;
    if (flags & O_TRUNC) { if (ftruncate(o->memfd, 0)) harness_error("ftruncate"); o->size = 0; }
  }
  return newfd(o, flags);
}
int __wrap_shm_unlink(const char *name) {
  CANCEL_REAL(shm_unlink(name));
  if (int e = enter("shm_unlink")) FAIL(e);
  auto it = S.shms.find(name);
  if (it == S.shms.end()) FAIL(ENOENT);
  Obj *o = it->second;
  S.shms.erase(it);
  obj_unref(o);
  note_progress();
  return 0;
}

// ------------------------------------------------------------ semaphores
static Sem *find_sem(sem_t *h, const char *what) {
  uint64_t a = (uint64_t)h;
  Proc *p = g_cp;
  auto it = p->sems.find(a);
  if (it != p->sems.end()) {
    if (!it->second.open) violation("crash:SEGV", "%s on a semaphore that this process already closed", what);
    return it->second.sem;
  }
  if (a >= SEM_BASE && a < SEM_BASE + ((uint64_t)MAXPROC << 20)) violation("memory:foreign", "%s on a semaphore handle of another process", what);
  if (a < 65536) violation("crash:SEGV", "%s on an invalid semaphore handle", what);
  Loc l = locate(a, sizeof(sem_t), true, nullptr);
  auto k = std::make_pair((uint64_t)l.kind, l.key);
  auto jt = S.anon_sems.find(k);
  if (jt == S.anon_sems.end()) violation("crash:SEGV", "%s on something that is not a semaphore", what);
  return jt->second;
}
sem_t *__wrap_sem_open(const char *name, int oflag, ...) {
  mode_t mode = 0; unsigned value = 0;
  if (oflag & O_CREAT) { va_list ap; va_start(ap, oflag); mode = (mode_t)va_arg(ap, int); value = va_arg(ap, unsigned); va_end(ap); }
  if (!on()) return sem_open(name, oflag, mode, value);
  In in;
  if (int e = enter("sem_open")) { errno = e; return SEM_FAILED; }
  if (int e = bad_name(name)) { errno = e; return SEM_FAILED; }
  auto it = S.sems.find(name);
  Sem *s;
  if (it == S.sems.end()) {
    if (!(oflag & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    s = new Sem; s->name = name; s->value = value;
    S.sems[name] = s;
    relock_release(s->vc);
    note_progress();
  } else {
    if ((oflag & O_CREAT) && (oflag & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
    s = it->second;
    vc_acquire(s->vc);
  }
  s->refs++;
  Proc *p = g_cp;
  for (auto &kv : p->sems) if (kv.second.sem == s && kv.second.open) { kv.second.refs++; return (sem_t *)kv.first; }
  uint64_t a = p->sem_next; p->sem_next += 64;
  p->sems[a] = SemHandle{s, 1, true};
  return (sem_t *)a;
}
int __wrap_sem_close(sem_t *h) {
  CANCEL_REAL(sem_close(h));
  enter("sem_close");
  Proc *p = g_cp;
  auto it = p->sems.find((uint64_t)h);
  if (it == p->sems.end()) FAIL(EINVAL);
  if (!it->second.open) FAIL(EINVAL);
  it->second.sem->refs--;
  if (--it->second.refs == 0) it->second.open = false;
  return 0;
}
int __wrap_sem_unlink(const char *name) {
  CANCEL_REAL(sem_unlink(name));
  if (int e = enter("sem_unlink")) FAIL(e);
  auto it = S.sems.find(name);
  if (it == S.sems.end()) FAIL(ENOENT);
  S.sems.erase(it);     // the object lives on while open
  note_progress();
  return 0;
}
int __wrap_sem_init(sem_t *h, int, unsigned v) {
  CANCEL_REAL(sem_init(h, 1, v));
  if (int e = enter("sem_init")) FAIL(e);
  Loc l = locate((uint64_t)h, sizeof(sem_t), true, nullptr);
  Sem *s = new Sem; s->value = v;
  S.anon_sems[std::make_pair((uint64_t)l.kind, l.key)] = s;
  return 0;
}
int __wrap_sem_destroy(sem_t *h) {
  CANCEL_REAL(sem_destroy(h));
  enter("sem_destroy");
  Loc l = locate((uint64_t)h, sizeof(sem_t), true, nullptr);
  return S.anon_sems.erase(std::make_pair((uint64_t)l.kind, l.key)) ? 0 : (errno = EINVAL, -1);
}
int __wrap_sem_post(sem_t *h) {
  CANCEL_REAL(sem_post(h));
  enter("sem_post");
  Sem *s = find_sem(h, "sem_post");
  relock_release(s->vc);
  state_update(mix64(9, hash_str(s->name.c_str())), (uint64_t)s->value, (uint64_t)s->value + 1);
  s->value++;
  S.hash = mix64(S.hash, (uint64_t)s->value);
  wake_all(s);
  note_progress();
  return 0;
}
static int sem_wait_impl(sem_t *h, bool block, const struct timespec *abs) {
  enter(block ? "sem_wait" : "sem_trywait");
  Sem *s = find_sem(h, "sem_wait");
  if (block && fault(F_EINTR)) { point_impl(E_SYS, 55, 0); FAIL(EINTR); }
  while (s->value == 0) {
    if (!block) FAIL(EAGAIN);
    if (abs) {
      uint64_t now = S.sim_ns + S.events * 20;
      uint64_t t = (uint64_t)abs->tv_sec * 1000000000ull + (uint64_t)abs->tv_nsec;
      if (now >= t) FAIL(ETIMEDOUT);
      g_cur->spin = 1000; point_impl(E_YIELD, 3, 0); S.sim_ns += 1000;
      continue;
    }
    block_current(s);
    if (s->value == 0 && fault(F_EINTR)) FAIL(EINTR);
  }
  state_update(mix64(9, hash_str(s->name.c_str())), (uint64_t)s->value, (uint64_t)s->value - 1);
  s->value--;
  vc_acquire(s->vc);
  note_progress();
  return 0;
}
int __wrap_sem_wait(sem_t *h) { CANCEL_REAL(sem_wait(h)); return sem_wait_impl(h, true, nullptr); }
int __wrap_sem_trywait(sem_t *h) { CANCEL_REAL(sem_trywait(h)); return sem_wait_impl(h, false, nullptr); }
int __wrap_sem_timedwait(sem_t *h, const struct timespec *t) { CANCEL_REAL(sem_timedwait(h, t)); return sem_wait_impl(h, true, t); }
int __wrap_sem_getvalue(sem_t *h, int *v) {
  CANCEL_REAL(sem_getvalue(h, v));
  enter("sem_getvalue");
  *v = (int)find_sem(h, "sem_getvalue")->value;
  return 0;
}

// ------------------------------------------------------------ threads
static const uint64_t TH0 = 0x70000000;
static Fiber *thr(pthread_t t) {
  uint64_t i = (uint64_t)t - TH0;
  if (i >= S.fibers.size() || S.fibers[i]->proc != g_cp) return nullptr;
  return S.fibers[i];
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  CANCEL_REAL(pthread_create(t, attr, fn, arg));
  if (int e = enter("pthread_create")) return e;
  size_t ss = 8 << 20; int det = 0;
  if (attr) { pthread_attr_getstacksize(attr, &ss); pthread_attr_getdetachstate(attr, &det); }
  Fiber *f = make_fiber(g_cp, "thread", ss);
  f->sut_thread = true; f->fn = fn; f->arg = arg; f->detached = det == PTHREAD_CREATE_DETACHED;
  *t = (pthread_t)(TH0 + (uint64_t)f->uid);
  note_progress();
  point_impl(E_SPAWN, (uint64_t)f->uid, 0);
  return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret) {
  CANCEL_REAL(pthread_join(t, ret));
  enter("pthread_join");
  Fiber *f = thr(t);
  if (!f) violation("crash:SEGV", "pthread_join on an invalid thread handle");
  if (f->joined) violation("crash:SEGV", "thread joined twice");
  if (f == g_cur) return EDEADLK;
  while (f->st != DONE) block_current(f);
  g_cur->vc.join(f->vc);
  f->joined = true; f->proc->unjoined--;
  if (ret) *ret = f->ret;
  maybe_free_slot(f);
  note_progress();
  return 0;
}
int __wrap_pthread_detach(pthread_t t) {
  CANCEL_REAL(pthread_detach(t));
  enter("pthread_detach");
  Fiber *f = thr(t);
  if (!f) return ESRCH;
  f->detached = true;
  return 0;
}
pthread_t __wrap_pthread_self() { if (!on()) return pthread_self(); return (pthread_t)(TH0 + (uint64_t)g_cur->uid); }
void __wrap_pthread_exit(void *r) {
  if (!on()) pthread_exit(r);
  g_cur->ret = r;
  fiber_exit();
  __builtin_trap();
}
int __wrap_pthread_setname_np(pthread_t, const char *) { return 0; }
int __wrap_pthread_setaffinity_np(pthread_t, size_t, const void *) { return 0; }
int __wrap_pthread_cancel(pthread_t) { return ESRCH; }

// mutexes and condition variables (not used by the code today; supported so that a rewrite can use them)
struct Mx { Fiber *owner = nullptr; int depth = 0; VC vc; };
static std::map<uint64_t, Mx> mxs;
static uint64_t lkey(const void *p, size_t n) { Loc l = locate((uint64_t)p, n, true, nullptr); return l.key ^ ((uint64_t)l.kind << 61); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  CANCEL_REAL(pthread_mutex_init(m, a));
  mxs[lkey(m, sizeof *m)] = Mx(); return pthread_mutex_init(m, a);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { CANCEL_REAL(pthread_mutex_destroy(m)); mxs.erase(lkey(m, sizeof *m)); return 0; }
static int mx_kind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  CANCEL_REAL(pthread_mutex_lock(m));
  enter("mutex_lock");
  Mx &x = mxs[lkey(m, sizeof *m)];
  if (x.owner == g_cur) { if (mx_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; } }
  while (x.owner) block_current(&x);
  x.owner = g_cur; x.depth = 1; vc_acquire(x.vc); note_progress();
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  CANCEL_REAL(pthread_mutex_trylock(m));
  enter("mutex_trylock");
  Mx &x = mxs[lkey(m, sizeof *m)];
  if (x.owner == g_cur && mx_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; }
  if (x.owner) return EBUSY;
  x.owner = g_cur; x.depth = 1; vc_acquire(x.vc); note_progress();
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  CANCEL_REAL(pthread_mutex_unlock(m));
  enter("mutex_unlock");
  Mx &x = mxs[lkey(m, sizeof *m)];
  if (x.owner != g_cur) return EPERM;
  if (--x.depth) return 0;
  relock_release(x.vc); x.owner = nullptr; wake_all(&x); note_progress();
  return 0;
}
struct Cv { VC vc; uint64_t seq = 0; };
static std::map<uint64_t, Cv> cvs;
static int cv_wait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *abs) {
  enter("cond_wait");
  Cv &v = cvs[lkey(c, sizeof *c)];
  Mx &x = mxs[lkey(m, sizeof *m)];
  if (x.owner == g_cur) { relock_release(x.vc); x.owner = nullptr; x.depth = 0; wake_all(&x); }
  uint64_t s = v.seq; int rc = 0;
  while (v.seq == s) {
    if (abs) {
      uint64_t t = (uint64_t)abs->tv_sec * 1000000000ull + (uint64_t)abs->tv_nsec;
      if (S.sim_ns + S.events * 20 >= t) { rc = ETIMEDOUT; break; }
      g_cur->spin = 1000; point_impl(E_YIELD, 4, 0); S.sim_ns += 1000;
    } else block_current(&v);
  }
  vc_acquire(v.vc);
  while (x.owner) block_current(&x);
  x.owner = g_cur; x.depth = 1; vc_acquire(x.vc); note_progress();
  return rc;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { CANCEL_REAL(pthread_cond_init(c, a)); cvs[lkey(c, sizeof *c)] = Cv(); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { CANCEL_REAL(pthread_cond_destroy(c)); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { CANCEL_REAL(pthread_cond_wait(c, m)); return cv_wait(c, m, nullptr); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { CANCEL_REAL(pthread_cond_timedwait(c, m, t)); return cv_wait(c, m, t); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { (void)k; if (!on()) return pthread_cond_timedwait(c, m, t); In in; return cv_wait(c, m, t); }
static int cv_signal(pthread_cond_t *c, const char *n) {
  enter(n);
  Cv &v = cvs[lkey(c, sizeof *c)];
  relock_release(v.vc); v.seq++; wake_all(&v); note_progress();   // waking all is a legal (spurious) wakeup
  return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { CANCEL_REAL(pthread_cond_signal(c)); return cv_signal(c, "cond_signal"); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { CANCEL_REAL(pthread_cond_broadcast(c)); return cv_signal(c, "cond_broadcast"); }

// function-local statics
static std::map<uint64_t, std::pair<Fiber *, VC>> guards;
int __cxa_guard_acquire(uint64_t *); void __cxa_guard_release(uint64_t *); void __cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g) {
  if (!on()) { if (*(uint8_t *)g) return 0; return 1; }
  In in;
  point_impl(E_SYS, 77, 0);
  auto &q = guards[(uint64_t)g];
  for (;;) {
    if (*(uint8_t *)g) { vc_acquire(q.second); return 0; }
    if (!q.first) { q.first = g_cur; return 1; }
    block_current(&q);
  }
}
void __wrap___cxa_guard_release(uint64_t *g) {
  *(uint8_t *)g = 1;
  if (!on()) return;
  In in;
  auto &q = guards[(uint64_t)g]; q.first = nullptr; relock_release(q.second); wake_all(&q);
}
void __wrap___cxa_guard_abort(uint64_t *g) {
  if (!on()) return;
  In in;
  auto &q = guards[(uint64_t)g]; q.first = nullptr; wake_all(&q);
}

// ------------------------------------------------------------ time and identity
}
namespace sim { void sleep_switch(); }
extern "C" {
static uint64_t simnow() { return S.sim_ns + S.events * 20; }
static const uint64_t EPOCH = 1700000000ull;
int __wrap_sched_yield() { CANCEL_REAL(sched_yield()); g_cur->spin = 1000; point_impl(E_YIELD, 1, 0); return 0; }
static void do_sleep(uint64_t ns) {
  point_impl(E_SYS, 66, ns);
  Fiber *f = g_cur;
  f->st = SLEEP; f->wake_at = simnow() + ns;
  // others run; time jumps when nobody can
  f->evno++; S.events++;
  sim::sleep_switch();
}
int __wrap_usleep(unsigned us) { CANCEL_REAL(usleep(us)); do_sleep((uint64_t)us * 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { if (!on()) return sleep(s); In in; do_sleep((uint64_t)s * 1000000000ull); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { CANCEL_REAL(nanosleep(t, r)); do_sleep((uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) { if (!on()) return clock_nanosleep(c, fl, t, r); In in; do_sleep((uint64_t)t->tv_nsec); return 0; }
pid_t __wrap_getpid() { if (!g_cur || g_in) return getpid(); return g_cp->pid; }
clock_t __wrap_clock() { if (!on()) return clock(); return (clock_t)(simnow() / 1000); }
time_t __wrap_time(time_t *t) { if (!on()) return time(t); time_t v = (time_t)(EPOCH + simnow() / 1000000000ull); if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!on()) return clock_gettime(c, ts); uint64_t n = simnow(); ts->tv_sec = (time_t)((c == CLOCK_REALTIME ? EPOCH : 0) + n / 1000000000ull); ts->tv_nsec = (long)(n % 1000000000ull); return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { if (!on()) return gettimeofday(tv, z); uint64_t n = simnow(); tv->tv_sec = (time_t)(EPOCH + n / 1000000000ull); tv->tv_usec = (long)(n % 1000000000ull / 1000); return 0; }
}
