/* Schedule perturbation: preloaded, delays threads at synchronisation and I/O
 * points of the real, unmodified code with seeded random choices.  Delays only
 * ever happen between the operations of the program (before a lock is taken,
 * after it is released, around reads, before and after notifications), i.e.
 * at points where the scheduler may pre-empt a thread anyway.
 *
 * VF sets the mode per case through vf_perturb_set(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static atomic_uint seed, prob_permille, max_us;
static atomic_uint epoch, thread_no;
static atomic_ulong delays, points, lockops;
/* bias: a few threads of each run are made "slow" */
static atomic_uint slow_mask;

static __thread uint64_t state;
static __thread unsigned my_epoch, my_no;
static __thread int busy;

void vf_perturb_set(unsigned s, unsigned permille, unsigned us, unsigned slow)
{
  atomic_store(&seed, s);
  atomic_store(&max_us, us);
  atomic_store(&slow_mask, slow);
  atomic_store(&thread_no, 0);
  atomic_fetch_add(&epoch, 1);
  atomic_store(&delays, 0);
  atomic_store(&points, 0);
  atomic_store(&prob_permille, permille);
}
/* For programs without anybody who calls vf_perturb_set() */
__attribute__((constructor)) static void from_environment(void)
{
  const char* e = getenv("VF_PERTURB");
  unsigned a, b, c, d;
  if (e && sscanf(e, "%u %u %u %u", &a, &b, &c, &d) == 4)
    vf_perturb_set(a, b, c, d);
}
unsigned long vf_perturb_delays(void) { return atomic_load(&delays); }
unsigned long vf_perturb_points(void) { return atomic_load(&points); }
unsigned vf_perturb_threads(void) { return atomic_load(&thread_no); }

/* Faults of reads from *.data files: after some good ones, the next few fail
 * (kind 1: EIO, 2: end of file, 3: short, 4: EINTR). */
static atomic_int fault_kind, fault_after, fault_count;
static atomic_ulong faults;
void vf_fault_set(int kind, int after, int count)
{
  atomic_store(&fault_kind, 0);
  atomic_store(&fault_after, after);
  atomic_store(&fault_count, count);
  atomic_store(&faults, 0);
  atomic_store(&fault_kind, kind);
}
unsigned long vf_faults(void) { return atomic_load(&faults); }
static int fault(int fd)
{
  int kind = atomic_load_explicit(&fault_kind, memory_order_relaxed);
  if (!kind)
    return 0;
  char name[64], path[512];
  snprintf(name, sizeof name, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(name, path, sizeof path - 1);
  if (n < 5 || memcmp(path + n - 5, ".data", 5))
    return 0;
  if (atomic_fetch_sub(&fault_after, 1) > 0)
    return 0;
  if (atomic_fetch_sub(&fault_count, 1) <= 0)
    return 0;
  atomic_fetch_add(&faults, 1);
  return kind;
}

/* ThreadSanitizer does not see into libstdc++, so two threads that use one
 * file stream without a lock go unnoticed. Every use of an open *.data file is
 * reported to it as a write to a cell that belongs to that open file (a new
 * one each time the descriptor is opened again). */
extern void __tsan_write8(void*) __attribute__((weak));
enum { FDS = 512, GENS = 2048 };
static uint64_t cells[FDS][GENS];
static atomic_uint generation[FDS];
static atomic_char watched[FDS];
static atomic_ulong uses;
unsigned long vf_stream_uses(void) { return atomic_load(&uses); }
static void use(int fd)
{
  if (!__tsan_write8 || fd < 0 || fd >= FDS ||
      !atomic_load_explicit(&watched[fd], memory_order_relaxed))
    return;
  unsigned g = atomic_load_explicit(&generation[fd], memory_order_relaxed);
  atomic_fetch_add_explicit(&uses, 1, memory_order_relaxed);
  __tsan_write8(&cells[fd][g % GENS]);
}

static uint64_t rnd(void)
{
  uint64_t z = (state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static void point(int kind)
{
  unsigned p = atomic_load_explicit(&prob_permille, memory_order_relaxed);
  if (!p || busy)
    return;
  busy = 1;
  unsigned e = atomic_load(&epoch);
  if (my_epoch != e) {
    my_epoch = e;
    my_no = atomic_fetch_add(&thread_no, 1);
    state = ((uint64_t)atomic_load(&seed) << 20) ^ (my_no * 7919u);
    rnd();
  }
  atomic_fetch_add_explicit(&points, 1, memory_order_relaxed);
  uint64_t r = rnd();
  unsigned slow = (atomic_load(&slow_mask) >> (my_no & 15)) & 1;
  if (r % 1000 < (slow ? p * 3 : p)) {
    atomic_fetch_add_explicit(&delays, 1, memory_order_relaxed);
    unsigned us = atomic_load(&max_us);
    if ((r >> 12) & 3 || !us) {
      struct timespec ts = { 0, (long)((r >> 16) % (us * (slow ? 4 : 1) + 1)) * 1000 };
      if (us) nanosleep(&ts, 0); else sched_yield();
    } else
      sched_yield();
  }
  busy = 0;
}

#define REAL(name) \
  static __typeof__(&name) real; \
  if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

int pthread_mutex_lock(pthread_mutex_t* m)
{
  REAL(pthread_mutex_lock);
  point(0);
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  REAL(pthread_mutex_unlock);
  int r = real(m);
  point(1);
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  REAL(pthread_cond_wait);
  /* between the check of a predicate and the wait, and after the wake-up */
  point(4);
  int r = real(c, m);
  point(4);
  return r;
}
int pthread_cond_signal(pthread_cond_t* c)
{
  REAL(pthread_cond_signal);
  point(2);
  int r = real(c);
  point(2);
  return r;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  REAL(pthread_cond_broadcast);
  point(2);
  int r = real(c);
  point(2);
  return r;
}
ssize_t read(int fd, void* b, size_t n)
{
  REAL(read);
  point(3);
  use(fd);
  switch (fault(fd)) {
    case 1: errno = EIO; return -1;
    case 2: return 0;
    case 3: if (n > 777) n = 777; break;
    case 4: errno = EINTR; return -1;
  }
  return real(fd, b, n);
}
ssize_t readv(int fd, const struct iovec* v, int n)
{
  REAL(readv);
  point(3);
  use(fd);
  switch (fault(fd)) {
    case 1: errno = EIO; return -1;
    case 2: return 0;
    case 3: if (n > 1) n = 1; break;
    case 4: errno = EINTR; return -1;
  }
  return real(fd, v, n);
}
off_t lseek(int fd, off_t o, int w)
{
  REAL(lseek);
  point(3);
  use(fd);
  return real(fd, o, w);
}
static FILE* opened(FILE* f, const char* name)
{
  size_t n = strlen(name);
  int fd = f ? fileno(f) : -1;
  if (fd >= 0 && fd < FDS) {
    atomic_fetch_add(&generation[fd], 1);
    atomic_store(&watched[fd], n > 5 && !memcmp(name + n - 5, ".data", 5));
  }
  return f;
}
FILE* fopen(const char* name, const char* mode)
{
  REAL(fopen);
  return opened(real(name, mode), name);
}
FILE* fopen64(const char* name, const char* mode)
{
  REAL(fopen64);
  return opened(real(name, mode), name);
}
int fclose(FILE* f)
{
  REAL(fclose);
  int fd = f ? fileno(f) : -1;
  use(fd);
  if (fd >= 0 && fd < FDS)
    atomic_store(&watched[fd], 0);
  return real(f);
}
