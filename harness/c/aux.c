/* What sqlite3.c needs of libc beyond the executor's own models. */
typedef unsigned long size_t;
typedef unsigned long pthread_t;
pthread_t pthread_self(void);
int sched_yield(void);
int clock_gettime(int, long *);
/* Recursive mutexes, whatever the type asked for. */
struct m { int taken; int depth; unsigned long owner; };
int pthread_mutexattr_init(void *a) { return 0; }
int pthread_mutexattr_settype(void *a, int t) { return 0; }
int pthread_mutexattr_destroy(void *a) { return 0; }
int pthread_mutex_init(struct m *m, void *a) { m->taken = 0; m->depth = 0; m->owner = 0; return 0; }
int pthread_mutex_destroy(struct m *m) { return 0; }
int pthread_mutex_trylock(struct m *m) {
  unsigned long me = pthread_self() + 1;
  if (__atomic_load_n(&m->owner, __ATOMIC_SEQ_CST) == me) { m->depth++; return 0; }
  int z = 0;
  if (!__atomic_compare_exchange_n(&m->taken, &z, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 16;
  __atomic_store_n(&m->owner, me, __ATOMIC_SEQ_CST);
  m->depth = 1;
  return 0;
}
int pthread_mutex_lock(struct m *m) { while (pthread_mutex_trylock(m)) sched_yield(); return 0; }
int pthread_mutex_unlock(struct m *m) {
  if (--m->depth == 0) { __atomic_store_n(&m->owner, 0, __ATOMIC_SEQ_CST); __atomic_store_n(&m->taken, 0, __ATOMIC_SEQ_CST); }
  return 0;
}
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n--; s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
size_t strspn(const char *s, const char *w) { size_t n = 0; while (s[n] && strchr(w, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *w) { size_t n = 0; while (s[n] && !strchr(w, s[n])) n++; return n; }
double fabs(double x) { return x < 0 ? -x : x; }
long time(long *t) { long s[2]; clock_gettime(0, s); if (t) *t = s[0]; return s[0]; }
int gettimeofday(long *t, void *z) { clock_gettime(0, t); t[1] /= 1000; return 0; }
void *localtime_r(const long *t, void *r) { return 0; }
int utimes(const char *p, const void *t) { return 0; }
void sx_waiting(void);
int nanosleep(const void *a, void *b) { sx_waiting(); sched_yield(); return 0; }
unsigned sleep(unsigned s) { sx_waiting(); sched_yield(); return 0; }
int usleep(unsigned s) { sx_waiting(); sched_yield(); return 0; }
