/* Cooperative scheduler for two threads (1 and 2): a thread runs until its next chosen preemption point, then hands over.
   Points are the lines of Python reported by a trace function and the basic blocks of kernels that run without the
   interpreter lock. Waiting threads never hold that lock. */
#include <errno.h>
#include <semaphore.h>
#include <time.h>
extern int PyGILState_Check(void);
static sem_t go[3];
static __thread int me;
static volatile long cnt[3], at[3][8];
static volatile int nx[3], done[3], blocked, started, switches, ready;
void sched_register(int i) { if (!ready) { sem_init(&go[1], 0, 0); sem_init(&go[2], 0, 0); ready = 1; } me = i; }
void sched_reset(void) { int i; for (i = 1; i < 3; i++) { cnt[i] = 0; nx[i] = 0; done[i] = 0; at[i][0] = -1; while (sem_trywait(&go[i]) == 0); }
  blocked = switches = started = 0; }
void sched_at(int i, int k, long v) { at[i][k] = v; at[i][k + 1] = -1; }
long sched_count(int i) { return cnt[i]; }
int sched_blocked(void) { return blocked; }
int sched_switches(void) { return switches; }
static int wait_ms(int i, long ms)
{
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  t.tv_sec += ms / 1000; t.tv_nsec += (ms % 1000) * 1000000L;
  if (t.tv_nsec >= 1000000000L) { t.tv_sec++; t.tv_nsec -= 1000000000L; }
  while (sem_timedwait(&go[i], &t)) if (errno != EINTR) return 0;
  return 1;
}
static void hand_over(void)
{
  int o = 3 - me;
  if (done[o] || blocked) return;
  switches++;
  sem_post(&go[o]);
  if (!wait_ms(me, 1500)) blocked = 1;   /* the other one waits for something of mine: it is not enabled */
}
void sched_point(void)
{
  long c;
  if (!me) return;
  c = ++cnt[me];
  if (nx[me] < 7 && at[me][nx[me]] == c) { nx[me]++; hand_over(); }
}
void __sanitizer_cov_trace_pc(void) { if (!me || PyGILState_Check()) return; sched_point(); }
/* thread 2 */
int sched_start(int i) { while (sem_wait(&go[i])); return 1; }
void sched_finish(int i) { done[i] = 1; sem_post(&go[3 - i]); }
/* thread 1, at its end: let the other one run to its end; 0 when it does not end */
int sched_join(int i)
{
  int o = 3 - i, k;
  done[i] = 1;
  for (k = 0; !done[o]; k++) { if (k == 4) return 0; sem_post(&go[o]); wait_ms(i, 5000); }
  return 1;
}
