// A stand-in for the thread library: the threads of the code under test are real, but exactly one of them runs at a time,
// and at every operation on a lock, condition, thread or clock the script (or a seeded generator) decides which one goes on.
// Time is virtual.  Misuse of the primitives is logged as a "bad" event, and the state in which no thread can go on as "stuck".
#ifndef COOP_H
#define COOP_H
#include "harness.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>
#include <errno.h>
#include <map>
#include <random>
namespace coop {
enum St { RUN, LOCK, COND, SLEEP, JOIN, DONE };
struct CT { int id; sem_t go; St st; void *m; void *c; uint64_t dl; bool timed, woken; CT *jt; void *(*fn)(void *); void *arg; std::string label; pthread_t tid; };
struct MS { CT *owner; bool dead; };
struct CS { std::vector<CT *> w; bool dead; };
static bool on = false;
static thread_local CT *me = NULL;
static std::vector<CT *> T;
static std::map<void *, MS> M;
static std::map<void *, CS> C;
static uint64_t now_us = 0;
static std::vector<int> plan; static size_t planPos = 0; static std::mt19937 rnd(1); static int sticky = 0;
template <class F> static F real(F, const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define COOP_REAL(f, ...) ({ static auto rf = coop::real(&f, #f); rf(__VA_ARGS__); })
static void bad(const char *w) { Js("bad").i("t", me ? me->id : -1).str("why", w).log(); }
static bool ready(CT *t) {
    switch (t->st) {
        case RUN: return true;
        case LOCK: return M[t->m].owner == NULL;
        case COND: return (t->woken || (t->timed && now_us >= t->dl)) && M[t->m].owner == NULL;
        case SLEEP: return now_us >= t->dl;
        case JOIN: if (t->jt) return t->jt->st == DONE; for (CT *o : T) if (o != t && o->st != DONE) return false; return true;
        default: return false;
    }
}
static void finish() { Js("end").log(); fclose(h_out); _exit(77); }
static void sw() {
    CT *self = me; CT *nx = NULL;
    while (!nx) {
        std::vector<CT *> R; for (CT *t : T) if (ready(t)) R.push_back(t);
        if (R.empty()) {
            bool any = false; uint64_t dl = 0;
            for (CT *t : T) if ((t->st == SLEEP || (t->st == COND && t->timed && !t->woken)) && t->dl > now_us) { if (!any || t->dl < dl) dl = t->dl; any = true; }
            if (!any) {
                std::vector<int64_t> v; for (CT *t : T) if (t->st != DONE) v.push_back(t->id);
                Js("stuck").arr("ts", v).log(); finish();
            }
            now_us = dl; Js("jump").i("clk", now_us / 1000).log(); continue;
        }
        if (R.size() == 1) nx = R[0];
        else if (planPos < plan.size()) {
            int v = plan[planPos++]; nx = R[v % R.size()];
            if (v >= 1000) for (CT *t : R) if (t->id == v - 1000) nx = t;      // names a thread, if it can move
        }
        else if (sticky && self && ready(self) && (int)(rnd() % 100) < sticky) nx = self;
        else nx = R[rnd() % R.size()];
    }
    if (nx->st == LOCK) { M[nx->m].owner = nx; }
    if (nx->st == COND) {
        std::vector<CT *> &w = C[nx->c].w; for (size_t i = 0; i < w.size(); ++i) if (w[i] == nx) { w.erase(w.begin() + i); break; }
        M[nx->m].owner = nx;
    }
    nx->st = RUN;
    if (nx == self) return;
    sem_post(&nx->go);
    if (self->st != DONE) while (sem_wait(&self->go)) {}
}
static void point() { if (on && me) sw(); }
static void start(unsigned seed) {
    CT *t = new CT(); t->id = 0; sem_init(&t->go, 0, 0); t->st = RUN; t->label = "main"; T.push_back(t); me = t; rnd.seed(seed); on = true;
}
static void waitAll() { if (!me) return; me->st = JOIN; me->jt = NULL; sw(); }
static void *tramp(void *p) {
    CT *t = (CT *)p; while (sem_wait(&t->go)) {}
    me = t; void *r = t->fn(t->arg);
    Js("texit").i("t", t->id).log();
    t->st = DONE; sw(); return r;
}
static bool alive(void *m) { auto i = M.find(m); return i == M.end() || !i->second.dead; }
static int doWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t dl) {
    if (!alive(m) || C[c].dead) bad("wait on something destroyed");
    if (M[m].owner != me) { bad("wait without the lock"); } else M[m].owner = NULL;
    me->st = COND; me->m = m; me->c = c; me->timed = timed; me->dl = dl; me->woken = false; C[c].w.push_back(me);
    sw();
    return me->woken ? 0 : ETIMEDOUT;
}
static uint64_t us(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000 + (t->tv_nsec + 999) / 1000; }
}
extern "C" {
using namespace coop;
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (on && me) { M[m] = MS{NULL, false}; return 0; } return COOP_REAL(pthread_mutex_init, m, a); }
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (!(on && me)) return COOP_REAL(pthread_mutex_destroy, m);
    if (!alive(m)) bad("lock destroyed twice");
    if (M[m].owner) bad("lock destroyed while held");
    for (CT *t : T) if ((t->st == LOCK || t->st == COND) && t->m == m) bad("lock destroyed while a thread waits for it");
    M[m].dead = true; return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!(on && me)) return COOP_REAL(pthread_mutex_lock, m);
    point();
    if (!alive(m)) bad("lock of something destroyed");
    me->st = LOCK; me->m = m; sw(); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!(on && me)) return COOP_REAL(pthread_mutex_trylock, m);
    point();
    if (!alive(m)) bad("trylock of something destroyed");
    if (M[m].owner) return EBUSY;
    M[m].owner = me; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!(on && me)) return COOP_REAL(pthread_mutex_unlock, m);
    if (!alive(m)) bad("unlock of something destroyed");
    if (M[m].owner != me) bad("unlock by a thread that does not hold the lock"); else M[m].owner = NULL;
    point(); return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { if (on && me) { C[c] = CS(); C[c].dead = false; return 0; } return COOP_REAL(pthread_cond_init, c, a); }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (!(on && me)) return COOP_REAL(pthread_cond_destroy, c);
    if (!C[c].w.empty()) bad("condition destroyed while a thread waits");
    C[c].dead = true; return 0;
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!(on && me)) return COOP_REAL(pthread_cond_signal, c);
    if (C[c].dead) bad("signal to something destroyed");
    std::vector<CT *> w; for (CT *t : C[c].w) if (!t->woken && !(t->timed && now_us >= t->dl)) w.push_back(t);
    if (!w.empty()) w[w.size() == 1 ? 0 : planPos < plan.size() ? plan[planPos++] % w.size() : rnd() % w.size()]->woken = true;
    point(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!(on && me)) return COOP_REAL(pthread_cond_broadcast, c);
    if (C[c].dead) bad("broadcast to something destroyed");
    for (CT *t : C[c].w) t->woken = true;
    point(); return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return on && me ? doWait(c, m, false, 0) : COOP_REAL(pthread_cond_wait, c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *a) { return on && me ? doWait(c, m, true, us(a)) : COOP_REAL(pthread_cond_timedwait, c, m, a); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *a) { return on && me ? doWait(c, m, true, us(a)) : COOP_REAL(pthread_cond_clockwait, c, m, k, a); }
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    if (!(on && me)) return COOP_REAL(pthread_create, p, a, f, arg);
    CT *t = new CT(); t->id = (int)T.size(); sem_init(&t->go, 0, 0); t->st = RUN; t->fn = f; t->arg = arg;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED); pthread_attr_setstacksize(&at, 1 << 20);
    int r = COOP_REAL(pthread_create, &t->tid, &at, tramp, t); if (r) return r;
    T.push_back(t); *p = t->tid; Js("spawn").i("t", me->id).i("n", t->id).log(); point(); return 0;
}
int pthread_detach(pthread_t p) { return on && me ? 0 : COOP_REAL(pthread_detach, p); }
int pthread_join(pthread_t p, void **r) {
    if (!(on && me)) return COOP_REAL(pthread_join, p, r);
    for (CT *t : T) if (t != me && pthread_equal(t->tid, p)) { me->st = JOIN; me->jt = t; sw(); return 0; }
    return ESRCH;
}
int gettimeofday(struct timeval *t, void *z) { if (on && me) { t->tv_sec = now_us / 1000000; t->tv_usec = now_us % 1000000; return 0; } return COOP_REAL(gettimeofday, t, z); }
int clock_gettime(clockid_t k, struct timespec *t) { if (on && me) { t->tv_sec = now_us / 1000000; t->tv_nsec = now_us % 1000000 * 1000; return 0; } return COOP_REAL(clock_gettime, k, t); }
static int coopSleep(uint64_t d) { me->st = SLEEP; me->dl = now_us + d; sw(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { return on && me ? coopSleep(us(a)) : COOP_REAL(nanosleep, a, b); }
int usleep(useconds_t u) { return on && me ? coopSleep(u) : COOP_REAL(usleep, u); }
unsigned sleep(unsigned s) { return on && me ? coopSleep((uint64_t)s * 1000000) : COOP_REAL(sleep, s); }
int clock_nanosleep(clockid_t k, int fl, const struct timespec *a, struct timespec *b) {
    if (!(on && me)) return COOP_REAL(clock_nanosleep, k, fl, a, b);
    if (fl & TIMER_ABSTIME) { me->st = SLEEP; me->dl = us(a); sw(); return 0; }
    return coopSleep(us(a));
}
int sched_yield() { if (on && me) { point(); return 0; } return COOP_REAL(sched_yield); }
}
#endif
