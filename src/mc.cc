#include "mc.h"

#include <cerrno>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <istream>
#include <mutex>
#include <ostream>
#include <thread>

#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace mc {

void (*onFailure)(const char*, const char*) = nullptr;

void fail(const char* kind, const char* text) {
  if (onFailure) onFailure(kind, text);
  _exit(99);
}

namespace {

long rawFutex(int* addr, int op, int val) {
  long ret;
  register long r10 __asm__("r10") = 0;
  register long r8 __asm__("r8") = 0;
  register long r9 __asm__("r9") = 0;
  __asm__ __volatile__("syscall"
                       : "=a"(ret)
                       : "a"((long)SYS_futex), "D"(addr), "S"((long)op),
                         "d"((long)val), "r"(r10), "r"(r8), "r"(r9)
                       : "rcx", "r11", "memory");
  return ret;
}

uint64_t mix2(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C159E3779B9ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

enum Op : uint8_t {
  opNone, opStart, opLock, opTryLock, opWaitEnter, opReacquire, opNotifyAll,
  opNotifyOne, opJoin, opYield, opExit, opRdLock, opWrLock, opUnlock, opAfterUnlock, opCreate,
  opChoose, opStream, opQuiesce
};
const char* opName(int op) {
  static const char* names[] = {
      "none", "start", "lock", "trylock", "wait", "wait(reacquire)",
      "notify_all", "notify_one", "join", "yield", "exit", "rdlock", "wrlock",
      "unlock", "after unlock or notify", "create", "choose", "stream",
      "wait until all others wait"};
  return names[op];
}

struct Object {
  const void* address;
  uint64_t hash;
  int owner;  // mutex: owning thread or -1; rwlock: writer
  int readers;
  int lastAccessThread;  // for access()
  uint32_t clock[kMaxThreads];
  uint32_t accessClock;
};
constexpr int kMaxObjects = 512;

struct Thread {
  bool used, finished, waiting, notified, timed;
  bool timedOut, yielded;
  int futex;
  Op op;
  Object* object;   // pending object
  Object* cond;     // condition waited for
  int joinTarget;
  uint64_t hash;
  uint32_t clock[kMaxThreads];
  pthread_t handle;
  bool hasHandle;
};

Thread threads[kMaxThreads];
int nThreads;
Object objects[kMaxObjects];
int nObjects;
bool isActive;
Policy policy_;
bool spurious_;
bool unlockPoints_;
bool explore_;
int nProcessors_ = 2;
int current;  // running thread
const void* startIdentities[64];
int nStartIdentities;

Point pointList[kMaxPoints];
int nPointList;
uint8_t choiceList[kMaxPoints];
int nChoiceList;
uint8_t prefixList[kMaxPoints];
int prefixLen;
int costUsed;
int maxLive, nCreated;
uint64_t nFixedSteps;
Stats stats_;

thread_local int self_ __attribute__((tls_model("initial-exec"))) = -1;

Object* findObject(const void* address) {
  for (int i = 0; i != nObjects; ++i)
    if (objects[i].address == address) return &objects[i];
  if (nObjects == kMaxObjects) fail("internal", "too many objects");
  Object& o = objects[nObjects++];
  memset(&o, 0, sizeof(o));
  o.address = address;
  o.hash = 0x1234567;
  o.owner = -1;
  o.lastAccessThread = -1;
  return &o;
}

uint64_t stateHash() {
  uint64_t sum = 0;
  for (int i = 0; i != nThreads; ++i) {
    uint64_t h = threads[i].hash;
    h = mix2(h, threads[i].finished ? 1 : 2 + threads[i].op);
    if (threads[i].waiting) h = mix2(h, threads[i].notified ? 77 : 78);
    if (i == current) h = mix2(h, 99);
    if (i == 0) h = mix2(h, 11);
    sum += h;
  }
  return mix2(sum, 5);
}

int pick(int n, int altCost, uint64_t state) {
  if (nPointList == kMaxPoints)
    fail("livelock", "too many steps: the execution does not terminate");
  Point& p = pointList[nPointList++];
  p.state = state;
  p.n = n;
  p.altCost = altCost;
  p.costBefore = costUsed;
  p.chosen = 0;
  if (n > 1) {
    if (nChoiceList < prefixLen) {
      p.chosen = prefixList[nChoiceList];
      if (p.chosen >= n) fail("divergence", "replayed choice is out of range");
    }
    choiceList[nChoiceList++] = p.chosen;
    if (p.chosen != 0) costUsed += altCost;
  }
  return p.chosen;
}

bool isEnabled(int t) {
  Thread& th = threads[t];
  if (!th.used || th.finished) return false;
  switch (th.op) {
    case opLock:
      return th.object->owner == -1;
    case opReacquire:
      return th.notified && th.object->owner == -1;
    case opRdLock:
      return th.object->owner == -1;
    case opWrLock:
      return th.object->owner == -1 && th.object->readers == 0;
    case opJoin:
      return threads[th.joinTarget].finished;
    case opYield:
      return true;
    case opQuiesce:
      for (int i = 0; i != nThreads; ++i)
        if (i != t && isEnabled(i)) return false;
      return true;
    default:
      return true;
  }
}

void deadlock() {
  char text[4000];
  size_t n = snprintf(text, sizeof text, "no thread can continue:");
  for (int i = 0; i != nThreads; ++i) {
    if (threads[i].finished) continue;
    n += snprintf(text + n, sizeof(text) - n, " thread %d in %s", i,
                  opName(threads[i].op));
    if (threads[i].op == opJoin)
      n += snprintf(text + n, sizeof(text) - n, "(%d)", threads[i].joinTarget);
    if (threads[i].op == opReacquire && !threads[i].notified)
      n += snprintf(text + n, sizeof(text) - n, "[not notified]");
    if (n > 3800) break;
  }
  fail("deadlock", text);
}

// Choose the next thread to run. The calling thread (self) has its operation
// set, or is finished.
int nextThread(int self) {
  int alts[kMaxThreads];
  int n = 0;
  const bool selfEnabled = isEnabled(self);
  const bool selfYields = selfEnabled && threads[self].op == opYield;
  if (policy_ == Policy::Lazy) {
    if (selfEnabled && !selfYields) alts[n++] = self;
    for (int i = 0; i != nThreads; ++i)
      if (i != self && isEnabled(i)) alts[n++] = i;
    if (selfYields) alts[n++] = self;
  } else {
    // Eager: let the encoder threads run before the user thread
    if (self != 0 && selfEnabled && !selfYields) alts[n++] = self;
    for (int i = 1; i < nThreads; ++i)
      if (i != self && isEnabled(i)) alts[n++] = i;
    if (self != 0 && selfYields) alts[n++] = self;
    if (isEnabled(0)) alts[n++] = 0;
  }
  if (n == 0) {
    // Last resort: let a timed wait time out
    for (int i = 0; i != nThreads && n == 0; ++i) {
      if (threads[i].used && !threads[i].finished &&
          threads[i].op == opReacquire && threads[i].timed &&
          threads[i].object->owner == -1) {
        threads[i].notified = true;
        threads[i].timedOut = true;
        alts[n++] = i;
      }
    }
    if (n == 0) deadlock();
  }
  // Symmetry: threads with equal history and equal next step are equivalent
  if (n > 2) {
    int m = 1;
    for (int i = 1; i != n; ++i) {
      bool duplicate = false;
      for (int j = 0; j != m && !duplicate; ++j) {
        Thread &a = threads[alts[i]], &b = threads[alts[j]];
        duplicate = a.hash == b.hash && a.op == b.op && a.object == b.object &&
                    a.waiting == b.waiting && a.notified == b.notified;
      }
      if (!duplicate) alts[m++] = alts[i];
    }
    n = m;
  }
  if (!explore_) {
    if (++nFixedSteps > 20000000)
      fail("livelock", "too many steps: the execution does not terminate");
    return alts[0];
  }
  const int altCost = (selfEnabled && !selfYields) ? 1 : 0;
  return alts[pick(n, altCost, stateHash())];
}

void waitForTurn(int self) {
  while (__atomic_load_n(&threads[self].futex, __ATOMIC_ACQUIRE) == 0)
    rawFutex(&threads[self].futex, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&threads[self].futex, 0, __ATOMIC_RELAXED);
}

void wake(int t) {
  __atomic_store_n(&threads[t].futex, 1, __ATOMIC_RELEASE);
  rawFutex(&threads[t].futex, FUTEX_WAKE_PRIVATE, 1);
}

void switchTo(int self, int next, bool wait) {
  if (next == self) return;
  ++stats_.switches;
  current = next;
  wake(next);
  if (wait) waitForTurn(self);
}

// The calling thread is about to do op on object.
void point(Op op, Object* object) {
  const int self = self_;
  threads[self].op = op;
  threads[self].object = object;
  if ((op == opLock || op == opReacquire) && object->owner != -1)
    ++stats_.contendedLocks;
  switchTo(self, nextThread(self), true);
}

void joinClock(uint32_t* dest, const uint32_t* source) {
  for (int i = 0; i != nThreads; ++i)
    if (source[i] > dest[i]) dest[i] = source[i];
}

// Record that the calling thread performed op on the object
void step(Op op, Object* object, uint64_t extra) {
  Thread& th = threads[self_];
  uint64_t h = mix2(th.hash, op);
  if (object) h = mix2(h, object->hash);
  h = mix2(h, extra);
  th.hash = h;
  if (object) object->hash = mix2(h, 3);
  ++th.clock[self_];
}

void acquire(Object* m) {
  m->owner = self_;
  joinClock(threads[self_].clock, m->clock);
}
void release(Object* m) {
  m->owner = -1;
  joinClock(m->clock, threads[self_].clock);
}

void threadBegin(int tid) {
  self_ = tid;
  waitForTurn(tid);
  step(opStart, nullptr, 0);
}

void threadEnd() {
  const int self = self_;
  step(opExit, nullptr, 0);
  threads[self].finished = true;
  threads[self].op = opExit;
  int next = nextThread(self);
  self_ = -1;
  switchTo(self, next, false);
}

struct StateWrapper : public std::thread::_State {
  std::unique_ptr<std::thread::_State> inner;
  int tid;
  void _M_run() override {
    threadBegin(tid);
    inner->_M_run();
    inner.reset();
    threadEnd();
  }
};

inline bool managed() { return isActive && self_ >= 0; }

}  // namespace

void reset(const uint8_t* prefix, int n) {
  if (n > kMaxPoints) n = kMaxPoints;
  memcpy(prefixList, prefix, n);
  prefixLen = n;
  nPointList = 0;
  nChoiceList = 0;
  costUsed = 0;
  memset(threads, 0, sizeof threads);
  nThreads = 1;
  threads[0].used = true;
  threads[0].hash = 0xABCDEF;
  nObjects = 0;
  current = 0;
  nStartIdentities = 0;
  maxLive = 0;
  nCreated = 0;
  nFixedSteps = 0;
  memset(&stats_, 0, sizeof stats_);
  unlockPoints_ = false;
}

void activate(int nProcessors, Policy policy, bool explore,
              bool spuriousWakeups) {
  nProcessors_ = nProcessors;
  explore_ = explore;
  policy_ = policy;
  spurious_ = spuriousWakeups;
  // Only threads that did not finish are relevant
  self_ = 0;
  current = 0;
  isActive = true;
}

int deactivate() {
  int live = liveThreads();
  isActive = false;
  self_ = -1;
  return live;
}

void setUnlockPoints(bool on) { unlockPoints_ = on; }
bool active() { return isActive; }
void setProcessors(int n) { nProcessors_ = n; }

int liveThreads() {
  int n = 0;
  for (int i = 1; i < nThreads; ++i) n += threads[i].finished ? 0 : 1;
  return n;
}
int createdThreads() { return nCreated; }
int maxLiveThreads() { return maxLive; }

void waitQuiescent() {
  if (!isActive || self_ < 0) return;
  point(opQuiesce, nullptr);
  step(opQuiesce, nullptr, 0);
}
uint64_t fixedSteps() { return nFixedSteps; }

int choose(int n, int altCost) {
  if (n <= 1) return 0;
  threads[0].op = opChoose;
  int result = pick(n, altCost, mix2(stateHash(), 17 + n));
  threads[0].hash = mix2(threads[0].hash, 1000 + result);
  return result;
}
void mix(uint64_t value) {
  int t = self_ >= 0 ? self_ : 0;
  threads[t].hash = mix2(threads[t].hash, value);
}

const Point* points() { return pointList; }
int nPoints() { return nPointList; }
int nChoices() { return nChoiceList; }
void getChoices(uint8_t* dest) { memcpy(dest, choiceList, nChoiceList); }
int prefixLength() { return prefixLen; }
bool prefixConsumed() { return nChoiceList >= prefixLen; }
int preemptionsUsed() { return costUsed; }
uint64_t finalState() { return stateHash(); }
const Stats& stats() { return stats_; }

void access(const void* address, bool /*isWrite*/, const char* what) {
  if (!managed()) return;
  Object* o = findObject(address);
  const int self = self_;
  if (o->lastAccessThread >= 0 && o->lastAccessThread != self &&
      threads[self].clock[o->lastAccessThread] < o->accessClock) {
    char text[300];
    snprintf(text, sizeof text,
             "unsynchronised use of a file stream by threads %d and %d (%s)",
             o->lastAccessThread, self, what);
    fail("race", text);
  }
  step(opStream, o, 0);
  o->lastAccessThread = self;
  o->accessClock = threads[self].clock[self];
}

}  // namespace mc

using namespace mc;

// ---- interception of the synchronisation primitives (linker option --wrap)

extern "C" {

int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                                  const struct timespec*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*,
                                  const struct timespec*);
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(
    void*, std::unique_lock<std::mutex>*);
void __real__ZNSt18condition_variable10notify_allEv(void*);
void __real__ZNSt18condition_variable10notify_oneEv(void*);
void __real__ZNSt6thread4joinEv(std::thread*);
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread*, std::unique_ptr<std::thread::_State>*, void (*)());
long __real_sysconf(int);
int __real_sched_yield();

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!managed()) return __real_pthread_mutex_lock(m);
  Object* o = findObject(m);
  if (o->owner == self_) fail("deadlock", "thread locks a mutex it holds");
  point(opLock, o);
  acquire(o);
  step(opLock, o, 0);
  return __real_pthread_mutex_lock(m);
}

int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!managed()) return __real_pthread_mutex_trylock(m);
  Object* o = findObject(m);
  point(opTryLock, o);
  const bool ok = o->owner == -1;
  if (ok) acquire(o);
  step(opTryLock, o, ok);
  return ok ? __real_pthread_mutex_trylock(m) : EBUSY;
}

int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!managed()) return __real_pthread_mutex_unlock(m);
  Object* o = findObject(m);
  step(opUnlock, o, 0);
  release(o);
  int result = __real_pthread_mutex_unlock(m);
  if (unlockPoints_) {
    // What follows may use variables that are not protected by the mutex: these
    // accesses are ordered with the later critical sections of other threads
    point(opAfterUnlock, o);
    step(opAfterUnlock, o, 0);
  }
  return result;
}

int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!managed()) return __real_pthread_rwlock_rdlock(m);
  Object* o = findObject(m);
  point(opRdLock, o);
  ++o->readers;
  joinClock(threads[self_].clock, o->clock);
  step(opRdLock, o, 0);
  return __real_pthread_rwlock_rdlock(m);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!managed()) return __real_pthread_rwlock_wrlock(m);
  Object* o = findObject(m);
  point(opWrLock, o);
  acquire(o);
  step(opWrLock, o, 0);
  return __real_pthread_rwlock_wrlock(m);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!managed()) return __real_pthread_rwlock_unlock(m);
  Object* o = findObject(m);
  step(opUnlock, o, 0);
  if (o->owner == self_)
    release(o);
  else {
    --o->readers;
    joinClock(o->clock, threads[self_].clock);
  }
  return __real_pthread_rwlock_unlock(m);
}

static bool modelWait(void* c, pthread_mutex_t* m, bool timed) {
  Object* cond = findObject(c);
  Object* mutex = findObject(m);
  point(opWaitEnter, cond);
  cond = findObject(c);
  mutex = findObject(m);
  Thread& th = threads[self_];
  ++stats_.blockedWaits;
  int wakeNow = 0;
  if (spurious_ || timed) {
    wakeNow = pick(2, 1, mix2(stateHash(), 31));
  }
  step(opWaitEnter, cond, wakeNow);
  step(opUnlock, mutex, 0);
  release(mutex);
  __real_pthread_mutex_unlock(m);
  th.waiting = true;
  th.notified = wakeNow != 0;
  th.timed = timed;
  th.timedOut = timed && wakeNow;
  th.cond = cond;
  point(opReacquire, mutex);
  const bool timedOut = th.timedOut;
  th.waiting = false;
  th.notified = false;
  th.timed = false;
  th.timedOut = false;
  th.cond = nullptr;
  acquire(mutex);
  step(opReacquire, mutex, timedOut);
  __real_pthread_mutex_lock(m);
  return timedOut;
}

void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(
    void* c, std::unique_lock<std::mutex>* lock) {
  if (!managed())
    return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(
        c, lock);
  modelWait(c, lock->mutex()->native_handle(), false);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m,
                                  clockid_t clock, const struct timespec* t) {
  if (!managed()) return __real_pthread_cond_clockwait(c, m, clock, t);
  return modelWait(c, m, true) ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                                  const struct timespec* t) {
  if (!managed()) return __real_pthread_cond_timedwait(c, m, t);
  return modelWait(c, m, true) ? ETIMEDOUT : 0;
}

void __wrap__ZNSt18condition_variable10notify_allEv(void* c) {
  if (!managed())
    return __real__ZNSt18condition_variable10notify_allEv(c);
  point(opNotifyAll, findObject(c));
  Object* cond = findObject(c);
  for (int i = 0; i != nThreads; ++i)
    if (threads[i].waiting && threads[i].cond == cond)
      threads[i].notified = true;
  step(opNotifyAll, cond, 0);
  if (unlockPoints_) {
    point(opAfterUnlock, cond);
    step(opAfterUnlock, cond, 0);
  }
}

void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) {
  if (!managed())
    return __real__ZNSt18condition_variable10notify_oneEv(c);
  point(opNotifyOne, findObject(c));
  Object* cond = findObject(c);
  int waiters[kMaxThreads], n = 0;
  for (int i = 0; i != nThreads; ++i)
    if (threads[i].waiting && threads[i].cond == cond && !threads[i].notified)
      waiters[n++] = i;
  uint64_t extra = 0;
  if (n != 0) {
    int w = n > 1 ? pick(n, 0, mix2(stateHash(), 37)) : 0;
    threads[waiters[w]].notified = true;
    threads[waiters[w]].hash = mix2(threads[waiters[w]].hash, 41);
    extra = threads[waiters[w]].hash;
  }
  step(opNotifyOne, cond, extra);
  if (unlockPoints_) {
    point(opAfterUnlock, cond);
    step(opAfterUnlock, cond, 0);
  }
}

void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread* t, std::unique_ptr<std::thread::_State>* state,
    void (*depend)()) {
  if (!managed())
    return __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
        t, state, depend);
  // Reuse the slots of threads that were joined
  int tid = 1;
  while (tid != nThreads && !(threads[tid].finished && !threads[tid].hasHandle))
    ++tid;
  if (tid == kMaxThreads) fail("internal", "too many threads");
  if (tid == nThreads) ++nThreads;
  ++nCreated;
  Thread& th = threads[tid];
  memset(&th, 0, sizeof th);
  // Threads with the same captured object are the same kind of thread
  const void* identity = reinterpret_cast<void**>(state->get())[1];
  int index = 0;
  while (index != nStartIdentities && startIdentities[index] != identity)
    ++index;
  if (index == nStartIdentities && nStartIdentities != 64)
    startIdentities[nStartIdentities++] = identity;
  step(opCreate, nullptr, index);
  th.hash = mix2(0x77777, index);
  memcpy(th.clock, threads[self_].clock, sizeof th.clock);
  th.op = opStart;
  th.used = true;
  if (maxLive < liveThreads()) maxLive = liveThreads();
  std::unique_ptr<StateWrapper> wrapper(new StateWrapper());
  wrapper->inner = std::move(*state);
  wrapper->tid = tid;
  std::unique_ptr<std::thread::_State> ptr(wrapper.release());
  __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
      t, &ptr, depend);
  th.handle = t->native_handle();
  th.hasHandle = true;
}

void __wrap__ZNSt6thread4joinEv(std::thread* t) {
  if (!managed() || !t->joinable()) return __real__ZNSt6thread4joinEv(t);
  const pthread_t handle = t->native_handle();
  int target = -1;
  for (int i = 1; i < nThreads; ++i)
    if (threads[i].hasHandle && pthread_equal(threads[i].handle, handle))
      target = i;
  if (target >= 0) {
    threads[self_].joinTarget = target;
    point(opJoin, nullptr);
    joinClock(threads[self_].clock, threads[target].clock);
    step(opJoin, nullptr, threads[target].hash);
    threads[target].hasHandle = false;
  }
  __real__ZNSt6thread4joinEv(t);
}

long __wrap_sysconf(int name) {
  if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)
    return nProcessors_;
  return __real_sysconf(name);
}
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv() { return nProcessors_; }

int __wrap_sched_yield() {
  if (!managed()) return __real_sched_yield();
  point(opYield, nullptr);
  step(opYield, nullptr, 0);
  return 0;
}
int __wrap_nanosleep(const struct timespec*, struct timespec*) {
  return __wrap_sched_yield();
}
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec*,
                           struct timespec*) {
  return __wrap_sched_yield();
}
int __wrap_usleep(unsigned) { return __wrap_sched_yield(); }

// Randomness: random_device always gives the same sequence
static uint32_t randomState = 1;
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) {
  return randomState = randomState * 1664525u + 1013904223u;
}
void mcSeedRandomDevice(unsigned value) { randomState = value; }

// Operations on the stream of the storage manager: no two threads may use it
// without synchronisation (libstdc++ itself is not instrumented)
std::istream* __real__ZNSi4readEPcl(std::istream*, char*, long);
std::istream* __real__ZNSi5seekgElSt12_Ios_Seekdir(std::istream*, long, int);
std::ostream* __real__ZNSo5seekpElSt12_Ios_Seekdir(std::ostream*, long, int);
std::ostream* __real__ZNSo5writeEPKcl(std::ostream*, const char*, long);
std::ostream* __real__ZNSo5flushEv(std::ostream*);

static const void* streamId(const std::ios_base* s) { return s; }

std::istream* __wrap__ZNSi4readEPcl(std::istream* s, char* d, long n) {
  access(streamId(s), true, "read");
  return __real__ZNSi4readEPcl(s, d, n);
}
std::istream* __wrap__ZNSi5seekgElSt12_Ios_Seekdir(std::istream* s, long o,
                                                   int d) {
  access(streamId(s), true, "seekg");
  return __real__ZNSi5seekgElSt12_Ios_Seekdir(s, o, d);
}
std::ostream* __wrap__ZNSo5seekpElSt12_Ios_Seekdir(std::ostream* s, long o,
                                                   int d) {
  access(streamId(s), true, "seekp");
  return __real__ZNSo5seekpElSt12_Ios_Seekdir(s, o, d);
}
std::ostream* __wrap__ZNSo5writeEPKcl(std::ostream* s, const char* d, long n) {
  access(streamId(s), true, "write");
  return __real__ZNSo5writeEPKcl(s, d, n);
}
std::ostream* __wrap__ZNSo5flushEv(std::ostream* s) {
  access(streamId(s), true, "flush");
  return __real__ZNSo5flushEv(s);
}
}
