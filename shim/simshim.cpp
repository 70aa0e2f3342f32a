// Preloaded into worker processes that need it. Three seams, all off until
// armed through the C functions below:
//
//  1. operator new: fail the n-th allocation of the calling thread (once, or
//     that one and all later ones).
//  2. Thread scheduling: registered threads run one at a time. Yield points are
//     explicit calls (sim_yield, from Python hooks), and, while the interpreter
//     lock is released, allocations, deallocations and the entry and exit of
//     every function of an instrumented (-finstrument-functions) build. A
//     seeded generator decides when to switch, and to whom.
//  3. File I/O below a given directory: open, read, write and close calls can
//     be cut short or made to fail.

#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <dlfcn.h>
#include <malloc.h>
#include <errno.h>
#include <fcntl.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <sys/types.h>
#include <unistd.h>

namespace
{
// -- allocation --------------------------------------------------------------
thread_local long allocLeft = -1;  // allocations until failure; -1 is off
thread_local long allocSeen = 0;
thread_local int allocSticky = 0;
thread_local int allocNoGil = 0;  // only while the interpreter lock is free
thread_local int allocFired = 0;

// -- scheduling --------------------------------------------------------------
constexpr int MAX = 8;
struct Sched
{
    std::mutex m;
    std::condition_variable cv;
    int n = 0;
    int turn = -1;
    bool alive[MAX] = {};
    uint64_t rng = 1;
    long mean = 100;      // mean number of yield points between decisions
    long maxSwitches = 0; // no more switches after this many
    long switches = 0;
    long native = 0;  // of which in native code
    long blocks = 0;  // switches because a thread was blocked by a lock

    bool alone() const
    {
        int k = 0;
        for (int i = 0; i != n; ++i)
            k += alive[i];
        return k <= 1;
    }

    uint64_t hash = 1469598103934665603ULL;
} S;

thread_local int me = -1;
thread_local long countdown = 0;
thread_local bool busy = false;
thread_local long points = 0;

using GilCheck = int (*)();
GilCheck gilCheck = nullptr;

void findGil()
{
    gilCheck = reinterpret_cast<GilCheck>(
        dlsym(RTLD_DEFAULT, "PyGILState_Check"));
}

uint64_t next()
{
    uint64_t x = S.rng;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return S.rng = x;
}

long draw() { return 1 + static_cast<long>(next() % (2 * S.mean)); }

int pick(int notThis)
{
    int cand[MAX], k = 0;
    for (int i = 0; i != S.n; ++i)
        if (S.alive[i] && i != notThis)
            cand[k++] = i;
    return k ? cand[next() % k] : -1;
}

void mix(uint64_t v)
{
    S.hash ^= v;
    S.hash *= 1099511628211ULL;
}

void reschedule(int kind)
{
    busy = true;
    {
        std::unique_lock lock(S.m);
        countdown = draw();
        if (S.switches < S.maxSwitches)
        {
            int const to = pick(me);
            if (to >= 0)
            {
                S.switches++;
                S.native += kind >= 100;
                mix(kind);
                mix(points);
                mix(me * 16 + to);
                S.turn = to;
                S.cv.notify_all();
                S.cv.wait(lock, [] { return S.turn == me; });
            }
        }
    }
    busy = false;
}

inline void nativePoint(int kind)
{
    if (me < 0 || busy || !gilCheck || gilCheck())
        return;  // threads with the interpreter lock switch in sim_yield only
    points++;
    if (--countdown > 0)
        return;
    reschedule(kind);
}

// Called when this thread cannot go on before some other one did: switches
// without regard for the switch limit.
void blocked(int kind, int &tries)
{
    if (++tries > 20000)
    {
        char const msg[] = "DEADLOCK: no registered thread can go on\n";
        [[maybe_unused]] auto r = ::write(2, msg, sizeof(msg) - 1);
        std::abort();
    }
    busy = true;
    {
        std::unique_lock lock(S.m);
        int const to = pick(me);
        if (to >= 0)
        {
            S.blocks++;
            mix(kind);
            mix(me * 16 + to);
            S.turn = to;
            S.cv.notify_all();
            S.cv.wait(lock, [] { return S.turn == me; });
        }
    }
    busy = false;
    if (S.alone())
        usleep(50);
}

void *allocate(std::size_t size)
{
    nativePoint(100);
    if (allocLeft >= 0 && !(allocNoGil && gilCheck && gilCheck()))
    {
        allocSeen++;
        if (allocLeft == 0)
        {
            allocFired++;
            if (!allocSticky)
                allocLeft = -1;
            throw std::bad_alloc();
        }
        allocLeft--;
    }
    void *p = std::malloc(size ? size : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}

void *allocate(std::size_t size, std::align_val_t align)
{
    if (allocLeft >= 0 && !(allocNoGil && gilCheck && gilCheck()))
    {
        allocSeen++;
        if (allocLeft == 0)
        {
            allocFired++;
            if (!allocSticky)
                allocLeft = -1;
            throw std::bad_alloc();
        }
        allocLeft--;
    }
    void *p = nullptr;
    if (posix_memalign(&p, static_cast<std::size_t>(align), size ? size : 1))
        throw std::bad_alloc();
    return p;
}
}  // namespace

void *operator new(std::size_t size) { return allocate(size); }
void *operator new[](std::size_t size) { return allocate(size); }
void *operator new(std::size_t size, std::align_val_t a)
{
    return allocate(size, a);
}
void *operator new[](std::size_t size, std::align_val_t a)
{
    return allocate(size, a);
}
namespace
{
// Freed memory is overwritten and kept aside for a while, so that whoever
// still reads it reads the same wrong values in every execution.
constexpr std::size_t QUARANTINE = 1 << 14;
void *quarantine[QUARANTINE];
std::size_t quarantineNext = 0;
std::atomic<bool> poison{false};

void release(void *p)
{
    if (!p)
        return;
    if (!poison)
        return std::free(p);
    std::memset(p, 0xA5, malloc_usable_size(p));
    std::free(quarantine[quarantineNext]);
    quarantine[quarantineNext] = p;
    quarantineNext = (quarantineNext + 1) % QUARANTINE;
}
}  // namespace

void operator delete(void *p) noexcept
{
    nativePoint(101);
    release(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { release(p); }
void operator delete[](void *p, std::align_val_t) noexcept { release(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept
{
    release(p);
}
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept
{
    release(p);
}

extern "C"
{
// Single threaded programs only.
void sim_heap_poison(int on) { poison = on; }
}

extern "C"
{
void __cyg_profile_func_enter(void *, void *) { nativePoint(102); }
void __cyg_profile_func_exit(void *, void *) { nativePoint(103); }

void sim_alloc_arm(long n, int sticky, int noGil)
{
    findGil();
    allocNoGil = noGil;
    allocLeft = n;
    allocSticky = sticky;
    allocSeen = 0;
    allocFired = 0;
}

// Disarms; returns how often an allocation was made to fail.
int sim_alloc_disarm(long *seen)
{
    allocLeft = -1;
    if (seen)
        *seen = allocSeen;
    return allocFired;
}

void sim_sched_init(int n, uint64_t seed, long mean, long maxSwitches)
{
    std::unique_lock lock(S.m);
    findGil();
    S.n = n;
    S.turn = -1;
    for (int i = 0; i != MAX; ++i)
        S.alive[i] = i < n;
    S.rng = seed * 2654435761ULL + 88172645463325252ULL;
    for (int i = 0; i != 8; ++i)
        next();
    S.mean = mean;
    S.maxSwitches = maxSwitches;
    S.switches = S.native = S.blocks = 0;
    S.hash = 1469598103934665603ULL;
}

void sim_sched_enter(int id)
{
    std::unique_lock lock(S.m);
    me = id;
    points = 0;
    busy = true;
    S.cv.wait(lock, [] { return S.turn == me; });
    countdown = draw();
    busy = false;
}

void sim_sched_start()
{
    std::unique_lock lock(S.m);
    S.turn = pick(-1);
    S.cv.notify_all();
}

void sim_sched_exit()
{
    busy = true;
    {
        std::unique_lock lock(S.m);
        S.alive[me] = false;
        S.turn = pick(me);
        me = -1;
        S.cv.notify_all();
    }
    busy = false;
}

void sim_yield(int kind)
{
    if (me < 0 || busy)
        return;
    points++;
    if (--countdown > 0)
        return;
    reschedule(kind);
}

void sim_sched_stats(long *switches, long *native, long *blocks, uint64_t *hash)
{
    *blocks = S.blocks;
    *switches = S.switches;
    *native = S.native;
    *hash = S.hash;
}
}

// -- locks -------------------------------------------------------------------
// A registered thread that meets a lock held by a thread that is not running
// lets others go first. Locks that are held only for a moment by a thread
// outside the simulation are waited for as usual.
namespace
{
template <class Try> bool momentary(Try attempt)
{
    for (int i = 0; i != 40; ++i)
    {
        if (attempt())
            return true;
        usleep(25);
    }
    return false;
}

template <class F> F next_symbol(char const *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}  // namespace

extern "C"
{
int pthread_mutex_lock(pthread_mutex_t *m)
{
    static auto const lock
        = next_symbol<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    if (me < 0 || busy)
        return lock(m);
    int rc = 0;
    auto const attempt = [&]
    {
        rc = pthread_mutex_trylock(m);
        return rc != EBUSY;
    };
    int tries = 0;
    while (!attempt() && !momentary(attempt))
        blocked(200, tries);
    return rc;
}

int sem_wait(sem_t *sem)
{
    static auto const wait = next_symbol<int (*)(sem_t *)>("sem_wait");
    if (me < 0 || busy)
        return wait(sem);
    auto const attempt = [&] { return sem_trywait(sem) == 0; };
    int tries = 0;
    while (!attempt() && !momentary(attempt))
        blocked(201, tries);
    return 0;
}

int sem_clockwait(sem_t *sem, clockid_t clock, timespec const *ts)
{
    static auto const wait
        = next_symbol<int (*)(sem_t *, clockid_t, timespec const *)>(
            "sem_clockwait");
    if (me < 0 || busy)
        return wait(sem, clock, ts);
    return sem_wait(sem);
}
}

// -- file I/O ----------------------------------------------------------------
namespace
{
constexpr int OPS = 4;  // open, read, write, close
enum Op
{
    OPEN,
    READ,
    WRITE,
    CLOSE
};

struct Fault
{
    int op;
    long at;      // zero-based index of the call among those of this kind
    long keep;    // bytes actually transferred (-1: all or none, see err)
    int err;      // errno to fail with; zero for a short transfer
    int repeat;   // fail also all later calls
};

struct Io
{
    char dir[512] = {};
    size_t len = 0;
    Fault faults[16];
    int n = 0;
    long calls[OPS] = {};
    long fired[OPS] = {};
    bool mine[4096] = {};
    int pending = 0;  // errno that the next write fails with
} io;

template <class F> F real(char const *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

Fault const *hit(Op op)
{
    long const k = io.calls[op]++;
    for (int i = 0; i != io.n; ++i)
    {
        auto const &f = io.faults[i];
        if (f.op == op && (f.at == k || (f.repeat && k > f.at)))
        {
            io.fired[op]++;
            return &f;
        }
    }
    return nullptr;
}

bool match(char const *path)
{
    return io.len && path && !std::strncmp(path, io.dir, io.len);
}

template <class F>
int doOpen(char const *name, char const *path, int flags, mode_t mode, F call)
{
    (void)name;
    if (!match(path))
        return call();
    if (auto const *f = hit(OPEN); f && f->err)
    {
        errno = f->err;
        return -1;
    }
    (void)flags;
    (void)mode;
    int const fd = call();
    if (fd >= 0 && fd < 4096)
        io.mine[fd] = true;
    return fd;
}

mode_t modeOf(int flags, va_list ap)
{
    return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
}
}  // namespace

extern "C"
{
void sim_io_arm(char const *dir)
{
    std::strncpy(io.dir, dir, sizeof(io.dir) - 1);
    io.len = std::strlen(io.dir);
    io.n = 0;
    io.pending = 0;
    for (int i = 0; i != OPS; ++i)
        io.calls[i] = io.fired[i] = 0;
    std::memset(io.mine, 0, sizeof(io.mine));
}

void sim_io_fault(int op, long at, long keep, int err, int repeat)
{
    if (io.n < 16)
        io.faults[io.n++] = {op, at, keep, err, repeat};
}

void sim_io_disarm(long *calls, long *fired)
{
    io.len = 0;
    io.n = 0;
    io.pending = 0;
    for (int i = 0; i != OPS; ++i)
    {
        calls[i] = io.calls[i];
        fired[i] = io.fired[i];
    }
    std::memset(io.mine, 0, sizeof(io.mine));
}

int open(char const *path, int flags, ...)
{
    static auto fn = real<int (*)(char const *, int, ...)>("open");
    va_list ap;
    va_start(ap, flags);
    mode_t const mode = modeOf(flags, ap);
    va_end(ap);
    return doOpen(
        "open", path, flags, mode, [&] { return fn(path, flags, mode); });
}

int open64(char const *path, int flags, ...)
{
    static auto fn = real<int (*)(char const *, int, ...)>("open64");
    va_list ap;
    va_start(ap, flags);
    mode_t const mode = modeOf(flags, ap);
    va_end(ap);
    return doOpen(
        "open64", path, flags, mode, [&] { return fn(path, flags, mode); });
}

int openat(int dfd, char const *path, int flags, ...)
{
    static auto fn = real<int (*)(int, char const *, int, ...)>("openat");
    va_list ap;
    va_start(ap, flags);
    mode_t const mode = modeOf(flags, ap);
    va_end(ap);
    return doOpen(
        "openat", path, flags, mode, [&] { return fn(dfd, path, flags, mode); });
}

int openat64(int dfd, char const *path, int flags, ...)
{
    static auto fn = real<int (*)(int, char const *, int, ...)>("openat64");
    va_list ap;
    va_start(ap, flags);
    mode_t const mode = modeOf(flags, ap);
    va_end(ap);
    return doOpen("openat64", path, flags, mode,
                  [&] { return fn(dfd, path, flags, mode); });
}

ssize_t read(int fd, void *buf, size_t count)
{
    static auto fn = real<ssize_t (*)(int, void *, size_t)>("read");
    if (io.len && fd >= 0 && fd < 4096 && io.mine[fd])
        if (auto const *f = hit(READ))
        {
            if (f->err)
            {
                errno = f->err;
                return -1;
            }
            if (f->keep > 0 && static_cast<size_t>(f->keep) < count)
                count = f->keep;
        }
    return fn(fd, buf, count);
}

ssize_t write(int fd, void const *buf, size_t count)
{
    static auto fn = real<ssize_t (*)(int, void const *, size_t)>("write");
    if (io.len && fd >= 0 && fd < 4096 && io.mine[fd])
    {
        if (io.pending)
        {
            errno = io.pending;
            io.pending = 0;
            return -1;
        }
        if (auto const *f = hit(WRITE))
        {
            size_t keep = count;
            if (f->keep >= 0 && static_cast<size_t>(f->keep) < count)
                keep = f->keep;
            if (f->err && f->keep > 0 && !io.pending)
            {
                io.pending = f->err;  // short now, then the next call fails
                return fn(fd, buf, keep);
            }
            if (f->err)
            {
                errno = f->err;
                return -1;
            }
            if (keep == 0)
                keep = 1;
            return fn(fd, buf, keep);
        }
    }
    return fn(fd, buf, count);
}

int close(int fd)
{
    static auto fn = real<int (*)(int)>("close");
    bool const mine = io.len && fd >= 0 && fd < 4096 && io.mine[fd];
    if (mine)
        io.mine[fd] = false;
    int const rc = fn(fd);
    if (mine)
        if (auto const *f = hit(CLOSE); f && f->err)
        {
            errno = f->err;
            return -1;
        }
    return rc;
}
}
