#include "sched.hpp"
#include <pthread.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <memory>
#include <algorithm>
#include <chrono>

// Race detection: the library is compiled with ThreadSanitizer, the harness is not. Threads are handed
// over by raw futexes which the detector does not see, so that only the library's own locks and the
// documented ordering of provider callbacks count as synchronisation. Every schedule stays reproducible.
extern "C" void __tsan_acquire(void*) __attribute__((weak));
extern "C" void __tsan_release(void*) __attribute__((weak));
extern "C" void __tsan_mutex_create(void*, unsigned) __attribute__((weak));
extern "C" void __tsan_mutex_pre_lock(void*, unsigned) __attribute__((weak));
extern "C" void __tsan_mutex_post_lock(void*, unsigned, int) __attribute__((weak));
extern "C" int __tsan_mutex_pre_unlock(void*, unsigned) __attribute__((weak));
extern "C" void __tsan_mutex_post_unlock(void*, unsigned) __attribute__((weak));

namespace sim
{
    Latch H;
    char g_gone;
    void hb_rel(const void* p) { if (__tsan_release) __tsan_release(const_cast<void*>(p)); }
    void hb_acq(const void* p) { if (__tsan_acquire) __tsan_acquire(const_cast<void*>(p)); }
    static void locked(void* m) { if (__tsan_mutex_pre_lock) { __tsan_mutex_pre_lock(m, 0); __tsan_mutex_post_lock(m, 0, 1); } }
    static void unlocked(void* m) { if (__tsan_mutex_pre_unlock) { __tsan_mutex_pre_unlock(m, 0); __tsan_mutex_post_unlock(m, 0); } }
    static inline bool raw_cas(volatile int* p, int o, int n)
    {
        unsigned char r;
        __asm__ __volatile__("lock; cmpxchgl %3,%1; sete %0"
                             : "=q"(r), "+m"(*p), "+a"(o) : "r"(n) : "memory");
        return r;
    }
    struct Gate
    {
        volatile int v = 0;
        void wait() { while (!raw_cas(&v, 1, 0)) syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
        void post() { v = 1; __asm__ __volatile__("mfence" ::: "memory"); syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
    };
    namespace sched
    {
        struct T
        {
            int id;
            std::string name;
            int node;
            std::function<void()> fn;
            pthread_t th;
            Gate sem;
            enum { runnable, blocked, sleeping, done, frozen } st;
            const void* obj;
            const char* where;
            uint64_t wake;
            int prio;
        };
        static Params P;
        static std::vector<std::unique_ptr<T>> threads;
        static thread_local T* me = nullptr;
        static Rng rng(1);
        static uint64_t clock_us = 1000000;
        static uint64_t n_steps = 0, n_switches = 0, hsh = 1469598103934665603ull;
        static Gate main_sem;
        static bool finished = false;
        static std::vector<uint64_t> change_points;
        int in_lib_lock = 0;
        static volatile int free_finished = 0;
        static volatile int free_live = 0;

        bool free_mode() { return P.free_mode; }
        void init(const Params& p)
        {
            P = p;
            rng = Rng(p.seed ^ 0xabcdef);
            if (P.pct_depth)
                for (int i = 0; i < P.pct_depth; ++i)
                    change_points.push_back(rng.below(4000));
        }
        uint64_t now_us()
        {
            if (P.free_mode)
            {
                struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
                return uint64_t(ts.tv_sec) * 1000000 + ts.tv_nsec / 1000;
            }
            return clock_us;
        }
        uint64_t steps() { return n_steps; }
        uint64_t switches() { return n_switches; }
        uint64_t hash() { return hsh; }
        int self() { return me ? me->id : -1; }
        int self_node() { return me ? me->node : -1; }

        std::string dump()
        {
            std::ostringstream os;
            for (auto& t : threads)
            {
                if (t->st == T::done) continue;
                os << " [" << t->name << " "
                   << (t->st == T::runnable ? "runnable" : t->st == T::blocked ? "blocked"
                       : t->st == T::sleeping ? "sleeping" : "frozen")
                   << " at " << (t->where ? t->where : "?") << "]";
            }
            return os.str();
        }

        static void* entry(void* arg)
        {
            T* t = static_cast<T*>(arg);
            me = t;
            if (!P.free_mode)
            {
                t->sem.wait();
            }
            t->fn();
            if (P.free_mode)
            {
                t->st = T::done;
                __atomic_sub_fetch(&free_live, 1, __ATOMIC_RELAXED);
                return 0;
            }
            t->st = T::done;
            yield("exit");
            return 0;
        }

        static T* pick()
        {
            for (;;)
            {
                std::vector<T*> r;
                uint64_t minw = ~0ull;
                for (auto& t : threads)
                {
                    if (t->st == T::sleeping)
                    {
                        if (t->wake <= clock_us) t->st = T::runnable;
                        else minw = std::min(minw, t->wake);
                    }
                    if (t->st == T::runnable) r.push_back(t.get());
                }
                if (r.empty())
                {
                    if (minw == ~0ull) return nullptr;
                    clock_us = minw;
                    continue;
                }
                if (P.pct_depth)
                {
                    T* best = r[0];
                    for (auto t : r) if (t->prio > best->prio) best = t;
                    return best;
                }
                // sleepers also make progress while others are busy
                if (minw != ~0ull && rng.p(0.02)) { clock_us = minw; continue; }
                return r[rng.below(r.size())];
            }
        }

        static void switch_to(T* next)
        {
            if (next == me) return;
            ++n_switches;
            hsh = (hsh ^ uint64_t(next->id + 1)) * 1099511628211ull;
            T* my = me;
            next->sem.post();
            if (my && my->st != T::done)
            {
                my->sem.wait();
            }
            else if (my)
            {
                return; // thread exits
            }
        }

        static void step_check()
        {
            ++n_steps;
            clock_us += 3;
            if (n_steps > P.max_steps)
                viol("hang.steps", "step limit reached:" + dump());
        }

        static void resched()
        {
            if (finished)
            {
                // end of run: only the main thread goes on
                main_sem.post();
                if (me && me->st != T::done) while (true) pause();
                return;
            }
            T* n = pick();
            if (!n)
            {
                bool any = false;
                for (auto& t : threads) if (t->st == T::blocked) any = true;
                if (any) viol("hang.deadlock", "no runnable thread:" + dump());
                finished = true;
                main_sem.post();
                if (me && me->st != T::done) while (true) pause();
                return;
            }
            switch_to(n);
        }

        void yield(const char* where)
        {
            if (!me) return;
            if (P.free_mode)
            {
                ++n_steps;
                if ((n_steps * 2654435761u >> 7) % 5 == 0)
                {
                    struct timespec ts = {0, long((n_steps * 40503u) % 60000)};
                    syscall(SYS_nanosleep, &ts, 0);
                }
                return;
            }
            me->where = where;
            step_check();
            if (me->st == T::done || finished) { resched(); return; }
            if (P.pct_depth)
            {
                for (auto c : change_points)
                    if (c == n_steps) me->prio = -int(n_steps);
                // avoid starvation of others by busy threads
                if (rng.p(0.01)) me->prio = int(rng.below(1000));
                resched();
            }
            else if (rng.p(P.p_switch))
            {
                resched();
            }
            if (me->st == T::frozen) { for (;;) { block(me, "frozen"); } }
        }

        void block(const void* obj, const char* where)
        {
            if (P.free_mode)
            {
                struct timespec ts = {0, 50000};
                syscall(SYS_nanosleep, &ts, 0);
                return;
            }
            me->where = where;
            step_check();
            if (me->st != T::frozen)
            {
                me->st = T::blocked;
                me->obj = obj;
            }
            resched();
        }

        void wake_all(const void* obj)
        {
            if (P.free_mode) return;
            for (auto& t : threads)
                if (t->st == T::blocked && t->obj == obj) t->st = T::runnable;
        }

        static bool wake_one(const void* obj)
        {
            std::vector<T*> c;
            for (auto& t : threads)
                if (t->st == T::blocked && t->obj == obj) c.push_back(t.get());
            if (c.empty()) return false;
            c[rng.below(c.size())]->st = T::runnable;
            return true;
        }

        void sleep_us(uint64_t us)
        {
            if (P.free_mode || !me)
            {
                struct timespec ts = {time_t(us / 1000000), long(us % 1000000) * 1000};
                syscall(SYS_nanosleep, &ts, 0);
                return;
            }
            me->where = "sleep";
            step_check();
            me->st = T::sleeping;
            me->wake = clock_us + us;
            resched();
            if (me->st == T::frozen) for (;;) block(me, "frozen");
        }

        int spawn(const std::string& name, int node, std::function<void()> fn)
        {
            auto t = std::make_unique<T>();
            HL hl;
            t->id = int(threads.size());
            t->name = name;
            t->node = node;
            t->fn = fn;
            t->st = T::runnable;
            t->obj = 0;
            t->where = "start";
            t->wake = 0;
            t->prio = int(rng.below(1000));
            T* raw = t.get();
            threads.push_back(std::move(t));
            if (P.free_mode) __atomic_add_fetch(&free_live, 1, __ATOMIC_RELAXED);
            pthread_attr_t a; pthread_attr_init(&a);
            pthread_attr_setstacksize(&a, 512 * 1024);
            if (pthread_create(&raw->th, &a, entry, raw)) { perror("pthread_create"); _exit(90); }
            pthread_attr_destroy(&a);
            pthread_detach(raw->th);
            return raw->id;
        }

        void run()
        {
            if (P.free_mode)
            {
                while (!free_finished) { struct timespec ts = {0, 1000000}; syscall(SYS_nanosleep, &ts, 0); }
                return;
            }
            T* n = pick();
            n->sem.post();
            main_sem.wait();
        }

        void finish()
        {
            if (P.free_mode) { free_finished = 1; return; }
            finished = true;
        }

        void freeze_node(int node)
        {
            for (auto& t : threads)
                if (t->node == node && t->st != T::done) t->st = T::frozen;
        }
    }

    //////////////////////////////////////////////////////////////////////
    static volatile int h_owner = 0;     // free mode: raw spin lock, recursive
    static volatile int h_lock = 0;
    static int h_depth = 0;
    static thread_local int h_tid = 0;
    static volatile int h_next = 0;

    // raw, invisible to the race detector: harness data must not create
    // happens-before edges for library data
    static inline int raw_inc(volatile int* p)
    {
        int v = 1;
        __asm__ __volatile__("lock; xaddl %0,%1" : "+r"(v), "+m"(*p) : : "memory");
        return v + 1;
    }
    void Latch::lock()
    {
        if (!sched::free_mode()) return;
        if (!h_tid) h_tid = raw_inc(&h_next);
        if (h_owner == h_tid) { ++h_depth; return; }
        int spins = 0;
        while (!raw_cas(&h_lock, 0, 1))
        {
            if (++spins > 50) syscall(SYS_sched_yield);
        }
        h_owner = h_tid;
        h_depth = 1;
    }
    void Latch::unlock()
    {
        if (!sched::free_mode()) return;
        if (--h_depth == 0)
        {
            h_owner = 0;
            __asm__ __volatile__("" ::: "memory");
            raw_cas(&h_lock, 1, 0);
        }
    }
    void WaitQ::wait(const char* where)
    {
        if (!sched::free_mode()) { sched::block(this, where); return; }
        int d = h_depth;
        h_depth = 1;
        H.unlock();
        sched::block(this, where);
        H.lock();
        h_depth = d;
    }

    void Mutex::lock()
    {
        if (sched::free_mode()) { pthread_mutex_lock(&m_); owner_ = sched::self(); return; }
        if (sched::self() < 0) return;
        sched::yield(name_);
        if (owner_ == sched::self())
            viol("hang.selflock", std::string("thread locks a mutex it holds: ") + name_);
        while (owner_ != -1) sched::block(this, name_);
        owner_ = sched::self();
        locked(this);
    }
    void Mutex::unlock()
    {
        if (sched::free_mode()) { owner_ = -1; pthread_mutex_unlock(&m_); return; }
        if (sched::self() < 0) return;
        if (owner_ != sched::self())
            viol("mutex.misuse", std::string("unlock by non-owner: ") + name_);
        unlocked(this);
        owner_ = -1;
        sched::wake_all(this);
        sched::yield("unlock");
    }
    void Cond::notify_one()
    {
        if (sched::free_mode()) { pthread_cond_signal(&c_); return; }
        sched::wake_one(this);
    }
    void Cond::notify_all()
    {
        if (sched::free_mode()) { pthread_cond_broadcast(&c_); return; }
        sched::wake_all(this);
    }
    thread_local void (*on_cond_wait)(void*) = nullptr;
    thread_local void* on_cond_arg = nullptr;
    void Cond::wait(wsrep::unique_lock<wsrep::mutex>& lock)
    {
        if (on_cond_wait) on_cond_wait(on_cond_arg);
        Mutex* m = static_cast<Mutex*>(lock.mutex());
        if (sched::free_mode())
        {
            m->owner_ = -1;
            pthread_cond_wait(&c_, &m->m_);
            m->owner_ = sched::self();
            return;
        }
        if (m->owner_ != sched::self())
            viol("mutex.misuse", "cond wait without holding the mutex");
        // atomically: release and wait
        unlocked(m);
        m->owner_ = -1;
        sched::wake_all(m);
        if (sched::P.p_spurious > 0 && sched::rng.p(sched::P.p_spurious))
        {
            cov("sched.spurious");
            sched::yield("spurious");
        }
        else
        {
            sched::block(this, "cond_wait");
        }
        sched::yield("cond_relock");
        while (m->owner_ != -1) sched::block(m, "cond_relock");
        m->owner_ = sched::self();
        locked(m);
    }
}

// Logical time for the library
extern "C" int usleep(useconds_t us)
{
    sim::sched::sleep_us(us);
    return 0;
}
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept
{
    return time_point(duration(int64_t(sim::sched::now_us()) * 1000));
}
