// Cooperative, seeded scheduler (det mode) / real threads (free mode).
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "wsrep/mutex.hpp"
#include "wsrep/condition_variable.hpp"

namespace sim
{
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
    };

    void viol(const std::string& key, const std::string& msg);
    void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    extern bool g_trace;
    void cov(const std::string& counter, uint64_t n = 1);     // coverage counters
    void hb_rel(const void*);      // happens-before edges of the provider and the application, for the race detector
    void hb_acq(const void*);
    extern char g_gone;            // threads that ended, seen by those that wait for them
    void cov_state(const std::string& what);                  // distinct things seen

    namespace sched
    {
        struct Params
        {
            uint64_t seed = 1;
            bool free_mode = false;
            double p_switch = 0.3;
            int pct_depth = 0;          // >0: priority based scheduling
            double p_spurious = 0.0;
            uint64_t max_steps = 600000;
        };
        void init(const Params&);
        bool free_mode();
        int spawn(const std::string& name, int node, std::function<void()> fn);
        void run();                      // called once by main thread
        void finish();                   // called by controller: end of run
        void yield(const char* where);
        void block(const void* obj, const char* where);
        void wake_all(const void* obj);
        void sleep_us(uint64_t us);
        uint64_t now_us();
        uint64_t steps();
        uint64_t switches();
        uint64_t hash();
        int self();                      // thread index, -1 outside
        int self_node();
        void freeze_node(int node);      // threads of the node never run again
        std::string dump();
        extern int in_lib_lock;          // debugging aid
    }

    // Harness latch: no-op in det mode
    struct Latch
    {
        void lock();
        void unlock();
    };
    extern Latch H;
    extern thread_local void (*on_cond_wait)(void*); extern thread_local void* on_cond_arg;
    struct HL
    {
        HL() { H.lock(); }
        ~HL() { H.unlock(); }
    };
    // harness wait queue; predicate re-checked by the caller
    struct WaitQ
    {
        void wait(const char* where);    // H held
        void wake() { sched::wake_all(this); }
    };

    class Mutex : public wsrep::mutex
    {
    public:
        explicit Mutex(const char* name = "mutex") : owner_(-1), name_(name)
        {
            pthread_mutex_init(&m_, 0);
        }
        ~Mutex() override { }
        void lock() override;
        void unlock() override;
        void* native() override { return &m_; }
        int owner() const { return owner_; }
        const char* name() const { return name_; }
    private:
        friend class Cond;
        int owner_;
        const char* name_;
        pthread_mutex_t m_;
    };

    class Cond : public wsrep::condition_variable
    {
    public:
        Cond() { pthread_cond_init(&c_, 0); }
        ~Cond() override { }
        void notify_one() override;
        void notify_all() override;
        void wait(wsrep::unique_lock<wsrep::mutex>& lock) override;
    private:
        pthread_cond_t c_;
    };
}
