// Shared parts of the unit level monitors: seeded cases, coverage counters, violations as JSON lines.
#ifndef UNIT_HPP
#define UNIT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
struct Case
{
    std::string engine;
    uint64_t seed;
    Rng r;
    std::map<std::string, uint64_t> cov;
    uint64_t hash = 1469598103934665603ull;
    uint64_t steps = 0;
    std::vector<std::string> log; // what was done, for the report
    Case(const std::string& e, uint64_t s) : engine(e), seed(s), r(s) {}
    void hit(const std::string& k, uint64_t n = 1) { cov[k] += n; }
    void mix(const std::string& s)
    {
        ++steps;
        for (unsigned char c : s) hash = (hash ^ c) * 1099511628211ull;
        hash = (hash ^ 0xff) * 1099511628211ull;
    }
    void note(const std::string& s)
    {
        mix(s);
        if (log.size() < 4000) log.push_back(s);
    }
};
extern Case* cur;
std::string jesc(const std::string&);
std::string show(const std::string&); // printable form of arbitrary bytes
[[noreturn]] void viol(const std::string& monitor, const std::string& msg);
#define VIOL(monitor, expr) \
    do { std::ostringstream os_; os_ << expr; viol(monitor, os_.str()); } while (0)
#define CHECK(cond, monitor, expr) \
    do { cur->hit(std::string("eval.") + monitor); if (!(cond)) VIOL(monitor, expr); } while (0)
void emit(Case&, const char* viol = nullptr, const char* msg = nullptr);
typedef void (*engine_fn)(Case&);
void run_values(Case&);
void run_reporter(Case&);
void run_options(Case&);
#endif
