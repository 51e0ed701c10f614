#include "sim.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <regex>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <algorithm>

namespace sim
{
    Cfg cfg;
    Rng wrng(1);
    bool g_trace = false;
    static int out_fd = -1;
    static std::map<std::string, uint64_t> covs;
    static std::set<std::string> states;
    static std::map<std::string, int> fault_calls;
    static bool g_done = false;

    bool chance(double p) { if (p <= 0) return false; HL hl; return wrng.p(p); }
    uint64_t rnd(uint64_t n) { HL hl; return wrng.below(n); }

    int fault(const char* site)
    {
        HL hl;
        int n = fault_calls[site]++;
        if (cfg.inj_site == site && cfg.inj_n == n) { cov("injected"); return cfg.inj_val; }
        if (cfg.inj_site2 == site && cfg.inj_n2 == n) { cov("injected"); return cfg.inj_val2; }
        if (cfg.p_fault > 0 && cfg.fault_sites.count(site) && wrng.p(cfg.p_fault))
        {
            cov(std::string("fault.") + site);
            std::string s(site);
            if (s == "certify")
            {
                static const int v[] = { 1, 2, 5, 6, 7, 8, 10, 11, 12 };
                (void)v;
                static const int sts[] = { wsrep::provider::error_warning, wsrep::provider::error_transaction_missing,
                    wsrep::provider::error_size_exceeded, wsrep::provider::error_connection_failed,
                    wsrep::provider::error_provider_failed, wsrep::provider::error_not_implemented,
                    wsrep::provider::error_not_allowed, wsrep::provider::error_certification_failed,
                    wsrep::provider::error_unknown };
                return sts[wrng.below(sizeof(sts) / sizeof(sts[0]))];
            }
            if (s == "enter_toi")
            {
                static const int sts[] = { wsrep::provider::error_certification_failed, wsrep::provider::error_connection_failed,
                    wsrep::provider::error_provider_failed, wsrep::provider::error_not_allowed, wsrep::provider::error_warning,
                    wsrep::provider::error_size_exceeded };
                return sts[wrng.below(sizeof(sts) / sizeof(sts[0]))];
            }
            if (s == "causal") return wrng.p(0.3) ? int(wsrep::provider::error_not_implemented) : int(wsrep::provider::error_provider_failed);
            return wsrep::provider::error_connection_failed;
        }
        return 0;
    }

    void cov(const std::string& c, uint64_t n) { HL hl; covs[c] += n; }
    void cov_state(const std::string& s) { HL hl; states.insert(s); }

    void trace(const char* fmt, ...)
    {
        if (!g_trace) return;
        char b[1024];
        va_list ap; va_start(ap, fmt);
        int n = snprintf(b, sizeof(b), "%8llu t%d ", (unsigned long long)sched::steps(), sched::self());
        vsnprintf(b + n, sizeof(b) - size_t(n) - 2, fmt, ap);
        va_end(ap);
        strcat(b, "\n");
        ssize_t r = ::write(2, b, strlen(b)); (void)r;
    }

    static std::string esc(const std::string& s)
    {
        std::string o;
        for (char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (static_cast<unsigned char>(c) < 32) o += ' ';
            else o += c;
        }
        return o;
    }

    static void emit(const std::string& vkey, const std::string& vmsg)
    {
        std::ostringstream os;
        os << "{\"seed\":" << cfg.seed << ",\"profile\":\"" << cfg.profile << "\",\"steps\":" << sched::steps()
           << ",\"switches\":" << sched::switches() << ",\"hash\":\"" << std::hex << sched::hash() << std::dec << "\"";
        if (!vkey.empty()) os << ",\"viol\":\"" << esc(vkey) << "\",\"msg\":\"" << esc(vmsg) << "\"";
        os << ",\"cov\":{";
        bool f = true;
        for (auto& c : covs) { if (!f) os << ","; f = false; os << "\"" << esc(c.first) << "\":" << c.second; }
        os << "},\"calls\":{";
        f = true;
        for (auto& c : fault_calls) { if (!f) os << ","; f = false; os << "\"" << esc(c.first) << "\":" << c.second; }
        os << "}}\n";
        std::string s = os.str();
        size_t off = 0;
        while (off < s.size())
        {
            ssize_t n = ::write(out_fd, s.data() + off, s.size() - off);
            if (n <= 0) break;
            off += size_t(n);
        }
    }

    void viol(const std::string& key, const std::string& msg)
    {
        HL hl;
        if (g_done) _exit(3);
        g_done = true;
        if (g_trace) fprintf(stderr, "VIOL %s: %s\n", key.c_str(), msg.c_str());
        emit(key, msg);
        _exit(3);
    }
}

extern "C" void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept
{
    (void)line;
    const char* b = strrchr(file, '/');
    std::string f(fn);
    size_t p = f.find('(');
    if (p != std::string::npos) f = f.substr(0, p);
    p = f.find_last_of(' ');
    if (p != std::string::npos) f = f.substr(p + 1);
    sim::viol("assert", std::string(b ? b + 1 : file) + ":" + f + ": " + e);
    abort();
}

// sanitizer callbacks
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death()
{
    // report already on stderr
    if (!sim::g_done) { sim::g_done = true; sim::emit("sanitizer", "sanitizer report, see stderr"); }
}
static void on_signal(int sig)
{
    signal(sig, SIG_DFL);
    if (!sim::g_done) { sim::g_done = true; sim::emit("crash", std::string("signal ") + strsignal(sig)); }
    _exit(4);
}

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=5:handle_segv=1:allocator_may_return_null=1"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=5"; }
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=0:exitcode=0:history_size=4:report_thread_leaks=0:report_signal_unsafe=0:ignore_interceptors_accesses=1:"
           "detect_deadlocks=1:second_deadlock_stack=1:report_destroy_locked=0:report_mutex_bugs=0:die_after_fork=0";
}
extern "C" int __tsan_get_report_data(void*, const char**, int*, int*, int*, int*, int*, int*, int*, void**, unsigned long) __attribute__((weak));
extern "C" int __tsan_get_report_mop(void*, unsigned long, int*, void**, int*, int*, int*, void**, unsigned long) __attribute__((weak));
extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t) __attribute__((weak));
extern "C" int __tsan_get_report_stack(void*, unsigned long, void**, unsigned long) __attribute__((weak));
static std::string frames(void** tr, int n)
{
    std::string o, last;
    int k = 0;
    for (int i = 0; i < n && tr[i] && k < 8; ++i)
    {
        if (i && tr[i] == tr[i - 1]) continue;
        char b[4000] = { 0 };
        __sanitizer_symbolize_pc(static_cast<char*>(tr[i]) - 1, "%f@%S", b, sizeof(b) - 2);
        for (const char* c = b; *c && k < 8; c += strlen(c) + 1)     // inlined frames
        {
            std::string f(c);
            size_t at = f.rfind('@');
            std::string fn = f.substr(0, at), where = at == std::string::npos ? "" : f.substr(at + 1);
            if (fn.find("__tsan") != std::string::npos || where.find("/usr/") != std::string::npos) continue;
            size_t pr = fn.find('('); if (pr != std::string::npos && pr > 0 && fn.compare(0, 8, "operator") != 0) fn = fn.substr(0, pr);
            if (fn.compare(0, 7, "wsrep::") == 0) fn = fn.substr(7);
            size_t sl = where.rfind('/'); if (sl != std::string::npos) where = where.substr(sl + 1);
            size_t cl = where.find(':'); if (cl != std::string::npos) where = where.substr(0, cl);
            f = fn + "@" + where;
            if (f == last) continue;
            last = f;
            o += (k++ ? " < " : "") + f;
        }
    }
    return o;
}
static std::vector<std::regex> g_known_race;
extern "C" void __tsan_on_report(void* rep)
{
    if (sim::g_done) return;
    const char* d = ""; int c, st = 0, mops = 0, locs, mtx, thr, ut; void* sl[1];
    __tsan_get_report_data(rep, &d, &c, &st, &mops, &locs, &mtx, &thr, &ut, sl, 1);
    std::string m = d;
    for (int i = 0; i < mops && i < 2; ++i)
    {
        int tid, size, wr, at; void* addr; void* tr[40] = { 0 };
        __tsan_get_report_mop(rep, static_cast<unsigned long>(i), &tid, &addr, &size, &wr, &at, tr, 39);
        m += std::string(i ? " / " : ": ") + (wr ? "write " : "read ") + frames(tr, 39);
    }
    if (!mops)
        for (int i = 0; i < st && i < 4; ++i)
        {
            void* tr[40] = { 0 };
            __tsan_get_report_stack(rep, static_cast<unsigned long>(i), tr, 39);
            m += std::string(i ? " / " : ": ") + frames(tr, 39);
        }
    for (size_t i = 0; i < g_known_race.size(); ++i)
        if (std::regex_search(m, g_known_race[i])) { sim::covs["known_race." + std::to_string(i)]++; return; }
    sim::g_done = true;
    sim::emit("race", m);
    syscall(SYS_exit_group, 3);
}

namespace sim { void set_profile(Cfg&, const std::string&, uint64_t seed); std::vector<std::string> profiles(); }

static int run_case(const std::string& profile, uint64_t seed, const std::vector<std::string>& opts, int fd)
{
    using namespace sim;
    out_fd = fd;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    signal(SIGABRT, on_signal);
    std::set_terminate([] {
        std::string what = "uncaught exception";
        try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); }
        catch (const std::exception& e) { what += std::string(": ") + e.what(); }
        catch (...) { }
        viol("exception", what);
    });
    cfg = Cfg();
    cfg.seed = seed;
    cfg.profile = profile;
    wrng = Rng(seed * 7919 + 13);
    set_profile(cfg, profile, seed);
    for (auto& o : opts)
    {
        // site:n:val
        size_t a = o.find(':'), b = o.rfind(':');
        bool second = !cfg.inj_site.empty();
        (second ? cfg.inj_site2 : cfg.inj_site) = o.substr(0, a);
        (second ? cfg.inj_n2 : cfg.inj_n) = atoi(o.substr(a + 1, b - a - 1).c_str());
        (second ? cfg.inj_val2 : cfg.inj_val) = atoi(o.substr(b + 1).c_str());
    }
    wsrep::log::logger_fn([](wsrep::log::level l, const char* pre, const char* m)
        { if (g_trace) trace("LOG%d %s%s", int(l), pre, m); });
    sched::Params p;
    p.seed = seed; p.free_mode = cfg.free_mode; p.p_switch = cfg.p_switch; p.pct_depth = cfg.pct; p.p_spurious = cfg.p_spur;
    sched::init(p);
    sched::spawn("controller", -1, [] { controller(); });
    alarm(cfg.free_mode ? 120 : 100);
    sched::run();
    HL hl;
    if (!g_done) { g_done = true; emit("", ""); }
    _exit(0);
}

int main(int argc, char** argv)
{
    using namespace sim;
    std::string profile = "plain"; uint64_t from = 1, n = 1; int jobs = 1; std::string outf; std::vector<std::string> inj;
    double secs = 0;
    std::string list;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--profile") profile = next();
        else if (a == "--seed") from = strtoull(next().c_str(), 0, 10);
        else if (a == "--n") n = strtoull(next().c_str(), 0, 10);
        else if (a == "--jobs") jobs = atoi(next().c_str());
        else if (a == "--secs") secs = atof(next().c_str());
        else if (a == "--inject") inj.push_back(next());
        else if (a == "--list") list = next();          // lines: profile seed [inject...]
        else if (a == "--known-race") g_known_race.emplace_back(next());
        else if (a == "--trace") g_trace = true;
        else if (a == "--debug") { g_trace = true; wsrep::log::debug_log_level(100); }
        else if (a == "--profiles") { for (auto& p : profiles()) printf("%s\n", p.c_str()); return 0; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    struct Case { std::string profile; uint64_t seed; std::vector<std::string> inj; };
    std::vector<Case> cases;
    if (!list.empty())
    {
        std::ifstream is(list);
        std::string line;
        while (std::getline(is, line))
        {
            std::istringstream ls(line);
            Case c; std::string x;
            if (!(ls >> c.profile >> c.seed)) continue;
            while (ls >> x) c.inj.push_back(x);
            cases.push_back(c);
        }
    }
    else
        for (uint64_t s = from; s < from + n; ++s) { Case c; c.profile = profile; c.seed = s; c.inj = inj; cases.push_back(c); }
    if (g_trace || (cases.size() == 1 && jobs == 1))
        return run_case(cases[0].profile, cases[0].seed, cases[0].inj, 1);
    // one process per case
    struct Slot { pid_t pid = 0; int fd = -1, efd = -1; std::string out, err; size_t idx = 0; time_t t0 = 0; };
    std::vector<Slot> slots(static_cast<size_t>(jobs));
    size_t nexti = 0, live = 0;
    time_t t0 = time(0);
    auto line = [&](Slot& s, int status)
    {
        if (s.out.empty() || s.out.back() != '\n')
        {
            std::ostringstream os;
            os << "{\"seed\":" << cases[s.idx].seed << ",\"profile\":\"" << cases[s.idx].profile << "\",\"viol\":\"";
            if (WIFSIGNALED(status)) os << (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGKILL ? "hang.timeout" : "crash") << "\",\"msg\":\"killed by " << strsignal(WTERMSIG(status));
            else os << "crash\",\"msg\":\"exit " << WEXITSTATUS(status);
            os << "\",\"cov\":{},\"calls\":{}}\n";
            s.out = os.str();
        }
        s.out.pop_back();
        s.out.pop_back();
        std::ostringstream os;
        os << s.out;
        if (!cases[s.idx].inj.empty())
        {
            os << ",\"inject\":\"";
            for (size_t i = 0; i < cases[s.idx].inj.size(); ++i) os << (i ? " " : "") << cases[s.idx].inj[i];
            os << "\"";
        }
        if (!s.err.empty()) os << ",\"stderr\":\"" << esc(s.err.substr(0, 12000)) << "\"";
        os << "}";
        printf("%s\n", os.str().c_str());
    };
    for (;;)
    {
        for (auto& s : slots)
        {
            if (s.pid || nexti >= cases.size()) continue;
            if (secs > 0 && time(0) - t0 >= secs) { nexti = cases.size(); continue; }
            int p[2], e[2];
            if (pipe(p) || pipe(e)) return 2;
            s.idx = nexti++;
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0)
            {
                close(p[0]); close(e[0]);
                dup2(e[1], 2);
                run_case(cases[s.idx].profile, cases[s.idx].seed, cases[s.idx].inj, p[1]);
                _exit(0);
            }
            close(p[1]); close(e[1]);
            s.pid = pid; s.fd = p[0]; s.efd = e[0]; s.out.clear(); s.err.clear(); s.t0 = time(0);
            ++live;
        }
        if (!live) break;
        std::vector<struct pollfd> pf;
        std::vector<std::pair<Slot*, int>> who;
        for (auto& s : slots)
            if (s.pid)
            {
                if (s.fd >= 0) { pf.push_back({ s.fd, POLLIN, 0 }); who.push_back({ &s, 0 }); }
                if (s.efd >= 0) { pf.push_back({ s.efd, POLLIN, 0 }); who.push_back({ &s, 1 }); }
            }
        poll(pf.data(), pf.size(), 200);
        for (size_t i = 0; i < pf.size(); ++i)
        {
            if (!pf[i].revents) continue;
            char b[8192];
            ssize_t r = read(pf[i].fd, b, sizeof(b));
            Slot& s = *who[i].first;
            if (r <= 0) { close(pf[i].fd); (who[i].second ? s.efd : s.fd) = -1; }
            else (who[i].second ? s.err : s.out).append(b, size_t(r));
        }
        for (auto& s : slots)
        {
            if (!s.pid) continue;
            if (time(0) - s.t0 > 130) kill(s.pid, SIGKILL);
            if (s.fd < 0 && s.efd < 0)
            {
                int st; waitpid(s.pid, &st, 0);
                line(s, st);
                s.pid = 0; --live;
            }
        }
    }
    return 0;
}
