// The status report file against a model: contents after every call, write failures, several threads, kills.
#include "unit.hpp"
#include "wsrep/reporter.hpp"
#include "wsrep/server_state.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <ctime>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <mutex>
typedef std::string S;

// ---------------------------------------------------------------- write faults
static std::atomic<int> f_mode{0}; // 1 short once, 2 interrupted once, 3 no space, 4 no space after some bytes
static std::atomic<size_t> f_left{0};
static thread_local bool f_me = false;
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (f_me && fd > 2)
        switch (f_mode.load())
        {
        case 1: f_mode = 0; n = n > 1 ? n / 2 : n; break;
        case 2: f_mode = 0; errno = EINTR; return -1;
        case 3: errno = ENOSPC; return -1;
        case 4:
            if (!f_left) { errno = ENOSPC; return -1; }
            n = std::min(n, f_left.load());
            f_left -= n;
            break;
        }
    return syscall(SYS_write, fd, p, n);
}

// ---------------------------------------------------------------- a strict JSON reader (bytes above 0x7f are passed through)
struct J
{
    enum T { null, boolean, number, string, array, object } t = null;
    bool b = false;
    double n = 0;
    S s;
    std::vector<J> a;
    std::vector<std::pair<S, J>> o;
    const J* get(const S& k) const { for (auto& x : o) if (x.first == k) return &x.second; return nullptr; }
};
struct Parser
{
    const S& s;
    size_t i = 0;
    S err;
    explicit Parser(const S& x) : s(x) {}
    bool fail(const char* m) { if (err.empty()) err = S(m) + " at byte " + std::to_string(i); return false; }
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i; }
    bool str(S& out)
    {
        if (i >= s.size() || s[i] != '"') return fail("string expected");
        for (++i; i < s.size() && s[i] != '"'; ++i)
        {
            unsigned char c = s[i];
            if (c < 32) return fail("control character in string");
            if (c != '\\') { out += (char)c; continue; }
            if (++i >= s.size()) return fail("unterminated escape");
            switch (s[i])
            {
            case '"': out += '"'; break;
            case '\\': out += '\\'; break;
            case '/': out += '/'; break;
            case 'b': out += '\b'; break;
            case 'f': out += '\f'; break;
            case 'n': out += '\n'; break;
            case 'r': out += '\r'; break;
            case 't': out += '\t'; break;
            case 'u':
            {
                if (i + 4 >= s.size()) return fail("short escape");
                unsigned v = 0;
                for (int k = 1; k <= 4; ++k)
                {
                    char h = s[i + k];
                    if (!isxdigit((unsigned char)h)) return fail("bad escape");
                    v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                }
                i += 4;
                if (v < 0x80) out += (char)v;
                else if (v < 0x800) { out += (char)(0xc0 | v >> 6); out += (char)(0x80 | (v & 63)); }
                else { out += (char)(0xe0 | v >> 12); out += (char)(0x80 | (v >> 6 & 63)); out += (char)(0x80 | (v & 63)); }
                break;
            }
            default: return fail("bad escape");
            }
        }
        if (i >= s.size()) return fail("unterminated string");
        ++i;
        return true;
    }
    bool num(J& j)
    {
        size_t b = i;
        if (i < s.size() && s[i] == '-') ++i;
        size_t d = i;
        while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
        if (i == d || (s[d] == '0' && i > d + 1)) return fail("bad number");
        if (i < s.size() && s[i] == '.') { size_t k = ++i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (i == k) return fail("bad fraction"); }
        if (i < s.size() && (s[i] | 32) == 'e')
        {
            ++i;
            if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
            size_t k = i;
            while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
            if (i == k) return fail("bad exponent");
        }
        j.t = J::number;
        j.n = strtod(s.substr(b, i - b).c_str(), nullptr);
        return true;
    }
    bool val(J& j, int depth = 0)
    {
        if (depth > 50) return fail("too deep");
        ws();
        if (i >= s.size()) return fail("value expected");
        if (s[i] == '"') { j.t = J::string; return str(j.s); }
        if (s[i] == '{' || s[i] == '[')
        {
            bool ob = s[i] == '{';
            j.t = ob ? J::object : J::array;
            char end = ob ? '}' : ']';
            ++i;
            ws();
            if (i < s.size() && s[i] == end) { ++i; return true; }
            for (;;)
            {
                ws();
                S k;
                if (ob) { if (!str(k)) return false; ws(); if (i >= s.size() || s[i] != ':') return fail("colon expected"); ++i; }
                J v;
                if (!val(v, depth + 1)) return false;
                if (ob) { if (j.get(k)) return fail("repeated key"); j.o.push_back({k, v}); } else j.a.push_back(v);
                ws();
                if (i >= s.size()) return fail("unterminated");
                if (s[i] == end) { ++i; return true; }
                if (s[i] != ',') return fail("comma expected");
                ++i;
            }
        }
        for (const char* w : {"true", "false", "null"})
            if (!s.compare(i, strlen(w), w)) { i += strlen(w); j.t = *w == 'n' ? J::null : J::boolean; j.b = *w == 't'; return true; }
        return num(j);
    }
    bool doc(J& j)
    {
        if (!val(j)) return false;
        ws();
        return i == s.size() || fail("text after the document");
    }
};
static bool same(const J& a, const J& b)
{
    if (a.t != b.t) return false;
    switch (a.t)
    {
    case J::null: return true;
    case J::boolean: return a.b == b.b;
    case J::number: return a.n == b.n;
    case J::string: return a.s == b.s;
    case J::array:
        if (a.a.size() != b.a.size()) return false;
        for (size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i])) return false;
        return true;
    default:
        if (a.o.size() != b.o.size()) return false;
        for (auto& x : a.o) { const J* y = b.get(x.first); if (!y || !same(x.second, *y)) return false; }
        return true;
    }
}
static bool slurp(const S& path, S& out)
{
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) return false;
    char b[65536];
    ssize_t n;
    out.clear();
    while ((n = read(fd, b, sizeof b)) > 0) out.append(b, n);
    close(fd);
    return true;
}
static std::vector<S> listing(const S& dir)
{
    std::vector<S> v;
    DIR* d = opendir(dir.c_str());
    if (!d) return v;
    while (struct dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
    closedir(d);
    std::sort(v.begin(), v.end());
    return v;
}
static void wipe(const S& dir)
{
    if (dir.find("/vunit.") == S::npos) return;
    for (auto& f : listing(dir)) { S p = dir + "/" + f; if (unlink(p.c_str())) { for (auto& g : listing(p)) unlink((p + "/" + g).c_str()); rmdir(p.c_str()); } }
    rmdir(dir.c_str());
}
struct Dir
{
    S path;
    Dir()
    {
        const char* t = getenv("TMPDIR");
        S p = S(t ? t : "/tmp") + "/vunit.XXXXXX";
        std::vector<char> b(p.begin(), p.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(2); }
        path = b.data();
    }
    ~Dir() { wipe(path); }
};
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

// ---------------------------------------------------------------- the model
struct Entry { double lo, hi; S text; J json; };
struct Model
{
    size_t max;
    S state = "DISCONNECTED", comment = "Disconnected";
    J progress;
    bool synced = false;
    S progress_text;
    std::deque<Entry> err, warn, ev;
    double lo = 0, hi = 0; // bounds for the document's own time
};
static J prog(int f, int t, int total, int done, int ind)
{
    J j;
    j.t = J::object;
    int v[] = {f, t, total, done, ind};
    const char* k[] = {"from", "to", "total", "done", "indefinite"};
    for (int i = 0; i < 5; ++i) { J n; n.t = J::number; n.n = v[i]; j.o.push_back({k[i], n}); }
    return j;
}
static S progs(const J& j)
{
    std::ostringstream os;
    os << "{ ";
    for (size_t i = 0; i < j.o.size(); ++i) os << (i ? ", " : "") << "\"" << j.o[i].first << "\": " << (long)j.o[i].second.n;
    os << " }";
    return os.str();
}
static S compare_list(const J* l, const std::deque<Entry>& m, const char* what, const char* field)
{
    std::ostringstream os;
    if (!l || l->t != J::array) return S(what) + " list is missing";
    if (l->a.size() != m.size()) { os << what << " list has " << l->a.size() << " entries instead of " << m.size(); return os.str(); }
    for (size_t i = 0; i < m.size(); ++i)
    {
        const J* x = l->a[i].get(field);
        const J* t = l->a[i].get("timestamp");
        if (!x || !t || t->t != J::number) { os << what << " entry " << i << " is incomplete"; return os.str(); }
        bool eq = S(field) == "msg" ? x->t == J::string && x->s == m[i].text : same(*x, m[i].json);
        if (!eq) { os << what << " entry " << i << " shows " << show(x->s) << " instead of " << show(m[i].text); return os.str(); }
        if (t->n < m[i].lo || t->n > m[i].hi) { os.precision(18); os << what << " entry " << i << " has time " << t->n << " outside " << m[i].lo << ".." << m[i].hi; return os.str(); }
    }
    return "";
}
static S compare(const S& text, const Model& m)
{
    Parser p(text);
    J d;
    if (!p.doc(d)) return "not valid JSON: " + p.err;
    if (d.t != J::object) return "not an object";
    S e = compare_list(d.get("errors"), m.err, "errors", "msg");
    if (e.empty()) e = compare_list(d.get("warnings"), m.warn, "warnings", "msg");
    if (e.empty()) e = compare_list(d.get("events"), m.ev, "events", "event");
    if (!e.empty()) return e;
    const J* st = d.get("status");
    if (!st) return "status is missing";
    const J *a = st->get("state"), *b = st->get("comment"), *c = st->get("progress"), *t = d.get("timestamp"), *dt = d.get("date");
    if (!a || !b || !c || !t || !dt) return "an element is missing";
    if (a->s != m.state || b->s != m.comment) return "state shown as " + a->s + "/" + b->s + " instead of " + m.state + "/" + m.comment;
    if (!same(*c, m.progress)) return "progress is not " + progs(m.progress);
    if (t->n < m.lo || t->n > m.hi) { std::ostringstream os; os.precision(18); os << "time " << t->n << " outside " << m.lo << ".." << m.hi; return os.str(); }
    time_t tt = (time_t)floor(t->n);
    struct tm tm;
    localtime_r(&tt, &tm);
    char ds[40];
    snprintf(ds, sizeof ds, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
    if (dt->s.compare(0, 19, ds)) return "date " + dt->s + " is not " + ds;
    return "";
}
typedef wsrep::server_state SS;
typedef enum SS::state SSS;
static const SSS walk[9][10] = {
    /* disconnected */ {SS::s_initializing, SS::s_connected, SS::s_disconnected},
    /* initializing */ {SS::s_initialized, SS::s_disconnecting, SS::s_disconnected},
    /* initialized */ {SS::s_connected, SS::s_disconnecting, SS::s_disconnected},
    /* connected */ {SS::s_joiner, SS::s_synced, SS::s_joined, SS::s_disconnecting, SS::s_disconnected},
    /* joiner */ {SS::s_initializing, SS::s_joined, SS::s_disconnecting, SS::s_disconnected},
    /* joined */ {SS::s_synced, SS::s_donor, SS::s_connected, SS::s_disconnecting, SS::s_disconnected},
    /* donor */ {SS::s_joined, SS::s_connected, SS::s_disconnecting, SS::s_disconnected},
    /* synced */ {SS::s_donor, SS::s_joined, SS::s_connected, SS::s_disconnecting, SS::s_disconnected},
    /* disconnecting */ {SS::s_disconnected}};
struct Walker
{
    SSS s = SS::s_disconnected;
    bool joining = false, init = false;
    SSS next(Rng& r)
    {
        std::vector<SSS> c;
        for (int i = 0; i < 10; ++i) { SSS x = walk[s][i]; c.push_back(x); if (x == SS::s_disconnected) break; }
        for (;;)
        {
            SSS n = r.pick(c);
            if (s == SS::s_joiner && n == SS::s_initializing && init) continue;
            if (s == SS::s_joiner && n == SS::s_joined && !init) continue;
            if (s == SS::s_initialized && joining && n == SS::s_connected) { n = SS::s_joined; }
            return n;
        }
    }
    void go(SSS n, S& state, S& comment)
    {
        switch (n)
        {
        case SS::s_disconnected: state = "DISCONNECTED"; comment = "Disconnected"; init = joining = false; break;
        case SS::s_initializing: state = joining ? "JOINING" : "DISCONNECTED"; comment = "Initializing"; break;
        case SS::s_initialized: state = joining ? "JOINING" : "DISCONNECTED"; comment = joining ? "Receiving IST" : "Connecting"; init = true; break;
        case SS::s_connected: state = "CONNECTED"; comment = "Waiting"; joining = false; break;
        case SS::s_joiner: state = "JOINING"; comment = init ? "Receiving state" : "Receiving SST"; joining = true; break;
        case SS::s_joined: state = "JOINED"; comment = "Syncing"; joining = false; break;
        case SS::s_donor: state = "DONOR"; comment = "Donating SST"; break;
        case SS::s_synced: state = "SYNCED"; comment = "Operational"; joining = false; break;
        default: state = "DISCONNECTING"; comment = "Disconnecting"; joining = false;
        }
        s = n;
    }
};
static S rnd_msg(Rng& r, int i)
{
    S m;
    switch (r.below(7))
    {
    case 0: m = "plain message " + std::to_string(i); break;
    case 1: { size_t n = r.below(30); for (size_t k = 0; k < n; ++k) m += (char)r.range(1, 126); break; }
    case 2: { size_t n = r.below(20); for (size_t k = 0; k < n; ++k) m += "\"\\/\b\f\n\r\t\x7f\x1f\x01 an"[r.below(14)]; break; }
    case 3: m = "tab\there " + S(1, (char)r.below(32)) + "\"q\""; break;
    case 4: { size_t n = r.below(20); for (size_t k = 0; k < n; ++k) m += "\xc3\xa4 \xe2\x82\xac"[r.below(6)]; m = "\xc3\xa4" + S(m.size() % 3, 'x') + "\xe2\x82\xac"; break; }
    case 5: m = S(r.below(r.chance(0.1) ? 60000 : 3000), 'L') + std::to_string(i); break;
    default: m = "\\n\\u0041\\\"" + std::to_string(r.below(2)); break;
    }
    return m;
}
static void add(std::deque<Entry>& q, size_t max, const Entry& e)
{
    q.push_back(e);
    while (q.size() > max) q.pop_front();
}

static void sequential(Case& c)
{
    Rng& r = c.r;
    Dir dir;
    S file = dir.path + "/" + (r.chance(0.5) ? "status.json" : "s");
    S base = file.substr(dir.path.size() + 1);
    wsrep::default_mutex mtx;
    Model m;
    m.max = r.chance(0.15) ? 0 : r.below(r.chance(0.3) ? 60 : 5) + 1;
    c.note("max messages " + std::to_string(m.max));
    if (m.max == 0) c.hit("report.max_zero");
    m.progress = prog(-1, -1, -1, -1, -1);
    f_me = true;
    f_mode = 0;
    m.lo = now();
    wsrep::reporter rep(mtx, file, m.max);
    m.hi = now();
    S text;
    CHECK(slurp(file, text), "report.file", "there is no file after construction");
    { S e = compare(text, m); CHECK(e.empty(), "report.content", "after construction: " << e); }
    Walker w;
    Model shown(m); // what the last successful write shows
    S last_text = text;
    int n = (int)r.range(5, 40);
    double fault = r.chance(0.5) ? 0.3 : 0;
    S prev_msg = "";
    for (int i = 0; i < n; ++i)
    {
        // a fault for this call
        int kind = r.chance(fault) ? (int)r.range(1, 7) : 0;
        struct rlimit fl, nf;
        getrlimit(RLIMIT_FSIZE, &fl);
        getrlimit(RLIMIT_NOFILE, &nf);
        bool dirblock = false;
        switch (kind)
        {
        case 1: case 2: case 3: f_mode = kind; break;
        case 4: f_left = r.below(400); f_mode = 4; break;
        case 5: { signal(SIGXFSZ, SIG_IGN); struct rlimit x = fl; x.rlim_cur = r.below(500); setrlimit(RLIMIT_FSIZE, &x); break; }
        case 6: { int fd = dup(1); struct rlimit x = nf; x.rlim_cur = fd; close(fd); setrlimit(RLIMIT_NOFILE, &x); break; }
        case 7: // the report cannot be put in place
            unlink(file.c_str());
            mkdir(file.c_str(), 0700);
            { int fd = open((file + "/x").c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); }
            dirblock = true;
            break;
        }
        bool writes = false;
        S what;
        double t0 = now();
        switch (r.below(6))
        {
        case 0: case 1:
        {
            SSS s = w.next(r);
            S a = m.state, b = m.comment;
            w.go(s, m.state, m.comment);
            what = "state " + m.state + "/" + m.comment;
            if (a != m.state || b != m.comment)
            {
                writes = true;
                m.synced = m.state == "SYNCED";
                m.progress = m.synced ? prog(-1, -1, 0, 0, -1) : prog(-1, -1, -1, -1, -1);
                m.progress_text = "";
            }
            rep.report_state(s);
            break;
        }
        case 2:
        {
            J p = r.chance(0.2) ? m.progress : prog((int)r.below(4), (int)r.below(4), (int)r.below(100), (int)r.below(100), r.chance(0.5) ? -1 : 7);
            what = "progress " + progs(p);
            if (!m.synced && !same(p, m.progress)) { writes = true; m.progress = p; }
            rep.report_progress(progs(p));
            break;
        }
        case 3:
        {
            S j = "{\"status\": \"S" + std::to_string(i) + "\", \"message\": \"m\"}";
            Entry e{t0, 1e18, j, J()};
            Parser ps(j);
            ps.doc(e.json);
            what = "event";
            add(m.ev, m.max, e);
            writes = true;
            rep.report_event(j);
            break;
        }
        default:
        {
            bool er = r.chance(0.5);
            S msg = r.chance(0.25) ? prev_msg : rnd_msg(r, i);
            prev_msg = msg;
            double ts = r.chance(0.4) ? 1 + (double)r.below(4000000000u) + (double)r.below(1000) / 1000.0 : 0;
            auto& q = er ? m.err : m.warn;
            what = S(er ? "error " : "warning ") + show(msg.substr(0, 60));
            // with no room for messages nothing is known about the last one
            if (q.empty() || q.back().text != msg)
            {
                add(q, m.max, Entry{ts > 0 ? ts : t0, ts > 0 ? ts : 1e18, msg, J()});
                writes = true;
                if (ts > 0) { m.lo = m.hi = ts; t0 = -1; }
            }
            rep.report_log_msg(er ? wsrep::reporter::error : wsrep::reporter::warning, msg, ts);
        }
        }
        double t1 = now();
        if (writes && t0 >= 0) { m.lo = t0; m.hi = t1; }
        for (auto* q : {&m.err, &m.warn, &m.ev}) for (auto& e : *q) if (e.hi == 1e18) e.hi = t1;
        f_mode = 0;
        setrlimit(RLIMIT_FSIZE, &fl);
        setrlimit(RLIMIT_NOFILE, &nf);
        c.note(what + (kind ? " fault " + std::to_string(kind) : ""));
        c.hit("report.call");
        if (kind) c.hit("report.fault" + std::to_string(kind));
        std::vector<S> ls = listing(dir.path);
        CHECK(ls.size() <= 1 && (ls.empty() || ls[0] == base), "report.stray", "after " << what << (kind ? " with write failure " + std::to_string(kind) : "") << " the directory holds " << ls.size() << " files: " << (ls.empty() ? "" : ls.back()));
        if (dirblock)
        {
            unlink((file + "/x").c_str());
            rmdir(file.c_str());
            // nothing was there before; the next report that is written has to show everything
            last_text = "";
            continue;
        }
        bool there = slurp(file, text);
        if (!kind)
        {
            if (!writes)
            {
                CHECK(there == !last_text.empty() && (!there || text == last_text || compare(text, m).empty()), "report.content", "after " << what << " the report changed into something else: " << compare(text, m));
                if (there) last_text = text;
                continue;
            }
            CHECK(there, "report.file", "no report after " << what);
            S e = compare(text, m);
            CHECK(e.empty(), "report.content", "after " << what << ": " << e);
            last_text = text;
            c.hit("report.checked");
        }
        else
        {
            if (there == !last_text.empty() && (!there || text == last_text)) { c.hit("report.kept_previous"); continue; }
            CHECK(there, "report.file", "after " << what << " with write failure " << kind << " the report is gone");
            S e = compare(text, m);
            CHECK(e.empty(), "report.damaged", "after " << what << " with write failure " << kind << " the report is neither the previous one nor complete: " << e);
            last_text = text;
            c.hit("report.survived_fault");
        }
    }
    f_me = false;
}

// several threads report, one keeps reading
struct Op { double start, end; };
static void threads(Case& c)
{
    Rng& r = c.r;
    Dir dir;
    S file = dir.path + "/status.json";
    wsrep::default_mutex mtx;
    size_t max = r.below(6) + 1;
    wsrep::reporter rep(mtx, file, max);
    int nt = (int)r.range(2, 4), per = (int)r.range(5, 15);
    c.note("threads " + std::to_string(nt) + " x " + std::to_string(per) + " max " + std::to_string(max));
    std::atomic<bool> stop{false};
    std::atomic<uint64_t> clk{1};
    struct Msg { std::atomic<uint64_t> start{0}, end{0}; };
    std::vector<std::unique_ptr<std::vector<Msg>>> ops;
    for (int t = 0; t < nt; ++t) ops.emplace_back(new std::vector<Msg>(per));
    struct Snap { uint64_t start, end; S text; bool there; };
    std::vector<Snap> snaps;
    std::thread reader([&] {
        while (!stop && snaps.size() < 3000)
        {
            Snap s;
            s.start = clk++;
            s.there = slurp(file, s.text);
            s.end = clk++;
            if (snaps.empty() || snaps.back().text != s.text || !s.there) snaps.push_back(s);
        }
    });
    std::vector<std::thread> ts;
    std::vector<std::vector<Snap>> own(nt);
    for (int t = 0; t < nt; ++t)
    {
        uint64_t sd = r.next();
        ts.emplace_back([&, t, sd] {
            Rng q(sd);
            for (int i = 0; i < per; ++i)
            {
                if (q.chance(0.2)) rep.report_event("{\"e\": " + std::to_string(t * 1000 + i) + "}");
                if (q.chance(0.2)) rep.report_progress(progs(prog(t, i, 5, 5, -1)));
                (*ops[t])[i].start = clk++;
                rep.report_log_msg(wsrep::reporter::error, "m \"" + std::to_string(t * 1000 + i) + "\"");
                (*ops[t])[i].end = clk++;
                if (q.chance(0.4)) { Snap s; s.start = clk++; s.there = slurp(file, s.text); s.end = clk++; own[t].push_back(s); }
            }
        });
    }
    for (auto& t : ts) t.join();
    stop = true;
    reader.join();
    { Snap s; s.start = clk++; s.there = slurp(file, s.text); s.end = clk++; snaps.push_back(s); }
    // every snapshot is a complete document with a window of messages, and windows only move forward
    std::vector<int> order; // the order of the messages as far as snapshots show it
    auto check = [&](const Snap& s) -> std::vector<int> {
        CHECK(s.there, "report.file", "the report was absent while threads were reporting");
        Parser p(s.text);
        J d;
        CHECK(p.doc(d), "report.content", "a reader saw a report which is not valid JSON: " << p.err);
        const J* l = d.get("errors");
        CHECK(l && l->t == J::array && l->a.size() <= max, "report.bound", "a reader saw " << (l ? l->a.size() : 0) << " messages, the limit is " << max);
        std::vector<int> w;
        for (auto& x : l->a)
        {
            const J* y = x.get("msg");
            int id = -1;
            CHECK(y && sscanf(y->s.c_str(), "m \"%d\"", &id) == 1 && id >= 0 && id / 1000 < nt && id % 1000 < per, "report.content", "unknown message in the report");
            w.push_back(id);
            CHECK((*ops[id / 1000])[id % 1000].start < s.end, "report.content", "message in the report before it was given");
        }
        for (size_t i = 0; i < w.size(); ++i)
            for (size_t k = i + 1; k < w.size(); ++k)
            {
                CHECK(w[i] != w[k], "report.order", "message " << w[i] << " is twice in the report");
                auto& a = (*ops[w[i] / 1000])[w[i] % 1000];
                auto& b = (*ops[w[k] / 1000])[w[k] % 1000];
                CHECK(!(b.end < a.start), "report.order", "message " << w[k] << " was reported before " << w[i] << " but is shown after it");
            }
        // everything reported before the snapshot is there unless newer ones pushed it out
        for (int t = 0; t < nt; ++t)
            for (int i = 0; i < per; ++i)
            {
                auto& o = (*ops[t])[i];
                if (!(o.end < s.start) || std::find(w.begin(), w.end(), t * 1000 + i) != w.end()) continue;
                CHECK(w.size() == max, "report.lost", "message " << t * 1000 + i << " is missing from a report with room for it");
                for (int id : w)
                    CHECK(!((*ops[id / 1000])[id % 1000].end < o.start), "report.lost", "message " << t * 1000 + i << " is missing but the older message " << id << " is shown");
            }
        return w;
    };
    std::vector<int> prev;
    for (auto& s : snaps)
    {
        std::vector<int> w = check(s);
        // forward only: what is gone does not come back, the common part keeps its order
        size_t k = 0;
        while (k < prev.size() && (w.empty() || prev[k] != w[0])) ++k;
        size_t common = prev.size() - k;
        CHECK(common <= w.size() && std::equal(prev.begin() + (long)k, prev.end(), w.begin()), "report.order", "a later report shows older messages");
        prev = w;
        c.hit("report.snapshot");
    }
    for (auto& v : own) for (auto& s : v) { check(s); c.hit("report.own_snapshot"); }
    CHECK(listing(dir.path).size() == 1, "report.stray", "stray files after concurrent reports");
    c.mix(std::to_string(prev.empty() ? 0 : prev.back()));
    for (int x : prev) c.mix(std::to_string(x));
    c.hit("report.threads");
}

// the reporting process is killed at any moment
static void killed(Case& c)
{
    Rng& r = c.r;
    Dir dir;
    S file = dir.path + "/status.json";
    uint64_t sd = r.next();
    unsigned us = (unsigned)r.below(4000);
    c.note("kill after " + std::to_string(us) + " us");
    c.mix(std::to_string(sd));
    int go[2];
    if (pipe(go)) return;
    pid_t p = fork();
    if (p == 0)
    {
        Rng q(sd);
        wsrep::default_mutex mtx;
        wsrep::reporter rep(mtx, file, 5);
        char ch = 'g';
        if (syscall(SYS_write, go[1], &ch, 1) < 0) _exit(1);
        for (int i = 0; i < 100000; ++i) rep.report_log_msg(wsrep::reporter::error, S(q.below(3000), 'x') + " " + std::to_string(i));
        _exit(0);
    }
    char ch;
    close(go[1]);
    ssize_t got = read(go[0], &ch, 1);
    close(go[0]);
    if (got == 1) usleep(us);
    kill(p, SIGKILL);
    int st;
    waitpid(p, &st, 0);
    S text;
    if (got != 1) { c.hit("report.kill_failed"); return; }
    CHECK(slurp(file, text), "report.file", "no report after the process was killed");
    Parser ps(text);
    J d;
    CHECK(ps.doc(d), "report.torn", "the report of a killed process is not valid JSON: " << ps.err);
    const J* l = d.get("errors");
    CHECK(l && d.get("status") && d.get("warnings") && d.get("events"), "report.torn", "the report of a killed process is incomplete");
    long prev = -1;
    for (auto& x : l->a)
    {
        const J* y = x.get("msg");
        long v = y ? atol(y->s.substr(y->s.rfind(' ') + 1).c_str()) : -2;
        CHECK(prev < 0 || v == prev + 1, "report.order", "messages " << prev << " and " << v << " are neighbours in the report");
        prev = v;
    }
    c.hit("report.killed");
}
void run_reporter(Case& c)
{
    switch (c.r.below(6))
    {
    case 0: threads(c); break;
    case 1: killed(c); break;
    default: sequential(c);
    }
}
