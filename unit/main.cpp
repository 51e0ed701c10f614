#include "unit.hpp"
#include "wsrep/logger.hpp"
#include <cstring>
#include <csignal>
Case* cur = nullptr;
static bool g_trace = false;
std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
std::string show(const std::string& s)
{
    std::string o = "'";
    for (unsigned char c : s)
    {
        if (c < 32 || c > 126 || c == '\\' || c == '\'') { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    return o + "'";
}
void emit(Case& c, const char* v, const char* msg)
{
    std::ostringstream os;
    os << "{\"profile\":\"" << c.engine << "\",\"seed\":" << c.seed << ",\"hash\":\"" << std::hex << c.hash << std::dec << "\",\"steps\":" << c.steps << ",\"cov\":{";
    bool f = true;
    for (auto& k : c.cov) { os << (f ? "" : ",") << "\"" << k.first << "\":" << k.second; f = false; }
    os << "}";
    if (v) os << ",\"viol\":\"" << v << "\",\"msg\":\"" << jesc(msg) << "\"";
    os << "}\n";
    std::string s = os.str();
    size_t o = 0;
    while (o < s.size())
    {
        ssize_t n = ::write(1, s.data() + o, s.size() - o);
        if (n <= 0) break;
        o += n;
    }
}
void viol(const std::string& m, const std::string& msg)
{
    std::string full = msg;
    if (cur)
    {
        full += " | last steps:";
        size_t b = cur->log.size() > 8 ? cur->log.size() - 8 : 0;
        for (size_t i = b; i < cur->log.size(); ++i) full += " " + cur->log[i] + ";";
        emit(*cur, m.c_str(), full.c_str());
    }
    _exit(3);
}
int main(int argc, char** argv)
{
    std::string engine = argc > 1 ? argv[1] : "";
    uint64_t seed = 1, n = 1;
    double secs = 1e9;
    for (int i = 2; i < argc; ++i)
    {
        if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--n")) n = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--secs")) secs = atof(argv[++i]);
        else if (!strcmp(argv[i], "--trace")) g_trace = true;
    }
    std::map<std::string, engine_fn> fns = {{"values", run_values}, {"reporter", run_reporter}, {"options", run_options}};
    if (!fns.count(engine)) { fprintf(stderr, "unknown engine %s\n", engine.c_str()); return 2; }
    wsrep::log::logger_fn([](wsrep::log::level, const char*, const char*) {});
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t i = 0; i < n; ++i)
    {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (t.tv_sec - t0.tv_sec > secs) break;
        // the seed of the running case, for the driver, should this process die
        fprintf(stderr, "CASE %llu\n", (unsigned long long)(seed + i));
        Case c(engine, seed + i);
        cur = &c;
        fns[engine](c);
        if (g_trace) for (auto& l : c.log) fprintf(stderr, "%s\n", l.c_str());
        emit(c);
        cur = nullptr;
    }
    return 0;
}
