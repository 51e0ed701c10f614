// The provider option registry against a model of the provider's own options.
#include "unit.hpp"
#include "wsrep/provider_options.hpp"
#include <memory>
#include <set>
typedef std::string S;
typedef wsrep::provider_options PO;
typedef enum wsrep::provider::status St;
namespace
{
struct Opt { S real, value; int flags; };
struct Prov : wsrep::provider
{
    std::map<S, S> values; // what the provider itself holds, by real name
    std::vector<S> received;
    St fail = success;
    Prov(wsrep::server_state& s) : provider(s) {}
    St connect(const S&, const S&, const S&, bool) override { return success; }
    int disconnect() override { return 0; }
    int capabilities() const override { return 0; }
    int desync() override { return 0; }
    int resync() override { return 0; }
    wsrep::seqno pause() override { return wsrep::seqno(); }
    int resume() override { return 0; }
    St run_applier(wsrep::high_priority_service*) override { return success; }
    int start_transaction(wsrep::ws_handle&) override { return 0; }
    St assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) override { return success; }
    int append_key(wsrep::ws_handle&, const wsrep::key&) override { return 0; }
    St append_data(wsrep::ws_handle&, const wsrep::const_buffer&) override { return success; }
    St certify(wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta&, const seq_cb_t*) override { return success; }
    St bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno&) override { return success; }
    St rollback(wsrep::transaction_id) override { return success; }
    St commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) override { return success; }
    int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override { return 0; }
    int release(wsrep::ws_handle&) override { return 0; }
    St replay(const wsrep::ws_handle&, wsrep::high_priority_service*) override { return success; }
    St enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta&, int) override { return success; }
    St leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override { return success; }
    std::pair<wsrep::gtid, St> causal_read(int) const override { return {wsrep::gtid(), success}; }
    St wait_for_gtid(const wsrep::gtid&, int) const override { return success; }
    wsrep::gtid last_committed_gtid() const override { return wsrep::gtid(); }
    St sst_sent(const wsrep::gtid&, int) override { return success; }
    St sst_received(const wsrep::gtid&, int) override { return success; }
    St enc_set_key(const wsrep::const_buffer&) override { return success; }
    std::vector<status_variable> status() const override { return {}; }
    void reset_status() override {}
    S options() const override { return ""; }
    St options(const S& o) override
    {
        received.push_back(o);
        if (fail != success) return fail;
        size_t e = o.find('='), q = o.rfind(';');
        if (e == S::npos || q == S::npos || q < e || q + 1 != o.size()) return error_warning;
        S n = o.substr(0, e);
        auto it = values.find(n);
        if (it == values.end()) return error_warning;
        it->second = o.substr(e + 1, q - e - 1);
        return success;
    }
    St set_node_isolation(enum node_isolation) override { return success; }
    S name() const override { return ""; }
    S version() const override { return ""; }
    S vendor() const override { return ""; }
    void* native() const override { return nullptr; }
};
} // namespace
// What the provider reports at synchronisation. Stands in for the service which reads it from a loaded provider.
static std::vector<Opt> g_report;
static int g_fetch_fail = -1; // report only so many and fail
static std::unique_ptr<PO::option_value> value_of(const S& v, int flags)
{
    if (flags & PO::flag::type_bool) return std::unique_ptr<PO::option_value>(new PO::option_value_bool(v == "yes"));
    if (flags & PO::flag::type_integer) return std::unique_ptr<PO::option_value>(new PO::option_value_int(atoll(v.c_str())));
    if (flags & PO::flag::type_double) return std::unique_ptr<PO::option_value>(new PO::option_value_double(atof(v.c_str())));
    return std::unique_ptr<PO::option_value>(new PO::option_value_string(v));
}
namespace wsrep
{
int config_service_v1_fetch(provider&, provider_options* o)
{
    for (size_t i = 0; i < g_report.size(); ++i)
    {
        if (g_fetch_fail >= 0 && (int)i >= g_fetch_fail) return 1;
        auto& x = g_report[i];
        if (o->set_default(x.real, value_of(x.value, x.flags), value_of(x.value, x.flags), x.flags) != provider::success) return 1;
    }
    return g_fetch_fail >= 0;
}
} // namespace wsrep
static S clean(S n) { for (auto& c : n) if (c == '.') c = '_'; return n; }
static S rnd_value(Rng& r, int flags)
{
    if (flags & PO::flag::type_bool) return r.chance(0.5) ? "yes" : "no";
    if (flags & PO::flag::type_integer)
    {
        static const long long sp[] = {0, 1, -1, 9223372036854775807LL, -9223372036854775807LL - 1, 4294967296LL};
        return std::to_string(r.chance(0.3) ? sp[r.below(6)] : (long long)r.next() >> r.below(64));
    }
    if (flags & PO::flag::type_double) return std::to_string((double)r.range(-1000000, 1000000) / 64.0);
    S s;
    size_t n = r.below(12);
    for (size_t i = 0; i < n; ++i) s += "abc123.,:/ -_PT"[r.below(15)];
    return s;
}
// typed value of an option
static bool value_is(const PO::option_value* v, const S& text, int flags, S& why)
{
    if (!v) { why = "no value"; return false; }
    if (S(v->as_string()) != text) { why = S("text ") + v->as_string(); return false; }
    if (!v->get_ptr()) { why = "no pointer"; return false; }
    if (flags & PO::flag::type_bool) { if (*(const bool*)v->get_ptr() != (text == "yes")) { why = "wrong bool"; return false; } }
    else if (flags & PO::flag::type_integer) { if (*(const int64_t*)v->get_ptr() != atoll(text.c_str())) { why = "wrong integer"; return false; } }
    else if (flags & PO::flag::type_double) { if (*(const double*)v->get_ptr() != atof(text.c_str())) { why = "wrong double"; return false; } }
    else if (S((const char*)v->get_ptr()) != text) { why = "wrong string"; return false; }
    return true;
}
void run_options(Case& c)
{
    Rng& r = c.r;
    alignas(16) static char dummy[64];
    Prov prov(*(wsrep::server_state*)dummy);
    PO po(prov);
    struct M { S real, def, val; int flags; };
    std::map<S, M> model;
    auto verify = [&](const S& when) {
        size_t n = 0;
        std::set<const void*> objs;
        std::set<S> names;
        po.for_each([&](PO::option* o) {
            ++n;
            CHECK(objs.insert(o).second && names.insert(o->name()).second, "opt.once", "option " << o->name() << " is visited twice " << when);
            CHECK(model.count(o->name()), "opt.extra", "the registry holds the unknown option " << o->name() << " " << when);
            CHECK(po.get_option(o->name()) == o, "opt.found", "option " << o->name() << " is not found under its own name " << when);
        });
        CHECK(n == model.size(), "opt.missing", "the registry holds " << n << " of " << model.size() << " options " << when);
        for (auto& x : model)
        {
            const PO::option* o = po.get_option(x.first);
            CHECK(o, "opt.missing", "option " << x.first << " is missing " << when);
            S why;
            CHECK(S(o->name()) == x.first && S(o->real_name()) == x.second.real, "opt.name", "option " << x.first << " is named " << o->name() << "/" << o->real_name() << " " << when);
            CHECK(o->flags() == x.second.flags, "opt.flags", "option " << x.first << " has flags " << o->flags() << " instead of " << x.second.flags << " " << when);
            CHECK(value_is(o->value(), x.second.val, x.second.flags, why), "opt.value", "option " << x.first << " should be " << show(x.second.val) << ": " << why << " " << when);
            CHECK(value_is(o->default_value(), x.second.def, x.second.flags, why), "opt.default", "default of option " << x.first << " should be " << show(x.second.def) << ": " << why << " " << when);
            CHECK(o->value() != o->default_value(), "opt.shared", "option " << x.first << " shares its value with its default " << when);
            CHECK(prov.values.count(x.second.real) && prov.values[x.second.real] == x.second.val, "opt.together",
                  "the provider has " << show(prov.values[x.second.real]) << " for " << x.second.real << ", the registry " << show(x.second.val) << " " << when);
            CHECK(*o == *o, "opt.equal", "option comparison");
        }
        c.hit("options.verified");
    };
    auto report = [&] {
        g_report.clear();
        prov.values.clear();
        int n = (int)r.below(14);
        std::set<S> used;
        for (int i = 0; i < n; ++i)
        {
            static const char* parts[] = {"gcs", "evs", "repl", "gcache", "fc", "limit", "max", "size", "a", "b", "version", "x_y"};
            S nm = parts[r.below(12)];
            int k = (int)r.below(3);
            for (int j = 0; j < k; ++j) nm += (r.chance(0.7) ? "." : "_") + S(parts[r.below(12)]);
            if (!used.insert(clean(nm)).second) continue;
            int fl = r.below(4) == 0 ? 0 : r.chance(0.33) ? PO::flag::type_bool : r.chance(0.5) ? PO::flag::type_integer : PO::flag::type_double;
            S v = rnd_value(r, fl);
            if (r.chance(0.2)) fl |= PO::flag::deprecated;
            if (r.chance(0.2)) fl |= PO::flag::readonly;
            g_report.push_back({nm, v, fl});
            prov.values[nm] = v;
            c.mix(nm + "=" + v);
        }
    };
    auto sync = [&](const S& when) {
        g_fetch_fail = -1;
        St st = po.initial_options();
        CHECK(st == wsrep::provider::success, "opt.sync", "synchronisation failed with " << st);
        model.clear();
        for (auto& x : g_report) model[clean(x.real)] = {x.real, x.value, x.value, x.flags};
        verify(when);
        c.hit("options.synced");
    };
    report();
    c.note("options " + std::to_string(g_report.size()));
    sync("after synchronisation");
    int n = (int)r.range(5, 40);
    for (int i = 0; i < n; ++i)
    {
        prov.fail = wsrep::provider::success;
        prov.received.clear();
        std::vector<S> names;
        for (auto& x : model) names.push_back(x.first);
        int op = (int)r.below(10);
        if (op < 5 && !names.empty())
        {
            S nm = r.pick(names);
            auto& m = model[nm];
            S v = rnd_value(r, m.flags);
            bool fail = r.chance(0.3);
            static const St codes[] = {wsrep::provider::error_warning, wsrep::provider::error_size_exceeded, wsrep::provider::error_not_allowed, wsrep::provider::error_fatal, wsrep::provider::error_not_implemented, wsrep::provider::error_unknown};
            if (fail) prov.fail = codes[r.below(6)];
            c.note("set " + nm + "=" + v + (fail ? " failing" : ""));
            St st = po.set(nm, value_of(v, m.flags));
            CHECK(st == prov.fail, "opt.status", "setting " << nm << " returned " << st << " although the provider returned " << prov.fail);
            S want = m.real + "=" + v + ";";
            CHECK(prov.received.size() == 1 && prov.received[0] == want, "opt.string", "the provider received " << (prov.received.empty() ? "nothing" : show(prov.received[0])) << " instead of " << show(want));
            if (!fail) { m.val = v; c.hit("options.set"); } else c.hit("options.set_failed");
        }
        else if (op == 5)
        {
            S nm = r.chance(0.5) || names.empty() ? S("no_such") : r.pick(names) + "x";
            if (model.count(nm)) continue;
            c.note("set unknown " + nm);
            St st = po.set(nm, value_of("1", 0));
            CHECK(st != wsrep::provider::success && prov.received.empty(), "opt.unknown", "setting an unknown option returned " << st << " and sent " << prov.received.size() << " strings to the provider");
            CHECK(po.get_option(nm) == nullptr, "opt.unknown", "an unknown option is found");
            c.hit("options.unknown");
        }
        else if (op == 6 && !names.empty())
        {
            // back to the default
            S nm = r.pick(names);
            auto& m = model[nm];
            c.note("reset " + nm);
            St st = po.set(nm, value_of(po.get_option(nm)->default_value()->as_string(), m.flags));
            CHECK(st == wsrep::provider::success, "opt.status", "resetting " << nm << " returned " << st);
            m.val = m.def;
            c.hit("options.reset");
        }
        else if (op == 7 && !names.empty())
        {
            // the name is taken
            S nm = r.pick(names);
            auto& m = model[nm];
            S other = r.chance(0.5) ? m.real : nm;
            c.note("duplicate " + other);
            St st = po.set_default(other, value_of("5", 0), value_of("6", 0), 0);
            CHECK(st != wsrep::provider::success, "opt.duplicate", "a second option named " << other << " was accepted");
            c.hit("options.duplicate");
        }
        else if (op == 8)
        {
            S nm = "new." + std::to_string(r.below(50)) + ".opt";
            if (model.count(clean(nm))) continue;
            int fl = r.chance(0.5) ? PO::flag::type_integer : 0;
            S v = rnd_value(r, fl), d = rnd_value(r, fl);
            c.note("new option " + nm);
            prov.values[nm] = v;
            St st = po.set_default(nm, value_of(v, fl), value_of(d, fl), fl);
            CHECK(st == wsrep::provider::success, "opt.status", "adding option " << nm << " returned " << st);
            model[clean(nm)] = {nm, d, v, fl};
            c.hit("options.added");
        }
        else if (op == 9 && r.chance(0.4))
        {
            // synchronise again, possibly after a failure
            if (r.chance(0.5)) report();
            else { for (auto& x : g_report) prov.values[x.real] = x.value; for (auto it = prov.values.begin(); it != prov.values.end();) { bool k = false; for (auto& x : g_report) k |= x.real == it->first; it = k ? std::next(it) : prov.values.erase(it); } }
            if (r.chance(0.3))
            {
                g_fetch_fail = (int)r.below(g_report.size() + 1);
                c.note("failing synchronisation");
                CHECK(po.initial_options() != wsrep::provider::success, "opt.sync", "a failed synchronisation was reported as success");
                c.hit("options.sync_failed");
            }
            c.note("synchronise");
            sync("after synchronising again");
        }
        else continue;
        verify("after step " + std::to_string(i));
    }
}
