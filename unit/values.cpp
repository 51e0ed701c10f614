// Identifiers, positions, XA ids, views, keys, buffers and streaming counters against independent models.
#include "unit.hpp"
#include "wsrep/gtid.hpp"
#include "wsrep/key.hpp"
#include "wsrep/provider.hpp"
#include "wsrep/sr_key_set.hpp"
#include "wsrep/streaming_context.hpp"
#include "wsrep/view.hpp"
#include "wsrep/xid.hpp"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <memory>
#include <set>

typedef std::string S;
static S bytes_of(const wsrep::id& i) { return S((const char*)i.data(), i.size()); }
static bool hexd(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

static S uuid_text(const S& b, bool upper = false)
{
    S o;
    for (int i = 0; i < 16; ++i)
    {
        char t[4];
        snprintf(t, sizeof t, upper ? "%02X" : "%02x", (unsigned char)b[i]);
        o += t;
        if (i == 3 || i == 5 || i == 7 || i == 9) o += '-';
    }
    return o;
}
/* 2: well formed, 1: 32 hex digits with 4 dashes elsewhere (either verdict is accepted, value fixed), 0: not a UUID */
static int uuid_ref(const S& t, S& out)
{
    if (t.size() != 36) return 0;
    S hex;
    bool good = true;
    for (size_t i = 0; i < t.size(); ++i)
    {
        bool dashpos = i == 8 || i == 13 || i == 18 || i == 23;
        if (t[i] == '-') { if (!dashpos) good = false; }
        else if (!hexd(t[i])) return 0;
        else { hex += t[i]; if (dashpos) good = false; }
    }
    if (hex.size() != 32) return 0;
    out.clear();
    for (size_t i = 0; i < 32; i += 2) out += (char)(hexv(hex[i]) * 16 + hexv(hex[i + 1]));
    return good ? 2 : 1;
}
static S rnd_bytes(Rng& r, size_t n)
{
    S s(n, '\0');
    int mode = (int)r.below(5);
    for (auto& c : s)
        switch (mode)
        {
        case 0: c = (char)r.below(256); break;
        case 1: c = "abcXYZ059"[r.below(9)]; break;
        case 2: c = (char)r.below(3); break;
        case 3: c = "a\0b-:/ "[r.below(7)]; break;
        default: c = r.chance(0.9) ? "0123456789abcdef"[r.below(16)] : (char)r.below(256);
        }
    return s;
}
// 16 bytes, often close to each other, often printable text with padding
static S rnd_id(Rng& r)
{
    S b(16, '\0');
    switch (r.below(6))
    {
    case 0: b = rnd_bytes(r, 16); break;
    case 1: { size_t n = r.below(17); S t = rnd_bytes(r, n); std::copy(t.begin(), t.end(), b.begin()); break; }
    case 2: b[r.below(16)] = (char)r.below(256); break;
    case 3: for (auto& c : b) c = (char)0xff; b[r.below(16)] = (char)r.below(256); break;
    case 4: { size_t n = r.below(17); for (size_t i = 0; i < n; ++i) b[i] = "abcdefXYZ0123"[r.below(13)]; break; }
    default: { S base = "node1"; std::copy(base.begin(), base.end(), b.begin()); if (r.chance(0.5)) b[4] = (char)('0' + r.below(10)); if (r.chance(0.3)) b[15] = (char)r.below(3); }
    }
    return b;
}
static long long rnd_seqno(Rng& r)
{
    static const long long special[] = {-1, 0, 1, 2, 9223372036854775807LL, -9223372036854775807LL - 1, -2, 10, 4294967296LL, 2147483648LL};
    if (r.chance(0.3)) return special[r.below(10)];
    long long v = (long long)(r.next() >> r.below(64));
    return r.chance(0.2) ? -v : v;
}
static wsrep::id mk(const S& b) { return wsrep::id(b.data(), b.size()); }

static void ids(Case& c)
{
    Rng& r = c.r;
    S b = rnd_id(r);
    wsrep::id i(mk(b));
    c.mix(b);
    CHECK(bytes_of(i) == b, "id.bytes", "id built from " << show(b) << " holds " << show(bytes_of(i)));
    S t = i.to_string();
    std::ostringstream os;
    os << i;
    CHECK(os.str() == t, "id.print", "to_string() " << show(t) << " differs from stream output " << show(os.str()));
    try
    {
        wsrep::id back(t);
        CHECK(back == i && !(back != i) && bytes_of(back) == b, "id.roundtrip", "id " << show(b) << " printed as " << show(t) << " reads back as " << show(bytes_of(back)));
        std::istringstream is(t);
        wsrep::id back2;
        is >> back2;
        CHECK(back2 == i, "id.roundtrip", "id " << show(b) << " printed as " << show(t) << " reads back from stream as " << show(bytes_of(back2)));
    }
    catch (const wsrep::runtime_error& e)
    {
        VIOL("id.roundtrip", "id " << show(b) << " printed as " << show(t) << " cannot be read back: " << e.what());
    }
    CHECK(i.is_undefined() == (b == S(16, '\0')), "id.undefined", "is_undefined() of " << show(b));
    // the text of a UUID is its own
    S ut = uuid_text(b, r.chance(0.3));
    wsrep::id u(ut);
    CHECK(bytes_of(u) == b, "id.parse_uuid", "UUID text " << ut << " reads as " << show(bytes_of(u)));
    size_t k = b.find('\0');
    bool text = k != S::npos && k > 0 && std::all_of(b.begin(), b.begin() + k, alnum) && b.find_first_not_of('\0', k) == S::npos;
    if (!text) CHECK(t == uuid_text(b), "id.print_uuid", "id " << show(b) << " prints as " << show(t));
    else c.hit("values.text_id");
}
static void id_text(Case& c)
{
    Rng& r = c.r;
    S t;
    switch (r.below(6))
    {
    case 0: t = rnd_bytes(r, r.below(60)); break;
    case 1: t = rnd_bytes(r, r.range(14, 18)); break;
    default:
    {
        t = uuid_text(rnd_id(r), r.chance(0.5));
        int n = (int)r.below(4);
        for (int i = 0; i < n; ++i)
        {
            size_t p = r.below(t.size() + 1);
            switch (r.below(5))
            {
            case 0: if (p < t.size()) t[p] = "gxZ-: \0/@`G\xe9"[r.below(12)]; break;
            case 1: if (p < t.size()) t.erase(p, 1); break;
            case 2: t.insert(p, 1, "0a-g\0"[r.below(5)]); break;
            case 3: if (p + 1 < t.size()) std::swap(t[p], t[p + 1]); break;
            default: t += rnd_bytes(r, r.below(3));
            }
        }
    }
    }
    c.mix(t);
    S ref;
    int k = uuid_ref(t, ref);
    // an exact heap copy: reading beyond it is an error
    std::unique_ptr<S> arg(new S(t));
    arg->shrink_to_fit();
    bool threw = false;
    wsrep::id v;
    try { v = wsrep::id(*arg); }
    catch (const wsrep::runtime_error&) { threw = true; }
    if (k == 2) CHECK(!threw && bytes_of(v) == ref, "id.parse_uuid", "UUID text " << show(t) << (threw ? " rejected" : " misread as " + show(bytes_of(v))));
    else if (k == 1) CHECK(threw || bytes_of(v) == ref, "id.parse_uuid", "text " << show(t) << " misread as " << show(bytes_of(v)));
    else if (t.size() <= 16)
    {
        S e = t;
        e.resize(16, '\0');
        CHECK(!threw && bytes_of(v) == e, "id.parse_text", "text " << show(t) << (threw ? " rejected" : " read as " + show(bytes_of(v))));
    }
    else CHECK(threw, "id.malformed", "malformed text " << show(t) << " read as " << show(bytes_of(v)));
    c.hit(k == 2 ? "values.id_wellformed" : k == 1 ? "values.id_lenient" : t.size() <= 16 ? "values.id_short" : "values.id_malformed");
    // too long raw data
    size_t n = r.below(20);
    S raw = rnd_bytes(r, n ? n : 1);
    bool thr = false;
    wsrep::id w;
    try { w = wsrep::id(raw.data(), raw.size()); }
    catch (const wsrep::runtime_error&) { thr = true; }
    if (raw.size() > 16) CHECK(thr, "id.malformed", "raw identifier of " << raw.size() << " bytes accepted");
    else { S e = raw; e.resize(16, '\0'); CHECK(!thr && bytes_of(w) == e, "id.bytes", "raw identifier " << show(raw) << " held as " << show(bytes_of(w))); }
}
static void order(Case& c)
{
    Rng& r = c.r;
    S a = rnd_id(r), b = r.chance(0.2) ? a : rnd_id(r), d = r.chance(0.1) ? b : rnd_id(r);
    if (r.chance(0.3)) { b = a; b[r.below(16)] = (char)r.below(256); }
    wsrep::id ia(mk(a)), ib(mk(b)), id(mk(d));
    c.mix(a); c.mix(b); c.mix(d);
    int cmp = memcmp(a.data(), b.data(), 16);
    CHECK((ia < ib) + (ib < ia) + (ia == ib) == 1, "id.order", show(a) << " and " << show(b) << " are not ordered exactly one way");
    CHECK((ia == ib) == (cmp == 0) && (ia != ib) == (cmp != 0), "id.equal", show(a) << " == " << show(b) << " is wrong");
    if (ia < ib && ib < id) CHECK(ia < id, "id.order", "order of " << show(a) << " " << show(b) << " " << show(d) << " is not transitive");
    CHECK(!(ia < ia) && ia == ia, "id.order", show(a) << " against itself");
    std::map<wsrep::id, S> m;
    std::set<S> ref;
    for (int k = 0; k < 12; ++k) { S x = rnd_id(r); if (r.chance(0.4)) { x = a; x[r.below(16)] ^= (char)(1 << r.below(8)); } m[mk(x)] = x; ref.insert(x); }
    CHECK(m.size() == ref.size(), "id.map", "map keyed by identifier holds " << m.size() << " of " << ref.size() << " identifiers");
    for (auto& x : ref) CHECK(m.count(mk(x)) && m[mk(x)] == x, "id.map", "identifier " << show(x) << " not found in map");

    long long p = rnd_seqno(r), q = r.chance(0.2) ? p : rnd_seqno(r);
    if (r.chance(0.2) && p < 9223372036854775807LL) q = p + 1;
    wsrep::seqno sp(p), sq(q);
    c.mix(std::to_string(p) + "," + std::to_string(q));
    CHECK((sp < sq) == (p < q) && (sp > sq) == (p > q) && (sp <= sq) == (p <= q) && (sp >= sq) == (p >= q) && (sp == sq) == (p == q) && (sp != sq) == (p != q),
          "seqno.order", "comparison of " << p << " and " << q << " is wrong");
    CHECK(sp.get() == p && sp.is_undefined() == (p == -1), "seqno.value", "seqno " << p);
    long long sum;
    if (!__builtin_add_overflow(p, q, &sum)) CHECK((sp + sq).get() == sum && (sp + q).get() == sum, "seqno.arith", p << "+" << q);
    if (p > -9223372036854775807LL) CHECK(sp.prev().get() == p - 1 && sp.prev() < sp, "seqno.arith", "prev of " << p);
    { std::ostringstream os; os << sp; CHECK(os.str() == std::to_string(p), "seqno.print", p << " printed as " << os.str()); }
    wsrep::gtid g1(ia, sp), g2(ib, sq);
    CHECK((g1 == g2) == (cmp == 0 && p == q), "gtid.equal", "equality of positions " << show(a) << ":" << p << " and " << show(b) << ":" << q);
    CHECK(g1.id() == ia && g1.seqno() == sp && g1.is_undefined() == (p == -1 && a == S(16, '\0')), "gtid.value", "position " << show(a) << ":" << p);
    // ids of sessions and transactions, and write set descriptions
    unsigned long long x = (unsigned long long)rnd_seqno(r), y = r.chance(0.3) ? x : (unsigned long long)rnd_seqno(r);
    wsrep::transaction_id tx(x), ty(y);
    wsrep::client_id cx(x), cy(y);
    CHECK((tx < ty) == (x < y) && (tx == ty) == (x == y) && (tx != ty) == (x != y) && tx.get() == x && tx.is_undefined() == (x == ~0ull), "trxid.order", x << " and " << y);
    CHECK((cx < cy) == (x < y) && (cx == cy) == (x == y) && cx.get() == x, "clientid.order", x << " and " << y);
    wsrep::stid s1(ia, tx, cx), s2(ib, ty, cy), s3(ia, tx, cy), s4(ia, ty, cx), s5(ib, tx, cx);
    CHECK((s1 == s2) == (cmp == 0 && x == y) && (s1 == s3) == (x == y) && (s1 == s4) == (x == y) && (s1 == s5) == (cmp == 0) && s1 == s1, "stid.equal", "source ids");
    CHECK(s1.server_id() == ia && s1.transaction_id() == tx && s1.client_id() == cx, "stid.value", "source id parts");
    int fl = (int)r.below(1024);
    wsrep::ws_meta m1(g1, s1, sq, fl);
    CHECK(m1.gtid() == g1 && m1.group_id() == ia && m1.seqno() == sp && m1.server_id() == ia && m1.client_id() == cx && m1.transaction_id() == tx && m1.depends_on() == sq && m1.flags() == fl
              && m1.ordered() == !g1.is_undefined(), "meta.value", "write set description parts");
    void* o1 = (void*)(uintptr_t)x; void* o2 = (void*)(uintptr_t)y;
    wsrep::ws_handle h1(tx, o1), h2(ty, o2), h3(tx, o2);
    CHECK((h1 == h2) == (x == y) && (h1 == h3) == (o1 == o2) && h1.opaque() == o1 && h1.transaction_id() == tx, "handle.equal", "write set handles");
}
static void gtids(Case& c)
{
    Rng& r = c.r;
    S b = rnd_id(r);
    long long q = rnd_seqno(r);
    wsrep::gtid g(mk(b), wsrep::seqno(q));
    std::ostringstream os;
    os << g;
    S t = os.str();
    c.mix(t);
    CHECK(t.size() <= wsrep::gtid_c_str_len(), "gtid.length", "position text " << t << " longer than " << wsrep::gtid_c_str_len());
    { std::ostringstream e; e << mk(b) << ":" << q; CHECK(t == e.str(), "gtid.print", "position printed as " << t << " instead of " << e.str()); }
    {
        std::istringstream is(t);
        wsrep::gtid back;
        is >> back;
        CHECK(!is.fail() && back == g, "gtid.roundtrip", "position " << t << " does not read back from a stream");
    }
    for (int k = 0; k < 3; ++k)
    {
        S tail = k == 0 ? "" : k == 1 ? S(1, " ,\n\0x:"[r.below(6)]) : rnd_bytes(r, r.below(6));
        if (!tail.empty() && tail[0] >= '0' && tail[0] <= '9') tail = "";
        S full = t + tail;
        std::unique_ptr<char[]> buf(new char[full.size() ? full.size() : 1]); // exact, not terminated
        memcpy(buf.get(), full.data(), full.size());
        wsrep::gtid back;
        ssize_t n = wsrep::scan_from_c_str(buf.get(), full.size(), back);
        CHECK(n >= (ssize_t)t.size() && n <= (ssize_t)full.size() && back == g, "gtid.scan", "scanning " << show(full) << " returned " << n);
        if (tail.empty()) CHECK(n == (ssize_t)t.size(), "gtid.scan", "scanning " << show(full) << " returned " << n);
    }
    size_t len = r.chance(0.5) ? r.below(60) : (size_t)r.range(std::max<long>(0, (long)t.size() - 2), (long)t.size() + 2);
    std::unique_ptr<char[]> buf(new char[len + 1]);
    memset(buf.get(), 0x5a, len + 1);
    ssize_t n = wsrep::print_to_c_str(g, buf.get(), len);
    CHECK(buf[len] == 0x5a, "gtid.print_c", "printing " << t << " into " << len << " bytes wrote behind the buffer");
    if (len < t.size()) CHECK(n < 0, "gtid.print_c", "printing " << t << " into " << len << " bytes returned " << n);
    else CHECK(n == (ssize_t)t.size() && S(buf.get(), t.size()) == t, "gtid.print_c", "printing " << t << " into " << len << " bytes returned " << n << " and wrote " << show(S(buf.get(), std::min(len, t.size()))));
    c.hit(len < t.size() ? "values.gtid_no_space" : "values.gtid_printed");
}
static void gtid_text(Case& c)
{
    Rng& r = c.r;
    S idt, sep = ":", num;
    bool id_ok = true;
    S idb;
    switch (r.below(5))
    {
    case 0: idt = rnd_bytes(r, r.range(17, 45)); break;
    case 1: idt = rnd_bytes(r, r.below(17)); break;
    case 2: { idt = uuid_text(rnd_id(r)); size_t p = r.below(36); idt[p] = "gxz_\xff"[r.below(5)]; break; }
    case 3: { idt = uuid_text(rnd_id(r)); if (r.chance(0.5)) idt.erase(r.below(36), 1); else idt.insert(r.below(37), 1, '0'); break; }
    default: idt = uuid_text(rnd_id(r));
    }
    idt.erase(std::remove(idt.begin(), idt.end(), ':'), idt.end());
    idt.erase(std::remove(idt.begin(), idt.end(), '\n'), idt.end());
    int k = uuid_ref(idt, idb);
    if (k == 1) return; // either verdict is accepted
    if (k == 0) { id_ok = idt.size() <= 16; idb = idt; idb.resize(16, '\0'); }
    bool num_ok = true;
    long long val = 0;
    switch (r.below(7))
    {
    case 0: num = ""; num_ok = false; break;
    case 1: num = "abc"; num_ok = false; break;
    case 2: num = "9223372036854775808"; num_ok = false; break;
    case 3: num = "-9223372036854775809"; num_ok = false; break;
    case 4: num = std::to_string(val = rnd_seqno(r)); break;
    case 5: num = "-"; num_ok = false; break;
    default: num = std::to_string(val = rnd_seqno(r)); break;
    }
    if (r.chance(0.1)) { sep = ""; num_ok = false; }
    S full = idt + sep + num;
    c.mix(full);
    wsrep::gtid before(mk(S(16, 'q')), wsrep::seqno(77)), g(before);
    std::unique_ptr<char[]> buf(new char[full.size() + 1]);
    memcpy(buf.get(), full.data(), full.size());
    std::unique_ptr<char[]> exact(new char[full.size() ? full.size() : 1]);
    memcpy(exact.get(), full.data(), full.size());
    ssize_t n = wsrep::scan_from_c_str(exact.get(), full.size(), g);
    if (id_ok && num_ok) CHECK(n == (ssize_t)full.size() && g == wsrep::gtid(mk(idb), wsrep::seqno(val)), "gtid.scan", "scanning " << show(full) << " returned " << n);
    else
    {
        CHECK(n < 0, "gtid.malformed", "malformed position " << show(full) << " accepted (" << n << ")");
        CHECK(g == before, "gtid.malformed", "malformed position " << show(full) << " yielded a value");
    }
    std::istringstream is(full);
    wsrep::gtid h(before);
    is >> h;
    if (id_ok && num_ok) CHECK(!is.fail() && h == wsrep::gtid(mk(idb), wsrep::seqno(val)), "gtid.stream", "reading " << show(full));
    else CHECK(is.fail() && h == before, "gtid.malformed", "malformed position " << show(full) << " accepted from a stream");
    c.hit(id_ok && num_ok ? "values.gtid_wellformed" : "values.gtid_malformed");
}
static void xids(Case& c)
{
    Rng& r = c.r;
    auto gen = [&](long& f, long& g, long& b, S& d) {
        f = r.chance(0.2) ? -1 : (long)r.below(3);
        g = r.chance(0.2) ? 64 : (long)r.below(r.chance(0.5) ? 4 : 65);
        b = r.chance(0.2) ? 64 : (long)r.below(r.chance(0.5) ? 4 : 65);
        d = rnd_bytes(r, g + b);
    };
    long f1, g1, b1, f2, g2, b2;
    S d1, d2;
    gen(f1, g1, b1, d1);
    gen(f2, g2, b2, d2);
    if (r.chance(0.6))
    {
        f2 = f1; g2 = g1; b2 = b1; d2 = d1;
        switch (r.below(5))
        {
        case 0: f2 = f1 + 1; break;
        case 1: if (g1 > 0 && b1 < 64) { g2 = g1 - 1; b2 = b1 + 1; } break;
        case 2: if (!d2.empty()) d2[r.below(d2.size())] ^= (char)(1 << r.below(8)); break;
        case 3: if (b1 > 0) { b2 = b1 - 1; d2 = d2.substr(0, d2.size() - 1); } break;
        default:;
        }
    }
    c.mix(d1); c.mix(d2);
    std::unique_ptr<char[]> e1(new char[d1.size() ? d1.size() : 1]);
    memcpy(e1.get(), d1.data(), d1.size());
    wsrep::xid x1(f1, g1, b1, e1.get()), x2(f2, g2, b2, d2.data());
    e1.reset(); // the identifier keeps its own copy
    bool same = f1 == f2 && g1 == g2 && b1 == b2 && d1 == d2;
    CHECK((x1 == x2) == same && (x2 == x1) == same && x1 == x1, "xid.equal", "equality of XA ids " << f1 << "/" << g1 << "/" << b1 << show(d1) << " and " << f2 << "/" << g2 << "/" << b2 << show(d2));
    CHECK(to_string(x1) == d1, "xid.text", "XA id " << show(d1) << " printed as " << show(to_string(x1)));
    std::ostringstream os;
    os << x1;
    CHECK(os.str() == d1, "xid.text", "XA id " << show(d1) << " streamed as " << show(os.str()));
    CHECK(x1.is_null() == (f1 == -1), "xid.null", "is_null() with format " << f1);
    wsrep::xid cp(x1), as(x2);
    as = x1;
    CHECK(cp == x1 && as == x1 && to_string(as) == d1, "xid.copy", "copy of XA id " << show(d1));
    as.clear();
    CHECK(as.is_null() && as == wsrep::xid() && to_string(as).empty() && cp == x1, "xid.clear", "clearing XA id " << show(d1));
    long g = r.chance(0.5) ? r.range(65, 70) : r.range(0, 64), b = g > 64 && r.chance(0.7) ? r.range(0, 64) : r.range(65, 200);
    S big = rnd_bytes(r, g + b);
    bool thr = false;
    try { wsrep::xid x(1, g, b, big.data()); }
    catch (const wsrep::runtime_error&) { thr = true; }
    CHECK(thr, "xid.malformed", "XA id with parts of " << g << " and " << b << " bytes accepted");
}
static void views(Case& c)
{
    Rng& r = c.r;
    typedef wsrep::view::member M;
    std::vector<S> pool;
    while (pool.size() < 7) { S x = rnd_id(r); if (std::find(pool.begin(), pool.end(), x) == pool.end()) pool.push_back(x); }
    auto gen = [&](std::vector<S>& ids) {
        std::vector<S> p(pool);
        for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
        ids.assign(p.begin(), p.begin() + r.below(7));
    };
    auto build = [&](const std::vector<S>& ids, enum wsrep::view::status st, ssize_t own) {
        std::vector<M> m;
        for (size_t i = 0; i < ids.size(); ++i) m.push_back(M(mk(ids[i]), "n" + std::to_string(i), "a" + std::to_string(i)));
        return wsrep::view(wsrep::gtid(mk(pool[0]), wsrep::seqno(5)), wsrep::seqno(9), st, (int)r.below(1 << 18), own, 3, m);
    };
    std::vector<S> a, b;
    gen(a);
    gen(b);
    if (r.chance(0.5))
    {
        b = a;
        for (size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[r.below(i)]);
        if (r.chance(0.5) && !b.empty()) { S x = rnd_id(r); if (std::find(b.begin(), b.end(), x) == b.end()) b[r.below(b.size())] = x; }
        if (r.chance(0.2) && !b.empty()) b.pop_back();
    }
    enum wsrep::view::status st = (enum wsrep::view::status)r.below(3);
    ssize_t own = a.empty() || r.chance(0.3) ? -1 : (ssize_t)r.below(a.size());
    wsrep::view va(build(a, st, own)), vb(build(b, st, -1));
    for (auto& x : a) c.mix(x);
    for (auto& x : pool)
    {
        auto it = std::find(a.begin(), a.end(), x);
        int ix = it == a.end() ? -1 : (int)(it - a.begin());
        CHECK(va.member_index(mk(x)) == ix, "view.index", "member_index() is " << va.member_index(mk(x)) << " for member " << ix << " of " << a.size());
        CHECK(va.is_member(mk(x)) == (ix >= 0), "view.member", "is_member() is wrong for member " << ix << " of " << a.size());
    }
    bool eq = std::set<S>(a.begin(), a.end()) == std::set<S>(b.begin(), b.end());
    CHECK(va.equal_membership(vb) == eq && vb.equal_membership(va) == eq && va.equal_membership(va), "view.equal", "equal_membership() of views of " << a.size() << " and " << b.size() << " members is wrong");
    c.hit(eq ? "values.view_equal" : "values.view_differs");
    CHECK(va.is_final() == (st != wsrep::view::primary && a.empty() && own == -1), "view.final", "is_final() of a view with status " << st << ", " << a.size() << " members, own index " << own);
    CHECK(va.status() == st && va.own_index() == own && va.members().size() == a.size() && va.protocol_version() == 3 && va.view_seqno().get() == 9 && va.state_id().seqno().get() == 5, "view.value", "view parts");
    std::ostringstream os;
    os << va;
    for (size_t i = 0; i < a.size(); ++i)
    {
        S line = mk(a[i]).to_string() + ", n" + std::to_string(i);
        CHECK(os.str().find(line) != S::npos, "view.print", "member " << line << " is missing from the printed view");
        CHECK(bytes_of(va.members()[i].id()) == a[i] && va.members()[i].name() == "n" + std::to_string(i) && va.members()[i].incoming() == "a" + std::to_string(i), "view.value", "member " << i);
    }
}
static void keys(Case& c)
{
    Rng& r = c.r;
    static const enum wsrep::key::type types[] = {wsrep::key::shared, wsrep::key::reference, wsrep::key::update, wsrep::key::exclusive};
    static const char* names[] = {"shared", "reference", "update", "exclusive"};
    wsrep::sr_key_set set;
    std::map<S, std::set<S>> ref;
    int n = (int)r.below(12);
    for (int i = 0; i < n; ++i)
    {
        int t = (int)r.below(4);
        wsrep::key k(types[t]);
        std::vector<S> parts;
        size_t np = r.range(2, 3);
        for (size_t p = 0; p < np; ++p) parts.push_back(rnd_bytes(r, r.below(r.chance(0.2) ? 40 : 3)));
        for (auto& p : parts) { k.append_key_part(p.data(), p.size()); c.mix(p); }
        CHECK(k.size() == np && k.type() == types[t], "key.value", "key of " << np << " parts");
        for (size_t p = 0; p < np; ++p)
            CHECK(S(k.key_parts()[p].data(), k.key_parts()[p].size()) == parts[p], "key.value", "part " << p << " of key");
        if (np == 3)
        {
            bool thr = false;
            try { k.append_key_part("x", 1); }
            catch (const wsrep::runtime_error&) { thr = true; }
            CHECK(thr && k.size() == 3, "key.malformed", "a fourth key part was accepted");
        }
        std::ostringstream os, e;
        os << k;
        e << "type: " << names[t];
        for (auto& p : parts)
        {
            e << "\n    " << p.size() << ": ";
            for (unsigned char ch : p) { char h[4]; snprintf(h, sizeof h, "%02x ", ch); e << h; }
        }
        CHECK(os.str() == e.str(), "key.print", "key printed as " << show(os.str()) << " instead of " << show(e.str()));
        set.insert(k);
        ref[parts[0]].insert(parts[1]);
        parts.clear(); // the set keeps its own copy
        if (r.chance(0.05)) { set.clear(); ref.clear(); }
        CHECK(set.empty() == ref.empty(), "srkeys.empty", "key set emptiness");
    }
    CHECK(set.root().size() == ref.size(), "srkeys.content", "key set holds " << set.root().size() << " of " << ref.size() << " branches");
    for (auto& x : ref)
    {
        auto it = set.root().find(x.first);
        CHECK(it != set.root().end() && it->second == x.second, "srkeys.content", "key set branch " << show(x.first));
    }
    // buffers
    wsrep::mutable_buffer mb;
    S model;
    for (int i = 0; i < 10; ++i)
    {
        S d = rnd_bytes(r, r.below(20));
        switch (r.below(6))
        {
        case 0: mb.clear(); model.clear(); break;
        case 1: { size_t z = r.below(30); mb.resize(z); model.resize(z, '\0'); break; }
        case 2: { std::vector<char> v(d.begin(), d.end()); mb.push_back(v); model += d; break; }
        case 3: { wsrep::mutable_buffer o(mb); o.push_back(d.data(), d.data() + d.size()); mb = o; model += d; break; }
        default: mb.push_back(d.data(), d.data() + d.size()); model += d;
        }
        CHECK(mb.size() == model.size() && (model.empty() || S(mb.data(), mb.size()) == model), "buffer.content", "buffer holds " << mb.size() << " of " << model.size() << " bytes");
        wsrep::mutable_buffer cp(mb);
        CHECK(cp == mb, "buffer.equal", "copy of a buffer");
        cp.push_back("z", (const char*)"z" + 1);
        CHECK(!(cp == mb) && mb.size() == model.size(), "buffer.equal", "changed copy of a buffer");
    }
}
static void streaming(Case& c)
{
    Rng& r = c.r;
    wsrep::streaming_context s;
    size_t cert = 0, unit = 0, size = 0, pos = 0;
    int fu = (int)wsrep::streaming_context::bytes;
    std::vector<long long> fr;
    bool rb = false;
    long long next = 1;
    for (int i = 0; i < 40; ++i)
    {
        int op = (int)r.below(13);
        c.mix(std::to_string(op));
        size_t v = r.below(5);
        switch (op)
        {
        case 0: fu = (int)r.below(3); size = v; unit = 0; s.params((enum wsrep::streaming_context::fragment_unit)fu, v); break;
        case 1: fu = (int)r.below(3); size = v + 1; s.enable((enum wsrep::streaming_context::fragment_unit)fu, v + 1); break;
        case 2: size = 0; s.disable(); break;
        case 3: ++cert; s.certified(); break;
        case 4: next += (long long)r.range(1, 5); fr.push_back(next); s.stored(wsrep::seqno(next)); break;
        case 5: next += (long long)r.range(1, 5); fr.push_back(next); ++cert; s.applied(wsrep::seqno(next)); break;
        case 6: if (!rb) { rb = true; s.rolled_back(wsrep::transaction_id(r.below(100))); } break;
        case 7: unit = v; s.set_unit_counter(v); break;
        case 8: unit += v; s.increment_unit_counter(v); break;
        case 9: unit = 0; s.reset_unit_counter(); break;
        case 10: pos = v; s.set_log_position(v); break;
        case 11: if (r.chance(0.3)) { cert = unit = pos = 0; fr.clear(); rb = false; s.cleanup(); } break;
        default:;
        }
        std::vector<long long> got;
        for (auto& q : s.fragments()) got.push_back(q.get());
        CHECK(s.fragments_certified() == cert && s.fragments_stored() == fr.size() && got == fr && s.rolled_back() == rb, "sr.counters", "streaming counters after operation " << op);
        CHECK((int)s.fragment_unit() == fu && s.fragment_size() == size && s.unit_counter() == unit && s.log_position() == pos && s.fragment_size_exceeded() == (unit >= size), "sr.units",
              "streaming parameters after operation " << op);
    }
}
static void texts(Case& c)
{
    Rng& r = c.r;
    struct { int f; const char* n; } flags[] = {{1, "start_transaction"}, {2, "commit"}, {4, "rollback"}, {8, "isolation"}, {16, "pa_unsafe"}, {128, "prepare"}, {256, "read_view"}, {512, "implicit_deps"}};
    int f = (int)r.below(1024);
    c.mix(std::to_string(f));
    S e;
    for (auto& x : flags) if (f & x.f) e += (e.empty() ? "" : " | ") + S(x.n);
    CHECK(wsrep::flags_to_string(f) == e, "flags.text", "flags " << f << " printed as '" << wsrep::flags_to_string(f) << "' instead of '" << e << "'");
    static const char* caps[] = {"MULTI-MASTER", "CERTIFICATION", "PARALLEL_APPLYING", "REPLAY", "ISOLATION", "PAUSE", "CAUSAL_READ", "CAUSAL_TRX", "INCREMENTAL_WS", "SESSION_LOCK", "DISTRIBUTED_LOCK",
                                 "CONSISTENCY_CHECK", "UNORDERED", "ANNOTATION", "PREORDERED", "STREAMING", "READ_VIEW", "NBO"};
    int m = (int)r.below(1 << 18);
    e = "";
    for (int i = 0; i < 18; ++i) if (m & (1 << i)) e += (e.empty() ? "" : ", ") + S(caps[i]);
    CHECK(wsrep::provider::capability::str(m) == e, "caps.text", "capabilities " << m << " printed as '" << wsrep::provider::capability::str(m) << "'");
    std::set<S> names;
    for (int i = 0; i <= 11; ++i) names.insert(wsrep::provider::to_string((enum wsrep::provider::status)i));
    CHECK(names.size() == 12, "status.text", "two provider results have the same text");
}
void run_values(Case& c)
{
    for (int i = 0; i < 60; ++i)
    {
        switch (c.r.below(9))
        {
        case 0: ids(c); break;
        case 1: id_text(c); break;
        case 2: order(c); break;
        case 3: gtids(c); break;
        case 4: gtid_text(c); break;
        case 5: xids(c); break;
        case 6: views(c); break;
        case 7: keys(c); break;
        default: streaming(c); texts(c);
        }
    }
}
