#include <limits>
#include "sim.hpp"
#include <algorithm>
#include <sstream>
#include <cstring>


namespace sim
{
    Group* G = nullptr;


    uint64_t mix(uint64_t a, uint64_t b)
    {
        uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::string idstr(const wsrep::id& id) { std::ostringstream os; os << id; return os.str().substr(0, 13); }
    wsrep::id new_id()
    {
        static unsigned n = 0;
        char b[16]; memset(b, 0, sizeof(b));
        HL hl;
        ++n;
        b[0] = char(0x10 + (rnd(200))); b[1] = char(n >> 8); b[2] = char(n); b[6] = 0x11; b[8] = char(0x81); b[15] = char(n * 7 + 1);
        return wsrep::id(b, 16);
    }
    std::string enc_op(const Op& o)
    {
        char b[96];
        snprintf(b, sizeof(b), "O %06llu %03d %02d %03d %016llx\n", (unsigned long long)o.uid, o.idx,
                 o.table, o.row, (unsigned long long)o.nonce);
        return b;
    }
    WsData dec(const std::string& s)
    {
        WsData w;
        std::istringstream is(s);
        std::string line;
        while (std::getline(is, line))
        {
            if (line.empty()) continue;
            if (line[0] == 'O')
            {
                Op o; unsigned long long u, n;
                if (sscanf(line.c_str(), "O %llu %d %d %d %llx", &u, &o.idx, &o.table, &o.row, &n) == 5)
                {
                    o.uid = u; o.nonce = n;
                    w.ops.push_back(o);
                }
                else viol("ws.corrupt", "undecodable write set line: " + line);
            }
            else if (line[0] == 'X') w.xid = line.substr(2);
            else if (line[0] == 'E') w.has_e = true;
            else if (line[0] == 'P') { w.poison = line[1]; w.pmask = unsigned(atoi(line.c_str() + 2)); }
            else if (line[0] == 'T')
            {
                unsigned long long n; int f;
                sscanf(line.c_str(), "T %d %llx %d", &w.toi_table, &n, &f);
                w.toi = true; w.toi_nonce = n; w.toi_fail = f;
            }
            else viol("ws.corrupt", "undecodable write set line: " + line);
        }
        return w;
    }

    //////////////////////////////////////////////////////////////////////
    // Reference model
    uint64_t Ref::row_at(RowKey k, int64_t s) const
    {
        auto i = rows.find(k);
        uint64_t v = 0;
        if (i != rows.end())
            for (auto& x : i->second) { if (x.first <= s) v = x.second; else break; }
        return v;
    }
    uint64_t Ref::schema_at(int t, int64_t s) const
    {
        auto i = schema.find(t);
        uint64_t v = 0;
        if (i != schema.end())
            for (auto& x : i->second) { if (x.first <= s) v = x.second; else break; }
        return v;
    }
    void Ref::feed(const Event& e)
    {
        auto apply = [&](const std::vector<Op>& ops)
        {
            for (auto& o : ops)
            {
                RowKey k(o.table, o.row);
                uint64_t v = mix(row_at(k, e.seqno), o.nonce);
                rows[k].push_back(std::make_pair(e.seqno, v));
            }
            std::map<uint64_t, std::vector<Op>> by;
            for (auto& o : ops) by[o.uid].push_back(o);
            for (auto& b : by) committed[b.first].push_back(std::make_pair(e.seqno, b.second));
        };
        auto end = [&](std::map<std::pair<wsrep::id, uint64_t>, SrModel>::iterator i)
        {
            i->second.ended = e.seqno;
            sr_done.push_back(i->second);
            return sr.erase(i);
        };
        if (e.kind == EV_VIEW)
        {
            bool equal = view.size() == e.members.size();
            for (auto& m : e.members)
            {
                bool f = false;
                for (auto& p : view) if (p.id == m.id) f = true;
                if (!f) equal = false;
            }
            for (auto i = sr.begin(); i != sr.end();)
            {
                bool member = false;
                for (auto& m : e.members) if (m.id == i->first.first) member = true;
                if (!i->second.prepared && (equal || !member)) i = end(i);
                else ++i;
            }
            view = e.members;
            return;
        }
        WsData d = dec(e.data);
        if (e.kind == EV_TOI)
        {
            if (e.skip || e.nbo_end || !d.toi) return;
            if (!(e.flags & F::commit)) return;            // NBO begin
            for (auto i = sr.begin(); i != sr.end();)
            {
                if (!i->second.prepared && i->second.table == d.toi_table) i = end(i);
                else ++i;
            }
            if (d.toi_fail) return;
            schema[d.toi_table].push_back(std::make_pair(e.seqno, mix(schema_at(d.toi_table, e.seqno), d.toi_nonce)));
            for (int r = 0; r < cfg.rows; ++r)
            {
                RowKey k(d.toi_table, r);
                rows[k].push_back(std::make_pair(e.seqno, mix(row_at(k, e.seqno), d.toi_nonce)));
            }
            return;
        }
        auto key = std::make_pair(e.sid, e.trx);
        auto i = sr.find(key);
        if (!e.cert_ok || (e.flags & F::rollback))
        {
            if (i != sr.end() && !(e.flags & F::start_transaction)) end(i);
            return;
        }
        if ((e.flags & F::start_transaction) && (e.flags & F::commit))
        {
            if (d.poison != 'A') apply(d.ops);
            return;
        }
        if (e.flags & F::start_transaction)
        {
            if (d.poison == 'A') return;
            SrModel m; m.sid = e.sid; m.trx = e.trx; m.ops = d.ops; m.first = e.seqno; m.xid = d.xid;
            if (!d.ops.empty()) m.table = d.ops[0].table;
            m.prepared = e.flags & F::prepare;
            sr[key] = m;
            return;
        }
        if (i == sr.end()) return;
        if (d.poison == 'A') { end(i); return; }
        for (auto& o : d.ops) i->second.ops.push_back(o);
        if (i->second.table < 0 && !d.ops.empty()) i->second.table = d.ops[0].table;
        if (e.flags & F::commit)
        {
            apply(i->second.ops);
            end(i);
        }
        else if (e.flags & F::prepare) i->second.prepared = true;
    }

    //////////////////////////////////////////////////////////////////////
    // Total order
    static std::string kstr(const std::vector<std::string>& p, size_t n)
    {
        std::string s;
        for (size_t i = 0; i < n; ++i) { s += p[i]; s += '\x01'; }
        return s;
    }

    Event* Group::append(std::unique_ptr<Event> ep)
    {
        Event* e = ep.get();
        hb_rel(e);
        e->seqno = seqno() + 1;
        e->cert_ok = !e->spur;
        auto tid = std::make_pair(e->sid, e->trx);
        int64_t dep = barrier;
        if (e->kind == EV_WS && !(e->flags & F::rollback))
        {
            for (auto& k : e->keys)
                for (size_t n = 1; n <= k.parts.size(); ++n)
                {
                    bool ex = k.excl && n == k.parts.size();
                    std::string s = kstr(k.parts, n);
                    auto& x = index[s];
                    auto& t = index_trx[s];
                    if (x.first)
                    {
                        if (x.first > e->last_seen && t.first != tid) e->cert_ok = false;
                        dep = std::max(dep, x.first);
                    }
                    if (ex && x.second)
                    {
                        if (x.second > e->last_seen && t.second != tid) e->cert_ok = false;
                        dep = std::max(dep, x.second);
                    }
                }
        }
        bool hard = (e->flags & F::pa_unsafe) || e->kind != EV_WS || !e->cert_ok || (e->flags & F::rollback);
        auto lf = last_frag.find(tid);
        if (lf != last_frag.end()) dep = std::max(dep, lf->second);
        if (hard) dep = e->seqno - 1;
        e->depends = dep;
        if (hard) barrier = e->seqno;
        if (e->kind == EV_WS && e->cert_ok) last_frag[tid] = e->seqno;
        if (e->cert_ok && !e->skip)
            for (auto& k : e->keys)
                for (size_t n = 1; n <= k.parts.size(); ++n)
                {
                    bool ex = k.excl && n == k.parts.size();
                    std::string s = kstr(k.parts, n);
                    auto& x = index[s];
                    auto& t = index_trx[s];
                    if (ex) { x.first = e->seqno; t.first = tid; }
                    else { x.second = e->seqno; t.second = tid; }
                }
        log.push_back(std::move(ep));
        ref.feed(*e);
        if (e->origin) e->origin->own_appended = std::max(e->origin->own_appended, e->seqno);
        for (auto& m : members)
        {
            if (m.node < 0) continue;
            Inc* i = nodes[size_t(m.node)]->cur;
            if (i && i->in_group && i->id == m.id)
            {
                Item it; it.t = Item::EV; it.ev = e;
                i->inbox.push_back(it);
                i->q.wake();
            }
        }
        trace("APPEND %lld kind=%d sid=%s trx=%llu flags=%x cert=%d dep=%lld seen=%lld", (long long)e->seqno, e->kind,
              idstr(e->sid).c_str(), (unsigned long long)e->trx, e->flags, e->cert_ok, (long long)e->depends, (long long)e->last_seen);
        cov(e->kind == EV_WS ? (e->cert_ok ? "order.ws" : "order.ws_certfail") : e->kind == EV_TOI ? "order.toi" : "order.view");
        if (e->flags & F::rollback) cov("order.rollback_fragment");
        return e;
    }

    wsrep::view Group::make_view(const std::vector<Member>& ms, int64_t seqno, int64_t vno,
                                 enum wsrep::view::status st, const wsrep::id& own) const
    {
        std::vector<wsrep::view::member> v;
        ssize_t idx = -1;
        for (auto& m : ms)
        {
            if (m.id == own) idx = ssize_t(v.size());
            v.push_back(wsrep::view::member(m.id, "n" + std::to_string(m.node), "addr"));
        }
        return wsrep::view(wsrep::gtid(gid, wsrep::seqno(seqno)), wsrep::seqno(vno), st, 0, idx, 1, v);
    }

    void Group::new_view(const std::vector<Member>& ms)
    {
        members = ms;
        ++view_no;
        // NBO ends wait only for present members
        if (ms.empty()) return;
        auto e = std::make_unique<Event>();
        e->kind = EV_VIEW;
        e->members = ms;
        e->view_seqno = view_no;
        append(std::move(e));
    }

    //////////////////////////////////////////////////////////////////////
    // Provider
    bool Prov::dead() const { return !inc->alive || inc->closed; }

    wsrep::ws_meta Prov::meta(const Event& e) const
    {
        int fl = e.flags;
        if (e.kind == EV_WS && !e.cert_ok) fl = (e.flags & F::start_transaction) | F::rollback;
        if (e.kind == EV_TOI) fl |= F::isolation;
        return wsrep::ws_meta(wsrep::gtid(G->gid, wsrep::seqno(e.seqno)),
                              wsrep::stid(e.sid, wsrep::transaction_id(e.trx), wsrep::client_id(e.client)),
                              wsrep::seqno(e.depends), fl);
    }

    Prov::St Prov::connect(const std::string&, const std::string&, const std::string&, bool bootstrap)
    {
        sched::yield("connect");
        HL hl;
        if (int f = fault("connect")) return St(f);
        if (inc->connected) viol("server.connect", "provider connect() while connected");
        inc->id = new_id();
        inc->closed = false; inc->closing = false; inc->connected = true; inc->synced = false;
        inc->last_left = inc->node->dur.pos;
        inc->popped = inc->node->dur.pos;
        inc->own_appended = 0;
        inc->inbox.clear();
        std::vector<Member> ms = G->members;
        Member me; me.id = inc->id; me.node = inc->idx;
        ms.push_back(me);
        int64_t v = G->seqno() + 1;
        inc->joined_need = v;
        Item c; c.t = Item::CONNECT; c.members = ms; c.seqno = v;
        inc->inbox.push_back(c);
        bool need = !bootstrap && inc->node->dur.pos < v - 1;
        if (need)
        {
            Item s; s.t = Item::STX;
            s.sst = inc->node->dur.pos == 0 || chance(0.4);
            inc->inbox.push_back(s);
            cov(s.sst ? "join.sst" : "join.ist");
            if (!s.sst)
                for (int64_t i = inc->node->dur.pos + 1; i < v; ++i)
                {
                    Item it; it.t = Item::EV; it.ev = G->ev(i);
                    inc->inbox.push_back(it);
                }
        }
        inc->in_group = true;
        G->new_view(ms);
        Item y; y.t = Item::SYNC;
        inc->inbox.push_back(y);
        inc->q.wake();
        trace("CONNECT node %d id %s pos %lld", inc->idx, idstr(inc->id).c_str(), (long long)inc->last_left);
        return success;
    }

    int Prov::disconnect()
    {
        sched::yield("disconnect");
        HL hl;
        if (inc->closing || inc->closed || !inc->connected) return 0;
        inc->closing = true;
        if (inc->in_group)
        {
            std::vector<Member> ms;
            for (auto& m : G->members) if (m.id != inc->id) ms.push_back(m);
            inc->in_group = false;
            inc->primary = false;
            G->new_view(ms);
        }
        Item f; f.t = Item::FINAL;
        inc->inbox.push_back(f);
        inc->q.wake();
        return 0;
    }

    int Prov::desync()
    {
        sched::yield("desync");
        HL hl;
        if (fault("desync")) return 1;
        ++inc->desync; ++inc->desync_ok;
        cov("desync");
        return 0;
    }
    int Prov::resync()
    {
        HL hl;
        if (inc->desync == 0)
            viol("desync.unbalanced", "provider resync() without a matching desync()");
        if (fault("resync")) { --inc->desync; return 1; }
        --inc->desync; ++inc->resync_ok;
        if (inc->in_group && inc->desync == 0 && !inc->donor_busy)
        {
            Item y; y.t = Item::SYNC;
            inc->inbox.push_back(y);
            inc->q.wake();
        }
        return 0;
    }
    wsrep::seqno Prov::pause()
    {
        sched::yield("pause");
        HL hl;
        if (inc->paused) viol("pause.nested", "provider pause() while it is paused");
        if (fault("pause")) return wsrep::seqno::undefined();
        inc->paused = 1;
        inc->pause_at = std::max(inc->popped, inc->own_appended);
        cov("pause");
        while (inc->last_left < inc->pause_at) inc->q.wait("pause drain");
        ++inc->pause_ok;
        trace("PAUSED node %d at %lld", inc->idx, (long long)inc->last_left);
        return wsrep::seqno(inc->last_left);
    }
    int Prov::resume()
    {
        HL hl;
        if (!inc->paused) viol("pause.unbalanced", "provider resume() while it is not paused");
        if (fault("resume")) { inc->resume_failed = true; return 1; }
        inc->paused = 0; ++inc->resume_ok;
        inc->q.wake();
        return 0;
    }

    Hnd* Prov::local(wsrep::ws_handle& h)
    {
        if (h.opaque()) return static_cast<Hnd*>(h.opaque());
        uint64_t id = h.transaction_id().get();
        Hnd*& p = inc->trx[id];
        if (!p || p->released)
        {
            p = new Hnd;
            p->local = true;
            p->trx = id;
        }
        h = wsrep::ws_handle(h.transaction_id(), p);
        return p;
    }
    Hnd* Prov::hnd(const wsrep::ws_handle& h)
    {
        if (h.opaque()) return static_cast<Hnd*>(h.opaque());
        auto i = inc->trx.find(h.transaction_id().get());
        return i == inc->trx.end() ? nullptr : i->second;
    }

    int Prov::start_transaction(wsrep::ws_handle& h)
    {
        sched::yield("start_trx");
        HL hl;
        if (int f = fault("start_trx")) return f;
        local(h)->started = true;
        return 0;
    }
    int Prov::append_key(wsrep::ws_handle& h, const wsrep::key& k)
    {
        HL hl;
        if (int f = fault("append_key")) return f;
        KeyRec r;
        r.excl = k.type() == wsrep::key::exclusive || k.type() == wsrep::key::update;
        r.type = k.type();
        for (size_t i = 0; i < k.size(); ++i)
        {
            const wsrep::const_buffer b(k.key_parts()[i]);
            r.parts.push_back(std::string(b.data(), b.size()));
        }
        local(h)->keys.push_back(r);
        return 0;
    }
    Prov::St Prov::append_data(wsrep::ws_handle& h, const wsrep::const_buffer& d)
    {
        sched::yield("append_data");
        HL hl;
        if (int f = fault("append_data")) return St(f);
        local(h)->data.append(d.data(), d.size());
        return success;
    }

    static std::string key_text(const KeyRec& k)
    {
        std::string s(1, "SRUE"[k.type]);
        for (auto& p : k.parts) s += "/" + p;
        return s;
    }

    // C24: what is handed over must be what the session produced
    static void check_ws(Inc* inc, Sess* s, Hnd* h, int flags)
    {
        auto bad = [&](const std::string& m)
        {
            viol("ws.fidelity", m + " (flags " + std::to_string(flags) + ", trx " + std::to_string(h->trx) + ")");
        };
        cov("check.ws");
        bool start = flags & F::start_transaction, commit = flags & F::commit;
        bool prep = flags & F::prepare;
        if (start != (h->n_ws == 0)) bad("start flag must be on the first write set and only there");
        if (flags & (F::rollback | F::isolation)) bad("unexpected rollback/isolation flag");
        if (commit && s->phase != Sess::COMMIT && s->phase != Sess::XACOMMIT) bad("commit flag outside commit");
        if (!commit && s->phase == Sess::COMMIT && !s->xa) bad("write set sent during commit lacks commit flag");
        if (s->phase == Sess::XACOMMIT && !commit) bad("XA commit lacks the commit flag");
        if (prep != (s->phase == Sess::PREPARE)) bad("prepare flag does not match XA prepare");
        if (commit && prep) bad("commit and prepare flags together");
        // data
        std::string want = s->gen.substr(s->repl_bytes_sent());
        if (h->data != want)
            bad("data handed over is not what the session generated since the last write set: got " +
                std::to_string(h->data.size()) + " want " + std::to_string(want.size()) + " bytes");
        // keys appended since the last write set
        std::multiset<std::string> got, need;
        for (auto& k : h->keys) got.insert(key_text(k));
        for (auto& k : s->pend_keys) need.insert(key_text(k));
        for (auto& k : need)
        {
            auto i = got.find(k);
            if (i == got.end()) { bad("key missing from write set: " + k); break; }
            got.erase(i);
        }
        bool closing = (commit && h->n_ws > 0 && !s->xa) || prep;
        std::set<std::string> par;
        if (closing)
            for (auto& p : s->parents) par.insert("S/" + p.first + "/" + p.second);
        for (auto& g : got)
            if (!par.count(g)) { bad("write set has a key the session did not append: " + g); break; }
        for (auto& p : par)
            if (!got.count(p)) { bad("closing write set does not protect parent " + p); break; }
        if ((commit && h->n_ws > 0) || prep)
            if (!(flags & F::pa_unsafe)) bad("closing write set of a streaming transaction may be applied in parallel");
        if (s->pa_mark && !(flags & F::pa_unsafe)) bad("transaction was marked parallel unsafe, its write set is not");
        if (!s->pa_mark && !((commit && h->n_ws > 0) || prep) && (flags & F::pa_unsafe)) bad("ordinary write set is marked parallel unsafe");
        if (s->implicit != bool(flags & F::implicit_deps)) bad(s->implicit ? "implicit dependencies are not announced" : "implicit dependencies announced without need");
        if (flags & (F::native | F::commutative | F::snapshot)) bad("unexpected flags");
        (void)inc;
    }

    Prov::St Prov::certify(wsrep::client_id cid, wsrep::ws_handle& wh, int flags, wsrep::ws_meta& m, const seq_cb_t* cb)
    {
        sched::yield("certify");
        HL hl;
        Hnd* h = local(wh);
        Sess* s = sess_of(inc, h->trx);
        bool by_xid = !m.server_id().is_undefined() && m.transaction_id().get() != h->trx;
        if (s && !by_xid) check_ws(inc, s, h, flags);
        if (by_xid)
        {
            cov("check.ws_by_xid");
            if ((flags & ~(F::commit | F::rollback)) != F::pa_unsafe || !(flags & F::commit) == !(flags & F::rollback))
                viol("ws.fidelity", "decision on a detached transaction sent with flags " + std::to_string(flags));
            if (!h->data.empty() || !h->keys.empty()) viol("ws.fidelity", "decision on a detached transaction carries data or keys");
        }
        if (!s) viol("ws.fidelity", "certify() for a transaction no session is running");
        if (h->ev && !h->left && !by_xid)
            viol("slot.handle", "certify() on a handle whose previous write set has not left its slot");
        if (int f = fault("certify"))
        {
            s->last_injected = f;
            s->last_site = (flags & F::commit) ? "certify_commit" : "certify_fragment";
            cov("fault.certify." + std::to_string(f));
            return St(f);
        }
        while (inc->paused && !h->bf && inc->in_group) inc->q.wait("certify paused");
        if (h->bf)
        {
            // As Galera does, aborted before replication is reported with
            // either code. A commit of a prepared XA transaction cannot
            // fail certification.
            bool commit = (flags & F::commit) != 0;
            if (commit && ((s && s->xa) || chance(0.2))) { cov("certify.bf_conn_fail"); return error_connection_failed; }
            cov("certify.bf_before");
            return error_certification_failed;
        }
        if (!inc->in_group || !inc->primary || inc->closing) { cov("certify.nonprim"); s->last_injected = error_connection_failed; return error_connection_failed; }
        if (s && !s->xa && !by_xid)
            for (auto& p : inc->pending_rb)
                if (p.second && p.second < s->cert_time)
                    viol("sr.pending_order", "write set replicated while the rollback of transaction " +
                         std::to_string(p.first) + " is still to be announced");
        if (s && !by_xid && !(flags & F::commit))
        {
            if (!s->frag_stored || s->frag_data != h->data)
                viol("sr.store_first", "fragment certified before it was stored");
        }
        auto e = std::make_unique<Event>();
        e->kind = EV_WS;
        e->sid = by_xid ? m.server_id() : inc->id;
        e->trx = by_xid ? m.transaction_id().get() : h->trx;
        e->client = cid.get();
        e->origin = inc;
        e->flags = flags;
        e->keys = h->keys;
        e->data = h->data;
        e->last_seen = inc->last_left;
        e->local_apply = by_xid;
        e->spur = !by_xid && !s->xa && cfg.p_spur_cert > 0 && wrng.p(cfg.p_spur_cert);
        h->in_certify = true;
        Event* ev = G->append(std::move(e));
        if (cb)
        {
            cb->fn(cb->ctx);
        }
        h->keys.clear(); h->data.clear();
        ++h->n_ws;
        if (s && !by_xid) { s->mark_sent(); s->own_seqnos.insert(ev->seqno); s->own_last_ordered = ev->seqno; }
        if (by_xid)
        {
            if (s) { s->own_seqnos.insert(ev->seqno); }
            h->released = true;
            wh = wsrep::ws_handle(wh.transaction_id(), nullptr);
            m = meta(*ev);
            H.unlock(); sched::yield("certified xid"); H.lock();
            return success;
        }
        h->ev = ev; h->entered = 0; h->left = 0; h->frag_done = false;
        h->certfail = !ev->cert_ok;
        if (h->certfail) h->bf = false;
        if (s) s->hot("certified");
        H.unlock(); sched::yield("certified"); sched::yield("certified2"); H.lock();
        h->in_certify = false;
        m = wsrep::ws_meta(wsrep::gtid(G->gid, wsrep::seqno(ev->seqno)),
                           wsrep::stid(ev->sid, wsrep::transaction_id(ev->trx), wsrep::client_id(ev->client)),
                           wsrep::seqno(ev->depends), flags);
        if (h->certfail)
        {
            cov("certify.failed");
            if (h->bf_seqno && chance(0.8) && (flags & F::commit)) { cov("certify.failed_as_bf"); return error_bf_abort; }
            return error_certification_failed;
        }
        if (h->bf) { cov("certify.bf_after"); return error_bf_abort; }
        if (s) s->hot("certify ok");
        cov("certify.ok");
        return success;
    }

    Prov::St Prov::bf_abort(wsrep::seqno bf_seqno, wsrep::transaction_id id, wsrep::client_service&, wsrep::seqno& vs)
    {
        HL hl;
        vs = wsrep::seqno::undefined();
        auto i = inc->trx.find(id.get());
        Hnd* h;
        if (i == inc->trx.end() || i->second->released)
        {
            cov("bf.unknown_to_provider");
            return success;
        }
        else h = i->second;
        if (fault("bf_abort")) return error_not_allowed;
        if (h->ev && !h->left)
        {
            vs = wsrep::seqno(h->ev->seqno);
            bool commit = h->ev->flags & F::commit;
            if (h->certfail) { h->bf_seqno = bf_seqno.get(); cov("bf.refused_certfail"); return error_not_allowed; }
            if (commit && (h->entered || h->ev->seqno < bf_seqno.get())) { cov("bf.refused_ordered"); return error_not_allowed; }
            if (commit && h->replaying) return error_not_allowed;
        }
        else if (h->ev && h->left && (h->ev->flags & F::commit)) { cov("bf.refused_left"); return error_not_allowed; }
        h->bf = true;
        h->bf_seqno = bf_seqno.get();
        inc->q.wake();
        cov(!h->ev ? "bf.ok_unordered" : h->left ? "bf.ok_between_fragments" : "bf.ok_ordered");
        trace("BFABORT node %d trx %llu by %lld", inc->idx, (unsigned long long)id.get(), (long long)bf_seqno.get());
        return success;
    }

    Prov::St Prov::rollback(wsrep::transaction_id id)
    {
        HL hl;
        if (int f = fault("rollback")) { cov("rollback.fault"); ++inc->rb_refused; inc->pending_rb.insert(std::make_pair(id.get(), uint64_t(0))); return St(f); }
        if (!inc->in_group || !inc->primary || inc->closing)
        {
            cov("rollback.nonprim");
            ++inc->rb_refused;
            inc->pending_rb.insert(std::make_pair(id.get(), uint64_t(0)));
            return error_connection_failed;
        }
        inc->pending_rb.erase(id.get());
        if (++inc->rb_sent[id.get()] > 1) viol("sr.rollback_twice", "rollback of transaction " + std::to_string(id.get()) + " announced twice");
        auto e = std::make_unique<Event>();
        e->kind = EV_WS;
        e->sid = inc->id;
        e->trx = id.get();
        e->origin = inc;
        e->flags = F::rollback | F::pa_unsafe;
        e->last_seen = inc->last_left;
        e->local_apply = true;
        G->append(std::move(e));
        return success;
    }

    Prov::St Prov::commit_order_enter(const wsrep::ws_handle& wh, const wsrep::ws_meta& m)
    {
        sched::yield("co_enter");
        HL hl;
        if (m.seqno().is_undefined()) viol("slot.unordered", "commit_order_enter() for an unordered transaction");
        int64_t s = m.seqno().get();
        Hnd* h = hnd(wh);
        if (!h || !h->ev || h->ev->seqno != s)
            viol("slot.handle", "commit_order_enter() with a handle that does not own slot " + std::to_string(s));
        if (m.gtid().id() != G->gid) viol("slot.handle", "commit_order_enter() with a wrong group id");
        if (h->entered) viol("slot.twice", "slot " + std::to_string(s) + " entered twice");
        if (h->left) viol("slot.twice", "slot " + std::to_string(s) + " entered after it was left");
        for (;;)
        {
            if (h->local && h->bf && !h->certfail && !h->replaying)
            {
                cov("co_enter.bf_abort");
                return error_bf_abort;
            }
            if (inc->last_left == s - 1 && !inc->donating) break;
            inc->q.wait("co_enter");
        }
        if (inc->entered) viol("slot.order", "slot " + std::to_string(s) + " entered while " + std::to_string(inc->entered) + " is held");
        inc->entered = s;
        inc->entered_h = h;
        h->entered = 1;
        hb_acq(&inc->last_left);
        if (h->ev->nbo_end) { inc->node->dur.pos = s; cov("nbo.end_applied"); }
        cov("slot.enter");
        trace("ENTER node %d %lld", inc->idx, (long long)s);
        return success;
    }

    void Prov::leave(int64_t s)
    {
        inc->entered = 0;
        inc->entered_h = nullptr;
        inc->last_left = s;
        hb_rel(&inc->last_left);
        inc->q.wake();
        trace("LEAVE node %d %lld", inc->idx, (long long)s);
    }

    int Prov::commit_order_leave(const wsrep::ws_handle& wh, const wsrep::ws_meta& m, const wsrep::mutable_buffer& err)
    {
        HL hl;
        int64_t s = m.seqno().get();
        Hnd* h = hnd(wh);
        if (!h || !h->ev || h->ev->seqno != s)
            viol("slot.handle", "commit_order_leave() with a handle that does not own slot " + std::to_string(s));
        if (inc->entered != s || inc->entered_h != h)
            viol("slot.notentered", "commit_order_leave() of slot " + std::to_string(s) + " which is not held");
        int ret = 0;
        if (err.size())
        {
            std::string t(err.data(), err.size());
            vote_seen(inc, s, t);
            if (dec(h->ev->data).poison == 'R') ret = 1;
        }
        else vote_seen(inc, s, "");
        if (inc->node->dur.pos != s)
            viol("slot.position", "slot " + std::to_string(s) + " left while storage is at position " + std::to_string(inc->node->dur.pos));
        leave(s);
        h->left = 1;
        if (h->local && h->bf && !(h->ev->flags & F::commit) && chance(0.5)) { cov("co_leave.bf_fragment"); return 1; }
        return ret;
    }

    int Prov::release(wsrep::ws_handle& wh)
    {
        sched::yield("release");
        HL hl;
        Hnd* h = hnd(wh);
        if (!h) return 0;
        if (!h->local) viol("slot.handle", "release() of an applier handle");
        if (h->ev && !h->left)
        {
            if (h->ev->flags & F::commit && !h->certfail && !h->bf)
                viol("slot.leak", "certified write set " + std::to_string(h->ev->seqno) + " released without committing");
            if ((h->ev->flags & F::commit) && !h->certfail)
                viol("slot.leak", "certified write set " + std::to_string(h->ev->seqno) + " released without replay");
            int64_t s = h->ev->seqno;
            if (h->entered) viol("slot.leak", "handle released while it holds slot " + std::to_string(s));
            cov("release.slot");
            while (inc->last_left != s - 1 || inc->donating) inc->q.wait("release slot");
            h->entered = h->left = 1;
            leave(s);
            h->released = true;
            wh = wsrep::ws_handle(wh.transaction_id(), nullptr);
            return 0;
        }
        if (h->ev && h->left && !(h->ev->flags & F::commit) && !h->frag_done && !h->certfail)
        {
            h->frag_done = true;      // between fragments
            return 0;
        }
        h->released = true;
        wh = wsrep::ws_handle(wh.transaction_id(), nullptr);
        return 0;
    }

    Prov::St Prov::replay(const wsrep::ws_handle& wh, wsrep::high_priority_service* hps)
    {
        sched::yield("replay");
        Event* ev; Hnd* h;
        {
            HL hl;
            h = hnd(wh);
            if (!h || !h->ev || !h->local) viol("replay.handle", "replay() with an unknown handle");
            ev = h->ev;
            if (!(ev->flags & F::commit)) viol("replay.handle", "replay() of a write set that does not commit");
            if (h->left || h->entered) viol("replay.twice", "replay() of a write set that already took its slot");
            if (h->certfail) { cov("replay.certfail"); return error_certification_failed; }
            if (!h->bf) viol("replay.needless", "replay() of a transaction that was not aborted");
            h->replaying = true;
            while (inc->last_left != ev->seqno - 1) inc->q.wait("replay turn");
            hb_acq(&inc->last_left);
            if (int f = fault("replay")) { cov("fault.replay"); return St(f); }
        }
        cov("replay.run");
        int r = hps->apply(wsrep::ws_handle(wh.transaction_id(), h), meta(*ev),
                           wsrep::const_buffer(ev->data.data(), ev->data.size()));
        if (r) return error_fatal;
        HL hl;
        if (!h->left) viol("slot.leak", "replayed write set " + std::to_string(ev->seqno) + " did not take its slot");
        return success;
    }

    Prov::St Prov::enter_toi(wsrep::client_id cid, const wsrep::key_array& keys, const wsrep::const_buffer& buf,
                             wsrep::ws_meta& m, int flags)
    {
        sched::yield("enter_toi");
        HL hl;
        bool nbo_end = !(flags & F::start_transaction);
        toi_seen(inc, cid.get(), flags, keys.size());
        int64_t nbo_begin = nbo_end ? m.seqno().get() : 0;
        if (nbo_end && m.gtid().is_undefined()) viol("nbo.protocol", "NBO end without the position of its beginning");
        if (!nbo_end && !m.gtid().is_undefined()) viol("toi.protocol", "enter_toi() with a stale meta");
        std::vector<KeyRec> kr;
        for (auto& k : keys)
        {
            KeyRec r; r.excl = true;
            for (size_t i = 0; i < k.size(); ++i)
            {
                const wsrep::const_buffer b(k.key_parts()[i]);
                r.parts.push_back(std::string(b.data(), b.size()));
            }
            kr.push_back(r);
        }
        int f = fault("enter_toi");
        bool ordered_fail = false;
        if (f)
        {
            toi_result(inc, cid.get(), f);
            if (f == error_certification_failed && chance(0.5) && !nbo_end) ordered_fail = true;
            else { m = wsrep::ws_meta(); return St(f); }
        }
        while (inc->paused && inc->in_group) inc->q.wait("toi paused");
        if (!inc->in_group || !inc->primary || inc->closing)
        {
            m = wsrep::ws_meta();
            toi_result(inc, cid.get(), error_connection_failed);
            return error_connection_failed;
        }
        Event* ev;
        if (nbo_end)
        {
            auto& n = G->nbo[nbo_begin];
            if (n.gone.count(inc))
            {
                m = wsrep::ws_meta();
                toi_result(inc, cid.get(), error_provider_failed);
                return error_provider_failed;
            }
            if (n.have.count(inc)) viol("nbo.twice", "NBO end entered twice on a server");
            n.have.insert(inc);
            for (;;)
            {
                if (n.end) break;
                if (!inc->in_group || !inc->primary || inc->closing || n.failed)
                {
                    n.failed = true;
                    n.have.erase(inc);
                    for (auto& x : G->nodes) if (x->cur) x->cur->q.wake();
                    m = wsrep::ws_meta();
                    toi_result(inc, cid.get(), error_connection_failed);
                    return error_connection_failed;
                }
                bool all = true;
                for (auto i : n.need) if (i->alive && i->in_group && !n.have.count(i) && !n.gone.count(i)) all = false;
                if (all)
                {
                    auto e = std::make_unique<Event>();
                    e->kind = EV_TOI; e->sid = inc->id; e->origin = nullptr; e->client = cid.get();
                    e->flags = flags; e->nbo_end = true; e->nbo_begin = nbo_begin; e->keys = kr;
                    e->nbo_waiters = n.have;
                    n.end = G->append(std::move(e));
                    for (auto& x : G->nodes) if (x->cur) x->cur->q.wake();
                    break;
                }
                inc->q.wait("nbo end");
            }
            ev = n.end;
            inc->own_appended = std::max(inc->own_appended, ev->seqno);
        }
        else
        {
            auto e = std::make_unique<Event>();
            e->kind = EV_TOI; e->sid = inc->id; e->origin = inc; e->client = cid.get();
            e->flags = flags; e->keys = kr; e->data.assign(buf.data(), buf.size());
            e->last_seen = inc->last_left;
            e->skip = ordered_fail;
            ev = G->append(std::move(e));
            if (!(flags & F::commit) && !ordered_fail)
            {
                auto& n = G->nbo[ev->seqno];
                for (auto& mm : G->members)
                    if (mm.node >= 0 && G->nodes[size_t(mm.node)]->cur) n.need.insert(G->nodes[size_t(mm.node)]->cur);
            }
        }
        Hnd* h = new Hnd; h->ev = ev;
        H.unlock(); sched::yield("toi ordered"); H.lock();
        while (inc->last_left != ev->seqno - 1 || inc->entered || inc->donating) inc->q.wait("toi turn");
        inc->entered = ev->seqno; inc->entered_h = h; h->entered = 1;
        hb_acq(&inc->last_left);
        m = wsrep::ws_meta(wsrep::gtid(G->gid, wsrep::seqno(ev->seqno)),
                           wsrep::stid(inc->id, wsrep::transaction_id::undefined(), cid),
                           wsrep::seqno(ev->depends), flags);
        trace("TOI ENTER node %d %lld", inc->idx, (long long)ev->seqno);
        if (ordered_fail) { cov("toi.ordered_fail"); return error_certification_failed; }
        toi_enter(inc, cid.get(), ev->seqno);
        cov("toi.enter");
        return success;
    }

    Prov::St Prov::leave_toi(wsrep::client_id cid, const wsrep::ws_meta& m, const wsrep::mutable_buffer& err)
    {
        HL hl;
        int64_t s = m.seqno().get();
        if (inc->entered != s) viol("toi.slot", "leave_toi() of position " + std::to_string(s) + " which is not held");
        toi_leave(inc, cid.get(), s, std::string(err.data() ? err.data() : "", err.size()));
        leave(s);
        if (int f = G->ev(s)->skip ? 0 : fault("leave_toi")) { inc->toi[cid.get()].leave_failed = true; cov("fault.leave_toi"); return St(f); }
        return success;
    }

    std::pair<wsrep::gtid, Prov::St> Prov::causal_read(int) const
    {
        sched::yield("causal");
        HL hl;
        if (int f = fault("causal")) return std::make_pair(wsrep::gtid::undefined(), St(f));
        int64_t want = G->seqno();
        while (inc->in_group && inc->last_left < want) const_cast<WaitQ&>(inc->q).wait("causal");
        if (!inc->in_group) return std::make_pair(wsrep::gtid::undefined(), error_connection_failed);
        hb_acq(&inc->last_left);
        return std::make_pair(wsrep::gtid(G->gid, wsrep::seqno(inc->last_left)), success);
    }
    Prov::St Prov::wait_for_gtid(const wsrep::gtid& g, int) const
    {
        HL hl;
        if (int f = fault("causal")) return St(f);
        while (inc->in_group && inc->last_left < g.seqno().get()) const_cast<WaitQ&>(inc->q).wait("wait_gtid");
        return inc->in_group ? success : error_connection_failed;
    }
    wsrep::gtid Prov::last_committed_gtid() const { return wsrep::gtid(G->gid, wsrep::seqno(inc->last_left)); }

    Prov::St Prov::sst_sent(const wsrep::gtid&, int err)
    {
        sched::yield("sst_sent");
        HL hl;
        cov(err ? "sst.sent_err" : "sst.sent");
        inc->donor_busy = false;
        if (inc->in_group && inc->desync == 0)
        {
            Item y; y.t = Item::SYNC;
            inc->inbox.push_back(y);
            inc->q.wake();
        }
        if (int f = fault("sst_sent")) return St(f);
        return success;
    }
    Prov::St Prov::sst_received(const wsrep::gtid& g, int err)
    {
        sched::yield("sst_received");
        HL hl;
        int f = fault("sst_received");
        if (inc->stx_done) viol("sst.twice", "provider told twice about the same state transfer");
        inc->stx_done = true;
        inc->stx_err = err ? err : f ? -1 : 0;
        inc->stx_pos = g.seqno().get();
        hb_rel(&inc->stx_pos);
        if (!err && (g.is_undefined() || g.seqno().get() != inc->node->dur.pos))
            viol("sst.position", "successful state transfer reported with a wrong position");
        if (err && !g.is_undefined()) viol("sst.position", "failed state transfer reported with a position");
        inc->q.wake();
        return f ? St(f) : success;
    }

    //////////////////////////////////////////////////////////////////////
    // Delivery
    Prov::St Prov::run_applier(wsrep::high_priority_service* ctx)
    {
        Hps* hps = static_cast<Hps*>(ctx);
        for (;;)
        {
            Item it;
            bool exclusive;
            {
                HL hl;
                for (;;)
                {
                    if (inc->closed) return success;
                    if (!inc->inbox.empty() && !inc->excl)
                    {
                        Item& f = inc->inbox.front();
                        bool held = inc->paused &&
                            !(f.t == Item::EV && f.ev->seqno <= inc->pause_at) && f.t != Item::SYNC;
                        if (!held) break;
                    }
                    inc->q.wait("applier idle");
                }
                hb_acq(&inc->inbox); hb_rel(&inc->inbox);
                it = inc->inbox.front();
                inc->inbox.pop_front();
                exclusive = it.t != Item::SYNC && !(it.t == Item::EV && it.ev->kind != EV_VIEW);
                if (it.t == Item::EV)
                {
                    if (it.ev->seqno <= inc->last_left && it.ev->seqno <= inc->stx_pos) continue; // in the snapshot
                    inc->popped = std::max(inc->popped, it.ev->seqno);
                    if (it.ev->kind != EV_VIEW && it.ev->origin == inc && it.ev->sid == inc->id && !it.ev->local_apply) continue;
                    if (it.ev->nbo_end && it.ev->nbo_waiters.count(inc)) continue;
                }
                if (exclusive)
                {
                    inc->excl = true;
                    while (inc->in_flight > 0 || inc->last_left < (it.t == Item::EV ? it.ev->seqno - 1 : inc->popped) || inc->entered)
                        inc->q.wait("exclusive drain");
                    hb_acq(&inc->in_flight); hb_acq(&inc->last_left);
                }
                else ++inc->in_flight;
            }
            sched::yield("popped");
            process(it, hps);
            HL hl;
            hb_rel(exclusive ? static_cast<void*>(&inc->inbox) : &inc->in_flight);
            if (exclusive) inc->excl = false;
            else --inc->in_flight;
            inc->q.wake();
            if (it.t == Item::FINAL)
            {
                inc->closed = true;
                inc->connected = false;
                inc->q.wake();
                return success;
            }
            if (hps->must_exit()) return success;
        }
    }

    // position of the view in which a member of the group joined it last
    // a loss of the primary component the server has not seen yet
    static bool loss_queued(Inc* inc)
    {
        for (auto& i : inc->inbox) if (i.t == Item::NONPRIM) return true;
        return false;
    }
    static int64_t join_view(Inc* inc)
    {
        int64_t r = std::numeric_limits<int64_t>::max();
        for (size_t i = G->log.size(); i > 0; --i)
        {
            const Event& e = *G->log[i - 1];
            if (e.kind != EV_VIEW) continue;
            bool in = false;
            for (auto& m : e.members) if (m.id == inc->id) in = true;
            if (!in) break;
            r = e.seqno;
        }
        return r;
    }

    void Prov::process(Item& it, Hps* hps)
    {
        wsrep::server_state& srv = *inc->srv;
        switch (it.t)
        {
        case Item::EV:
            apply_event(it.ev, hps);
            break;
        case Item::CONNECT:
        {
            wsrep::view v(G->make_view(it.members, it.seqno, G->view_no, wsrep::view::primary, inc->id));
            srv.on_connect(v);
            break;
        }
        case Item::NONPRIM:
        {
            wsrep::view v(G->make_view(it.members, -1, G->view_no, wsrep::view::non_primary, inc->id));
            srv.on_view(v, hps);
            cov("view.nonprim");
            break;
        }
        case Item::FINAL:
        {
            wsrep::view v(wsrep::gtid::undefined(), wsrep::seqno(-1), wsrep::view::non_primary, 0, -1, 0,
                          std::vector<wsrep::view::member>());
            srv.on_view(v, hps);
            cov("view.final");
            break;
        }
        case Item::SYNC:
        {
            std::vector<uint64_t> known; int refused;
            {
                HL hl;
                for (auto& p : inc->pending_rb) if (p.second) known.push_back(p.first);
                refused = inc->rb_refused;
            }
            srv.on_sync();
            HL hl;
            inc->synced = true; inc->q.wake();
            cov("sync");
            if (!known.empty()) cov("sync.pending_rollback");
            if (refused == inc->rb_refused)
                for (auto id : known)
                    if (inc->pending_rb.count(id))
                        viol("sr.pending_sync", "rollback of transaction " + std::to_string(id) + " is still not announced after the server synced");
            break;
        }
        case Item::STX:
        {
            {
                HL hl;
                inc->stx_done = false; inc->stx_err = 0; inc->sst_snap.reset(); inc->sst_fail = false;
                inc->stx_wait = true;
                inc->donor_since = it.sst ? 1 : 0;
            }
            std::string req = srv.prepare_for_sst();
            HL hl;
            if (it.sst)
            {
                Inc* donor = nullptr;
                for (auto& m : G->members)
                {
                    if (m.node < 0) continue;
                    Inc* d = G->nodes[size_t(m.node)]->cur;
                    if (d && d != inc && d->alive && d->synced && d->in_group && !d->closing && !d->donor_busy) donor = d;
                }
                if (donor)
                {
                    Item d; d.t = Item::DONATE; d.joiner = inc;
                    donor->inbox.push_back(d);
                    donor->donor_busy = true;
                    donor->synced = false;
                    donor->q.wake();
                }
                else { inc->sst_fail = true; inc->q.wake(); }
            }
            while (!inc->stx_done) inc->q.wait("state transfer");
            inc->stx_wait = false;
            hb_acq(&inc->stx_pos);
            if (inc->stx_err)
            {
                cov("sst.failed");
                H.unlock();
                crash(inc, "state transfer failed");
            }
            if (inc->stx_pos > inc->last_left) inc->last_left = inc->stx_pos;
            if (inc->stx_pos > inc->popped) inc->popped = inc->stx_pos;
            cov("sst.received");
            if (inc->in_group && !inc->closing && !loss_queued(inc) && join_view(inc) <= inc->stx_pos) inc->primary = true;
            break;
        }
        case Item::DONATE:
        {
            int64_t s; wsrep::gtid g;
            {
                // a donor stops at the position it donates
                HL hl;
                while (inc->entered) inc->q.wait("donate position");
                inc->donating = true;
                s = inc->last_left;
                g = wsrep::gtid(G->gid, wsrep::seqno(s));
            }
            char req[64]; snprintf(req, sizeof(req), "%p", static_cast<void*>(it.joiner));
            int r = srv.start_sst(req, g, false);
            { HL hl; inc->donating = false; inc->q.wake(); }
            if (r)
            {
                HL hl;
                it.joiner->sst_fail = true;
                it.joiner->q.wake();
                Item y; y.t = Item::SYNC;
                inc->donor_busy = false;
                if (inc->in_group && inc->desync == 0) inc->inbox.push_back(y);
            }
            break;
        }
        }
    }

    void Prov::apply_event(Event* e, Hps* hps)
    {
        wsrep::server_state& srv = *inc->srv;
        hb_acq(e);
        if (e->kind == EV_VIEW)
        {
            wsrep::view v(G->make_view(e->members, e->seqno, e->view_seqno, wsrep::view::primary, inc->id));
            trace("VIEW node %d %lld own %zd", inc->idx, (long long)e->seqno, v.own_index());
            {
                HL hl;
                inc->entered = e->seqno;
                hb_acq(&inc->last_left);
            }
            srv.on_view(v, hps);
            view_done(inc, e);
            HL hl;
            leave(e->seqno);
            if (v.own_index() >= 0 && inc->in_group && !inc->closing && !loss_queued(inc) && join_view(inc) <= e->seqno) inc->primary = true;
            cov(v.own_index() >= 0 ? "view.primary" : "view.primary_without_me");
            return;
        }
        Hnd* h = new Hnd; h->ev = e;
        {
            HL hl;
            int64_t need = e->depends;
            while (inc->last_left < need) inc->q.wait("apply deps");
            hb_acq(&inc->last_left);
            if (e->skip)
            {
                while (inc->last_left != e->seqno - 1 || inc->donating) inc->q.wait("skip slot");
                leave(e->seqno);
                return;
            }
            if (e->kind == EV_TOI && inc->busy(e->seqno))
                viol("toi.isolation", "TOI starts while another ordered event is being applied");
            if (inc->toi_applying) viol("toi.isolation", "an ordered event is applied during TOI");
            inc->applying.insert(e->seqno);
            hps->apply_seqno = e->seqno;
        }
        int r = hps->apply(wsrep::ws_handle(wsrep::transaction_id(e->trx), h), meta(*e),
                           wsrep::const_buffer(e->data.data(), e->data.size()));
        HL hl;
        inc->applying.erase(e->seqno);
        apply_result(inc, e, r, h);
        if (r == 0)
        {
            if (!h->left) viol("slot.leak", "event " + std::to_string(e->seqno) + " applied without taking and leaving its slot");
        }
        else
        {
            cov("apply.error_returned");
            H.unlock();
            crash(inc, "inconsistent");
        }
        cov("apply.event");
    }
}
