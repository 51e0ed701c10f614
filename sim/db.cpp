// Database side of the simulation: storage, locks and the services the
// library calls.
#include "sim.hpp"
#include <algorithm>
#include <cstring>

namespace sim
{
    thread_local void* g_ctx = nullptr;

    static bool trx_is(DbTrx& t) { return t.active; }

    void pin(DbTrx* t) { ++t->pins; }
    void unpin(DbTrx* t)
    {
        if (--t->pins == 0 && t->dead && t->deleter) t->deleter();
    }

    static std::string kname(RowKey k) { return "t" + std::to_string(k.first) + "r" + std::to_string(k.second); }

    Sess* sess_of(Inc* inc, uint64_t trx)
    {
        auto i = inc->by_trx.find(trx);
        return i == inc->by_trx.end() ? nullptr : i->second;
    }

    //////////////////////////////////////////////////////////////////////
    // Storage primitives (H held)
    void unlock_all(DbTrx& t)
    {
        HL hl;
        for (auto& k : t.rows)
        {
            auto i = t.inc->locks.find(k);
            if (i != t.inc->locks.end() && i->second == &t) t.inc->locks.erase(i);
        }
        t.rows.clear();
        if (t.table >= 0)
        {
            auto i = t.inc->tlocks.find(t.table);
            if (i != t.inc->tlocks.end() && i->second == &t) t.inc->tlocks.erase(i);
            t.table = -1;
        }
        t.inc->lockq.wake();
    }

    void db_write(DbTrx& t, const Op& o)
    {
        HL hl;
        RowKey k(o.table, o.row);
        uint64_t& v = t.inc->rows[k];
        t.undo.push_back(std::make_pair(k, v));
        t.ops.push_back(o);
        v = mix(v, o.nonce);
        t.active = true;
    }

    void set_pos(Inc* inc, int64_t s, const char* who)
    {
        HL hl;
        if (!inc->alive) return;
        Durable& d = inc->node->dur;
        if (s <= d.pos)
            viol("slot.position", std::string(who) + ": storage position " + std::to_string(s) + " after " + std::to_string(d.pos));
        if (inc->entered != s)
            viol("slot.outside", std::string(who) + ": position " + std::to_string(s) + " made durable outside its slot (slot " + std::to_string(inc->entered) + " is held)");
        d.pos = s;
    }

    void check_row(Inc* inc, RowKey k, int64_t s, const char* who)
    {
        uint64_t want = G->ref.row_at(k, s);
        uint64_t got = inc->node->dur.rows[k];
        cov("check.row");
        if (want != got && !inc->doomed)
            viol("data.diverged", std::string(who) + " on node " + std::to_string(inc->idx) + ": row " + kname(k) +
                 " at position " + std::to_string(s) + " differs from the result of the accepted history");
    }

    static void rm_durable(Inc* inc, const wsrep::id& sid, uint64_t trx, int64_t seqno)
    {
        auto& f = inc->node->dur.frags;
        f.erase(std::remove_if(f.begin(), f.end(), [&](const Frag& x)
            { return x.sid == sid && x.trx == trx && (seqno < 0 || x.seqno == seqno); }), f.end());
    }

    // commit: durable changes and position together; locks stay
    void db_harden(DbTrx& t, int64_t seqno)
    {
        HL hl;
        Inc* inc = t.inc;
        if (seqno > 0) set_pos(inc, seqno, "commit");
        else if (!t.ops.empty())
            viol("slot.unordered", "row changes made durable by an unordered transaction");
        std::set<RowKey> ks;
        std::map<uint64_t, int> by;
        for (auto& o : t.ops)
        {
            RowKey k(o.table, o.row);
            ks.insert(k);
            ++by[o.uid];
        }
        for (auto& k : ks) inc->node->dur.rows[k] = inc->rows[k];
        for (auto& k : ks) check_row(inc, k, seqno, "commit");
        for (auto& b : by)
        {
            for (auto& h : inc->node->dur.hist)
                if (h.uid == b.first)
                    viol("data.twice", "transaction " + std::to_string(b.first) + " committed twice on node " +
                         std::to_string(inc->idx) + " (positions " + std::to_string(h.seqno) + ", " + std::to_string(seqno) + ")");
            auto c = G->ref.committed.find(b.first);
            size_t n = 0;
            bool at = false;
            if (c != G->ref.committed.end())
                for (auto& x : c->second) { if (x.first == seqno) { at = true; n = x.second.size(); } }
            if (!at || n != size_t(b.second))
                viol("data.phantom", "transaction " + std::to_string(b.first) + " made durable at " + std::to_string(seqno) + " on node " +
                     std::to_string(inc->idx) + " with " + std::to_string(b.second) + " changes, the accepted history has " + std::to_string(n));
            Hist h; h.seqno = seqno; h.uid = b.first; h.nops = b.second;
            inc->node->dur.hist.push_back(h);
        }
        for (auto& f : t.rm_frags) rm_durable(inc, f.sid, f.trx, f.seqno);
        for (auto& f : t.add_frags)
        {
            if (f.seqno <= 0 || f.seqno != seqno)
                viol("sr.frag_position", "fragment stored with position " + std::to_string(f.seqno) + " in slot " + std::to_string(seqno));
            if (G->ev(seqno)->data != f.data)
                viol("sr.frag_data", "stored fragment " + std::to_string(seqno) + " differs from the replicated one");
            if (f.sid != G->ev(seqno)->sid || f.trx != G->ev(seqno)->trx)
                viol("sr.frag_data", "fragment " + std::to_string(seqno) + " stored under a wrong transaction");
            for (auto& g : inc->node->dur.frags)
                if (g.seqno == f.seqno) viol("sr.frag_twice", "fragment " + std::to_string(f.seqno) + " stored twice");
            inc->node->dur.frags.push_back(f);
        }
        t.rm_frags.clear(); t.add_frags.clear();
        cov("db.commit");
        trace("COMMIT node %d seqno %lld ops %zu", inc->idx, (long long)seqno, t.ops.size());
    }
    void db_end(DbTrx& t)
    {
        HL hl;
        t.undo.clear(); t.ops.clear(); t.active = false;
        t.rm_frags.clear(); t.add_frags.clear();
        unlock_all(t);
    }
    void db_commit(DbTrx& t, int64_t seqno, uint64_t) { db_harden(t, seqno); }

    // undo changes, keep locks
    static void db_undo(DbTrx& t)
    {
        HL hl;
        for (auto i = t.undo.rbegin(); i != t.undo.rend(); ++i) t.inc->rows[i->first] = i->second;
        t.undo.clear(); t.ops.clear();
        t.rm_frags.clear(); t.add_frags.clear();
        t.active = false;
    }
    void db_rollback(DbTrx& t)
    {
        db_undo(t);
        db_end(t);
        cov("db.rollback");
    }

    //////////////////////////////////////////////////////////////////////
    // Locks
    static void abort_holder(DbTrx* o, int64_t seqno, bool toi)
    {
        // H held; o pinned by caller
        if (o->kind == DbTrx::LOCAL)
        {
            Sess* s = static_cast<Sess*>(o->owner);
            H.unlock();
            {
                wsrep::unique_lock<wsrep::mutex> lk(s->mtx);
                // went on to replay in the meantime
                if (s->cs->mode() == wsrep::client_state::m_local)
                {
                    if (toi) s->cs->total_order_bf_abort(lk, wsrep::seqno(seqno));
                    else s->cs->bf_abort(lk, wsrep::seqno(seqno));
                }
            }
            H.lock();
        }
        else
        {
            Hps* h = static_cast<Hps*>(o->owner);
            H.unlock();
            {
                wsrep::unique_lock<wsrep::mutex> lk(h->mtx);
                if (!h->released && h->cs->transaction().active() && h->cs->transaction().is_streaming())
                {
                    if (toi) h->cs->total_order_bf_abort(lk, wsrep::seqno(seqno));
                    else h->cs->bf_abort(lk, wsrep::seqno(seqno));
                }
            }
            H.lock();
            cov("bf.streaming_applier");
        }
    }

    int lock_hp(DbTrx& me, RowKey k, int64_t seqno)
    {
        HL hl;
        Inc* inc = me.inc;
        uint64_t last_victim = 0;
        bool first = true, recorded = false;
        for (;;)
        {
            auto tl = inc->tlocks.find(k.first);
            DbTrx* o = nullptr;
            if (tl != inc->tlocks.end() && tl->second != &me) o = tl->second;
            else
            {
                auto i = inc->locks.find(k);
                if (i != inc->locks.end() && i->second != &me) o = i->second;
            }
            if (!o)
            {
                inc->locks[k] = &me;
                me.rows.insert(k);
                return 0;
            }
            if (o->kind == DbTrx::LOCAL)
            {
                uint64_t v = o->trx;
                if (first || v != last_victim || chance(0.1))
                {
                    first = false;
                    last_victim = v;
                    pin(o);
                    cov("lock.hp_vs_local");
                    abort_holder(o, seqno, false);
                    unpin(o);
                    continue;
                }
            }
            else if (o->kind == DbTrx::SA && inc->recovering && o->trx != last_victim)
            {
                // fragments of a transaction that was given up by the group
                // but not yet here
                last_victim = o->trx;
                pin(o);
                cov("lock.recover_vs_sa");
                abort_holder(o, seqno, false);
                unpin(o);
                continue;
            }
            else if (o->kind == DbTrx::SA && !recorded && !inc->recovering)
            {
                recorded = true;
                cov("lock.hp_vs_sa");
                G->bfbf.push_back(std::make_pair(seqno, std::make_pair(o->sid, o->trx)));
            }
            else if ((o->kind == DbTrx::APPLIER || o->kind == DbTrx::REPLAYER) && o->seqno > seqno)
                viol("bf.conflict", "write set " + std::to_string(seqno) + " collides with later write set " + std::to_string(o->seqno) +
                     " on row " + kname(k) + " (missing dependency)");
            inc->lockq.wait("lock_hp");
        }
    }

    void lock_table_toi(DbTrx& me, int table, int64_t seqno)
    {
        HL hl;
        Inc* inc = me.inc;
        while (inc->tlocks.count(table) && inc->tlocks[table] != &me) inc->lockq.wait("toi table");
        inc->tlocks[table] = &me;
        me.table = table;
        std::set<std::pair<DbTrx*, uint64_t>> done;
        for (;;)
        {
            DbTrx* o = nullptr; bool any = false;
            for (auto& l : inc->locks)
                if (l.first.first == table && l.second != &me)
                {
                    any = true;
                    if ((l.second->kind == DbTrx::LOCAL || l.second->kind == DbTrx::SA) &&
                        (!done.count(std::make_pair(l.second, l.second->trx)) || chance(0.05))) { o = l.second; break; }
                }
            if (!any) return;
            if (o)
            {
                done.insert(std::make_pair(o, o->trx));
                pin(o);
                cov("lock.toi_abort");
                abort_holder(o, seqno, true);
                unpin(o);
                continue;
            }
            inc->lockq.wait("toi locks");
        }
    }

    void toi_execute(Inc* inc, const WsData& d, int64_t seqno)
    {
        HL hl;
        Durable& du = inc->node->dur;
        if (d.toi_fail) { set_pos(inc, seqno, "toi"); return; }
        for (int r = 0; r < cfg.rows; ++r)
        {
            RowKey k(d.toi_table, r);
            uint64_t& v = inc->rows[k];
            v = mix(v, d.toi_nonce);
            du.rows[k] = v;
        }
        uint64_t& s = inc->schema[d.toi_table];
        s = mix(s, d.toi_nonce);
        du.schema[d.toi_table] = s;
        set_pos(inc, seqno, "toi");
        for (int r = 0; r < cfg.rows; ++r) check_row(inc, RowKey(d.toi_table, r), seqno, "toi");
        if (s != G->ref.schema_at(d.toi_table, seqno))
            viol("toi.order", "schema of table " + std::to_string(d.toi_table) + " differs from the accepted history at " + std::to_string(seqno));
        cov("toi.execute");
    }

    //////////////////////////////////////////////////////////////////////
    // Server process
    ServerState::ServerState(Inc* inc, const wsrep::gtid& pos)
        : wsrep::server_state(*inc->smtx, *inc->scond, *inc->svc, nullptr, inc->name, "in", "addr", "/nonexistent",
                              pos, 1, cfg.rm_sync ? rm_sync : rm_async)
        , inc_(inc)
    { }

    void crash(Inc* inc, const char* why)
    {
        {
            HL hl;
            if (inc->alive)
            {
                trace("CRASH node %d: %s", inc->idx, why);
                cov(std::string("crash.") + why);
                inc->alive = false;
                inc->node->up = false;
                // A failed storage commit was undone in memory only, the
                // write set itself is a part of the history.
                for (auto& f : inc->undone)
                {
                    bool open = G->ref.sr.count(std::make_pair(f.sid, f.trx)) != 0;
                    for (auto& d : G->ref.sr_done) if (d.sid == f.sid && d.trx == f.trx && d.ended > inc->node->dur.pos) open = true;
                    if (open) { inc->node->dur.frags.push_back(f); cov("crash.undone_fragment"); }
                }
                bool member = false;
                std::vector<Member> ms;
                for (auto& m : G->members) { if (m.id == inc->id) member = true; else ms.push_back(m); }
                inc->in_group = false; inc->primary = false; inc->closing = true;
                inc->connected = false;
                // a joiner waiting for this donor learns that it failed
                for (auto& n : G->nodes)
                    if (n->cur && n->cur != inc && n->cur->alive && n->cur->stx_wait && !n->cur->stx_done && !n->cur->sst_snap && n->cur->donor_since)
                    { n->cur->sst_fail = true; n->cur->q.wake(); }
                if (member) G->new_view(ms);
                ++G->crashed;
                for (auto& n : G->nodes) if (n->cur) n->cur->q.wake();
                sched::freeze_node(inc->tag);
            }
        }
        if (sched::self_node() == inc->tag)
        {
            if (sched::free_mode()) { sched::finish(); for (;;) sched::sleep_us(1000000); }
            for (;;) sched::block(inc, "crashed");
        }
    }

    wsrep::storage_service* ServerService::storage_service(wsrep::client_service& c)
    {
        Sess* s = dynamic_cast<Sess*>(&c);
        return new Storage(inc, s);
    }
    wsrep::storage_service* ServerService::storage_service(wsrep::high_priority_service&)
    { return new Storage(inc, nullptr); }
    void ServerService::release_storage_service(wsrep::storage_service* s) { delete static_cast<Storage*>(s); }

    wsrep::high_priority_service* ServerService::streaming_applier_service(wsrep::client_service&)
    {
        void* saved = g_ctx;
        Hps* h = new Hps(inc, DbTrx::SA, "sa");
        g_ctx = saved;
        return h;
    }
    wsrep::high_priority_service* ServerService::streaming_applier_service(wsrep::high_priority_service&)
    {
        void* saved = g_ctx;
        Hps* h = new Hps(inc, DbTrx::SA, "sa");
        g_ctx = saved;
        return h;
    }
    void ServerService::release_high_priority_service(wsrep::high_priority_service* p)
    {
        Hps* h = static_cast<Hps*>(p);
        HL hl;
        if (h->released) viol("mem.release_twice", "high priority service released twice");
        h->released = true;
        if (g_ctx == h) g_ctx = nullptr;
        if (!h->db.rows.empty() || h->db.active)
            viol("sr.applier_leak", "streaming applier released with open changes or locks");
        h->db.dead = true;
        h->db.deleter = [h] { delete h; };
        if (h->db.pins == 0) delete h;
    }

    static void rb_helper(Inc* inc);
    void ServerService::background_rollback(wsrep::unique_lock<wsrep::mutex>& lk, wsrep::client_state& cs)
    {
        HL hl;
        if (!lk.owns_lock()) viol("rollbacker.lock", "background_rollback() called without the lock");
        for (auto c : inc->rbq)
            if (c == &cs) viol("rollbacker.twice", "a victim was handed to the rollbacker twice");
        auto k = inc->rb_kind.find(&cs);
        if (k == inc->rb_kind.end()) viol("rollbacker.unknown", "unknown victim");
        if (k->second.first == 0)
        {
            Sess* s = static_cast<Sess*>(k->second.second);
            if (s->in_rollbacker) viol("rollbacker.twice", "a victim was handed to the rollbacker twice");
            s->in_rollbacker = true;
            if (cs.state() != wsrep::client_state::s_idle) viol("rollbacker.busy", "a session that is executing was handed to the rollbacker");
            cov("rollbacker.session");
        }
        else cov("rollbacker.applier");
        inc->rbq.push_back(&cs);
        hb_rel(&inc->rbq);
        inc->rbwq.wake();
        rb_helper(inc);
    }

    // While all rollbackers are replaying XA transactions, which may have to
    // wait for locks of further victims, somebody has to serve the queue.
    static void rb_helper(Inc* inc)
    {
        // H held
        if (inc->rbq.empty() || inc->rb_replaying < inc->rb_threads) return;
        ++inc->rb_threads;
        cov("rollbacker.helper");
        sched::spawn("rbh" + std::to_string(inc->idx), inc->tag, [inc] { rollbacker_main(inc, true); });
    }

    void rollbacker_main(Inc* inc, bool helper)
    {
        for (;;)
        {
            wsrep::client_state* cs;
            std::pair<int, void*> k;
            {
                HL hl;
                while (inc->rbq.empty() && !inc->rb_stop && !helper) inc->rbwq.wait("rollbacker idle");
                if (inc->rbq.empty())
                {
                    hb_rel(&g_gone);
                    if (--inc->rb_threads == 0) inc->rb_running = false;
                    inc->q.wake();
                    return;
                }
                hb_acq(&inc->rbq);
                cs = inc->rbq.front();
                inc->rbq.pop_front();
                k = inc->rb_kind[cs];
            }
            sched::yield("rollbacker");
            if (cfg.p_hot > 0 && chance(0.5)) sched::sleep_us(rnd(1500));
            if (k.first == 0)
            {
                Sess* s = static_cast<Sess*>(k.second);
                if (s->in_cmd)
                    viol("session.control", "rollbacker runs while the session executes a command");
                s->store_globals();
                cs->acquire_ownership();
                bool xa;
                {
                    wsrep::unique_lock<wsrep::mutex> lk(s->mtx);
                    xa = cs->transaction().state() == wsrep::transaction::s_must_replay;
                }
                s->bf_rollback();
                if (xa)
                {
                    { HL hl; ++inc->rb_replaying; rb_helper(inc); }
                    cs->xa_replay();
                    { HL hl; --inc->rb_replaying; }
                    cov("rollbacker.xa_replay");
                }
                if (s->in_cmd)
                    viol("session.control", "session started a command before its background rollback was complete");
                s->in_rollbacker = false;
                s->reset_globals();
                cs->sync_rollback_complete();
            }
            else
            {
                Hps* h = static_cast<Hps*>(k.second);
                {
                    Storage st(inc, nullptr);
                    st.store_globals();
                    st.adopt_transaction(h->transaction());
                    st.remove_fragments();
                    st.commit(wsrep::ws_handle(), wsrep::ws_meta());
                    st.reset_globals();
                }
                h->store_globals();
                h->rollback(wsrep::ws_handle(), wsrep::ws_meta());
                h->after_apply();
                inc->svc->release_high_priority_service(h);
            }
            HL hl;
            inc->lockq.wake();
        }
    }

    void ServerService::log_view(wsrep::high_priority_service* h, const wsrep::view& v)
    {
        HL hl;
        Durable& d = inc->node->dur;
        if (!h) return;
        if (v.status() == wsrep::view::primary)
        {
            d.view = v; d.have_view = true;
            int64_t s = v.state_id().seqno().get();
            if (s > d.pos) set_pos(inc, s, "view");
        }
    }

    void ServerService::recover()
    {
        std::vector<Frag> fr;
        {
            HL hl;
            fr = inc->node->dur.frags;
            ++inc->n_recover;
            cov("recover.run");
            ++inc->recovering;
        }
        std::sort(fr.begin(), fr.end(), [](const Frag& a, const Frag& b) { return a.seqno < b.seqno; });
        void* saved = g_ctx;
        for (auto& f : fr)
        {
            if (f.xid.size())
            {
                // The storage knows that the transaction is not prepared
                // anymore, a crash came between the commit and the removal
                // of the fragments, which are separate transactions.
                HL hl;
                bool done = false;
                auto x = G->xas.find(f.xid);
                for (auto& d : inc->node->dur.hist) if (x != G->xas.end() && d.uid == x->second.uid) done = true;
                if (done)
                {
                    auto& v = inc->node->dur.frags;
                    for (size_t i = 0; i < v.size(); ++i)
                        if (v[i].seqno == f.seqno && v[i].trx == f.trx && v[i].sid == f.sid) { v.erase(v.begin() + long(i)); break; }
                    cov("recover.xa_committed");
                    continue;
                }
            }
            cov("recover.fragment");
            wsrep::ws_meta m(wsrep::gtid(G->gid, wsrep::seqno(f.seqno)),
                             wsrep::stid(f.sid, wsrep::transaction_id(f.trx), wsrep::client_id()),
                             wsrep::seqno(0), f.flags);
            wsrep::high_priority_service* sa = inc->srv->find_streaming_applier(f.sid, wsrep::transaction_id(f.trx));
            Hps* h;
            if (!sa)
            {
                h = new Hps(inc, DbTrx::SA, "sa-recovered");
                inc->srv->start_streaming_applier(f.sid, wsrep::transaction_id(f.trx), h);
                h->start_transaction(wsrep::ws_handle(wsrep::transaction_id(f.trx), 0), m);
            }
            else
            {
                h = static_cast<Hps*>(sa);
                h->next_fragment(m);
            }
            h->store_globals();
            wsrep::mutable_buffer err;
            h->apply_write_set(m, wsrep::const_buffer(f.data.data(), f.data.size()), err);
            h->after_apply();
            h->reset_globals();
        }
        g_ctx = saved;
        HL hl;
        --inc->recovering;
    }
    void ServerService::recover_streaming_appliers(wsrep::client_service&) { recover(); }
    void ServerService::recover_streaming_appliers(wsrep::high_priority_service& h)
    {
        recover();
        static_cast<Hps&>(h).store_globals();
    }

    wsrep::view ServerService::get_view(wsrep::client_service&, const wsrep::id& own)
    {
        HL hl;
        Durable& d = inc->node->dur;
        if (!d.have_view) return wsrep::view();
        ssize_t idx = d.view.member_index(own);
        return wsrep::view(d.view.state_id(), d.view.view_seqno(), d.view.status(), d.view.capabilities(), idx,
                           d.view.protocol_version(), d.view.members());
    }
    wsrep::gtid ServerService::get_position(wsrep::client_service&)
    {
        HL hl;
        return wsrep::gtid(G->gid, wsrep::seqno(inc->node->dur.pos));
    }
    void ServerService::set_position(wsrep::client_service&, const wsrep::gtid& g)
    {
        set_pos(inc, g.seqno().get(), "set_position");
        cov("db.set_position");
    }
    void ServerService::log_state_change(enum wsrep::server_state::state a, enum wsrep::server_state::state b)
    {
        state_change(inc, a, b);
    }

    //////////////////////////////////////////////////////////////////////
    // High priority service
    static uint64_t next_hps_id()
    {
        static uint64_t n = 0;
        HL hl;
        return 1000000 + ++n;
    }

    Hps::Hps(Inc* i, DbTrx::K kind, const char* nm)
        : wsrep::high_priority_service(*i->srv), inc(i), name(nm), mtx("hps"), svc(new HpsCs(this)), cs(nullptr)
    {
        db.kind = kind; db.inc = i; db.owner = this;
        uint64_t id = next_hps_id();
        own_cs.reset(new ClientState(mtx, cond, *i->srv, *svc, wsrep::client_id(id), wsrep::client_state::m_high_priority));
        cs = own_cs.get();
        db.cs = cs;
        cs->open(wsrep::client_id(id));
        cs->before_command();
        HL hl;
        inc->rb_kind[cs] = std::make_pair(1, static_cast<void*>(this));
    }
    Hps::~Hps()
    {
        {
            HL hl;
            inc->rb_kind.erase(own_cs.get());
            if (g_ctx == this) g_ctx = nullptr;
        }
        void* saved = g_ctx;
        if (own_cs->transaction().active())
            viol("sr.applier_leak", "high priority context destroyed with an active transaction");
        own_cs->acquire_ownership();
        own_cs->after_command_before_result();
        own_cs->after_command_after_result();
        own_cs->close();
        own_cs->cleanup();
        g_ctx = saved;
    }
    void HpsCs::store_globals() { if (hps) g_ctx = hps; }
    void HpsCs::reset_globals() { if (hps) g_ctx = nullptr; }
    void HpsCs::notify_state_change() { if (hps) { HL hl; hps->inc->lockq.wake(); } }
    void HpsCs::emergency_shutdown() { if (hps) crash(hps->inc, "emergency"); }
    void Hps::store_globals()
    {
        g_ctx = this;
        if (!hpctx) cs->acquire_ownership();
    }
    void Hps::reset_globals() { g_ctx = nullptr; }
    void Hps::check_ctx(const char* where)
    {
        if (g_ctx != this)
            viol("session.ctx", std::string(where) + " runs in the context of another session");
        if (released) viol("mem.released", std::string(where) + " on a released service");
    }

    int Hps::start_transaction(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        HL hl;
        db.seqno = m.seqno().get();
        db.sid = m.server_id(); db.trx = m.transaction_id().get();
        H.unlock();
        int r = cs->start_transaction(h, m);
        H.lock();
        return r;
    }
    int Hps::next_fragment(const wsrep::ws_meta& m)
    {
        db.seqno = m.seqno().get();
        return cs->next_fragment(m);
    }
    int Hps::adopt_transaction(const wsrep::transaction& t)
    {
        if (fault("adopt")) { HL hl; inc->node->dur.leak_ok.insert(std::make_pair(t.server_id(), t.id().get())); return 1; }
        cs->adopt_transaction(t);
        db.sid = t.server_id(); db.trx = t.id().get();
        db.seqno = 0;
        if (t.state() == wsrep::transaction::s_prepared && db.kind == DbTrx::SA)
        {
            // take over the client's changes and locks
            HL hl;
            Sess* s = sess_of(inc, t.id().get());
            if (s)
            {
                db.undo.swap(s->db.undo); db.ops.swap(s->db.ops); db.rows.swap(s->db.rows);
                db.active = s->db.active; s->db.active = false;
                for (auto& k : db.rows) inc->locks[k] = &db;
            }
            H.unlock();
            cs->restore_xid(t.xid());
            H.lock();
            cov("xa.detach_takeover");
        }
        else if (t.is_xa() && t.state() == wsrep::transaction::s_replaying && db.kind == DbTrx::SA)
        {
            // Prepared from the beginning, must not be taken for an
            // unfinished transaction if the view changes. The rows follow
            // in replay_unordered().
            cs->restore_xid(t.xid());
        }
        return 0;
    }

    wsrep::xid mkxid(const std::string& x)
    {
        return wsrep::xid(1, long(x.size()), 0, x.data());
    }

    // The rows of the fragment store which the transaction names, found the
    // way a database does: by server id, transaction id and sequence number.
    std::vector<Frag> listed_frags(Inc* inc, const wsrep::client_state& cs, const wsrep::id& sid, uint64_t trx, const char* what, bool strict)
    {
        std::vector<Frag> fr;
        std::set<int64_t> seen;
        for (auto& q : cs.transaction().streaming_context().fragments())
        {
            if (!seen.insert(q.get()).second)
                viol("sr.fragment_list", std::string(what) + ": fragment " + std::to_string(q.get()) + " is listed twice");
            bool found = false;
            for (auto& f : inc->node->dur.frags)
                if (f.sid == sid && f.trx == trx && f.seqno == q.get()) { fr.push_back(f); found = true; }
            if (!found && !strict) cov("sr.fragment_missing");   // somebody else has removed it
            else if (!found)
                viol("sr.fragment_list", std::string(what) + ": transaction " + std::to_string(trx) + " lists fragment " +
                     std::to_string(q.get()) + " which is not stored");
        }
        std::sort(fr.begin(), fr.end(), [](const Frag& a, const Frag& b) { return a.seqno < b.seqno; });
        cov("check.fragment_list");
        return fr;
    }

    int Hps::apply_write_set(const wsrep::ws_meta& m, const wsrep::const_buffer& buf, wsrep::mutable_buffer& err)
    {
        check_ctx("apply_write_set");
        sched::yield("apply_ws");
        WsData d(dec(std::string(buf.data(), buf.size())));
        int64_t s = m.seqno().get();
        db.seqno = s;
        bool commit = m.flags() & F::commit;
        db.active = true;
        if (replaying && !(m.flags() & F::start_transaction))
        {
            // re-execute the stored fragments of a streaming transaction
            std::vector<Frag> fr;
            {
                HL hl;
                fr = listed_frags(inc, *cs, m.server_id(), m.transaction_id().get(), "replay", true);
                db.rm_frags = fr;
            }
            for (auto& f : fr)
            {
                WsData fd(dec(f.data));
                for (auto& o : fd.ops) { lock_hp(db, RowKey(o.table, o.row), s); db_write(db, o); }
            }
            cov("replay.streaming");
        }
        size_t n = 0;
        bool poison = d.poison && (d.pmask & (1u << inc->idx));
        for (auto& o : d.ops)
        {
            sched::yield("apply_row");
            lock_hp(db, RowKey(o.table, o.row), s);
            db_write(db, o);
            if (poison && n++ >= d.ops.size() / 2) break;
        }
        if (poison)
        {
            cov(std::string("apply.poison_") + d.poison);
            if (d.poison != 'N')
            {
                std::string t = "apply error " + std::to_string(s);
                err.push_back(t.data(), t.data() + t.size());
                HL hl;
                inc->apply_err[s] = t;
            }
            else { HL hl; inc->apply_err[s] = ""; }
            { HL hl; if (d.poison != 'A') inc->doomed = true; }
            return 1;
        }
        if (!commit)
        {
            cs->fragment_applied(m.seqno());
            if (!d.xid.empty() && !cs->transaction().is_xa()) cs->assign_xid(mkxid(d.xid));
            if (m.flags() & F::prepare)
            {
                int r = cs->before_prepare() || cs->after_prepare();
                if (r) viol("xa.prepare", "prepare failed while applying");
                cov("xa.prepare_applied");
            }
        }
        cov(commit ? "apply.commit" : "apply.fragment");
        return 0;
    }

    int Hps::append_fragment_and_commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m,
                                        const wsrep::const_buffer& data, const wsrep::xid& xid)
    {
        check_ctx("append_fragment_and_commit");
        int r = start_transaction(h, m);
        Frag f; f.sid = m.server_id(); f.trx = m.transaction_id().get(); f.seqno = m.seqno().get(); f.flags = m.flags();
        f.data.assign(data.data(), data.size()); f.xid = xid.is_null() ? "" : wsrep::to_string(xid);
        db.add_frags.push_back(f);
        r = r || cs->prepare_for_ordering(h, m, true);
        r = r || cs->before_commit();
        if (!r) { sched::yield("frag store"); db_harden(db, m.seqno().get()); db_end(db); }
        r = r || cs->ordered_commit();
        r = r || cs->after_commit();
        if (r) { cs->before_rollback(); db_rollback(db); cs->after_rollback(); }
        cs->after_applying();
        cov("apply.frag_stored");
        return r;
    }

    int Hps::remove_fragments(const wsrep::ws_meta& m)
    {
        check_ctx("remove_fragments");
        HL hl;
        if (fault("remove_frags")) return 1;
        const uint64_t trx = m.transaction_id().get();
        if (cs->transaction().streaming_context().fragments().empty())
        {
            // The transaction has been rolled back and only the identifiers
            // in the meta data are left.
            for (auto& f : inc->node->dur.frags)
                if (f.sid == m.server_id() && f.trx == trx) db.rm_frags.push_back(f);
            cov("sr.fragments_removed_by_id");
        }
        else for (auto& f : listed_frags(inc, *cs, m.server_id(), trx, "remove", false)) db.rm_frags.push_back(f);
        cov("sr.fragments_removed");
        return 0;
    }

    int Hps::commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        check_ctx("commit");
        cs->prepare_for_ordering(h, m, true);
        int r = 0;
        if (m.ordered())
        {
            r = cs->before_commit();
            if (!r)
            {
                sched::yield("in slot");
                db_harden(db, m.seqno().get());
                bool early = chance(0.5);
                if (early) db_end(db);
                r = cs->ordered_commit();
                if (!early) db_end(db);
                r = r || cs->after_commit();
            }
            else db_rollback(db);
        }
        else
        {
            db_harden(db, 0);
            db_end(db);
            cs->before_rollback();
            cs->after_rollback();
        }
        return r;
    }

    int Hps::rollback(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        check_ctx("rollback");
        cs->prepare_for_ordering(h, m, false);
        int r = cs->before_rollback();
        sched::yield("hps rollback");
        db_undo(db);
        if (chance(0.5)) db_end(db);
        r = cs->after_rollback() || r;
        db_end(db);
        if (r) viol("sr.rollback", "rollback failed");
        return r;
    }

    int Hps::apply_toi(const wsrep::ws_meta& m, const wsrep::const_buffer& buf, wsrep::mutable_buffer& err)
    {
        check_ctx("apply_toi");
        int64_t s = m.seqno().get();
        WsData d(dec(std::string(buf.data(), buf.size())));
        cs->enter_toi_mode(m);
        {
            HL hl;
            if (inc->toi_applying || inc->busy(s)) viol("toi.isolation", "TOI " + std::to_string(s) + " runs with other ordered operations");
            ++inc->toi_applying;
        }
        DbTrx t; t.kind = DbTrx::TOI; t.inc = inc; t.owner = this; t.seqno = s;
        lock_table_toi(t, d.toi_table, s);
        sched::yield("toi apply");
        int ret = 0;
        if (d.poison && (d.pmask & (1u << inc->idx))) d.toi_fail = true;
        toi_execute(inc, d, s);
        if (d.toi_fail)
        {
            HL hl;
            std::string e = "toi error " + std::to_string(s);
            if (d.poison == 'N') inc->apply_err[s] = "";
            else { err.push_back(e.data(), e.data() + e.size()); inc->apply_err[s] = e; }
            ret = 1;
        }
        sched::yield("toi applied");
        unlock_all(t);
        { HL hl; --inc->toi_applying; }
        cs->leave_toi_mode();
        cov("toi.applied");
        return ret;
    }

    int Hps::apply_nbo_begin(const wsrep::ws_meta& m, const wsrep::const_buffer& buf, wsrep::mutable_buffer& err)
    {
        check_ctx("apply_nbo_begin");
        int64_t s = m.seqno().get();
        WsData d(dec(std::string(buf.data(), buf.size())));
        cs->enter_toi_mode(m);
        set_pos(inc, s, "nbo begin");
        {
            HL hl;
            ++inc->nbo_running;
            wsrep::ws_meta mm(m);
            std::vector<KeyRec> keys = G->ev(s)->keys;
            Inc* i = inc;
            sched::spawn("nbo" + std::to_string(inc->idx), inc->tag, [i, mm, d, keys] { nbo_applier(i, mm, d, keys); });
        }
        int ret = 0;
        if (d.toi_fail)
        {
            HL hl;
            std::string e = "toi error " + std::to_string(s);
            err.push_back(e.data(), e.data() + e.size());
            inc->apply_err[s] = e;
            ret = 1;
            cov("nbo.begin_failed");
        }
        cs->leave_toi_mode();
        cov("nbo.begin_applied");
        return ret;
    }

    void Hps::after_apply()
    {
        cs->after_applying();
    }

    int Hps::log_dummy_write_set(const wsrep::ws_handle& h, const wsrep::ws_meta& m, wsrep::mutable_buffer& err)
    {
        check_ctx("log_dummy_write_set");
        int r = start_transaction(h, m);
        if (m.ordered())
        {
            cs->adopt_apply_error(err);
            cs->prepare_for_ordering(h, m, true);
            r = r || cs->before_commit();
            if (!r) set_pos(inc, m.seqno().get(), "dummy");
            r = r || cs->ordered_commit();
            r = r || cs->after_commit();
            if (r) { cs->before_rollback(); cs->after_rollback(); }
        }
        cs->after_applying();
        cov("apply.dummy");
        return r;
    }

    //////////////////////////////////////////////////////////////////////
    // Storage service
    Storage::Storage(Inc* i, void* parent)
        : inc(i), mtx("storage"), svc(nullptr)
        , cs(mtx, cond, *i->srv, svc, wsrep::client_id(next_hps_id()), wsrep::client_state::m_high_priority)
        , saved_ctx(parent)
    {
        db.kind = DbTrx::STORAGE; db.inc = i; db.owner = this;
        cs.open(cs.id());
        cs.before_command();
    }
    Storage::~Storage()
    {
        if (cs.transaction().active()) viol("sr.storage_leak", "storage service released with an active transaction");
        cs.after_command_before_result();
        cs.after_command_after_result();
        cs.close();
        cs.cleanup();
        if (g_ctx == this) g_ctx = nullptr;
    }
    void Storage::store_globals() { g_ctx = this; }
    void Storage::reset_globals() { if (g_ctx == this) g_ctx = nullptr; }
    void Storage::check_ctx(const char* w)
    {
        if (g_ctx != this) viol("session.ctx", std::string("storage ") + w + " runs in the context of another session");
    }
    int Storage::start_transaction(const wsrep::ws_handle& h)
    {
        check_ctx("start");
        if (fault("st_start")) return 1;
        return cs.start_transaction(h.transaction_id());
    }
    void Storage::adopt_transaction(const wsrep::transaction& t)
    {
        cs.adopt_transaction(t);
        db.sid = t.server_id(); db.trx = t.id().get();
    }
    int Storage::append_fragment(const wsrep::id& sid, wsrep::transaction_id trx, int flags,
                                 const wsrep::const_buffer& data, const wsrep::xid& xid)
    {
        check_ctx("append");
        HL hl;
        if (fault("st_append")) return 1;
        Frag f; f.sid = sid; f.trx = trx.get(); f.flags = flags; f.seqno = -1;
        f.data.assign(data.data(), data.size()); f.xid = xid.is_null() ? "" : wsrep::to_string(xid);
        db.add_frags.push_back(f);
        Sess* s = static_cast<Sess*>(saved_ctx);
        if (s) { s->frag_stored = true; s->frag_data = f.data; s->hot("append_fragment"); }
        return 0;
    }
    int Storage::update_fragment_meta(const wsrep::ws_meta& m)
    {
        check_ctx("update");
        HL hl;
        if (fault("st_update")) return 1;
        if (db.add_frags.empty()) viol("sr.frag_position", "update of a fragment that was not appended");
        db.add_frags.back().seqno = m.seqno().get();
        return 0;
    }
    int Storage::remove_fragments()
    {
        check_ctx("remove");
        HL hl;
        const wsrep::transaction& t(cs.transaction());
        if (fault("st_remove")) { inc->node->dur.leak_ok.insert(std::make_pair(t.server_id(), t.id().get())); return 1; }
        for (auto& f : listed_frags(inc, cs, t.server_id(), t.id().get(), "storage remove", false)) db.rm_frags.push_back(f);
        cov("sr.fragments_removed_st");
        return 0;
    }
    int Storage::commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        check_ctx("commit");
        int r = 0;
        if (m.ordered())
        {
            Sess* s = static_cast<Sess*>(saved_ctx);
            if (s) { s->frag_stored = false; s->hot("storage_commit"); }
            r = cs.prepare_for_ordering(h, m, true) || cs.before_commit();
            bool stored = false; Frag f; 
            if (!r)
            {
                sched::yield("storage slot");
                if (!db.add_frags.empty()) f = db.add_frags.back();
                db_harden(db, m.seqno().get());
                stored = true;
            }
            r = r || cs.ordered_commit();
            if (r && stored)
            {
                HL hl;
                rm_durable(inc, f.sid, f.trx, f.seqno);
                inc->undone.push_back(f);
            }
            r = r || cs.after_commit();
            if (r)
            {
                cov("sr.storage_commit_failed");
                cs.prepare_for_ordering(wsrep::ws_handle(), wsrep::ws_meta(), false);
                cs.before_rollback();
                db_rollback(db);
                cs.after_rollback();
            }
            db_end(db);
        }
        else
        {
            db_harden(db, 0);
            db_end(db);
            cs.before_rollback();
            cs.after_rollback();
        }
        cs.after_applying();
        return r;
    }
    int Storage::rollback(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        check_ctx("rollback");
        Sess* s = static_cast<Sess*>(saved_ctx);
        if (s) s->frag_stored = false;
        int r = cs.prepare_for_ordering(h, m, false) || cs.before_rollback();
        db_rollback(db);
        r = r || cs.after_rollback();
        cs.after_applying();
        return r;
    }

    //////////////////////////////////////////////////////////////////////
    // Session
    Sess::Sess(Inc* i, uint64_t cid)
        : inc(i), id(cid), mtx("client"), cs(new ClientState(mtx, cond, *i->srv, *this, wsrep::client_id(cid), wsrep::client_state::m_local))
    {
        db.kind = DbTrx::LOCAL; db.inc = i; db.owner = this; db.cs = cs.get();
        HL hl;
        inc->rb_kind[cs.get()] = std::make_pair(0, static_cast<void*>(this));
        inc->sessions.push_back(this);
    }
    // somebody brute force aborts the session around this very point
    void Sess::hot(const char* where, double mul)
    {
        if (cfg.p_hot <= 0 || !chance(cfg.p_hot * mul)) return;
        Sess* v = this;
        {
            HL hl;
            if (inc->stopping || inc->hot_running > 2) return;
            ++inc->hot_running;
        }
        std::string w(where);
        sched::spawn("hot", inc->tag, [v, w]
        {
            {
                wsrep::unique_lock<wsrep::mutex> lk(v->mtx);
                if (v->cs->transaction().active() && v->in_trx && v->cs->mode() == wsrep::client_state::m_local)
                {
                    int64_t bf;
                    { HL hl; bf = v->inc->last_left + 1; }
                    cov("hot.bf_abort");
                    trace("HOT %s", w.c_str());
                    v->cs->bf_abort(lk, wsrep::seqno(bf));
                }
            }
            HL hl;
            --v->inc->hot_running;
        });
    }
    bool Sess::interrupted(wsrep::unique_lock<wsrep::mutex>& lk) const
    {
        if (!lk.owns_lock()) viol("mutex.misuse", "interrupted() called without the lock");
        HL hl;
        if (killed) inc->toi[id].intr = true;
        return killed;
    }
    void Sess::store_globals() { g_ctx = this; }
    void Sess::reset_globals() { if (g_ctx == this) g_ctx = nullptr; }
    void Sess::check_ctx(const char* where)
    {
        if (g_ctx != this) viol("session.ctx", std::string(where) + " runs in the context of another session");
    }
    bool Sess::aborted()
    {
        wsrep::unique_lock<wsrep::mutex> lk(mtx);
        if (killed) return true;
        if (!cs->transaction().active()) return false;
        switch (cs->transaction().state())
        {
        case wsrep::transaction::s_executing:
        case wsrep::transaction::s_prepared:
        case wsrep::transaction::s_committing:
        case wsrep::transaction::s_preparing: return false;
        default: return true;
        }
    }
    int Sess::prepare_data_for_replication()
    {
        check_ctx("prepare_data");
        hot("prepare_data");
        if (fault("prep_data")) { HL hl; last_site = "prep_data"; last_injected = 1; return 1; }
        size_t pos = cs->transaction().streaming_context().log_position();
        std::string d = gen.substr(pos);
        if (!d.empty())
        {
            size_t half = d.size() / 2;
            if (cs->append_data(wsrep::const_buffer(d.data(), half))) return 1;
            if (cs->append_data(wsrep::const_buffer(d.data() + half, d.size() - half))) return 1;
        }
        return 0;
    }
    void Sess::cleanup_transaction()
    {
        // not handed over when disconnected, recovered when joining again
        if (xa_prep && db.active) { db_rollback(db); cov("xa.cleanup_disconnected"); }
        HL hl;
        cleanup_called = true;
    }
    bool Sess::statement_allowed_for_streaming() const { return stmt_ok; }
    size_t Sess::bytes_generated() const { return gen.size(); }
    int Sess::prepare_fragment_for_replication(wsrep::mutable_buffer& b, size_t& pos)
    {
        check_ctx("prepare_fragment");
        hot("prepare_fragment");
        if (fault("prep_frag")) { HL hl; last_site = "prep_frag"; last_injected = 1; return 1; }
        size_t p = cs->transaction().streaming_context().log_position();
        std::string d = gen.substr(p);
        b.push_back(d.data(), d.data() + d.size());
        pos = gen.size();
        return 0;
    }
    int Sess::remove_fragments()
    {
        check_ctx("remove_fragments");
        hot("remove_frags");
        sched::yield("remove_frags");
        HL hl;
        const wsrep::transaction& t(cs->transaction());
        if (fault("remove_frags_local"))
        {
            // after the rollback nobody else is left to do it
            if (!db.active) inc->node->dur.leak_ok.insert(std::make_pair(t.server_id(), t.id().get()));
            return 1;
        }
        std::vector<Frag> fr(listed_frags(inc, *cs, t.server_id(), t.id().get(), "local remove", false));
        if (db.active) db.rm_frags = fr;
        else for (auto& f : fr) rm_durable(inc, f.sid, f.trx, f.seqno);
        cov("sr.fragments_removed_local");
        return 0;
    }
    // rollback of the database transaction
    static void rb_db(Sess* s)
    {
        HL hl;
        DbTrx& t = s->db;
        if (s->n_frag > 0 && !s->xa && t.active)
        {
            // C09: everybody must know before the locks go
            auto key = std::make_pair(s->cs->transaction().server_id(), s->cs->transaction().id().get());
            cov("check.sr_unlock");
            if (G->ref.sr.count(key) && !s->inc->pending_rb.count(key.second) && s->inc->in_group && s->inc->primary &&
                s->cs->transaction().state() != wsrep::transaction::s_must_replay && !s->toi_aborted)
                viol("sr.unlock_before_rollback", "streaming transaction released its locks before its rollback was announced");
        }
        db_undo(t);
    }
    int Sess::bf_rollback()
    {
        check_ctx("bf_rollback");
        ++bf_rb;
        return do_rollback();
    }
    int Sess::do_rollback()
    {
        hot("rollback");
        sched::yield("rollback");
        {
            wsrep::unique_lock<wsrep::mutex> lk(mtx);
            toi_aborted = cs->transaction().bf_aborted_in_total_order();
        }
        int r = cs->before_rollback();
        hot("rollback db");
        sched::yield("rollback db");
        {
            wsrep::unique_lock<wsrep::mutex> lk(mtx);
            toi_aborted = cs->transaction().bf_aborted_in_total_order();
        }
        rb_db(this);
        // TOI must not proceed before fragments are gone
        bool keep = toi_aborted;
        if (!keep) db_end(db);
        sched::yield("rollback done");
        r = cs->after_rollback() || r;
        if (keep) db_end(db);
        cov("session.rollback");
        if (r) viol("session.rollback", "rollback hook failed");
        return r;
    }
    void Sess::emergency_shutdown()
    {
        cov("emergency_shutdown");
        inc->shutdown_req = true;
        if (cfg.freeze_on_shutdown) crash(inc, "emergency");
    }
    void Sess::will_replay() { HL hl; ++inc->replayers; ++will; }
    void Sess::signal_replayed()
    {
        HL hl;
        if (inc->replayers <= 0) viol("replay.counter", "signal_replayed() without will_replay()");
        --inc->replayers; --will;
        inc->replq.wake();
    }
    enum wsrep::provider::status Sess::replay()
    {
        check_ctx("replay");
        ++replays;
        if (db.active || !db.rows.empty()) viol("replay.locks", "replay starts before the victim is rolled back");
        enum wsrep::provider::status ret;
        if (chance(cfg.p_hpctx))
        {
            cov("replay.hpctx");
            wsrep::high_priority_context hc(*cs);
            Hps h(inc, DbTrx::REPLAYER, "replayer");
            h.replaying = true; h.hpctx = true; h.replay_for = this;
            wsrep::client_state* own = h.cs;
            h.cs = cs.get();
            g_ctx = &h;
            ret = cs->provider().replay(cs->transaction().ws_handle(), &h);
            if (ret == wsrep::provider::success && cs->transaction().active()) h.after_apply();
            h.cs = own;
            g_ctx = this;
        }
        else
        {
            cov("replay.separate");
            Hps h(inc, DbTrx::REPLAYER, "replayer");
            h.replaying = true; h.replay_for = this;
            h.store_globals();
            h.cs->clone_transaction_for_replay(cs->transaction());
            if (h.cs->transaction().id() != cs->transaction().id() || h.cs->transaction().server_id() != cs->transaction().server_id() ||
                !(h.cs->transaction().xid() == cs->transaction().xid()) || h.cs->transaction().is_streaming() != cs->transaction().is_streaming())
                viol("replay.identity", "the replaying transaction differs from the replayed one");
            ret = cs->provider().replay(cs->transaction().ws_handle(), &h);
            if (h.cs->transaction().active())
            {
                if (ret != wsrep::provider::success) { db_rollback(h.db); }
                h.after_apply();
            }
            store_globals();
        }
        replay_result = ret;
        if (will <= 0) viol("replay.counter", "others are not told to wait until the replay is over");
        if (ret != wsrep::provider::success && ret != wsrep::provider::error_certification_failed) want_emergency = true;
        store_globals();
        return ret;
    }
    enum wsrep::provider::status Sess::replay_unordered()
    {
        // the converted applier takes the prepared transaction over
        const wsrep::transaction& t(cs->transaction());
        Hps* h = static_cast<Hps*>(inc->srv->find_streaming_applier(t.server_id(), t.id()));
        if (!h && inc->srv->state() == wsrep::server_state::s_disconnected)
        {
            cov("xa.replay_disconnected");
            return wsrep::provider::success;
        }
        if (!h) { viol("xa.lost", "prepared transaction has no applier during replay"); return wsrep::provider::error_unknown; }
        h->store_globals();
        std::vector<Frag> fr;
        {
            HL hl;
            for (auto& f : inc->node->dur.frags)
                if (f.sid == t.server_id() && f.trx == t.id().get()) fr.push_back(f);
        }
        std::sort(fr.begin(), fr.end(), [](const Frag& a, const Frag& b) { return a.seqno < b.seqno; });
        h->db.active = true;
        for (auto& f : fr)
        {
            WsData d(dec(f.data));
            for (auto& o : d.ops) { lock_hp(h->db, RowKey(o.table, o.row), f.seqno); db_write(h->db, o); }
        }
        h->reset_globals();
        cov("xa.replay_unordered");
        return wsrep::provider::success;
    }
    void Sess::wait_for_replayers(wsrep::unique_lock<wsrep::mutex>& lk)
    {
        if (!lk.owns_lock()) viol("mutex.misuse", "wait_for_replayers() called without the lock");
        { HL hl; cert_time = ++G->clock; }
        for (;;)
        {
            { HL hl; if (inc->replayers <= 0 || killed) return; }
            if (cs->transaction().state() == wsrep::transaction::s_must_abort) return;
            lk.unlock();
            sched::sleep_us(200);
            lk.lock();
        }
    }
    enum wsrep::provider::status Sess::commit_by_xid()
    {
        cov("xa.commit_by_xid_replay");
        if (int f = fault("commit_by_xid")) return static_cast<enum wsrep::provider::status>(f);
        const wsrep::transaction& t(cs->transaction());
        Hps* sa = static_cast<Hps*>(inc->srv->find_streaming_applier(t.xid()));
        if (!sa && inc->srv->state() == wsrep::server_state::s_disconnected)
            return wsrep::provider::error_connection_failed;
        if (!sa) { viol("xa.lost", "no applier for prepared transaction"); return wsrep::provider::error_unknown; }
        wsrep::stid st(sa->transaction().server_id(), sa->transaction().id(), cs->id());
        wsrep::ws_meta m(st);
        wsrep::ws_handle h(wsrep::transaction_id(t.id().get()), nullptr);
        HL hl;
        // a fresh provider transaction carries the decision
        uint64_t nid = 0;
        { nid = (uint64_t(inc->tag + 1) << 32) | inc->next_trx++; inc->by_trx[nid] = this; }
        h = wsrep::ws_handle(wsrep::transaction_id(nid), nullptr);
        H.unlock();
        auto r = cs->provider().certify(cs->id(), h, F::commit | F::pa_unsafe, m, nullptr);
        H.lock();
        return r;
    }
    bool Sess::is_explicit_xa() { return xa; }
    bool Sess::is_prepared_xa() { return xa_prep; }
    bool Sess::is_xa_rollback() { return xa_rb; }
    void Sess::notify_state_change() { HL hl; inc->lockq.wake(); inc->replq.wake(); }

    int Sess::write(int table, int row)
    {
        RowKey k(table, row);
        // lock
        int tries = 0;
        for (;;)
        {
            {
                HL hl;
                auto tl = inc->tlocks.find(table);
                DbTrx* o = tl != inc->tlocks.end() ? tl->second : nullptr;
                auto i = inc->locks.find(k);
                if (i != inc->locks.end() && i->second != &db) o = i->second;
                if (!o)
                {
                    if (!killed)
                    {
                        inc->locks[k] = &db;
                        db.rows.insert(k);
                        db.trx = cs->transaction().id().get();
                        break;
                    }
                }
                bool may_wait = db.rows.empty() || *db.rows.rbegin() < k;
                if (o && !may_wait && tries > 2) return 2;
            }
            if (++tries > 12) return 2;
            sched::sleep_us(300 + rnd(500));
            if (aborted()) return 1;
        }
        hot("row locked");
        sched::yield("row locked");
        if (aborted()) return 1;
        Op o; 
        {
            HL hl;
            o.uid = uid; o.idx = int(ops.size()); o.table = table; o.row = row; o.nonce = wrng.next();
        }
        std::string t = "t" + std::to_string(table), r = "r" + std::to_string(row);
        const enum wsrep::key::type kt = chance(0.15) ? wsrep::key::update : wsrep::key::exclusive;
        wsrep::key key(kt);
        key.append_key_part("db", 2);
        key.append_key_part(t.data(), t.size());
        key.append_key_part(r.data(), r.size());
        KeyRec kr; kr.excl = true; kr.type = kt; kr.parts = { "db", t, r };
        int er;
        if (chance(0.3))
        {
            wsrep::key_array ka; ka.push_back(key);
            er = cs->append_keys(ka);
        }
        else er = cs->append_key(key);
        if (er) { cov("fault.append_key_seen"); return 1; }
        db_write(db, o);
        {
            HL hl;
            ops.push_back(o);
            gen += enc_op(o);
            pend_keys.push_back(kr);
            parents.insert(std::make_pair(std::string("db"), t));
        }
        if (chance(0.15))
        {
            // a reference that is only read
            std::string t2 = "t" + std::to_string(rnd(uint64_t(cfg.tables))), r2 = "r" + std::to_string(rnd(uint64_t(cfg.rows)));
            const enum wsrep::key::type kt2 = chance(0.3) ? wsrep::key::reference : wsrep::key::shared;
            wsrep::key k2(kt2);
            k2.append_key_part("db", 2);
            k2.append_key_part(t2.data(), t2.size());
            k2.append_key_part(r2.data(), r2.size());
            if (cs->append_key(k2)) return 1;
            HL hl;
            KeyRec q; q.excl = false; q.type = kt2; q.parts = { "db", t2, r2 };
            pend_keys.push_back(q);
            parents.insert(std::make_pair(std::string("db"), t2));
        }
        { HL hl; inc->lockq.wake(); }
        if (cs->after_row())
        {
            if (!killed && cs->current_error() == wsrep::e_success) viol("session.silent", "after_row() failed without setting an error");
            return 1;
        }
        return 0;
    }

    int Sess::do_commit()
    {
        phase = COMMIT;
        int err = 0;
        bool two = chance(cfg.p_2pc);
        static thread_local int dummy;
        wsrep::provider::seq_cb_t cb { &dummy, [](void*) { cov("seq_cb"); } };
        const wsrep::provider::seq_cb_t* cbp = chance(0.2) ? &cb : nullptr;
        if (two)
        {
            err = cs->before_prepare(cbp);
            hot("2pc prepared");
            sched::yield("2pc prepared");
            err = err || cs->after_prepare();
            hot("2pc");
            sched::yield("2pc");
            // the database notices the abort by itself between the phases
            if (!err && chance(0.5) && aborted() && !killed) { cov("commit.abort_noticed"); err = 1; }
        }
        err = err || cs->before_commit(two ? nullptr : cbp);
        if (!err)
        {
            sched::yield("in slot");
            { HL hl; commit_seqno = cs->transaction().ws_meta().seqno().get(); }
            db_harden(db, cs->transaction().ws_meta().seqno().get());
            bool early = chance(0.5);
            if (early) db_end(db);
            err = cs->ordered_commit();
            if (!early) db_end(db);
            err = err || cs->after_commit();
            if (err) viol("slot.leave", "commit hooks fail after the transaction became durable");
        }
        else
        {
            cov("commit.failed");
            do_rollback();
        }
        phase = EXEC;
        return err;
    }
    void Sess::trx_done()
    {
        HL hl;
        auto pr = inc->pending_rb.find(db.trx);
        if (pr != inc->pending_rb.end() && !pr->second) pr->second = ++G->clock;
        pa_mark = implicit = false;
        ops.clear(); gen.clear(); sent_bytes = 0; pend_keys.clear(); parents.clear();
        n_frag = 0; in_trx = false; is_sr = false; frag_stored = false; xa = xa_prep = xa_rb = xa_rbk = false; xid.clear();
        phase = EXEC; stmt_ok = true; prepared = false; toi_aborted = false; killed = false;
        last_injected = 0; last_site.clear(); replays = 0; replay_result = -1;
        if (db.active || !db.rows.empty())
            viol("session.leftover", "transaction ended with changes or locks left in the storage");
    }
}
