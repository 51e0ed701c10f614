// Workload: server processes, client sessions, operators and cluster events.
#include "sim.hpp"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <unistd.h>

namespace sim
{
    static int g_tags = 0;
    static void start_appliers(Inc*);
    static void start_clients(Inc*, int trxs);

    // wait with a deadline in (virtual) time
    template <class P> static void wait_for(const char* what, P p, uint64_t limit_us = 200000000)
    {
        uint64_t t0 = sched::now_us();
        for (;;)
        {
            { HL hl; if (p()) { hb_acq(&g_gone); return; } }
            if (sched::now_us() - t0 > limit_us)
                viol("hang.wait", std::string("no progress while waiting for ") + what + ":" + sched::dump());
            sched::sleep_us(2000);
        }
    }

    //////////////////////////////////////////////////////////////////////
    // State transfer
    std::string ServerService::sst_request()
    {
        HL hl;
        Inc* i = inc;
        bool ist = !i->donor_since;
        ++i->sst_threads;
        sched::spawn("sst-joiner" + std::to_string(i->idx), i->tag, [i, ist]
        {
            int err = 0;
            {
                HL hl2;
                while (!ist && !i->sst_snap && !i->sst_fail) i->q.wait("sst transfer");
                if (!ist)
                {
                    if (i->sst_fail) { err = 1; i->had_failed_sst = true; }
                    else
                    {
                        i->node->dur = *i->sst_snap;
                        i->node->need_sst = false;
                        i->rows = i->node->dur.rows;
                        i->schema = i->node->dur.schema;
                    }
                }
            }
            sched::yield("sst installed");
            Sess* s;
            { HL hl2; s = new Sess(i, 900000 + uint64_t(i->next_client++)); }
            s->store_globals();
            int r = i->srv->sst_received(*s, err);
            cov(r ? "sst.received_rc1" : "sst.received_rc0");
            s->reset_globals();
            HL hl2;
            hb_rel(&g_gone); --i->sst_threads;
            i->q.wake();
        });
        return "request";
    }

    int ServerService::start_sst(const std::string& req, const wsrep::gtid& g, bool)
    {
        HL hl;
        if (fault("start_sst")) { cov("sst.start_failed"); return 1; }
        void* p = nullptr;
        sscanf(req.c_str(), "%p", &p);
        Inc* joiner = static_cast<Inc*>(p);
        auto snap = std::make_shared<Durable>(inc->node->dur);
        if (snap->pos > g.seqno().get()) viol("sst.position", "donor storage is ahead of the position it donates");
        snap->pos = g.seqno().get();
        Inc* i = inc;
        ++i->sst_threads;
        sched::spawn("sst-donor" + std::to_string(i->idx), i->tag, [i, joiner, snap, g]
        {
            sched::sleep_us(rnd(3000));
            int err = 0;
            {
                HL hl2;
                if (fault("sst_send")) { err = 1; joiner->sst_fail = true; }
                else joiner->sst_snap = snap;
                joiner->q.wake();
            }
            i->srv->sst_sent(g, err);
            HL hl2;
            hb_rel(&g_gone); --i->sst_threads;
            i->q.wake();
        });
        return 0;
    }

    int ServerService::wait_committing_transactions(int)
    {
        if (fault("wait_commits")) return 1;
        for (int n = 0; n < 200; ++n)
        {
            { HL hl; if (!inc->committing) return 0; }
            sched::sleep_us(500);
        }
        return 1;
    }

    //////////////////////////////////////////////////////////////////////
    // Sessions
    static Sess* new_session(Inc* inc)
    {
        uint64_t id;
        { HL hl; id = inc->next_client++; }
        Sess* s = new Sess(inc, id);
        s->cs->open(wsrep::client_id(id));
        s->open = true;
        return s;
    }
    static void end_session(Sess* s)
    {
        s->store_globals();
        s->cs->close();
        s->cs->cleanup();
        s->open = false;
        s->reset_globals();
    }

    static bool lost_state(Sess* s)
    {
        wsrep::unique_lock<wsrep::mutex> lk(s->mtx);
        if (!s->cs->transaction().active()) return false;
        switch (s->cs->transaction().state())
        {
        case wsrep::transaction::s_must_abort:
        case wsrep::transaction::s_cert_failed:
        case wsrep::transaction::s_must_replay:
        case wsrep::transaction::s_aborting:
        case wsrep::transaction::s_aborted: return true;
        default: return false;
        }
    }
    static bool trx_active(Sess* s)
    {
        wsrep::unique_lock<wsrep::mutex> lk(s->mtx);
        return s->cs->transaction().active();
    }

    struct Res { int err = 0; wsrep::client_error cerr = wsrep::e_success; bool ran = false; bool active = false; };

    static void check_gtid(Sess* s)
    {
        int64_t g = s->cs->last_written_gtid().is_undefined() ? 0 : s->cs->last_written_gtid().seqno().get();
        HL hl;
        cov("check.gtid");
        if (g < s->last_gtid) viol("gtid.monotone", "last written position of a session went backwards");
        if (g != s->last_gtid && !s->own_seqnos.count(g))
            viol("gtid.foreign", "last written position " + std::to_string(g) + " is not an operation of this session");
        s->last_gtid = g;
    }

    // One command of a session. voluntary: set by f when the database itself
    // gave the transaction up.
    template <class F2> static Res command(Sess* s, bool keep, bool& voluntary, bool& committed, F2 f)
    {
        Res r;
        wsrep::client_state& cs = *s->cs;
        wsrep::client_error carried = cs.current_error();
        bool had;
        uint64_t before_id;
        {
            wsrep::unique_lock<wsrep::mutex> lk(s->mtx);
            had = cs.transaction().active();
            before_id = cs.transaction().id().get();
            (void)before_id;
        }
        int e = cs.before_command(keep);
        if (s->in_rollbacker) viol("session.control", "command starts while the rollbacker works on the session");
        if (g_ctx != s) viol("session.ctx", "session context not set when a command starts");
        { HL hl; s->in_cmd = true; }
        sched::yield("command");
        if (e && !s->xa && cs.current_error() == wsrep::e_success)
            viol("session.silent", "before_command() refuses a command without an error");
        // XA ROLLBACK is let through whatever happened to the transaction
        bool xa_rollback = e && s->xa && s->xa_rbk;
        if ((!e || xa_rollback) && !keep)
        {
            e = xa_rollback ? 0 : cs.before_statement();
            sched::yield("statement");
            if (!e)
            {
                r.ran = true;
                e = f();
            }
            sched::yield("statement end");
            int as = cs.after_statement();
            if ((as != 0) != (cs.current_error() == wsrep::e_deadlock_error))
                viol("session.after_statement", "after_statement() does not agree with the session error");
        }
        sched::yield("before result");
        cs.after_command_before_result();
        r.err = e;
        r.cerr = cs.current_error();
        bool active;
        enum wsrep::transaction::state st;
        {
            wsrep::unique_lock<wsrep::mutex> lk(s->mtx);
            active = cs.transaction().active();
            st = cs.transaction().state();
        }
        r.active = active;
        if (s->want_emergency && !s->inc->shutdown_req)
            viol("replay.fatal", "replay ended with an unexpected status but the server goes on");
        if (s->will) viol("replay.counter", "a command ends while its replay is still announced");
        cov("check.session_result");
        std::string nm = s->xa ? "XA session" : "session";
        if (!keep && !s->xa)
        {
            if (r.cerr == wsrep::e_deadlock_error && active)
                viol("session.half_open", "session got a deadlock error but its transaction is still open");
            if ((had || r.ran) && s->in_trx && !active && !voluntary && !committed && st != wsrep::transaction::s_committed && r.cerr == wsrep::e_success)
                viol("session.silent", "transaction is gone but the command reports success (" + wsrep::to_string(st) + ")");
            if (committed && r.cerr != wsrep::e_success && r.cerr != carried)
                viol("session.false_error", "command committed the transaction but reports " + wsrep::to_string(r.cerr));
            if (active && st != wsrep::transaction::s_executing && st != wsrep::transaction::s_prepared && st != wsrep::transaction::s_must_abort)
                viol("session.state", "transaction left in state " + wsrep::to_string(st) + " after a command");
        }
        if (r.cerr != wsrep::e_success) cov("error." + wsrep::to_string(r.cerr));
        sched::yield("result");
        { HL hl; s->in_cmd = false; }
        cs.after_command_after_result();
        s->reset_globals();
        if (!keep && !s->xa && !active && cs.current_error() != wsrep::e_success)
            viol("session.sticky", "error of a finished command is still set for the next one");
        check_gtid(s);
        return r;
    }
    template <class F2> static Res command(Sess* s, F2 f)
    {
        bool v = false, c = false;
        return command(s, false, v, c, f);
    }

    static void idle(Sess* s)
    {
        s->hot("idle", 3);
        if (!chance(cfg.p_idle)) return;
        uint64_t total = rnd(20000);
        while (total > 0)
        {
            uint64_t d = std::min<uint64_t>(total, 700);
            sched::sleep_us(d);
            total -= d;
            if (!cfg.rm_sync && lost_state(s)) return;
            HL hl;
            if (s->inc->stopping) return;
        }
        if (cfg.p_keep > 0 && trx_active(s) && chance(cfg.p_keep))
        {
            bool v = false, c = false;
            cov("command.keep");
            command(s, true, v, c, [] { return 0; });
        }
    }

    static TrxRec& rec_of(Sess* s) { return G->trxs[s->uid]; }

    static int begin_trx(Sess* s, const char* kind)
    {
        uint64_t id;
        {
            HL hl;
            s->uid = G->next_uid++;
            id = (uint64_t(s->inc->tag + 1) << 32) | s->inc->next_trx++;
            TrxRec r; r.uid = s->uid; r.node = s->inc->idx; r.inc = s->inc->tag; r.kind = kind; r.trx_id = id;
            G->trxs[s->uid] = r;
            s->inc->by_trx[id] = s;
            s->in_trx = true;
            s->db.trx = id;
            s->killed = false;
            s->lost = false;
        }
        int e = s->cs->start_transaction(wsrep::transaction_id(id));
        if (!e)
        {
            s->db.active = true;
            if (chance(0.1))
            {
                const_cast<wsrep::transaction&>(s->cs->transaction()).implicit_deps(true);
                s->implicit = true;
                cov("trx.implicit_deps");
            }
            if (chance(0.3) && s->cs->assign_read_view()) viol("session.read_view", "assign_read_view() failed");
        }
        return e;
    }

    static void tell(Sess* s, TrxRec::Told t, bool voluntary, const std::string& how)
    {
        HL hl;
        TrxRec& r = rec_of(s);
        r.told = t; r.voluntary = voluntary; r.how = how; r.ops = s->ops;
        trace("TOLD uid %llu %d %s", (unsigned long long)s->uid, int(t), how.c_str());
    }

    // what the error allows the client to conclude, given what happened underneath
    static void check_error_mapping(Sess* s, wsrep::client_error e)
    {
        HL hl;
        if (!s->last_injected) return;
        cov("check.mapping");
        int st = s->last_injected;
        std::string site = s->last_site;
        if (site == "certify_commit" || site == "certify_fragment")
        {
            bool commit = site == "certify_commit";
            std::string got = wsrep::to_string(e);
            bool ok = true;
            switch (st)
            {
            case wsrep::provider::error_size_exceeded: ok = commit ? e == wsrep::e_error_during_commit : e == wsrep::e_size_exceeded_error; break;
            case wsrep::provider::error_certification_failed: ok = e == wsrep::e_deadlock_error; break;
            case wsrep::provider::error_connection_failed:
            case wsrep::provider::error_provider_failed:
            case wsrep::provider::error_warning:
            case wsrep::provider::error_transaction_missing:
            case wsrep::provider::error_fatal:
            case wsrep::provider::error_not_implemented:
            case wsrep::provider::error_not_allowed:
            default: ok = commit ? e != wsrep::e_success : e != wsrep::e_success; break;
            }
            if (!ok) viol("error.mapping", "status " + std::to_string(st) + " at " + site + " reported as " + got);
        }
    }

    // plain or streaming transaction
    static void run_trx(Sess* s, bool sr)
    {
        Inc* inc = s->inc;
        bool started = false, done = false;
        int ncmd = 1 + int(rnd(3));
        int sr_table = int(rnd(uint64_t(cfg.tables)));
        bool commit_in_last = chance(0.4);
        bool rollback = chance(cfg.p_rollback);
        bool disc = chance(cfg.p_disc);
        s->is_sr = sr;
        cov(sr ? "trx.sr" : "trx.plain");
        auto finish_commit = [&](Res& r, bool tried)
        {
            // after a command that may have ended the transaction
            if (r.active) return false;
            (void)tried;
            return true;
        };
        (void)finish_commit;
        for (int c = 0; !done; ++c)
        {
            bool last = c + 1 >= ncmd;
            bool do_end = (last && commit_in_last) || c >= ncmd;
            if (started && disc && c >= 1)
            {
                cov("session.disconnect_in_trx");
                tell(s, TrxRec::ROLLEDBACK, true, "disconnect");
                s->hot("close", 6);
                if (cfg.p_hot > 0) sched::sleep_us(rnd(300));
                s->store_globals();
                s->cs->close();
                s->trx_done();
                s->cs->cleanup();
                s->open = false;
                s->reset_globals();
                return;
            }
            bool voluntary = false, committed = false, tried = false;
            bool stop;
            { HL hl; stop = inc->stopping; }
            Res r = command(s, false, voluntary, committed, [&]() -> int
            {
                if (!started)
                {
                    if (sr)
                    {
                        static const enum wsrep::streaming_context::fragment_unit us[] = {
                            wsrep::streaming_context::bytes, wsrep::streaming_context::row, wsrep::streaming_context::statement };
                        int u = int(rnd(3));
                        size_t sz = u == 0 ? 1 + rnd(120) : 1 + rnd(3);
                        if (s->cs->enable_streaming(us[u], sz)) { cov("sr.enable_failed"); return 1; }
                    }
                    else if (s->cs->transaction().streaming_context().fragment_size()) s->cs->disable_streaming();
                    if (begin_trx(s, sr ? "sr" : "plain"))
                    {
                        cov("trx.start_failed");
                        voluntary = true;
                        if (trx_active(s)) s->do_rollback();
                        tell(s, TrxRec::ROLLEDBACK, true, "start failed");
                        started = true;
                        return 1;
                    }
                    started = true;
                }
                if (c < ncmd)
                {
                    int nops = 1 + int(rnd(3));
                    int base = int(rnd(uint64_t(cfg.rows)));
                    if (sr && chance(0.1)) s->stmt_ok = false;
                    if (chance(0.06))
                    {
                        wsrep::unique_lock<wsrep::mutex> lk(s->mtx);
                        if (s->cs->transaction().state() == wsrep::transaction::s_executing && !s->cs->mark_transaction_pa_unsafe())
                        {
                            s->pa_mark = true;
                            cov("trx.pa_unsafe");
                        }
                    }
                    for (int i = 0; i < nops; ++i)
                    {
                        int t = sr ? sr_table : int(rnd(uint64_t(cfg.tables + cfg.xa_tables)));
                        int row = (base + i) % cfg.rows;
                        int w = s->write(t, row);
                        if (w)
                        {
                            bool kl; { HL hl; kl = s->killed; }
                            if (w == 2 || kl || !lost_state(s))
                            {
                                if (!lost_state(s)) voluntary = true;
                                cov(w == 2 ? "trx.lock_timeout" : "trx.stmt_failed");
                                s->do_rollback();
                                return 1;
                            }
                            if (chance(0.5)) { s->do_rollback(); cov("trx.rollback_in_stmt"); }
                            else cov("trx.rollback_later");
                            return 1;
                        }
                        sched::yield("row done");
                    }
                }
                if (do_end)
                {
                    if (rollback || stop)
                    {
                        if (!lost_state(s)) voluntary = true;
                        s->do_rollback();
                        return 0;
                    }
                    tried = true;
                    { HL hl; rec_of(s).ops = s->ops; ++inc->committing; }
                    int e = s->do_commit();
                    { HL hl; --inc->committing; }
                    if (!e) committed = true;
                    return e;
                }
                return 0;
            });
            s->stmt_ok = true;
            if (!started)
            {
                // first statement did not start the transaction
                HL hl;
                s->in_trx = false;
                if (r.cerr == wsrep::e_success && r.ran && sr) cov("sr.not_enabled");
                done = true;
                break;
            }
            if (!r.active)
            {
                done = true;
                bool said_ok = tried && !voluntary && r.cerr == wsrep::e_success;
                if (rec_of(s).told == TrxRec::NONE)
                {
                    if (said_ok) tell(s, TrxRec::COMMITTED, false, "");
                    else if (r.cerr == wsrep::e_error_during_commit && tried && inc->shutdown_req) tell(s, TrxRec::UNKNOWN, false, "shutdown");
                    else tell(s, TrxRec::ROLLEDBACK, voluntary, wsrep::to_string(r.cerr));
                }
                if (said_ok)
                {
                    if (s->cs->last_written_gtid().seqno().get() != s->own_last_ordered)
                        viol("gtid.commit", "last written position " + std::to_string(s->cs->last_written_gtid().seqno().get()) +
                             " after a commit at " + std::to_string(s->own_last_ordered));
                    cov(committed ? "trx.committed" : "trx.committed_by_replay");
                    if (G->ref.committed.find(s->uid) == G->ref.committed.end())
                        viol("told.committed", "session is told of a commit that is not in the accepted history");
                }
                else
                {
                    cov("trx.rolledback");
                    if (!voluntary) check_error_mapping(s, r.cerr);
                }
            }
            else idle(s);
        }
        if (trx_active(s)) viol("session.half_open", "transaction still active at its end");
        if (s->in_trx || s->uid) s->trx_done();
    }

    //////////////////////////////////////////////////////////////////////
    // TOI and friends
    static wsrep::key_array toi_keys(int table, std::string& store)
    {
        wsrep::key_array ka;
        wsrep::key k(wsrep::key::exclusive);
        store = "t" + std::to_string(table);
        k.append_key_part("db", 2);
        k.append_key_part(store.data(), store.size());
        ka.push_back(k);
        return ka;
    }

    static void reset_toi(Sess* s, std::chrono::time_point<wsrep::clock>& until)
    {
        HL hl;
        Inc::ToiMon m;
        until = std::chrono::time_point<wsrep::clock>();
        if (chance(0.4))
        {
            uint64_t us = rnd(1500000);
            until = wsrep::clock::now() + std::chrono::microseconds(us);
            m.seqno = int64_t(sched::now_us() + us);
        }
        s->inc->toi[s->id] = m;
    }

    // transient failures are retried until the time limit or an interruption
    static void check_retry(const Inc::ToiMon& m)
    {
        bool transient = m.last_status == wsrep::provider::error_certification_failed ||
            m.last_status == wsrep::provider::error_connection_failed;
        if (transient && m.seqno && int64_t(sched::now_us()) < m.seqno && !m.intr)
            viol("toi.retry", "TOI gave up after a transient failure although its time limit was not reached");
        if (transient && m.seqno) cov("toi.retried");
    }

    // the result of leaving a total order isolated phase
    static void check_leave(Sess* s, int ret, bool sets_error)
    {
        HL hl;
        auto& m = s->inc->toi[s->id];
        if (!m.leaves) viol("toi.slot", "TOI slot was not left");
        if ((ret != 0) != m.leave_failed)
            viol("toi.leave", std::string("leaving TOI returned ") + (ret ? "an error although the provider left it" : "success although the provider failed"));
        if (ret && sets_error && s->cs->current_error() != wsrep::e_error_during_commit)
            viol("error.mapping", "provider failure in leaving TOI reported as " + wsrep::to_string(s->cs->current_error()));
        if (ret) cov("toi.leave_failed");
        m.leave_failed = false; m.leaves = 0;
    }

    static void toi_failed(Sess* s, wsrep::client_error e)
    {
        HL hl;
        auto& m = s->inc->toi[s->id];
        cov("check.toi_error");
        bool cert = m.last_status == wsrep::provider::error_certification_failed;
        bool late = m.seqno == 0 || int64_t(sched::now_us()) >= m.seqno;
        if (cert) { if (e != wsrep::e_deadlock_error) viol("error.mapping", "refused TOI reported as " + wsrep::to_string(e)); }
        else if (e != wsrep::e_timeout_error && e != wsrep::e_error_during_commit)
            viol("error.mapping", "failed TOI reported as " + wsrep::to_string(e));
        if (m.succ) viol("toi.lost", "TOI entered in the order but reported as failed to start");
        check_retry(m);
        if (e == wsrep::e_timeout_error && m.seqno && !late) viol("error.mapping", "TOI reported as timed out before its time limit");
    }

    static void run_toi(Sess* s)
    {
        Inc* inc = s->inc;
        cov("trx.toi");
        int table = int(rnd(uint64_t(cfg.tables)));
        bool fail = chance(0.1);
        uint64_t nonce; { HL hl; nonce = wrng.next(); }
        char b[96]; snprintf(b, sizeof(b), "T %d %llx %d\n", table, (unsigned long long)nonce, fail ? 1 : 0);
        std::string data(b), store;
        Res r = command(s, [&]() -> int
        {
            wsrep::key_array ka(toi_keys(table, store));
            std::chrono::time_point<wsrep::clock> until;
            reset_toi(s, until);
            int e = s->cs->enter_toi_local(ka, wsrep::const_buffer(data.data(), data.size()), until);
            if (e)
            {
                if (s->cs->mode() != wsrep::client_state::m_local) viol("toi.mode", "session not in local mode after TOI failed to start");
                toi_failed(s, s->cs->current_error());
                return 1;
            }
            if (s->cs->mode() != wsrep::client_state::m_toi || !s->cs->in_toi()) viol("toi.mode", "session not in TOI mode");
            int64_t q = s->cs->toi_meta().seqno().get();
            {
                HL hl;
                if (inc->toi_applying || inc->busy(q)) viol("toi.isolation", "TOI runs with other ordered operations");
                if (inc->entered != q) viol("toi.slot", "TOI does not hold its slot");
                ++inc->toi_applying;
                s->own_seqnos.insert(q);
            }
            DbTrx t; t.kind = DbTrx::TOI; t.inc = inc; t.owner = s; t.seqno = q;
            lock_table_toi(t, table, q);
            sched::yield("toi local");
            WsData d(dec(data));
            toi_execute(inc, d, q);
            wsrep::mutable_buffer err;
            if (fail)
            {
                std::string et = "toi error " + std::to_string(q);
                err.push_back(et.data(), et.data() + et.size());
                HL hl; inc->toi[s->id].err = et;
            }
            sched::yield("toi executed");
            unlock_all(t);
            { HL hl; --inc->toi_applying; }
            int l = s->cs->leave_toi_local(err);
            if (s->cs->mode() != wsrep::client_state::m_local || s->cs->in_toi()) viol("toi.mode", "session still in TOI mode");
            if (s->cs->last_written_gtid().seqno().get() != q) viol("gtid.commit", "TOI did not advance the last written position");
            check_leave(s, l, false);
            cov("trx.toi_done");
            return l;
        });
        (void)r;
    }

    static void nbo_end_failed(Sess* s, int64_t q)
    {
        HL hl;
        Inc* inc = s->inc;
        auto& m = inc->toi[s->id];
        if (!G->nbo[q].gone.count(inc)) G->nbo[q].failed = true;
        for (auto& x : G->nodes) if (x->cur) x->cur->q.wake();
        if (s->cs->mode() != wsrep::client_state::m_local) viol("nbo.mode", "session stuck in NBO mode");
        wsrep::client_error e = s->cs->current_error();
        if (e == wsrep::e_success) viol("nbo.silent", "failed NBO end not reported");
        if (m.last_status == wsrep::provider::error_provider_failed && e != wsrep::e_interrupted_error)
            viol("error.mapping", "interrupted NBO end reported as " + wsrep::to_string(e));
        if (e == wsrep::e_timeout_error && m.seqno && int64_t(sched::now_us()) < m.seqno)
            viol("error.mapping", "NBO end reported as timed out before its time limit");
        if (m.succ) viol("toi.lost", "NBO end entered in the order but reported as failed");
        check_retry(m);
    }

    static void nbo_end(Sess* s, int64_t q2)
    {
        wsrep::mutable_buffer err;
        if (chance(0.3))
        {
            std::string et = "nbo error " + std::to_string(q2);
            err.push_back(et.data(), et.data() + et.size());
            HL hl; s->inc->toi[s->id].err = et;
        }
        check_leave(s, s->cs->end_nbo_phase_two(err), true);
    }

    static void run_nbo(Sess* s)
    {
        Inc* inc = s->inc;
        cov("trx.nbo");
        int table = int(rnd(uint64_t(cfg.tables)));
        bool fail = chance(0.2);
        char b[96]; snprintf(b, sizeof(b), "T %d %llx %d\n", table, 1ull, fail ? 1 : 0);
        std::string data(b), store;
        bool in_nbo = false;
        command(s, [&]() -> int
        {
            wsrep::key_array ka(toi_keys(table, store));
            std::chrono::time_point<wsrep::clock> until;
            reset_toi(s, until);
            int e = s->cs->begin_nbo_phase_one(ka, wsrep::const_buffer(data.data(), data.size()), until);
            if (e)
            {
                if (s->cs->mode() != wsrep::client_state::m_local) viol("nbo.mode", "session not in local mode after NBO failed to start");
                toi_failed(s, s->cs->current_error());
                return 1;
            }
            if (s->cs->mode() != wsrep::client_state::m_nbo || !s->cs->in_toi()) viol("nbo.mode", "phase one is not in NBO mode");
            int64_t q = s->cs->toi_meta().seqno().get();
            { HL hl; s->own_seqnos.insert(q); if (inc->entered != q) viol("nbo.slot", "NBO does not hold its slot"); }
            set_pos(inc, q, "nbo begin");
            sched::yield("nbo one");
            wsrep::mutable_buffer err;
            if (fail)
            {
                std::string et = "toi error " + std::to_string(q);
                err.push_back(et.data(), et.data() + et.size());
                HL hl; inc->toi[s->id].err = et;
            }
            int l = s->cs->end_nbo_phase_one(err);
            if (s->cs->mode() != wsrep::client_state::m_nbo || s->cs->in_toi()) viol("nbo.mode", "NBO mode lost between the phases");
            { HL hl; if (!inc->toi[s->id].leaves) viol("nbo.slot", "NBO phase one did not leave its slot"); if (inc->entered == q) viol("nbo.slot", "NBO still holds its slot between the phases"); }
            check_leave(s, l, true);
            in_nbo = true;
            sched::sleep_us(rnd(5000));
            // phase two; the wait time is the operation's own
            reset_toi(s, until);
            int e2 = s->cs->begin_nbo_phase_two(ka, until);
            if (e2)
            {
                cov("nbo.two_failed");
                nbo_end_failed(s, q);
                return 1;
            }
            if (!s->cs->in_toi()) viol("nbo.mode", "phase two is not in total order isolation");
            int64_t q2 = s->cs->toi_meta().seqno().get();
            { HL hl; s->own_seqnos.insert(q2); if (inc->entered != q2) viol("nbo.slot", "NBO end does not hold its slot"); }
            set_pos(inc, q2, "nbo end");
            sched::yield("nbo two");
            nbo_end(s, q2);
            if (s->cs->mode() != wsrep::client_state::m_local || s->cs->in_toi()) viol("nbo.mode", "session still in NBO mode");
            { HL hl; if (inc->entered == q2 ) viol("nbo.slot", "NBO end still holds its slot"); }
            cov("nbo.done");
            return 0;
        });
        (void)in_nbo;
    }

    void nbo_applier(Inc* inc, wsrep::ws_meta meta, WsData d, std::vector<KeyRec>)
    {
        Sess* s = new_session(inc);
        std::string store;
        command(s, [&]() -> int
        {
            s->cs->enter_nbo_mode(meta);
            if (s->cs->mode() != wsrep::client_state::m_nbo) viol("nbo.mode", "applier side not in NBO mode");
            sched::sleep_us(rnd(5000));
            if (chance(cfg.p_nbo_gone))
            {
                // this server does not take part in the end any more: the end is delivered to its appliers
                cov("nbo.gone");
                HL hl;
                G->nbo[meta.seqno().get()].gone.insert(inc);
                for (auto& x : G->nodes) if (x->cur) x->cur->q.wake();
            }
            wsrep::key_array ka(toi_keys(d.toi_table, store));
            std::chrono::time_point<wsrep::clock> until;
            reset_toi(s, until);
            int e = s->cs->begin_nbo_phase_two(ka, until);
            int64_t q = meta.seqno().get();
            if (e)
            {
                cov("nbo.two_failed");
                nbo_end_failed(s, q);
                return 1;
            }
            int64_t q2 = s->cs->toi_meta().seqno().get();
            { HL hl; s->own_seqnos.insert(q2); if (inc->entered != q2) viol("nbo.slot", "NBO end does not hold its slot"); }
            set_pos(inc, q2, "nbo end");
            sched::yield("nbo two");
            nbo_end(s, q2);
            if (s->cs->mode() != wsrep::client_state::m_local || s->cs->in_toi()) viol("nbo.mode", "session still in NBO mode");
            cov("nbo.applier_done");
            return 0;
        });
        end_session(s);
        HL hl;
        hb_rel(&g_gone); --inc->nbo_running;
        inc->q.wake();
    }

    static void run_rsu(Sess* s)
    {
        Inc* inc = s->inc;
        cov("trx.rsu");
        command(s, [&]() -> int
        {
            int e = s->cs->begin_rsu(1);
            if (e)
            {
                cov("rsu.refused");
                if (s->cs->mode() != wsrep::client_state::m_local) viol("rsu.mode", "session not in local mode after RSU failed");
                return 1;
            }
            if (s->cs->mode() != wsrep::client_state::m_rsu) viol("rsu.mode", "session not in RSU mode");
            int64_t at;
            {
                HL hl;
                if (!inc->paused) viol("rsu.paused", "provider runs during RSU");
                if (!inc->desync) viol("rsu.paused", "server is not desynced during RSU");
                at = inc->last_left;
            }
            sched::sleep_us(rnd(4000));
            { HL hl; if (inc->last_left != at) viol("rsu.paused", "write sets were applied during RSU"); }
            int r = s->cs->end_rsu();
            if (s->cs->mode() != wsrep::client_state::m_local) viol("rsu.mode", "session still in RSU mode");
            cov("rsu.done");
            return r;
        });
    }

    static void run_read(Sess* s)
    {
        cov("trx.read");
        command(s, [&]() -> int
        {
            int64_t before;
            { HL hl; before = G->seqno(); }
            int e = s->cs->sync_wait(5);
            if (e)
            {
                if (s->cs->current_error() == wsrep::e_success) viol("causal.silent", "failed sync wait without an error");
                cov("read.failed");
                return 1;
            }
            HL hl;
            int64_t g = s->cs->sync_wait_gtid().seqno().get();
            if (s->cs->sync_wait_gtid().is_undefined() || g < before) viol("causal.stale", "sync wait returned an older position");
            if (s->inc->last_left < before) viol("causal.stale", "sync wait returned before earlier write sets were applied");
            for (int t = 0; t < cfg.tables; ++t)
                for (int r = 0; r < cfg.rows; ++r)
                {
                    // committed state must be at least as new as 'before'
                    RowKey k(t, r);
                    uint64_t v = s->inc->node->dur.rows[k];
                    bool ok = v == G->ref.row_at(k, before);
                    for (auto& x : G->ref.rows[k]) if (x.first > before && x.second == v) ok = true;
                    if (!ok) viol("causal.stale", "causal read sees an older row");
                }
            cov("check.causal");
            return 0;
        });
        if (!s->cs->sync_wait_gtid().is_undefined()) viol("causal.sticky", "causality token kept for the next command");
    }

    void run_xa(Sess*);
    static bool finish_detached(Sess*);

    static void client_main(Inc* inc, int trxs)
    {
        Sess* s = new_session(inc);
        int total = cfg.w_plain + cfg.w_sr + cfg.w_xa + cfg.w_toi + cfg.w_nbo + cfg.w_rsu + cfg.w_read;
        for (int i = 0; i < trxs; ++i)
        {
            { HL hl; if (inc->stopping) break; }
            if (!s->open) s = new_session(inc);
            int w = int(rnd(uint64_t(total)));
            if ((w -= cfg.w_plain) < 0) run_trx(s, false);
            else if ((w -= cfg.w_sr) < 0) run_trx(s, true);
            else if ((w -= cfg.w_xa) < 0) run_xa(s);
            else if ((w -= cfg.w_toi) < 0) run_toi(s);
            else if ((w -= cfg.w_nbo) < 0) run_nbo(s);
            else if ((w -= cfg.w_rsu) < 0) run_rsu(s);
            else run_read(s);
            sched::sleep_us(rnd(1500));
        }
        if (!s->open) s = new_session(inc);
        for (int i = 0; i < 5 && cfg.w_xa; ++i)
        {
            { HL hl; if (inc->stopping) break; }
            if (!finish_detached(s)) sched::sleep_us(rnd(3000));
        }
        if (s->open) end_session(s);
        HL hl;
        hb_rel(&g_gone); --inc->clients_running;
        inc->q.wake();
    }


    //////////////////////////////////////////////////////////////////////
    // XA
    static bool prepared(Sess* s)
    {
        wsrep::unique_lock<wsrep::mutex> lk(s->mtx);
        return s->cs->transaction().active() && s->cs->transaction().state() == wsrep::transaction::s_prepared;
    }

    // decide a prepared transaction that no session owns any more
    static bool finish_detached(Sess* s)
    {
        Inc* inc = s->inc;
        std::string xid; uint64_t uid = 0; std::vector<Op> ops;
        {
            HL hl;
            if (!inc->in_group || !inc->primary) return false;
            std::vector<std::pair<std::string, uint64_t>> c;
            for (auto& o : G->ref.sr)
            {
                if (!o.second.prepared || o.second.xid.empty() || o.second.ops.empty()) continue;
                auto x = G->xas.find(o.second.xid);
                if (x == G->xas.end() || x->second.claimed || (!x->second.detached && x->second.home->alive)) continue;
                c.push_back(std::make_pair(o.second.xid, x->second.uid));
            }
            if (c.empty()) return false;
            auto& w = c[rnd(c.size())];
            xid = w.first; uid = w.second;
            G->xas[xid].claimed = true;
            ops = G->trxs[uid].ops;
        }
        bool found = false;
        auto* sa = static_cast<Hps*>(inc->srv->find_streaming_applier(mkxid(xid)));
        if (sa)
        {
            wsrep::unique_lock<wsrep::mutex> lk(sa->mtx);
            found = sa->cs->transaction().state() == wsrep::transaction::s_prepared;
        }
        if (!found) { HL hl; G->xas[xid].claimed = false; cov("xa.not_here"); return false; }
        bool commit = chance(0.7);
        bool done = false, voluntary = false, committed = false;
        int64_t before;
        { HL hl; before = G->seqno(); }
        Res r = command(s, false, voluntary, committed, [&]() -> int
        {
            uint64_t id;
            {
                HL hl;
                id = (uint64_t(inc->tag + 1) << 32) | inc->next_trx++;
                inc->by_trx[id] = s;
                s->db.trx = id;
                s->by_xid = true;
            }
            int e = s->cs->start_transaction(wsrep::transaction_id(id));
            if (!e) s->cs->assign_xid(mkxid(xid));
            if (!e) e = commit ? s->cs->commit_by_xid(mkxid(xid)) : s->cs->rollback_by_xid(mkxid(xid));
            if (e)
            {
                cov("xa.by_xid_failed");
                if (s->cs->current_error() == wsrep::e_success) viol("session.silent", "decision by xid failed without an error");
                if (trx_active(s)) s->do_rollback();
            }
            else done = true;
            return e;
        });
        if (r.active) viol("session.half_open", "transaction still active after a decision by xid");
        if (done != (r.cerr == wsrep::e_success)) viol("session.false_error", "decision by xid reported as " + wsrep::to_string(r.cerr));
        HL hl;
        s->by_xid = false;
        s->db.trx = 0;
        auto& x = G->xas[xid];
        x.claimed = false;
        if (done)
        {
            // the decision must be in the accepted history
            bool seen = false;
            for (auto& e : G->log)
                if (e->seqno > before && e->kind == EV_WS && (e->flags & (commit ? F::commit : F::rollback)))
                    for (auto& d : G->ref.sr_done)
                        if (d.xid == xid && d.ended == e->seqno) seen = true;
            if (!seen) viol("xa.decision", "session is told of a decision for xid " + xid + " that is not in the accepted history");
            TrxRec& t = G->trxs[uid];
            t.told = commit ? TrxRec::COMMITTED : TrxRec::ROLLEDBACK;
            t.voluntary = !commit; t.how = "by xid";
            cov(commit ? "xa.committed_by_xid" : "xa.rolledback_by_xid");
        }
        return true;
    }

    void run_xa(Sess* s)
    {
        Inc* inc = s->inc;
        if (chance(0.4) && finish_detached(s)) return;
        cov("trx.xa");
        bool started = false;
        int ncmd = 1 + int(rnd(2));
        bool give_up = chance(cfg.p_rollback);
        int table = cfg.tables + int(rnd(uint64_t(cfg.xa_tables)));
        std::string xid;
        Res r;
        bool stop = false, voluntary = false, committed = false, rolled = false;
        auto explicit_rollback = [&]() -> int
        {
            // XA ROLLBACK
            s->xa_rb = true;
            if (!trx_active(s)) return 0;       // handed over meanwhile
            rolled = true;
            int e = s->cs->transaction().state() != wsrep::transaction::s_aborted ? s->do_rollback() : 0;
            s->xa = s->xa_prep = false;
            return e;
        };
        // a command of a session with an XA transaction open
        auto xa_command = [&](std::function<int()> f) -> Res
        {
            Res res = command(s, false, voluntary, committed, f);
            HL hl;
            s->killed = false;      // a kill ends with the statement
            return res;
        };
        auto roll = [&]
        {
            for (int i = 0; trx_active(s); ++i)
            {
                if (i > 3) { viol("session.half_open", "XA transaction cannot be rolled back"); return; }
                voluntary = true;
                s->xa_rbk = true;
                xa_command([&] { return explicit_rollback(); });
                s->xa_rbk = false;
                cov("xa.rollback");
            }
        };
        for (int c = 0; c <= ncmd; ++c)
        {
            { HL hl; stop = inc->stopping; }
            bool prep = c == ncmd && !give_up && !stop;
            if (c == ncmd && !prep) break;
            r = xa_command([&]() -> int
            {
                if (!started)
                {
                    if (s->cs->transaction().streaming_context().fragment_size()) s->cs->disable_streaming();
                    started = true;
                    if (begin_trx(s, "xa"))
                    {
                        cov("trx.start_failed");
                        voluntary = true;
                        if (trx_active(s)) s->do_rollback();
                        return 1;
                    }
                    HL hl;
                    xid = s->xid = "xid-" + std::to_string(s->uid);
                    s->xa = true;
                    s->gen = "X " + xid + "\n";
                    XaRec x; x.uid = s->uid; x.home = inc;
                    G->xas[xid] = x;
                    H.unlock();
                    s->cs->assign_xid(mkxid(xid));
                    H.lock();
                    if (cfg.p_xa_sr > 0 && chance(cfg.p_xa_sr))
                    {
                        H.unlock();
                        if (!s->cs->enable_streaming(wsrep::streaming_context::row, 1 + rnd(2))) cov("xa.streaming");
                        H.lock();
                    }
                }
                if (!prep)
                {
                    int nops = 1 + int(rnd(2)), base = int(rnd(uint64_t(cfg.rows)));
                    for (int i = 0; i < nops; ++i)
                    {
                        int w = s->write(table, (base + i) % cfg.rows);
                        if (!w) { sched::yield("row done"); continue; }
                        if (w == 2) { cov("trx.lock_timeout"); voluntary = true; give_up = true; return 0; }
                        { HL hl; if (s->killed) voluntary = give_up = true; }
                        return 1;
                    }
                    return 0;
                }
                // XA END, XA PREPARE
                {
                    HL hl;
                    s->gen += "E\n";
                    s->phase = Sess::PREPARE;
                    rec_of(s).ops = s->ops;
                }
                int e = s->cs->before_prepare();
                s->hot("xa preparing");
                sched::yield("xa preparing");
                e = e || s->cs->after_prepare();
                s->hot("xa prepared");
                sched::yield("xa prepared");
                s->phase = Sess::EXEC;
                if (e) { cov("xa.prepare_failed"); s->do_rollback(); s->xa = false; }
                else { s->xa_prep = true; }
                return e;
            });
            if (!s->xid.empty() && !s->xa && !trx_active(s)) break;     // prepare failed
            if (!started || s->xid.empty()) break;
            if (r.cerr == wsrep::e_deadlock_error || lost_state(s) || give_up || !r.ran) break;
            idle(s);
        }
        if (s->xid.empty())
        {
            if (started)
            {
                if (trx_active(s)) { s->do_rollback(); viol("session.half_open", "transaction active although it failed to start"); }
                tell(s, TrxRec::ROLLEDBACK, true, "start failed");
                s->trx_done();
            }
            return;
        }
        bool is_prep = s->xa_prep && r.cerr == wsrep::e_success;
        if (!is_prep)
        {
            if (s->xa_prep) cov("xa.prepare_lost");
            s->xa_prep = false;
            roll();
            tell(s, TrxRec::ROLLEDBACK, voluntary, wsrep::to_string(r.cerr));
            cov("xa.not_prepared");
            s->trx_done();
            return;
        }
        {
            HL hl;
            bool in = false;
            for (auto& o : G->ref.sr) if (o.second.xid == xid && o.second.prepared) in = true;
            if (!in) viol("told.prepared", "session is told that xid " + xid + " is prepared but the group does not hold it prepared");
        }
        tell(s, TrxRec::PREPARED, false, "");
        cov("xa.prepared");
        bool commit = chance(0.65), detach = chance(0.25);
        for (int tries = 0; ; ++tries)
        {
            idle(s);
            { HL hl; stop = inc->stopping; }
            if (!trx_active(s))
            {
                // replayed in the background, any session may decide now
                cov("xa.handed_over");
                HL hl;
                G->xas[xid].detached = true;
                break;
            }
            if (detach || stop || tries > 6)
            {
                s->store_globals();
                s->hot("close", 6);
                if (chance(0.5))
                {
                    s->cs->close();
                    s->hot("xa detach", 3);
                    sched::yield("xa detach");
                    if (trx_active(s)) { s->cs->xa_detach(); cov("xa.detached"); }
                    s->cs->cleanup();
                    s->open = false;
                }
                else
                {
                    // detached by a command before the connection goes
                    bool v = true;
                    command(s, false, v, committed, [&]() -> int
                    {
                        if (prepared(s)) { s->cs->xa_detach(); cov("xa.detached_cmd"); }
                        return 0;
                    });
                    if (trx_active(s)) continue;
                }
                s->reset_globals();
                HL hl;
                G->xas[xid].detached = true;
                break;
            }
            if (!commit)
            {
                roll();
                if (!rolled) { HL hl; G->xas[xid].detached = true; cov("xa.handed_over"); break; }
                tell(s, TrxRec::ROLLEDBACK, true, "xa rollback");
                break;
            }
            bool tried = false;
            committed = false;
            r = xa_command([&]() -> int
            {
                if (!trx_active(s)) return 0;       // handed over meanwhile
                tried = true;
                s->phase = Sess::XACOMMIT;
                int e = s->cs->before_commit();
                if (!e)
                {
                    sched::yield("in slot");
                    int64_t q = s->cs->transaction().ws_meta().seqno().get();
                    { HL hl; s->commit_seqno = q; }
                    db_harden(s->db, q);
                    bool early = chance(0.5);
                    if (early) db_end(s->db);
                    e = s->cs->ordered_commit();
                    if (!early) db_end(s->db);
                    e = e || s->cs->after_commit();
                    if (e) viol("slot.leave", "commit hooks fail after the transaction became durable");
                    committed = true;
                    s->xa = s->xa_prep = false;
                }
                else if (prepared(s)) { cov("xa.commit_retry"); }
                else if (s->cs->transaction().state() == wsrep::transaction::s_must_abort)
                {
                    // aborted after it was prepared, not for the session
                    // to roll back
                    cov("xa.commit_must_abort");
                }
                else
                {
                    cov("xa.commit_aborted");
                    s->do_rollback();
                    s->xa = s->xa_prep = false;
                }
                s->phase = Sess::EXEC;
                return e;
            });
            if (trx_active(s)) { s->xa = s->xa_prep = true; continue; }
            if (!tried) continue;
            if (r.cerr == wsrep::e_success)
            {
                if (committed && s->cs->last_written_gtid().seqno().get() != s->own_last_ordered)
                    viol("gtid.commit", "last written position is not the position of the XA commit");
                cov(committed ? "xa.committed" : "xa.committed_by_replay");
                if (G->ref.committed.find(s->uid) == G->ref.committed.end())
                    viol("told.committed", "session is told of an XA commit that is not in the accepted history");
                tell(s, TrxRec::COMMITTED, false, "");
            }
            else
            {
                // must not be lost: the transaction was prepared
                bool in = false;
                HL hl;
                for (auto& o : G->ref.sr) if (o.second.xid == xid && o.second.prepared) in = true;
                if (!in && inc->alive) viol("xa.lost", "prepared xid " + xid + " is gone after a failed XA COMMIT (" + wsrep::to_string(r.cerr) + ")");
                cov("xa.commit_failed");
                G->xas[xid].detached = true;
            }
            break;
        }
        s->trx_done();
    }

    static void start_clients(Inc* inc, int trxs)
    {
        for (int c = 0; c < cfg.clients; ++c)
        {
            { HL hl; ++inc->clients_running; }
            sched::spawn("c" + std::to_string(inc->idx) + "." + std::to_string(c), inc->tag, [inc, trxs] { client_main(inc, trxs); });
        }
    }

    //////////////////////////////////////////////////////////////////////
    // Operators on a server
    // a server which cannot be resumed has to be restarted
    static void still_paused(Inc* inc)
    {
        bool p, f;
        { HL hl; p = inc->paused; f = inc->resume_failed; }
        if (!f) return;
        if (!p) viol("pause.unbalanced", "provider resumed twice");
        crash(inc, "could not be resumed");
    }

    static void pause_main(Inc* inc, int rounds)
    {
        for (int i = 0; i < rounds; ++i)
        {
            { HL hl; if (inc->stopping) break; }
            sched::sleep_us(rnd(4000));
            bool both = chance(0.5);
            if (both)
            {
                wsrep::seqno q;
                try { q = inc->srv->desync_and_pause(); }
                catch (const std::exception&) { cov("pause.resync_failed"); }
                if (!q.is_undefined())
                {
                    int64_t at;
                    { HL hl; at = inc->last_left; if (!inc->paused) viol("pause.not_paused", "provider not paused after desync_and_pause()"); }
                    if (at != q.get()) viol("pause.position", "pause reports a wrong position");
                    sched::sleep_us(rnd(3000));
                    { HL hl; if (inc->last_left != at) viol("pause.leak", "write sets progressed during pause"); }
                    try { inc->srv->resume_and_resync(); }
                    catch (const std::exception&) { cov("pause.resume_failed"); }
                    still_paused(inc);
                    cov("pause.desync_and_pause");
                }
                else
                {
                    cov("pause.failed");
                }
            }
            else
            {
                bool ds = chance(0.5);
                if (ds && inc->srv->desync()) { cov("desync.failed"); ds = false; }
                wsrep::seqno q = inc->srv->pause();
                if (!q.is_undefined())
                {
                    int64_t at;
                    { HL hl; at = inc->last_left; if (!inc->paused) viol("pause.not_paused", "provider not paused after pause()"); }
                    if (at != q.get()) viol("pause.position", "pause reports a wrong position");
                    sched::sleep_us(rnd(3000));
                    { HL hl; if (inc->last_left != at) viol("pause.leak", "write sets progressed during pause"); }
                    try { inc->srv->resume(); }
                    catch (const std::exception&) { cov("pause.resume_failed"); }
                    still_paused(inc);
                    cov("pause.pause");
                }
                else cov("pause.failed");
                if (ds) { try { inc->srv->resync(); } catch (const std::exception&) { cov("desync.resync_failed"); } }
            }
        }
        HL hl;
        hb_rel(&g_gone); --inc->clients_running;
        inc->q.wake();
    }

    static void killer_main(Inc* inc)
    {
        for (int i = 0; i < 40; ++i)
        {
            sched::sleep_us(500 + rnd(2500));
            Sess* v = nullptr;
            {
                HL hl;
                if (inc->stopping || inc->clients_running <= 1) break;
                std::vector<Sess*> c;
                for (auto s : inc->sessions) if (s->open && s->in_trx) c.push_back(s);
                if (!c.empty()) v = c[rnd(c.size())];
            }
            if (!v || !chance(cfg.p_kill)) continue;
            wsrep::unique_lock<wsrep::mutex> lk(v->mtx);
            HL hl;
            if (v->in_trx && (v->phase == Sess::EXEC || v->xa))
            {
                v->killed = true;
                cov(v->xa_prep ? "kill.xa_prepared" : v->xa ? "kill.xa" : "kill");
            }
            inc->q.wake();
        }
        HL hl;
        hb_rel(&g_gone); --inc->clients_running;
        inc->q.wake();
    }

    // spurious brute force aborts: legal at any time before the victim is ordered
    static void gap_main(Inc* inc)
    {
        for (int i = 0; i < 60; ++i)
        {
            sched::sleep_us(100 + rnd(1200));
            Sess* v = nullptr;
            int64_t bf;
            {
                HL hl;
                if (inc->stopping || inc->clients_running <= 1) break;
                std::vector<Sess*> c;
                for (auto s : inc->sessions) if (s->open && s->in_trx) c.push_back(s);
                if (!c.empty()) v = c[rnd(c.size())];
                bf = inc->last_left + 1;
            }
            if (!v || !chance(cfg.p_gap)) continue;
            wsrep::unique_lock<wsrep::mutex> lk(v->mtx);
            if (v->cs->transaction().active() && v->in_trx && v->cs->mode() == wsrep::client_state::m_local)
            {
                cov("gap.bf_abort");
                v->cs->bf_abort(lk, wsrep::seqno(bf));
            }
        }
        HL hl;
        hb_rel(&g_gone); --inc->clients_running;
        inc->q.wake();
    }

    static void waiter_main(Inc* inc)
    {
        static const enum wsrep::server_state::state st[] = { wsrep::server_state::s_synced, wsrep::server_state::s_joined,
            wsrep::server_state::s_connected, wsrep::server_state::s_disconnected, wsrep::server_state::s_donor, wsrep::server_state::s_disconnecting };
        enum wsrep::server_state::state want = st[rnd(6)];
        size_t from;
        { HL hl; from = inc->trans.size(); ++inc->waiters["on"]; }
        int r = 0;
        bool thrown = false;
        // a wait that begins after the server has left the group may last for ever
        struct W { Inc* inc; bool late; } w = { inc, false };
        on_cond_arg = &w;
        on_cond_wait = [](void* a)
        {
            W* x = static_cast<W*>(a);
            HL hl;
            if (!x->late && !x->inc->trans.empty() && x->inc->announced == wsrep::server_state::s_disconnected)
            {
                x->late = true; --x->inc->waiters["on"]; cov("wait.late");
            }
            on_cond_wait = nullptr;
        };
        try { r = inc->srv->wait_until_state(want); }
        catch (const std::exception&) { thrown = true; }
        on_cond_wait = nullptr;
        HL hl;
        if (!w.late) --inc->waiters["on"];
        bool seen = inc->announced == int(want);
        for (size_t i = from ? from - 1 : 0; i < inc->trans.size(); ++i) if (inc->trans[i].second == int(want) || (i >= from && inc->trans[i].first == int(want))) seen = true;
        bool leaving = false;
        for (size_t i = 0; i < inc->trans.size(); ++i)
            if (inc->trans[i].second == wsrep::server_state::s_disconnecting || inc->trans[i].second == wsrep::server_state::s_disconnected) leaving = true;
        cov("check.waiter");
        if (!thrown && r == 0 && !seen) viol("wait.false", "wait_until_state() returned although the state was not reached");
        if ((thrown || r) && !leaving) viol("wait.interrupted", "wait_until_state() interrupted without a disconnect");
        if (thrown || r) cov("wait.interrupted");
        else cov("wait.reached");
        inc->q.wake();
    }

    //////////////////////////////////////////////////////////////////////
    // Server life cycle
    static void start_appliers(Inc* inc)
    {
        for (int a = 0; a < cfg.appliers; ++a)
        {
            { HL hl; ++inc->appliers_running; }
            sched::spawn("a" + std::to_string(inc->idx) + "." + std::to_string(a), inc->tag, [inc]
            {
                Hps* h = new Hps(inc, DbTrx::APPLIER, "applier");
                h->store_globals();
                inc->srv->provider().run_applier(h);
                delete h;
                HL hl;
                hb_rel(&g_gone); --inc->appliers_running;
                inc->q.wake();
            });
        }
    }

    static void load_rows(Inc* inc)
    {
        HL hl;
        inc->rows = inc->node->dur.rows;
        inc->schema = inc->node->dur.schema;
    }

    static void init_done(Inc* inc)
    {
        { HL hl; inc->initialized_called = true; }
        inc->srv->initialized();
    }

    static bool connect_node(Inc* inc, bool bootstrap, bool first)
    {
        if (first && !cfg.sst_before_init) { load_rows(inc); init_done(inc); }
        int r = inc->srv->connect("cluster", "addr", "", bootstrap);
        if (r) { cov("connect.failed"); return false; }
        start_appliers(inc);
        if (first && cfg.sst_before_init)
        {
            inc->srv->wait_until_state(wsrep::server_state::s_initializing);
            if (!inc->initialized_called)
            {
                load_rows(inc);
                sched::yield("initializing");
                init_done(inc);
            }
        }
        return true;
    }

    void start_node(Node* n, bool bootstrap)
    {
        HL hl;
        Inc* inc = new Inc;
        inc->node = n; inc->idx = n->idx; inc->tag = g_tags++; inc->name = "s" + std::to_string(n->idx);
        if (n->need_sst) { n->dur = Durable(); n->need_sst = false; cov("restart.wiped"); }
        n->cur = inc; ++n->incs; n->up = false;
        inc->smtx.reset(new Mutex("server"));
        inc->scond.reset(new Cond);
        inc->svc.reset(new ServerService(inc));
        sched::spawn("main" + std::to_string(n->idx), inc->tag, [inc, n, bootstrap]
        {
            wsrep::gtid pos = n->dur.pos ? wsrep::gtid(G->gid, wsrep::seqno(n->dur.pos)) : wsrep::gtid::undefined();
            inc->srv.reset(new ServerState(inc, pos));
            inc->srv->set_provider_factory([inc](wsrep::server_state& s, const std::string&, const std::string&,
                                                 const wsrep::provider::services&)
            {
                std::unique_ptr<wsrep::provider> p(inc->prov = new Prov(inc, s));
                return p;
            });
            if (inc->srv->load_provider("sim", "")) viol("server.load", "load_provider() failed");
            inc->rb_running = true;
            inc->rb_threads = 1;
            sched::spawn("rb" + std::to_string(inc->idx), inc->tag, [inc] { rollbacker_main(inc); });
            for (int i = 0; i < cfg.waiters; ++i)
                sched::spawn("w" + std::to_string(inc->idx), inc->tag, [inc] { sched::sleep_us(rnd(6000)); waiter_main(inc); });
            while (!connect_node(inc, bootstrap, true)) sched::sleep_us(2000);
            inc->srv->wait_until_state(wsrep::server_state::s_synced);
            { HL hl2; hb_rel(&g_gone); n->up = true; }
            trace("UP node %d", inc->idx);
        });
    }

    static void start_work(Inc* inc, int trxs)
    {
        start_clients(inc, trxs);
        if (cfg.p_kill > 0) { { HL hl; ++inc->clients_running; } sched::spawn("killer", inc->tag, [inc] { killer_main(inc); }); }
        if (cfg.p_gap > 0) { { HL hl; ++inc->clients_running; } sched::spawn("gap", inc->tag, [inc] { gap_main(inc); }); }
        for (int i = 0; i < cfg.n_pause; ++i)
        { { HL hl; ++inc->clients_running; } sched::spawn("pauser", inc->tag, [inc] { pause_main(inc, 3); }); }
    }

    static bool any_transfer()
    {
        for (auto& n : G->nodes)
            if (n->cur && n->cur->alive && (n->cur->stx_wait || n->cur->sst_threads > 0)) return true;
        return false;
    }
    static int live()
    {
        int l = 0;
        for (auto& n : G->nodes) if (n->cur && n->cur->alive && n->cur->in_group && n->up) ++l;
        return l;
    }
    static Node* pick_up(int min_live)
    {
        std::vector<Node*> c;
        for (auto& n : G->nodes) if (n->cur && n->cur->alive && n->cur->in_group && n->up) c.push_back(n.get());
        if (int(c.size()) < min_live) return nullptr;
        return c[rnd(c.size())];
    }
    static void wait_up(Node* n)
    {
        wait_for("a server to join", [n] { return n->up || !n->cur->alive; });
    }

    static void do_crash()
    {
        Node* n;
        { HL hl; if (any_transfer()) return; n = pick_up(2); if (!n) return; }
        crash(n->cur, "killed");
        sched::sleep_us(rnd(15000));
        cov("ctl.crash");
        if (chance(0.15)) { HL hl; n->need_sst = true; }
        start_node(n, false);
        wait_up(n);
        if (n->cur->alive) start_work(n->cur, 2);
    }

    static void do_cut()
    {
        Inc* inc;
        {
            HL hl;
            if (any_transfer()) return;
            Node* n = pick_up(2);
            if (!n) return;
            inc = n->cur;
            inc->in_group = false; inc->primary = false; inc->synced = false;
            std::vector<Member> ms;
            for (auto& m : G->members) if (m.id != inc->id) ms.push_back(m);
            Item it; it.t = Item::NONPRIM;
            for (auto& m : G->members) if (m.id == inc->id) it.members.push_back(m);
            inc->inbox.push_back(it);
            inc->last_pos_check = G->seqno();      // position of the cut
            G->new_view(ms);
            inc->q.wake();
            cov("ctl.cut");
            trace("CUT node %d", inc->idx);
        }
        sched::sleep_us(rnd(15000));
        wait_for("a partitioned server to notice", [inc] { return !inc->alive || (inc->inbox.empty() && !inc->excl && !inc->paused && inc->announced == wsrep::server_state::s_connected); });
        HL hl;
        if (!inc->alive) return;
        int64_t from = inc->last_pos_check;
        std::vector<Member> ms = G->members;
        Member me; me.id = inc->id; me.node = inc->idx;
        ms.push_back(me);
        Item s; s.t = Item::STX; s.sst = false;
        inc->inbox.push_back(s);
        for (int64_t i = from + 1; i <= G->seqno(); ++i)
        {
            Item it; it.t = Item::EV; it.ev = G->ev(i);
            inc->inbox.push_back(it);
        }
        inc->in_group = true;
        G->new_view(ms);
        Item y; y.t = Item::SYNC;
        inc->inbox.push_back(y);
        inc->q.wake();
        trace("REJOIN node %d", inc->idx);
        H.unlock();
        wait_for("a partitioned server to rejoin", [inc] { return !inc->alive || inc->announced == wsrep::server_state::s_synced; });
        H.lock();
    }

    static void do_loss()
    {
        std::vector<Inc*> all;
        {
            HL hl;
            if (any_transfer() || G->ghost_in) return;
            for (auto& m : G->members) if (m.node >= 0) all.push_back(G->nodes[size_t(m.node)]->cur);
            if (all.empty()) return;
            bool alone = chance(0.5);      // everybody on its own, or all together
            for (auto i : all)
            {
                i->primary = false; i->synced = false;
                Item it; it.t = Item::NONPRIM;
                for (auto& m : G->members) if (!alone || m.id == i->id) it.members.push_back(m);
                i->inbox.push_back(it);
                i->q.wake();
            }
            cov("ctl.loss");
            trace("LOSS of primary component");
        }
        sched::sleep_us(rnd(15000));
        for (auto i : all)
            wait_for("loss of primary to be noticed", [i] { return !i->alive || (i->inbox.empty() && !i->excl && i->announced == wsrep::server_state::s_connected); });
        {
            HL hl;
            if (G->members.empty()) return;
            G->new_view(G->members);
            for (auto i : all)
            {
                if (!i->alive || !i->in_group) continue;
                Item y; y.t = Item::SYNC;
                i->inbox.push_back(y);
                i->q.wake();
            }
        }
        for (auto i : all)
            wait_for("primary to be restored", [i] { return !i->alive || i->announced == wsrep::server_state::s_synced; });
    }

    static void do_leave()
    {
        Inc* inc;
        bool hard = chance(0.5);
        {
            HL hl;
            if (any_transfer()) return;
            Node* n = pick_up(2);
            if (!n) return;
            inc = n->cur;
            inc->stopping = true;
            n->up = false;
            cov(hard ? "ctl.leave_hard" : "ctl.leave");
            trace("LEAVE node %d", inc->idx);
        }
        auto quiet = [inc] { return !inc->alive || (inc->clients_running == 0 && inc->nbo_running == 0); };
        if (!hard) wait_for("sessions to finish", quiet);
        int tag = inc->tag;
        bool* dn = new bool(false);
        sched::spawn("leaver", tag, [inc, dn, quiet]
        {
            if (inc->srv->disconnect()) cov("disconnect.refused");
            inc->srv->wait_until_state(wsrep::server_state::s_disconnected);
            wait_for("sessions to finish", quiet);
            wait_for("appliers to exit", [inc] { return inc->appliers_running == 0; });
            { HL hl; if (!inc->pending_rb.empty()) inc->pending_rb.clear(); }
            hb_rel(&g_gone); *dn = true;
        });
        wait_for("a server to disconnect", [inc, dn] { return *dn || !inc->alive; });
        if (!inc->alive) { start_node(inc->node, false); wait_up(inc->node); return; }
        sched::sleep_us(rnd(8000));
        cov("ctl.left");
        if (chance(0.6))
        {
            // same process connects again
            bool* dn2 = new bool(false);
            { HL hl; inc->stopping = false; }
            sched::spawn("rejoiner", tag, [inc, dn2]
            {
                while (!connect_node(inc, false, false)) sched::sleep_us(2000);
                inc->srv->wait_until_state(wsrep::server_state::s_synced);
                HL hl; hb_rel(&g_gone); inc->node->up = true;
                hb_rel(&g_gone); *dn2 = true;
            });
            wait_for("a server to connect again", [inc, dn2] { return *dn2 || !inc->alive; });
            if (inc->alive) start_work(inc, 2);
            else { start_node(inc->node, false); wait_up(inc->node); }
        }
        else
        {
            { HL hl; inc->rb_stop = true; inc->rbwq.wake(); }
            wait_for("rollbacker", [inc] { return !inc->rb_running; });
            { HL hl; inc->alive = false; }
            start_node(inc->node, false);
            wait_up(inc->node);
            if (inc->node->cur->alive) start_work(inc->node->cur, 2);
        }
    }

    // a member simulated at the level of events only
    static void ghost_main()
    {
        struct GTrx { uint64_t trx; int table; int frags; uint64_t uid; int idx; std::vector<RowKey> rows; };
        std::vector<GTrx> open;
        uint64_t next = 1;
        for (int n = 0; n < cfg.ghost; ++n)
        {
            sched::sleep_us(500 + rnd(4000));
            HL hl;
            if (!G->ghost_in || G->members.empty()) break;
            bool prim = false;
            for (auto& m : G->members)
                if (m.node >= 0 && G->nodes[size_t(m.node)]->cur->alive) prim = true;
            if (!prim) break;
            auto key = [](int t, int r) { KeyRec k; k.excl = true; k.parts = { "db", "t" + std::to_string(t), "r" + std::to_string(r) }; return k; };
            auto busy = [&](RowKey k)
            {
                for (auto& o : G->ref.sr)
                    for (auto& op : o.second.ops) if (RowKey(op.table, op.row) == k) return true;
                return false;
            };
            auto e = std::make_unique<Event>();
            e->kind = EV_WS; e->sid = G->ghost_id; e->last_seen = G->seqno();
            // transactions that were aborted underneath are forgotten
            for (auto i = open.begin(); i != open.end();)
                if (!G->ref.sr.count(std::make_pair(G->ghost_id, i->trx))) i = open.erase(i); else ++i;
            bool cont = cfg.w_sr && !open.empty() && chance(0.6);
            if (cont)
            {
                size_t w = rnd(open.size());
                GTrx& t = open[w];
                e->trx = t.trx;
                int what = int(rnd(10));
                if (what < 2)
                {
                    e->flags = F::rollback | F::pa_unsafe;
                    G->append(std::move(e));
                    open.erase(open.begin() + long(w));
                    cov("ghost.sr_rollback");
                    continue;
                }
                bool commit = what < 6;
                int row = int(rnd(uint64_t(cfg.rows)));
                RowKey k(t.table, row);
                bool mine = std::find(t.rows.begin(), t.rows.end(), k) != t.rows.end();
                if (mine || !busy(k))
                {
                    Op o; o.uid = t.uid; o.idx = t.idx++; o.table = t.table; o.row = row; o.nonce = wrng.next();
                    e->data = enc_op(o);
                    e->keys.push_back(key(t.table, row));
                    t.rows.push_back(k);
                }
                e->flags = commit ? F::commit | F::pa_unsafe : 0;
                if (!commit && e->data.empty()) continue;
                if (chance(cfg.p_ghost_poison)) { e->data += "PA255\n"; cov("ghost.poison_sr"); }
                G->append(std::move(e));
                if (commit) open.erase(open.begin() + long(w));
                cov(commit ? "ghost.sr_commit" : "ghost.sr_fragment");
                continue;
            }
            int table = int(rnd(uint64_t(cfg.tables))), row = int(rnd(uint64_t(cfg.rows)));
            if (cfg.w_toi && chance(0.2))
            {
                e->kind = EV_TOI; e->client = 7; e->flags = F::start_transaction | F::commit;
                KeyRec k; k.excl = true; k.parts = { "db", "t" + std::to_string(table) };
                e->keys.push_back(k);
                bool bad = chance(cfg.p_ghost_poison);
                char b[96]; snprintf(b, sizeof(b), "T %d %llx %d\n", table, (unsigned long long)wrng.next(), bad && chance(0.7) ? 1 : 0);
                e->data = b;
                if (bad && e->data[e->data.size() - 2] == '0' && live() > 1)
                {
                    Node* v = pick_up(2);
                    if (v) { e->data += std::string("P") + (chance(0.5) ? 'R' : 'N') + std::to_string(1u << v->idx) + "\n"; v->need_sst = true; cov("ghost.poison_toi"); }
                }
                G->append(std::move(e));
                cov("ghost.toi");
                continue;
            }
            if (busy(RowKey(table, row))) continue;
            uint64_t uid = 500000 + (uint64_t(G->ghost_id.data() ? 1 : 0)) * 1000 + G->next_uid++;
            e->trx = (1ull << 60) + (uint64_t(G->view_no) << 32) + next++;
            Op o; o.uid = uid; o.idx = 0; o.table = table; o.row = row; o.nonce = wrng.next();
            e->data = enc_op(o);
            e->keys.push_back(key(table, row));
            if (cfg.w_sr && chance(0.4))
            {
                e->flags = F::start_transaction;
                GTrx t; t.trx = e->trx; t.table = table; t.frags = 1; t.uid = uid; t.idx = 1; t.rows.push_back(RowKey(table, row));
                bool p = chance(cfg.p_ghost_poison);
                if (p) { e->data += "PA255\n"; cov("ghost.poison_sr"); }
                G->append(std::move(e));
                if (!p) open.push_back(t);
                cov("ghost.sr_start");
                continue;
            }
            e->flags = F::start_transaction | F::commit;
            int row2 = int(rnd(uint64_t(cfg.rows)));
            if (row2 != row && !busy(RowKey(table, row2)))
            {
                Op o2 = o; o2.idx = 1; o2.row = row2; o2.nonce = wrng.next();
                e->data += enc_op(o2);
                e->keys.push_back(key(table, row2));
            }
            if (chance(cfg.p_ghost_poison))
            {
                int w = int(rnd(10));
                unsigned mask = 255;
                char p = 'A';
                if (w == 0 && live() > 1)
                {
                    // one server only: it has to leave the group
                    Node* v = pick_up(2);
                    if (v) { mask = 1u << v->idx; p = chance(0.5) ? 'R' : 'N'; v->need_sst = true; }
                }
                e->data += std::string("P") + p + std::to_string(mask) + "\n";
                cov(std::string("ghost.poison_") + p);
            }
            G->append(std::move(e));
            cov("ghost.ws");
        }
        HL hl;
        if (G->ghost_in)
        {
            G->ghost_in = false;
            std::vector<Member> ms;
            for (auto& m : G->members) if (m.node >= 0) ms.push_back(m);
            if (!ms.empty()) G->new_view(ms);
            cov("ghost.left");
        }
    }

    static bool drained()
    {
        int64_t last = G->seqno();
        for (auto& n : G->nodes)
        {
            Inc* i = n->cur;
            if (!i || !i->alive) continue;
            if (i->clients_running || i->nbo_running || i->sst_threads) return false;
            if (!i->in_group) continue;
            if (!i->inbox.empty() || i->excl || i->in_flight || i->last_left != last || !i->rbq.empty()) return false;
            for (auto s : i->sessions) if (s->in_rollbacker) return false;
        }
        return true;
    }

    void controller()
    {
        G = new Group;
        G->gid = new_id();
        for (int i = 0; i < cfg.nodes; ++i) { G->nodes.emplace_back(new Node); G->nodes.back()->idx = i; }
        int initial = cfg.nodes - cfg.n_join;
        for (int i = 0; i < initial; ++i)
        {
            start_node(G->nodes[size_t(i)].get(), i == 0);
            wait_up(G->nodes[size_t(i)].get());
        }
        bool* ghost_done = new bool(cfg.ghost == 0);
        if (cfg.ghost)
        {
            {
                HL hl;
                G->ghost_id = new_id();
                G->ghost_in = true;
                std::vector<Member> ms = G->members;
                Member g; g.id = G->ghost_id; g.node = -1;
                ms.push_back(g);
                G->new_view(ms);
            }
            sched::spawn("ghost", -1, [ghost_done] { ghost_main(); hb_rel(&g_gone); *ghost_done = true; });
        }
        for (int i = 0; i < initial; ++i)
            if (G->nodes[size_t(i)]->cur->alive) start_work(G->nodes[size_t(i)]->cur, cfg.trxs);
        std::vector<int> acts;
        for (int i = 0; i < cfg.n_cut; ++i) acts.push_back(0);
        for (int i = 0; i < cfg.n_loss; ++i) acts.push_back(1);
        for (int i = 0; i < cfg.n_crash; ++i) acts.push_back(2);
        for (int i = 0; i < cfg.n_leave; ++i) acts.push_back(3);
        for (int i = 0; i < cfg.n_join; ++i) acts.push_back(4);
        for (size_t i = acts.size(); i > 1; --i) std::swap(acts[i - 1], acts[rnd(i)]);
        int joined = initial;
        for (int a : acts)
        {
            sched::sleep_us(rnd(12000));
            if (a == 0) do_cut();
            else if (a == 1) do_loss();
            else if (a == 2) do_crash();
            else if (a == 3) do_leave();
            else
            {
                Node* n = G->nodes[size_t(joined++)].get();
                start_node(n, false);
                wait_up(n);
                cov("ctl.join");
                if (n->cur->alive) start_work(n->cur, 2);
            }
        }
        wait_for("the workload to finish", [ghost_done]
        {
            if (!*ghost_done) return false;
            for (auto& n : G->nodes)
                if (n->cur && n->cur->alive && (n->cur->clients_running || n->cur->nbo_running)) return false;
            return true;
        });
        // servers that had to leave come back with a fresh copy
        for (auto& n : G->nodes)
            if (n->cur && !n->cur->alive && live() > 0)
            {
                start_node(n.get(), false);
                wait_up(n.get());
            }
        cfg.p_fault = 0; cfg.inj_site.clear(); cfg.inj_site2.clear();
        // a write set flushes delayed rollback announcements
        for (auto& n : G->nodes)
        {
            Inc* inc = n->cur;
            if (!inc || !inc->alive || !inc->in_group) continue;
            bool need;
            { HL hl; need = !inc->pending_rb.empty(); }
            if (!need) continue;
            cov("ctl.flush");
            { HL hl; ++inc->clients_running; }
            sched::spawn("flush", inc->tag, [inc]
            {
                Sess* s = new_session(inc);
                for (int t = 0; t < 10; ++t)
                {
                    { HL hl; if (inc->pending_rb.empty()) break; }
                    run_trx(s, false);
                    if (!s->open) s = new_session(inc);
                    sched::sleep_us(3000);
                }
                if (s->open) end_session(s);
                HL hl; hb_rel(&g_gone); --inc->clients_running;
            });
        }
        wait_for("all servers to catch up", drained);
        final_checks();
        if (cfg.freeze_on_shutdown)
            for (auto& n : G->nodes)
            {
                Inc* inc = n->cur;
                if (!inc || !inc->alive || !inc->in_group) continue;
                bool* dn = new bool(false);
                { HL hl; inc->stopping = true; n->up = false; }
                sched::spawn("shutdown", inc->tag, [inc, dn]
                {
                    inc->srv->disconnect();
                    inc->srv->wait_until_state(wsrep::server_state::s_disconnected);
                    hb_rel(&g_gone); *dn = true;
                });
                wait_for("a server to shut down", [inc, dn] { return (*dn && inc->appliers_running == 0) || !inc->alive; });
                wait_for("state waiters to be released", [inc] { return inc->waiters["on"] == 0 || !inc->alive; });
                cov("ctl.shutdown");
            }
        sched::finish();
    }

    //////////////////////////////////////////////////////////////////////
    std::vector<std::string> profiles()
    {
        return { "plain", "sr", "toi", "mix", "member", "crash", "leave", "join", "pause", "nbo", "vote", "fault", "xa", "xasr", "xamember", "hot", "idle", "store", "nbof", "toif", "pausef" };
    }

    void set_profile(Cfg& c, const std::string& p, uint64_t seed)
    {
        Rng r(seed * 31 + 7);
        c.nodes = 2 + int(r.below(2));
        c.appliers = 1 + int(r.below(3));
        c.clients = 2 + int(r.below(2));
        c.trxs = 3 + int(r.below(4));
        c.tables = 1 + int(r.below(2));
        c.rows = 2 + int(r.below(4));
        c.rm_sync = r.p(0.75);
        c.sst_before_init = r.p(0.7);
        static const double sw[] = { 0.08, 0.3, 0.6 };
        c.p_switch = sw[r.below(3)];
        c.pct = r.p(0.3) ? 3 + int(r.below(4)) : 0;
        c.p_gap = r.p(0.5) ? 0.15 : 0;
        c.p_rollback = 0.1;
        c.p_idle = 0.3;
        if (r.p(0.3)) { c.p_disc = 0.1; }
        if (r.p(0.3)) { c.p_kill = 0.4; }
        if (p == "plain") { c.w_read = 1; if (r.p(0.3)) c.p_keep = 0.3; }
        else if (p == "sr") { c.w_sr = 10; c.w_plain = 5; }
        else if (p == "toi") { c.w_toi = 4; c.w_plain = 6; c.w_sr = r.p(0.5) ? 4 : 0; c.w_read = 1; }
        else if (p == "mix") { c.w_sr = 4; c.w_plain = 5; c.w_toi = 2; c.w_read = 1; c.p_keep = 0.1; }
        else if (p == "hot") { c.w_sr = r.p(0.7) ? 10 : 0; c.w_plain = 5; c.w_toi = r.p(0.2) ? 2 : 0; c.p_hot = 0.02 + 0.06 * double(r.below(4)) / 3; c.p_spur_cert = r.p(0.4) ? 0.15 : 0; c.rows = 3; c.p_gap = 0; c.p_rollback = 0.05; c.p_2pc = 0.5; if (r.p(0.3)) c.p_keep = 0.3; }
        else if (p == "idle") { c.w_sr = r.p(0.5) ? 8 : 0; c.w_plain = 5; c.w_toi = r.p(0.2) ? 2 : 0; c.p_hot = 0.04; c.p_gap = 0; c.p_idle = 0.6; c.p_disc = 0.4; c.p_spur = 0.25; c.p_rollback = 0.05; if (r.p(0.3)) c.p_keep = 0.4; }
        else if (p == "member") {  c.w_sr = 6; c.w_plain = 4; c.w_toi = r.p(0.3) ? 1 : 0; c.n_cut = int(r.below(3)); c.n_loss = int(r.below(2)); c.ghost = r.p(0.5) ? 10 : 0; c.trxs = 6; }
        else if (p == "crash") { c.w_sr = 5; c.w_plain = 5; c.n_crash = 1 + int(r.below(2)); c.trxs = 6; c.ghost = r.p(0.3) ? 10 : 0; }
        else if (p == "leave") { c.w_sr = 5; c.w_plain = 5; c.w_toi = r.p(0.3) ? 1 : 0; c.n_leave = 1 + int(r.below(2)); c.trxs = 6; c.waiters = int(r.below(4)); }
        else if (p == "join") { c.w_sr = r.p(0.5) ? 5 : 0; c.nodes = 3; c.n_join = 1 + int(r.below(2)); c.n_crash = int(r.below(2)); c.waiters = int(r.below(4)); c.trxs = 5; }
        else if (p == "pause") { c.n_pause = 1 + int(r.below(3)); c.w_rsu = r.p(0.5) ? 2 : 0; c.w_toi = r.p(0.3) ? 1 : 0; c.w_sr = r.p(0.3) ? 3 : 0; }
        else if (p == "nbo" || p == "nbof")
        {
            c.w_nbo = 4; c.w_plain = 5; c.w_toi = 1;
            if (p == "nbof") { c.p_fault = 0.1; c.fault_sites = { "leave_toi" }; if (r.p(0.6)) c.fault_sites.insert("enter_toi"); c.p_nbo_gone = r.p(0.5) ? 0.3 : 0; c.w_sr = r.p(0.3) ? 3 : 0; }
        }
        else if (p == "toif") { c.w_toi = 6; c.w_plain = 4; c.w_sr = r.p(0.3) ? 3 : 0; c.p_fault = 0.1; c.fault_sites = { "enter_toi", "leave_toi" }; c.ghost = r.p(0.5) ? 15 : 0; c.p_ghost_poison = 0.3; }
        else if (p == "pausef")
        {
            c.n_pause = 1 + int(r.below(3)); c.w_rsu = r.p(0.6) ? 3 : 0; c.w_toi = r.p(0.3) ? 1 : 0; c.w_sr = r.p(0.3) ? 3 : 0;
            c.p_fault = 0.2; c.fault_sites = { "desync", "pause", "wait_commits" };
            if (!c.w_rsu && r.p(0.4)) c.fault_sites.insert("resync");
            if (!c.w_rsu && r.p(0.2)) c.fault_sites.insert("resume");
        }
        else if (p == "vote") { c.ghost = 20; c.p_ghost_poison = 0.4; c.w_sr = r.p(0.6) ? 4 : 0; c.w_toi = r.p(0.5) ? 2 : 0; }
        else if (p == "xa" || p == "xasr" || p == "xamember")
        {
            if (p != "xa") c.p_xa_sr = 0.6;
            if (r.p(0.3)) { c.p_fault = 0.2; c.fault_sites = { "commit_by_xid" }; }
            if (p == "xamember")
            {
                c.n_cut = int(r.below(2)); c.n_loss = int(r.below(2)); c.n_crash = int(r.below(2)); c.n_leave = int(r.below(2));
                if (r.p(0.5)) c.p_xa_sr = 0;
            }
            c.w_xa = 6; c.w_plain = 4; c.w_sr = r.p(0.3) ? 3 : 0; c.xa_tables = 1; c.p_hot = r.p(0.6) ? 0.06 : 0; c.p_gap = r.p(0.5) ? 0.2 : 0; c.trxs = 5;
        }
        else if (p == "store")
        {
            c.w_sr = 10; c.w_plain = 4; c.w_toi = r.p(0.3) ? 2 : 0; c.p_hot = r.p(0.6) ? 0.05 : 0; c.p_fault = 0.05;
            c.fault_sites = { "st_start", "st_append", "st_update", "remove_frags_local" };
            if (r.p(0.3)) c.fault_sites.insert("replay");
            if (r.p(0.3)) c.fault_sites.insert("rollback");
            // leaves rows behind which a restart would take for an open transaction
            if (!c.fault_sites.count("replay") && r.p(0.5)) { c.fault_sites.insert("st_remove"); c.fault_sites.insert("adopt"); }
        }
        else if (p == "fault") { c.w_sr = 5; c.w_plain = 5; c.w_toi = r.p(0.5) ? 2 : 0; c.p_fault = 0.03; c.fault_sites = { "certify", "rollback", "append_data", "prep_data", "prep_frag", "start_trx", "append_key", "enter_toi", "causal" }; }
    }
}

