// Monitors: observed behaviour against the specification.
#include "sim.hpp"
#include <algorithm>

namespace sim
{
    void vote_seen(Inc* inc, int64_t s, const std::string& err)
    {
        auto i = inc->apply_err.find(s);
        cov("check.vote");
        if (i == inc->apply_err.end())
        {
            if (!err.empty()) viol("vote.spurious", "error reported for position " + std::to_string(s) + " which was applied: " + err);
            return;
        }
        if (i->second != err)
            viol("vote.lost", "error text of position " + std::to_string(s) + " handed over as '" + err + "' instead of '" + i->second + "'");
        cov("vote.seen");
    }

    void apply_result(Inc* inc, Event* e, int ret, Hnd* h)
    {
        auto i = inc->apply_err.find(e->seqno);
        bool failed = i != inc->apply_err.end();
        bool text = failed && !i->second.empty();
        char p = dec(e->data).poison;
        cov("check.apply_result");
        int want = !failed ? 0 : !text ? 1 : p == 'R' ? 1 : 0;
        if (fault("none")) return;
        if ((ret != 0) != (want != 0))
            viol("vote.result", "applying of " + std::to_string(e->seqno) + " returned " + std::to_string(ret) +
                 (failed ? (text ? " after a failure with an error text" : " after a failure without an error text") : " although it succeeded"));
        if (failed) cov(std::string("vote.result_") + (want ? "fail" : "ok"));
        if (h && failed && !h->left)
            viol("slot.leak", "failed write set " + std::to_string(e->seqno) + " did not consume its place in the order");
        if (failed)
        {
            // nothing of it may stay behind
            WsData d(dec(e->data));
            for (auto& o : d.ops)
                for (auto& l : inc->locks)
                    if (l.first == RowKey(o.table, o.row) && l.second->seqno == e->seqno && l.second->kind != DbTrx::LOCAL)
                        viol("vote.partial", "partial changes of failed write set " + std::to_string(e->seqno) + " remain");
        }
    }

    void toi_seen(Inc* inc, uint64_t cid, int flags, size_t nkeys)
    {
        auto& t = inc->toi[cid];
        ++t.calls;
        t.flags = flags;
        if (t.entered) viol("toi.nested", "TOI entered twice by a session");
        if (t.calls > 1 && t.last_status != wsrep::provider::error_certification_failed &&
            t.last_status != wsrep::provider::error_connection_failed)
            viol("toi.retry", "TOI retried after a failure that is not transient: " + std::to_string(t.last_status));
        if (t.calls > 1 && (t.seqno <= 0 || int64_t(sched::now_us()) > t.seqno + 5000))
            viol("toi.timeout", "TOI retried past its time limit");
        if (flags & ~(F::start_transaction | F::commit))
            viol("toi.protocol", "unexpected flags in enter_toi()");
        if (nkeys == 0) viol("toi.protocol", "enter_toi() without keys");
    }
    void toi_result(Inc* inc, uint64_t cid, int status) { inc->toi[cid].last_status = status; }
    void toi_enter(Inc* inc, uint64_t cid, int64_t)
    {
        auto& t = inc->toi[cid];
        t.entered = 1; ++t.succ; t.last_status = 0;
    }
    void toi_leave(Inc* inc, uint64_t cid, int64_t s, const std::string& err)
    {
        auto& t = inc->toi[cid];
        ++t.leaves;
        if (G->ev(s)->skip) return;
        if (!t.entered) viol("toi.slot", "TOI left that was not entered");
        t.entered = 0;
        if (err != t.err) viol("toi.error", "outcome of TOI reported as '" + err + "' instead of '" + t.err + "'");
        if (inc->node->dur.pos != s) viol("slot.position", "TOI slot left before its position was recorded");
    }

    // fragments of transactions that ended at or before s are gone
    void view_done(Inc* inc, Event* e)
    {
        HL hl;
        cov("check.view");
        for (auto& f : inc->node->dur.frags)
        {
            if (f.sid == inc->id || !f.xid.empty()) continue;
            bool open = G->ref.sr.count(std::make_pair(f.sid, f.trx)) > 0;
            for (auto& d : G->ref.sr_done)
                if (d.sid == f.sid && d.trx == f.trx && d.ended > e->seqno && d.first <= e->seqno) open = true;
            if (!open && !inc->node->dur.leak_ok.count(std::make_pair(f.sid, f.trx)))
                viol("sr.orphan", "node " + std::to_string(inc->idx) + " keeps fragment " + std::to_string(f.seqno) +
                     " of transaction " + std::to_string(f.trx) + " which ended by position " + std::to_string(e->seqno));
        }
        std::vector<SrModel> ended;
        std::vector<std::pair<wsrep::id, uint64_t>> open;
        for (auto& d : G->ref.sr_done)
            if (d.ended == e->seqno && d.sid != inc->id) ended.push_back(d);
        for (auto& o : G->ref.sr)
            if (o.second.first <= e->seqno && o.first.first != inc->id && !o.second.prepared && o.second.xid.empty()) open.push_back(o.first);
        for (auto& d : ended)
        {
            cov("check.orphan_closed");
            if (inc->srv->find_streaming_applier(d.sid, wsrep::transaction_id(d.trx)))
                viol("sr.orphan", "streaming transaction of a departed server is still registered after the membership change");
        }
        // those that must go on are still there
        for (auto& o : open)
        {
            cov("check.sr_survives");
            if (!inc->srv->find_streaming_applier(o.first, wsrep::transaction_id(o.second)))
            {
                if ((inc->in_group || inc->joined_need) && G->ref.sr.count(o))
                    viol("sr.lost", "open streaming transaction of a present server is gone after the membership change");
            }
        }
    }

    void state_change(Inc* inc, int a, int b)
    {
        HL hl;
        // dis ing ized cted jer jed dor sed ding
        static const char* ok[] = {
            "010100000", // disconnected
            "101000001", // initializing
            "100101001", // initialized
            "100110011", // connected
            "110001001", // joiner
            "100100111", // joined
            "100101001", // donor
            "100101101", // synced
            "100000000"  // disconnecting
        };
        static const char* nm[] = { "disconnected", "initializing", "initialized", "connected", "joiner", "joined", "donor", "synced", "disconnecting" };
        cov(std::string("state.") + nm[a] + ">" + nm[b]);
        if (!inc->trans.empty() && inc->trans.back().second != a)
            viol("state.order", std::string("state change announced from ") + nm[a] + " after " + nm[inc->trans.back().second]);
        if (inc->trans.empty() && a != 0) viol("state.order", "first state change does not start from disconnected");
        if (ok[a][b] != '1')
            viol("state.transition", std::string("undocumented state change ") + nm[a] + " -> " + nm[b]);
        inc->trans.push_back(std::make_pair(a, b));
        inc->announced = b;
        using S = wsrep::server_state;
        if (b == S::s_joined || b == S::s_synced)
        {
            if (!inc->initialized_called)
                viol("join.uninitialized", "server joins before it is initialized");
            if (inc->joined_need && inc->node->dur.pos < inc->joined_need - 1)
                viol("join.incomplete", "server announced " + std::string(nm[b]) + " at position " +
                     std::to_string(inc->node->dur.pos) + " but connected at " + std::to_string(inc->joined_need));
            if (inc->had_failed_sst) viol("join.failed_sst", "server joins after a failed state transfer");
            inc->joined_need = 0;
            cov("check.joined");
        }
        trace("STATE node %d %s -> %s", inc->idx, nm[a], nm[b]);
    }

    void final_checks()
    {
        HL hl;
        int64_t last = G->seqno();
        for (auto& n : G->nodes)
        {
            Inc* inc = n->cur;
            if (!inc || !inc->alive || !inc->in_group) continue;
            cov("check.final_node");
            Durable& d = n->dur;
            std::string who = "node " + std::to_string(n->idx);
            if (inc->last_left != last)
                viol("data.lag", who + " stopped at " + std::to_string(inc->last_left) + " of " + std::to_string(last));
            for (int t = 0; t < cfg.tables + cfg.xa_tables; ++t)
            {
                for (int r = 0; r < cfg.rows; ++r)
                {
                    RowKey k(t, r);
                    if (d.rows[k] != G->ref.row_at(k, last))
                        viol("data.diverged", who + ": final row t" + std::to_string(t) + "r" + std::to_string(r) +
                             " differs from the accepted history");
                }
                if (d.schema[t] != G->ref.schema_at(t, last)) viol("data.diverged", who + ": final schema differs");
            }
            std::set<uint64_t> have;
            for (auto& h : d.hist) have.insert(h.uid);
            for (auto& c : G->ref.committed)
                if (!have.count(c.first)) viol("data.lost", who + ": accepted transaction " + std::to_string(c.first) + " is missing");
            if (have.size() != G->ref.committed.size()) viol("data.phantom", who + ": durable transactions that were never accepted");
            for (auto& f : d.frags)
                if (!G->ref.sr.count(std::make_pair(f.sid, f.trx)) && !d.leak_ok.count(std::make_pair(f.sid, f.trx)))
                    viol("sr.frag_leak", who + " keeps fragment " + std::to_string(f.seqno) + " of a finished streaming transaction");
            for (auto& o : G->ref.sr)
            {
                bool any = false;
                for (auto& f : d.frags) if (f.sid == o.first.first && f.trx == o.first.second) any = true;
                if (!any) viol("xa.lost", who + " has no fragments of open transaction " + std::to_string(o.first.second));
            }
            for (auto& s : G->ref.sr_done)
                if (inc->srv->find_streaming_applier(s.sid, wsrep::transaction_id(s.trx)) &&
                    !d.leak_ok.count(std::make_pair(s.sid, s.trx)))
                    viol("sr.registered", who + ": finished streaming transaction is still registered");
            for (auto& l : inc->locks)
                if (l.second->kind == DbTrx::LOCAL && !static_cast<Sess*>(l.second->owner)->in_trx)
                    viol("session.leftover", who + ": lock left behind");
            if (inc->replayers) viol("replay.counter", who + ": will_replay/signal_replayed unbalanced");
            if (!inc->rbq.empty()) viol("rollbacker.left", who + ": victim never rolled back");
            if (inc->desync != 0) viol("desync.unbalanced", who + ": " + std::to_string(inc->desync) + " desync without resync");
            if (inc->paused) viol("pause.unbalanced", who + ": provider left paused");
            if (inc->entered) viol("slot.leak", who + ": slot " + std::to_string(inc->entered) + " left behind");
            if (!inc->pending_rb.empty()) viol("sr.rollback_lost", who + ": rollback of a streaming transaction was never announced");
        }
        for (auto& t : G->trxs)
        {
            TrxRec& r = t.second;
            auto c = G->ref.committed.find(r.uid);
            size_t n = c == G->ref.committed.end() ? 0 : c->second.size();
            cov("check.told");
            std::string what = "transaction " + std::to_string(r.uid) + " (" + r.kind + ")";
            if (n > 1) viol("data.twice", what + " accepted twice");
            if (r.told == TrxRec::COMMITTED && n != 1)
                viol("told.committed", what + " was reported committed but is committed nowhere");
            if (r.told == TrxRec::ROLLEDBACK && n != 0)
                viol("told.rolledback", what + " was reported rolled back (" + r.how + ") but is committed");
            if (r.told == TrxRec::NONE && G->nodes[size_t(r.node)]->cur && G->nodes[size_t(r.node)]->cur->tag == r.inc && G->nodes[size_t(r.node)]->cur->alive)
                viol("told.none", what + " ended without an answer");
            if (n == 1)
            {
                auto& ops = c->second[0].second;
                bool same = ops.size() == r.ops.size();
                for (size_t i = 0; same && i < ops.size(); ++i)
                    if (ops[i].idx != r.ops[i].idx || ops[i].nonce != r.ops[i].nonce) same = false;
                if (!same && !r.ops.empty()) viol("data.partial", what + " was replicated incompletely or out of order");
            }
            if (r.told == TrxRec::COMMITTED) cov("told.committed");
            if (r.told == TrxRec::ROLLEDBACK) cov(r.voluntary ? "told.voluntary" : "told.rolledback");
        }
        for (auto& b : G->bfbf)
        {
            bool ok = false;
            for (auto& s : G->ref.sr_done)
                if (std::make_pair(s.sid, s.trx) == b.second && s.ended < b.first) ok = true;
            cov("check.bfbf");
            if (!ok) viol("sr.collision", "write set " + std::to_string(b.first) +
                          " was accepted while it collides with an open streaming transaction");
        }
    }
}
