// Simulated cluster around the real wsrep-lib.
#pragma once
#include "sched.hpp"
#include "wsrep/client_state.hpp"
#include "wsrep/client_service.hpp"
#include "wsrep/server_state.hpp"
#include "wsrep/server_service.hpp"
#include "wsrep/high_priority_service.hpp"
#include "wsrep/storage_service.hpp"
#include "wsrep/provider.hpp"
#include "wsrep/transaction.hpp"
#include "wsrep/key.hpp"
#include "wsrep/view.hpp"
#include "wsrep/xid.hpp"
#include "wsrep/logger.hpp"
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim
{
    using RowKey = std::pair<int, int>;
    typedef wsrep::provider::flag F;

    struct Cfg
    {
        uint64_t seed = 1;
        bool free_mode = false;
        int nodes = 2, appliers = 2, clients = 2, trxs = 4;
        int tables = 2, rows = 4, xa_tables = 0;
        bool rm_sync = true;
        bool sst_before_init = true;
        // weights of client activities
        double p_nbo_gone = 0; int w_plain = 10, w_sr = 0, w_xa = 0, w_toi = 0, w_nbo = 0, w_rsu = 0, w_read = 0;
        double p_rollback = 0.1, p_kill = 0, p_disc = 0, p_keep = 0, p_idle = 0.2;
        double p_xa_sr = 0; double p_2pc = 0.4, p_gap = 0.02;      // gap: spurious BF aborts
        double p_hot = 0, p_spur_cert = 0;       // BF aborts aimed at windows inside the commit path
        double p_hpctx = 0.3;                  // replay through high_priority_context
        int n_pause = 0;                       // concurrent pause/desync actors
        int n_cut = 0, n_loss = 0, n_crash = 0, n_leave = 0, n_join = 0, n_donorfail = 0;
        int ghost = 0;                         // events written by a ghost member
        double p_ghost_poison = 0;
        bool vote_accept = true;
        // faults
        double p_fault = 0;                    // probability on every enabled site
        std::set<std::string> fault_sites;     // enabled for random faults
        std::string inj_site; int inj_n = -1; int inj_val = 0;   // systematic
        std::string inj_site2; int inj_n2 = -1; int inj_val2 = 0;
        int bf_yield = -1;                     // systematic BF abort after n-th victim step
        bool freeze_on_shutdown = true;
        double p_switch = 0.3; int pct = 0; double p_spur = 0.02;
        std::string profile;
        bool sess_delete = false;
        int waiters = 0;
    };
    extern Cfg cfg;
    extern Rng wrng;             // workload decisions (det mode only one user at a time)
    bool chance(double p);
    uint64_t rnd(uint64_t n);
    int fault(const char* site);  // 0: none, otherwise value to return

    struct Op { uint64_t uid; int idx; int table; int row; uint64_t nonce; };
    uint64_t mix(uint64_t a, uint64_t b);
    std::string enc_op(const Op&);
    struct WsData
    {
        std::vector<Op> ops; std::string xid; bool has_e = false;
        char poison = 0; unsigned pmask = 0;    // 'A' vote accepted, 'R' rejected, 'N' no error text
        bool toi = false; int toi_table = 0; uint64_t toi_nonce = 0; bool toi_fail = false;
    };
    WsData dec(const std::string&);

    struct KeyRec { bool excl; std::vector<std::string> parts; int type = wsrep::key::exclusive; };
    struct Member { wsrep::id id; int node; };
    enum EvKind { EV_WS, EV_TOI, EV_VIEW };
    struct Inc;
    struct Event
    {
        int64_t seqno = 0; EvKind kind = EV_WS; wsrep::id sid; Inc* origin = nullptr;
        uint64_t trx = 0, client = 0; int flags = 0;
        std::vector<KeyRec> keys; std::string data;
        int64_t last_seen = 0, depends = 0; bool cert_ok = true;
        bool local_apply = false;     // delivered to the origin's appliers as well
        bool nbo_end = false; int64_t nbo_begin = 0;
        std::set<Inc*> nbo_waiters;
        std::vector<Member> members; int64_t view_seqno = 0;
        bool spur = false;            // refused by certification without a real conflict
        bool skip = false;            // failed TOI: provider consumes the slot
    };

    struct Item
    {
        enum T { EV, CONNECT, NONPRIM, FINAL, SYNC, STX, DONATE } t;
        Event* ev = nullptr;
        std::vector<Member> members; int64_t seqno = 0;
        Inc* joiner = nullptr; bool sst = false;
    };

    // handle known to the provider: local transaction or applied event
    struct Hnd
    {
        bool local = false; uint64_t trx = 0;
        std::vector<KeyRec> keys; std::string data;
        Event* ev = nullptr;
        bool bf = false; int64_t bf_seqno = 0;
        bool certfail = false, replaying = false, frag_done = false, released = false;
        bool in_certify = false;
        int entered = 0, left = 0;
        bool started = false;
        int n_ws = 0;
    };

    struct Frag { wsrep::id sid; uint64_t trx; int64_t seqno; int flags; std::string data; std::string xid; };
    struct Hist { int64_t seqno; uint64_t uid; int nops; };
    struct Durable
    {
        std::map<RowKey, uint64_t> rows; std::map<int, uint64_t> schema;
        int64_t pos = 0; std::vector<Frag> frags; wsrep::view view; bool have_view = false;
        std::vector<Hist> hist;
        std::set<std::pair<wsrep::id, uint64_t>> leak_ok;   // removal of these fragments was made to fail
    };

    struct DbTrx
    {
        enum K { LOCAL, APPLIER, SA, REPLAYER, TOI, STORAGE } kind = LOCAL;
        Inc* inc = nullptr; wsrep::client_state* cs = nullptr; void* owner = nullptr;
        bool active = false;
        std::vector<std::pair<RowKey, uint64_t>> undo; std::vector<Op> ops;
        std::set<RowKey> rows; int table = -1;
        std::vector<Frag> rm_frags, add_frags;
        int64_t seqno = 0;
        wsrep::id sid; uint64_t trx = 0;
        int pins = 0; bool dead = false; bool keep_locks = false;
        std::function<void()> deleter;
    };

    class Sess; class Hps; class ServerState; class Prov; class ServerService;

    struct Node
    {
        int idx; Durable dur; bool need_sst = false; Inc* cur = nullptr; int incs = 0; bool up = false;
    };

    struct Inc  // one life of a server process
    {
        Node* node = nullptr; int idx = 0, tag = 0; std::string name;
        bool alive = true;
        std::unique_ptr<Mutex> smtx; std::unique_ptr<Cond> scond;
        std::unique_ptr<ServerService> svc; std::unique_ptr<ServerState> srv;
        Prov* prov = nullptr;
        wsrep::id id;                         // provider's idea of own id
        bool in_group = false, primary = false, connected = false, closing = false;
        bool synced = false, donating = false, donor_busy = false;
        std::deque<Item> inbox; bool excl = false; int in_flight = 0; bool closed = false;
        int64_t last_left = 0, popped = 0, own_appended = 0, entered = 0; Hnd* entered_h = nullptr;
        int appliers_running = 0; int toi_applying = 0; std::set<int64_t> applying;
        // ordered events in progress, not counting the tail after their slot
        bool busy(int64_t me) const { for (auto x : applying) if (x != me && x > last_left) return true; return false; }
        bool stx_wait = false, stx_done = false; int stx_err = 0; int64_t stx_pos = 0;
        std::shared_ptr<Durable> sst_snap; bool sst_fail = false;
        int paused = 0, pause_ok = 0, resume_ok = 0; int64_t pause_at = 0; int in_append = 0;
        bool resume_failed = false; int desync = 0, desync_ok = 0, resync_ok = 0; int pausing = 0;
        std::map<uint64_t, Hnd*> trx;
        WaitQ q;                              // everything provider related
        // database
        std::map<RowKey, uint64_t> rows; std::map<int, uint64_t> schema;
        std::map<RowKey, DbTrx*> locks; std::map<int, DbTrx*> tlocks; WaitQ lockq;
        int replayers = 0; WaitQ replq;
        std::deque<wsrep::client_state*> rbq; WaitQ rbwq; bool rb_stop = false, rb_running = false; int rb_threads = 0, rb_replaying = 0;
        std::map<wsrep::client_state*, std::pair<int, void*>> rb_kind; // 0 Sess, 1 Hps
        std::vector<Sess*> sessions; int clients_running = 0;
        std::map<std::string, std::pair<Sess*, int>> xids;
        int nbo_running = 0, sst_threads = 0, ctl_threads = 0;
        std::vector<std::pair<int, int>> trans; int announced = 0;
        bool shutdown_req = false;
        uint64_t next_trx = 1, next_client = 1;
        bool initialized_called = false;
        int64_t joined_need = 0; bool had_failed_sst = false;
        int committing = 0;
        std::set<std::pair<wsrep::id, uint64_t>> recovered;
        int n_recover = 0, recovering = 0;
        int donor_since = 0;
        std::map<int64_t, std::string> apply_err;     // error text produced for a position
        std::map<uint64_t, uint64_t> pending_rb;      // rollbacks the provider refused -> time since when the library knows
        int rb_refused = 0;
        bool doomed = false;                          // applied something wrong, is about to leave
        std::map<uint64_t, int> rb_sent;              // rollback notices ordered per transaction
        std::vector<Frag> undone;                     // stored fragments taken back after a failed storage commit
        std::map<uint64_t, Sess*> by_trx;
        bool stopping = false; int hot_running = 0;
        struct ToiMon { int entered = 0; bool leave_failed = false, intr = false; int64_t polled = 0; int64_t seqno = 0; int calls = 0; int last_status = 0; int succ = 0, leaves = 0; std::string err; int flags = 0; };
        std::map<uint64_t, ToiMon> toi;
        int64_t last_pos_check = 0;
        std::map<std::string, int> waiters;
    };

    // told outcome of a client transaction
    struct TrxRec
    {
        uint64_t uid; int node; int inc; std::string kind; std::vector<Op> ops; int table = -1;
        enum Told { NONE, COMMITTED, ROLLEDBACK, PREPARED, UNKNOWN } told = NONE;
        bool voluntary = false; std::string xid; std::string how;
        uint64_t trx_id = 0; wsrep::id sid;
        int64_t commit_seqno = 0;
    };

    // reference model fed by the log
    struct SrModel { std::vector<Op> ops; bool prepared = false; wsrep::id sid; uint64_t trx; int table = -1; std::string xid; int64_t first = 0; int64_t ended = 0; };
    struct Ref
    {
        std::map<RowKey, std::vector<std::pair<int64_t, uint64_t>>> rows;
        std::map<int, std::vector<std::pair<int64_t, uint64_t>>> schema;
        std::map<uint64_t, std::vector<std::pair<int64_t, std::vector<Op>>>> committed; // uid -> (seqno, ops)
        std::map<std::pair<wsrep::id, uint64_t>, SrModel> sr;   // open
        std::vector<SrModel> sr_done;
        std::vector<Member> view;
        uint64_t row_at(RowKey, int64_t) const;
        uint64_t schema_at(int, int64_t) const;
        void feed(const Event&);
        std::vector<SrModel> open_at_view;
    };

    struct XaRec { uint64_t uid = 0; Inc* home = nullptr; bool detached = false, claimed = false; };
    struct Group
    {
        std::vector<std::unique_ptr<Event>> log;
        std::vector<std::unique_ptr<Node>> nodes;
        std::vector<Member> members; int64_t view_no = 0;
        wsrep::id gid;
        std::map<std::string, std::pair<int64_t, int64_t>> index;  // key -> (last excl, last shared) seqno
        std::map<std::string, std::pair<std::pair<wsrep::id,uint64_t>, std::pair<wsrep::id,uint64_t>>> index_trx;
        int64_t barrier = 0;
        std::map<std::pair<wsrep::id, uint64_t>, int64_t> last_frag;
        Ref ref;
        std::map<std::string, XaRec> xas;
        std::map<uint64_t, TrxRec> trxs;
        uint64_t next_uid = 1;
        std::vector<std::pair<int64_t, std::pair<wsrep::id, uint64_t>>> bfbf;
        std::map<int64_t, Event*> nbo_open;   // begin seqno -> pending end
        struct Nbo { std::set<Inc*> need, have, gone; Event* end = nullptr; bool failed = false; };
        std::map<int64_t, Nbo> nbo;
        wsrep::id ghost_id; bool ghost_in = false;
        int crashed = 0; uint64_t clock = 0;
        int64_t seqno() const { return int64_t(log.size()); }
        Event* append(std::unique_ptr<Event> e);
        void new_view(const std::vector<Member>&);
        wsrep::view make_view(const std::vector<Member>&, int64_t seqno, int64_t vno,
                              enum wsrep::view::status, const wsrep::id& own) const;
        Event* ev(int64_t s) { return log[size_t(s - 1)].get(); }
    };
    extern Group* G;

    extern thread_local void* g_ctx;      // "thread globals" of the DBMS
    std::string idstr(const wsrep::id&);
    wsrep::id new_id();

    class ClientState : public wsrep::client_state
    {
    public:
        ClientState(wsrep::mutex& m, wsrep::condition_variable& c, wsrep::server_state& s,
                    wsrep::client_service& cs, wsrep::client_id id, enum mode mode)
            : wsrep::client_state(m, c, s, cs, id, mode) { }
    };

    class ServerState : public wsrep::server_state
    {
    public:
        ServerState(Inc* inc, const wsrep::gtid& pos);
        Inc* inc_;
    };

    class ServerService : public wsrep::server_service
    {
    public:
        explicit ServerService(Inc* i) : inc(i) { }
        Inc* inc;
        wsrep::storage_service* storage_service(wsrep::client_service&) override;
        wsrep::storage_service* storage_service(wsrep::high_priority_service&) override;
        void release_storage_service(wsrep::storage_service*) override;
        wsrep::high_priority_service* streaming_applier_service(wsrep::client_service&) override;
        wsrep::high_priority_service* streaming_applier_service(wsrep::high_priority_service&) override;
        void release_high_priority_service(wsrep::high_priority_service*) override;
        void background_rollback(wsrep::unique_lock<wsrep::mutex>&, wsrep::client_state&) override;
        void bootstrap() override { cov("server.bootstrap"); }
        void log_message(enum wsrep::log::level, const char*) override { }
        void log_dummy_write_set(wsrep::client_state&, const wsrep::ws_meta&) override { }
        void log_view(wsrep::high_priority_service*, const wsrep::view&) override;
        void recover_streaming_appliers(wsrep::client_service&) override;
        void recover_streaming_appliers(wsrep::high_priority_service&) override;
        wsrep::view get_view(wsrep::client_service&, const wsrep::id&) override;
        wsrep::gtid get_position(wsrep::client_service&) override;
        void set_position(wsrep::client_service&, const wsrep::gtid&) override;
        void log_state_change(enum wsrep::server_state::state, enum wsrep::server_state::state) override;
        bool sst_before_init() const override { return cfg.sst_before_init; }
        std::string sst_request() override;
        int start_sst(const std::string&, const wsrep::gtid&, bool) override;
        int wait_committing_transactions(int) override;
        void debug_sync(const char* p) override { sched::yield(p); }
        void recover();
    };

    // database context with a high priority client state
    class HpsCs;
    class Hps : public wsrep::high_priority_service
    {
    public:
        Hps(Inc* inc, DbTrx::K kind, const char* name);
        ~Hps() override;
        Inc* inc; std::string name; Mutex mtx; Cond cond;
        std::unique_ptr<HpsCs> svc; std::unique_ptr<ClientState> own_cs; wsrep::client_state* cs;
        DbTrx db; Sess* replay_for = nullptr; bool replaying = false; bool hpctx = false;
        bool released = false;
        int64_t apply_seqno = 0;
        int start_transaction(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int next_fragment(const wsrep::ws_meta&) override;
        const wsrep::transaction& transaction() const override { return cs->transaction(); }
        int adopt_transaction(const wsrep::transaction&) override;
        int apply_write_set(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override;
        int append_fragment_and_commit(const wsrep::ws_handle&, const wsrep::ws_meta&,
                                       const wsrep::const_buffer&, const wsrep::xid&) override;
        int remove_fragments(const wsrep::ws_meta&) override;
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int apply_toi(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override;
        int apply_nbo_begin(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override;
        void after_apply() override;
        void store_globals() override;
        void reset_globals() override;
        void switch_execution_context(wsrep::high_priority_service&) override { }
        int log_dummy_write_set(const wsrep::ws_handle&, const wsrep::ws_meta&, wsrep::mutable_buffer&) override;
        void adopt_apply_error(wsrep::mutable_buffer& err) override { cs->adopt_apply_error(err); }
        bool is_replaying() const override { return replaying; }
        void debug_crash(const char*) override { }
        void check_ctx(const char* where);
    };

    class HpsCs : public wsrep::client_service
    {
    public:
        explicit HpsCs(Hps* h) : hps(h) { }
        Hps* hps;
        bool interrupted(wsrep::unique_lock<wsrep::mutex>&) const override { return false; }
        void reset_globals() override;
        void store_globals() override;
        int prepare_data_for_replication() override { return 0; }
        void cleanup_transaction() override { }
        bool statement_allowed_for_streaming() const override { return true; }
        size_t bytes_generated() const override { return 0; }
        int prepare_fragment_for_replication(wsrep::mutable_buffer&, size_t&) override { return 0; }
        int remove_fragments() override { return 0; }
        int bf_rollback() override { return 0; }
        void emergency_shutdown() override;
        void will_replay() override { }
        void signal_replayed() override { }
        enum wsrep::provider::status replay() override { return wsrep::provider::success; }
        enum wsrep::provider::status replay_unordered() override { return wsrep::provider::success; }
        void wait_for_replayers(wsrep::unique_lock<wsrep::mutex>&) override { }
        enum wsrep::provider::status commit_by_xid() override { return wsrep::provider::success; }
        bool is_explicit_xa() override { return false; }
        bool is_prepared_xa() override { return false; }
        bool is_xa_rollback() override { return false; }
        void debug_sync(const char* p) override { sched::yield(p); }
        void debug_crash(const char*) override { }
        void notify_state_change() override;
    };

    class Storage : public wsrep::storage_service
    {
    public:
        explicit Storage(Inc* inc, void* parent);
        ~Storage() override;
        Inc* inc; Mutex mtx; Cond cond; HpsCs svc; ClientState cs; DbTrx db; void* saved_ctx;
        int frag_idx = -1;
        int start_transaction(const wsrep::ws_handle&) override;
        void adopt_transaction(const wsrep::transaction&) override;
        int append_fragment(const wsrep::id&, wsrep::transaction_id, int,
                            const wsrep::const_buffer&, const wsrep::xid&) override;
        int update_fragment_meta(const wsrep::ws_meta&) override;
        int remove_fragments() override;
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        void store_globals() override;
        void reset_globals() override;
        void check_ctx(const char*);
    };

    class Sess : public wsrep::client_service
    {
    public:
        Sess(Inc* inc, uint64_t id);
        ~Sess() override { }
        Inc* inc; uint64_t id; Mutex mtx; Cond cond; std::unique_ptr<ClientState> cs; DbTrx db;
        std::vector<Op> ops; size_t repl_ops = 0; std::string gen;   // all generated bytes
        size_t repl_bytes = 0;
        std::vector<KeyRec> all_keys, pend_keys; std::set<std::pair<std::string,std::string>> parents;
        uint64_t uid = 0; bool killed = false;
        enum Phase { EXEC, COMMIT, PREPARE, XACOMMIT } phase = EXEC;
        bool xa = false, xa_prep = false, xa_rb = false, xa_rbk = false, by_xid = false; std::string xid;
        bool replay_hpctx = false; bool open = false; bool in_cmd = false;
        int bf_rb = 0; int n_frag = 0; bool in_trx = false; bool stopped = false;
        int64_t last_gtid = 0, own_last_ordered = 0; uint64_t cert_time = 0;
        int sr_unit = 0; size_t sr_size = 0;
        bool pa_mark = false, implicit = false, want_emergency = false; bool cleanup_called = false; bool in_rollbacker = false; bool stmt_ok = true;
        int replays = 0; int replay_result = -1; int will = 0;
        int last_injected = 0; std::string last_site;
        bool pend_seq_cb = false; int seq_cb_calls = 0;
        std::set<int64_t> own_seqnos;
        size_t sent_bytes = 0; bool frag_stored = false; std::string frag_data; int64_t commit_seqno = 0;
        bool is_sr = false; bool prepared = false; bool lost = false; bool toi_aborted = false;
        size_t repl_bytes_sent() const { return sent_bytes; }
        void mark_sent() { sent_bytes = gen.size(); pend_keys.clear(); pa_mark = false; ++n_frag; }
        bool thd_active = false;
        // client_service
        bool interrupted(wsrep::unique_lock<wsrep::mutex>&) const override;
        void reset_globals() override; void store_globals() override;
        int prepare_data_for_replication() override;
        void cleanup_transaction() override;
        bool statement_allowed_for_streaming() const override;
        size_t bytes_generated() const override;
        int prepare_fragment_for_replication(wsrep::mutable_buffer&, size_t&) override;
        int remove_fragments() override;
        int bf_rollback() override;
        void emergency_shutdown() override;
        void will_replay() override; void signal_replayed() override;
        enum wsrep::provider::status replay() override;
        enum wsrep::provider::status replay_unordered() override;
        void wait_for_replayers(wsrep::unique_lock<wsrep::mutex>&) override;
        enum wsrep::provider::status commit_by_xid() override;
        bool is_explicit_xa() override; bool is_prepared_xa() override; bool is_xa_rollback() override;
        void debug_sync(const char* p) override { hot(p); sched::yield(p); }
        void debug_crash(const char*) override { sched::yield("dbgcrash"); }
        void hot(const char*, double mul = 1);
        void notify_state_change() override;
        // database side
        void check_ctx(const char*);
        bool aborted();                         // must_abort and friends, takes the mutex
        int write(int table, int row);          // one row operation
        int do_commit(); int do_rollback();
        void trx_done();
    };

    class Prov : public wsrep::provider
    {
    public:
        Prov(Inc* inc, wsrep::server_state& s) : wsrep::provider(s), inc(inc) { }
        Inc* inc;
        typedef enum wsrep::provider::status St;
        St connect(const std::string&, const std::string&, const std::string&, bool) override;
        int disconnect() override;
        int capabilities() const override { return 0; }
        int desync() override; int resync() override;
        wsrep::seqno pause() override; int resume() override;
        St run_applier(wsrep::high_priority_service*) override;
        int start_transaction(wsrep::ws_handle&) override;
        St assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) override { return success; }
        int append_key(wsrep::ws_handle&, const wsrep::key&) override;
        St append_data(wsrep::ws_handle&, const wsrep::const_buffer&) override;
        St certify(wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta&, const seq_cb_t*) override;
        St bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno&) override;
        St rollback(wsrep::transaction_id) override;
        St commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override;
        int release(wsrep::ws_handle&) override;
        St replay(const wsrep::ws_handle&, wsrep::high_priority_service*) override;
        St enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta&, int) override;
        St leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override;
        std::pair<wsrep::gtid, St> causal_read(int) const override;
        St wait_for_gtid(const wsrep::gtid&, int) const override;
        wsrep::gtid last_committed_gtid() const override;
        St sst_sent(const wsrep::gtid&, int) override;
        St sst_received(const wsrep::gtid&, int) override;
        St enc_set_key(const wsrep::const_buffer&) override { return success; }
        std::vector<status_variable> status() const override { return std::vector<status_variable>(); }
        void reset_status() override { }
        std::string options() const override { return ""; }
        St options(const std::string&) override { return success; }
        St set_node_isolation(enum node_isolation) override { return success; }
        std::string name() const override { return "sim"; }
        std::string version() const override { return "1"; }
        std::string vendor() const override { return "v"; }
        void* native() const override { return 0; }
        // helpers
        Hnd* local(wsrep::ws_handle&);
        Hnd* hnd(const wsrep::ws_handle&);
        wsrep::ws_meta meta(const Event&) const;
        void process(Item&, Hps*);
        void apply_event(Event*, Hps*);
        void leave(int64_t seqno);
        bool dead() const;
    };

    // db.cpp
    wsrep::xid mkxid(const std::string&);
    void db_harden(DbTrx&, int64_t seqno);
    void db_end(DbTrx&);
    int lock_hp(DbTrx&, RowKey, int64_t bf_seqno);
    void lock_table_toi(DbTrx&, int table, int64_t bf_seqno);
    void unlock_all(DbTrx&);
    void db_write(DbTrx&, const Op&);
    void db_commit(DbTrx&, int64_t seqno, uint64_t uid_hint);
    void db_rollback(DbTrx&);
    void toi_execute(Inc*, const WsData&, int64_t seqno);
    void set_pos(Inc*, int64_t, const char* who);
    void check_row(Inc*, RowKey, int64_t seqno, const char* who);
    void rollbacker_main(Inc*, bool helper = false);
    void crash(Inc*, const char* why);
    Sess* sess_of(Inc*, uint64_t trx);
    void pin(DbTrx*); void unpin(DbTrx*);

    // mon.cpp
    void vote_seen(Inc*, int64_t seqno, const std::string& err);
    void toi_seen(Inc*, uint64_t cid, int flags, size_t nkeys);
    void toi_result(Inc*, uint64_t cid, int status);
    void toi_enter(Inc*, uint64_t cid, int64_t seqno);
    void toi_leave(Inc*, uint64_t cid, int64_t seqno, const std::string& err);
    void view_done(Inc*, Event*);
    void apply_result(Inc*, Event*, int ret, Hnd*);
    void state_change(Inc*, int from, int to);
    void final_checks();

    // work.cpp
    void start_node(Node*, bool bootstrap);
    void controller();
    void nbo_applier(Inc*, wsrep::ws_meta, WsData, std::vector<KeyRec>);
}
