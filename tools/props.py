#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
T="src/transaction.cpp"; S="src/server_state.cpp"; C="src/client_state.cpp"

p("C01","Replicas converge on the same data in the same order",
 "After any run, all servers that have processed the same prefix of the cluster's total order hold identical data and have made the same set of transactions durable, whichever server originated them and however many applier threads were used. Every write set that the cluster ordered and accepted is applied on every server exactly once and completely; every write set it rejected leaves no trace anywhere.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of concurrent clients and appliers on several servers, all mixes of transaction kinds, and aborts at any point",
 "The unit tests drive one client against a mock provider that never delivers anything to a second server, so no test ever compares two servers.",
 [S,T,C],[("write set dispatch","src/server_state.cpp apply_write_set, on_apply"),("commit and rollback hooks","src/transaction.cpp before_commit..after_rollback"),("applier start/ordering","src/transaction.cpp start_transaction, prepare_for_ordering")],
 "per-server storage contents, the provider's ordered log, on_apply return values")
p("C02","What a client is told about its transaction is the truth",
 "A client that is told its transaction committed finds it committed exactly once on every server; a client that is told it was rolled back or lost a conflict finds it committed nowhere. A transaction never ends with neither answer: when its session goes idle it is either still open or it has been decided, and a lost transaction always comes with an error.",
 ["schedules","fault_sequences","histories"],
 "every schedule, every provider status at every provider call, every kill or brute-force abort point",
 "Tests check a handful of hand-placed aborts on one client and never look at the storage outcome.",
 [T,C],[("certification outcome handling","src/transaction.cpp certify_commit, certify_fragment"),("end of statement","src/transaction.cpp after_statement"),("command boundaries","src/client_state.cpp before_command, after_command_before_result, after_command_after_result")],
 "return values of the commit hooks, session error after each command, storage commits")
p("C03","Storage commits follow the global order, one slot each",
 "On each server, ordered write sets become durable strictly in the global order, each one inside its own commit-order slot. Every ordered write set takes and gives back its slot exactly once, including those that were rolled back or failed certification, whose position is recorded as passed; no slot is taken by an unordered transaction and no slot is left behind.",
 ["schedules","fault_sequences"],
 "every interleaving of local commits, appliers, replays, fragment commits, TOI and view events and every abort point",
 "The mock provider's commit-order calls always succeed at once, so ordering, blocking and leaked slots cannot be seen by the tests.",
 [T,S],[("commit order enter/leave","src/transaction.cpp before_commit, ordered_commit, release_commit_order"),("TOI ordering","src/server_state.cpp apply_toi")],
 "the provider's commit-order calls and the storage commit order/positions")
p("C04","Brute-force aborts always win, and never after the point of no return",
 "When a brute-force abort of a local transaction is accepted, the victim does not become durable before the aborter: it releases its locks and rolls back, or is re-executed later in its own place in the order. When the abort is refused the victim is unaffected by it, a transaction that has entered its commit slot is always refused, and an ordered write set never waits forever for a local victim.",
 ["schedules","histories"],
 "an abort arriving at any point of any kind of transaction, from any number of aborters",
 "The tests inject aborts at a few fixed sync points on the victim's own thread; no aborter ever waits for the victim's locks.",
 [T,C],[("bf_abort, total_order_bf_abort","src/transaction.cpp"),("point of no return","src/transaction.cpp before_commit (immutable flag)"),("abort_or_interrupt","src/transaction.cpp")],
 "bf_abort return value, victim lock release and commit events, progress of the ordered pipeline")
p("C05","A certified victim is replayed to exactly one commit",
 "A transaction that the cluster accepted but that was brute-force aborted before it could commit is rolled back locally and re-executed in its own place in the order, so that its client is told success and its changes are durable exactly once. If the re-execution finds that certification failed, the client gets a conflict error and no changes remain; if re-execution fails in any other way the server is shut down rather than allowed to diverge.",
 ["schedules","fault_sequences"],
 "every abort point between replication and commit, ordinary and streaming transactions, every replay status",
 "Tests check replay counters of a mock, not the effects, and only at fixed abort points.",
 [T,S],[("replay","src/transaction.cpp replay, clone_for_replay"),("must-replay transitions","src/transaction.cpp certify_commit, before_commit, before_rollback, after_prepare")],
 "replay service calls, storage commits, session error, emergency shutdown calls")
p("C06","One thread at a time controls a session; idle victims are rolled back first",
 "A session's transaction is driven by only one thread at a time: when an idle session's transaction is brute-force aborted on a server with a background rollbacker, the rollback is handed over exactly once and completes before the session's next command or its disconnect proceeds. The next command is then refused with a conflict error and the session is usable again afterwards.",
 ["schedules"],
 "all races between the aborter, the background rollbacker, the session's next command and its disconnect",
 "The test rollbacker runs synchronously on the caller's thread, so no race is ever exercised.",
 [C,T],[("rollbacker handshake","src/client_state.cpp sync_rollback_complete, do_wait_rollback_complete_and_acquire_ownership, close"),("hand-over","src/transaction.cpp bf_abort")],
 "background rollback requests, thread identity of rollback hooks, before_command results")
p("C07","Session protocol: errors reach the client and are then forgotten",
 "Every failed or aborted transaction leaves an error on its session by the time the command's result is sent, also when the abort hits after the statement or while the result is being sent, and a command that asks to keep errors passes it to the next command. The error is never silently cleared or turned into success before it has been reported, and after it was reported the session starts its next transaction with a clean slate.",
 ["schedules","programs","fault_sequences"],
 "every sequence of commands, statements and aborts, including pipelined commands that keep errors",
 "Tests cover single aborts in two command states with one transaction.",
 [C,T],[("error state","src/client_state.cpp override_error, before_command, after_command_before_result, after_command_after_result"),("cleanup","src/transaction.cpp cleanup")],
 "current error at each command boundary, session state after it")
p("C08","Streaming transactions are atomic and leave no fragments",
 "A transaction replicated in fragments becomes visible on every server all at once, with all of its rows in the order they were made, or not at all. Each fragment is stored before it is certified, recorded with its place in the order, and once the transaction has ended, either way, no server's fragment storage holds any of its fragments and nothing of it stays registered as streaming.",
 ["schedules","fault_sequences","inputs"],
 "all fragment units and sizes, all abort and failure points in any fragment, all schedules",
 "Mock fragment storage discards everything, so leftover or missing fragments cannot be noticed by the tests.",
 [T,S,"src/streaming_context.cpp","include/wsrep/streaming_context.hpp"],[("fragment certification","src/transaction.cpp streaming_step, certify_fragment"),("fragment apply/commit/rollback","src/server_state.cpp apply_fragment, commit_fragment, rollback_fragment"),("registries","src/server_state.cpp start/stop_streaming_client, start/stop_streaming_applier")],
 "fragment storage calls and contents, streaming registries, data on every server")
p("C09","Streaming rollbacks reach every server before the rows are reused",
 "When a streaming transaction rolls back for any reason, every server is told so exactly once before its locks are released at the origin, so that no later accepted write set can collide with its applied fragments elsewhere. If telling them is impossible at that moment, the notice is kept and is delivered before this server replicates anything else; it is neither lost nor repeated.",
 ["schedules","fault_sequences"],
 "every rollback cause and every transient replication failure",
 "No test has a second server holding applied fragments, and the pending-notice queue is tested only for one entry.",
 [T,S],[("streaming_rollback","src/transaction.cpp"),("rollback event queue","src/server_state.cpp queue_rollback_event, send_pending_rollback_events, on_sync")],
 "rollback calls into the provider versus write set order and lock releases")
p("C10","Streaming transactions of departed servers are rolled back on every survivor",
 "When a server leaves the primary component, its unfinished streaming transactions are rolled back and their fragments removed on all remaining servers at that membership change; those of remaining servers go on. A server that was itself cut off rolls back its own unfinished ones, and prepared XA transactions survive any membership change.",
 ["schedules","histories","fault_sequences"],
 "all membership histories (partitions, merges, non-primary periods, repeated equal views) at any point of any streaming transaction",
 "A few view sequences are tested with a single mock applier and without fragment storage.",
 [S,"src/view.cpp"],[("orphan closing","src/server_state.cpp close_orphaned_sr_transactions"),("view bookkeeping","src/server_state.cpp on_view, on_primary_view")],
 "streaming applier registry, fragment storage and locks after each view")
p("C11","Disconnect, crash and restart lose nothing that was committed",
 "A server that disconnects or crashes at any point and comes back holds every transaction that was reported committed, none that was rolled back, and catches up to the same data as the others. Fragments of streaming transactions that are still open in the cluster survive and are recovered exactly once before anything else is applied, so that those transactions can still commit or roll back on the returned server.",
 ["crash_points","schedules","fault_sequences"],
 "every crash or disconnect point, including every one the library marks, and every rejoin path",
 "Unit tests never restart a server and crash hooks are no-ops in them.",
 [S,T],[("closing at disconnect","src/server_state.cpp go_final, close_transactions_at_disconnect"),("recovery","src/server_state.cpp recover_streaming_appliers_if_not_recovered, sst_received, on_primary_view"),("crash points","src/transaction.cpp, src/server_state.cpp debug_crash")],
 "durable storage before and after restart, recovery calls, data equality after catch-up")
p("C12","Prepared XA transactions stay until they are explicitly ended, once",
 "Once an XA transaction's prepare has been reported successful it is never rolled back by conflicts, membership changes or the end of its session; it stays prepared on every server until somebody commits or rolls it back. That decision takes effect exactly once on all servers, also when it is made through a different session by its identifier, and never-prepared XA transactions behave like ordinary ones.",
 ["schedules","histories","fault_sequences"],
 "all XA histories: one and two phase, detach, decision by another session or server, aborts at any point",
 "XA tests use a mock with constant answers and no second server.",
 [T,C,S,"src/xid.cpp"],[("prepare/commit","src/transaction.cpp before_prepare, after_prepare, before_commit"),("detach and replay","src/transaction.cpp xa_detach, xa_replay, xa_replay_commit"),("by identifier","src/transaction.cpp commit_or_rollback_by_xid, restore_to_prepared_state")],
 "prepared sets and data on every server, hook results")
p("C13","TOI operations run in total order and alone on every server",
 "A total order isolation operation runs at the same position of the order on every server, with no other ordered operation running on that server between its start and its end, and its outcome is reported to the cluster. A session that fails to enter isolation holds no slot, is told why within its time limit, retries only transient failures, and is back in its previous mode.",
 ["schedules","fault_sequences","inputs"],
 "all schedules against other transactions and all provider statuses and time limits",
 "Tests call enter and leave on one idle client with a mock that always orders at once.",
 [C,S],[("enter/leave","src/client_state.cpp poll_enter_toi, enter_toi_local, leave_toi_local, enter_toi_mode, leave_toi_mode"),("apply","src/server_state.cpp apply_toi")],
 "provider TOI calls, operation start/end events per server, session mode and error")
p("C14","Non-blocking operations begin and end in total order, once each",
 "A non-blocking operation enters total order at its beginning and again at its end, on every server, and does not block the order in between. If its end cannot be ordered the session is told so and is back in normal mode with nothing held; a failed beginning leaves no trace.",
 ["schedules","fault_sequences"],
 "all provider statuses at each of the phases, any interleaving with other operations",
 "One success path and a few failures are tested on a mock.",
 [C,S],[("phases","src/client_state.cpp begin/end_nbo_phase_one, begin/end_nbo_phase_two, enter_nbo_mode"),("apply","src/server_state.cpp apply_toi")],
 "provider TOI calls with their meta data, session mode, meta data and error")
p("C15","Pause, desync and RSU are balanced on every path",
 "Whatever fails in between, every successful pause of the provider is matched by exactly one resume and every successful desync by exactly one resync, and a request never undoes a pause or desync that belongs to somebody else. Concurrent requests are served one after another without getting stuck, and rolling schema upgrades leave the session in its previous mode.",
 ["schedules","fault_sequences"],
 "all interleavings of concurrent pausers and RSU sessions and every failing call",
 "Two sequential success-path tests.",
 [S,C],[("pause/resume","src/server_state.cpp pause, resume, desync_and_pause, resume_and_resync, desync, resync"),("RSU","src/client_state.cpp begin_rsu, end_rsu")],
 "the provider's pause/desync counters and the callers' results")
p("C16","Server states follow the documented cycle and no waiter misses one",
 "A server's announced states follow only the documented transitions and are announced in the order in which they happen; a synced or joined announcement is never made by a server that is disconnecting. Every thread waiting for a state that is reached is woken while the server is in that state, and a wait that can no longer succeed because the server disconnects fails instead of hanging.",
 ["schedules","histories"],
 "all interleavings of provider events (connect, view, sync, disconnect), initialization and waiters",
 "Tests walk fixed event sequences on one thread.",
 [S],[("state changes","src/server_state.cpp state, wait_until_state, interrupt_state_waiters"),("events","src/server_state.cpp on_connect, on_view, on_sync, initialized, disconnect")],
 "state change announcements, waiters' observations")
p("C17","A joining server serves only with complete state",
 "A server is announced joined or synced only after it has the full state up to the point where it connected, whether through state transfer before or after initialization or without one. A failed or inconsistent state transfer is reported to the provider as failed and never yields a joined server, and a donor always returns from the donor role.",
 ["schedules","fault_sequences","configurations"],
 "all orders of events in both initialization orders, all transfer results and recovered positions",
 "Tests cover a fixed list of join sequences with consistent positions.",
 [S],[("state transfer","src/server_state.cpp prepare_for_sst, start_sst, sst_sent, sst_received, return_from_donor_state"),("joined decision","src/server_state.cpp on_primary_view, on_sync")],
 "state announcements versus storage position, provider SST calls")
p("C18","A failed apply is voted on and leaves no partial effect",
 "When a server cannot apply a write set, its partial changes are rolled back, the place in the order is still consumed exactly once, and the error text is handed to the provider in that slot so that the cluster can decide. If the provider accepts the outcome the server continues as if the write set were empty; if not, or if the failure carries no error text, the failure is returned to the provider.",
 ["inputs","fault_sequences","schedules"],
 "all write set kinds (plain, first/middle/last fragment, rollback, TOI, NBO) and all combinations of apply error, error text and vote result",
 "Tests cover a few kinds with one vote result, without looking at storage effects.",
 [S],[("apply error handling","src/server_state.cpp apply_write_set, apply_fragment, commit_fragment, rollback_fragment, apply_toi, resolve_return_error")],
 "commit-order leave error argument, return value of on_apply, storage effects")
p("C19","Causality tokens are exact and never go backwards",
 "The position a session reports as its last write is exactly the position of its last write set that the cluster ordered, never goes backwards, and is never that of another session. A causal read that succeeds returns a position the server has really reached and that covers everything committed anywhere before it was issued; a failed one gives an error and no position.",
 ["schedules","histories"],
 "all sequences of transactions, replays, TOI and reads in a session over all schedules",
 "The mock provider does not implement causal reads and only few sequences check the last write.",
 [C,T,S],[("last written","src/client_state.cpp update_last_written_gtid, leave_toi_common; src/transaction.cpp cleanup"),("sync wait","src/client_state.cpp sync_wait")],
 "session positions after each transaction, provider positions")
p("C20","No data races, deadlocks, leaks of control or invalid memory accesses",
 "Under concurrent use through its documented interfaces, and after any failure the provider or the database may report, the library makes no invalid memory access, executes no undefined behaviour, has no unsynchronised conflicting accesses to session, transaction or server state, and never blocks forever. It never calls out to provider or database services in a way that lets these block on a lock the library is still holding.",
 ["schedules","inputs"],
 "all thread interleavings of sessions, appliers, rollbackers, view handling and administration calls",
 "The tests are single threaded and run without sanitizers.",
 [T,S,C,"include/wsrep/client_state.hpp","include/wsrep/server_state.hpp"],[("locking","all state mutexes"),("ownership","src/client_state.cpp do_acquire_ownership")],
 "sanitizer reports, stuck threads")
p("C21","Identifiers, positions and views survive text, copies and comparison",
 "Every server identifier, position and XA identifier written as text reads back equal, malformed text is rejected with an error and never yields a value, and ordering and equality are consistent total relations usable as map keys. Membership queries on a view agree with its member list for every view.",
 ["inputs"],
 "all values and all byte strings",
 "A handful of literals are tested.",
 ["src/gtid.cpp","src/id.cpp","src/uuid.cpp","src/xid.cpp","src/seqno.cpp","src/view.cpp","include/wsrep/xid.hpp","include/wsrep/id.hpp","include/wsrep/gtid.hpp","include/wsrep/view.hpp","include/wsrep/buffer.hpp"],
 [("text conversion","src/gtid.cpp, src/id.cpp, src/uuid.cpp, src/xid.cpp"),("comparison","include/wsrep/gtid.hpp, id.hpp, seqno.hpp, xid.hpp"),("views","src/view.cpp")],
 "results of parse, print, compare, membership calls")
p("C22","The status report file is always complete, valid and current",
 "At every moment the status file is either absent or one complete valid JSON document; after a report call returns it shows the latest state, progress, event and the most recent messages, bounded in number and in order, with all text intact. Failures to write never damage or replace the previous report and leave no stray files.",
 ["inputs","schedules","fault_sequences","crash_points"],
 "all message texts, all sequences of reports from several threads, all write failures",
 "Tests compare fixed documents written without faults by one thread.",
 ["src/reporter.cpp","include/wsrep/reporter.hpp"],[("writing","src/reporter.cpp write_file"),("messages","src/reporter.cpp report_log_msg, escape_json"),("state text","src/reporter.cpp report_state, report_progress, report_event")],
 "the file's contents as parsed by an independent JSON parser, directory contents")
p("C23","The provider option registry mirrors the provider",
 "After the initial synchronisation the registry holds exactly the options the provider reported, each found under its own name with its type, default and flags, and each option object once. Setting an option changes the provider and the registry together or, on failure, neither, and resetting restores every default.",
 ["inputs","fault_sequences","programs"],
 "all option sets, values and sequences of operations, all provider failures",
 "There are no tests of this component.",
 ["src/provider_options.cpp","include/wsrep/provider_options.hpp"],[("registry","src/provider_options.cpp initial_options, set, set_default, get_option, for_each")],
 "registry queries and the option strings received by the provider")
p("C24","Replicated write sets carry exactly what the session produced",
 "The flags, keys and data of every write set handed to the provider match the transaction: the first one and only the first is marked as start, the last one and only the last as commit, prepare only on XA prepare, and every key appended by the session is in the write set of the fragment it belongs to. The closing write set of a streaming transaction additionally protects, in shared mode, the parents of all keys used before and is never applied in parallel with its predecessors.",
 ["inputs","schedules","programs"],
 "all transaction shapes, fragment sizes and key sets",
 "Tests count fragments only; flags and keys are not checked.",
 [T,"src/sr_key_set.cpp","include/wsrep/sr_key_set.hpp","src/key.cpp","include/wsrep/key.hpp"],[("flags","src/transaction.cpp start_transaction, certify_fragment, certify_commit, before_prepare"),("keys","src/transaction.cpp append_key, append_sr_keys_for_commit; include/wsrep/sr_key_set.hpp")],
 "arguments of the provider's append and certify calls")
p("C25","Every provider failure becomes a definite, documented client error",
 "For every status the provider can return from any call made during a transaction, the session ends up with the documented error and provider status, the transaction is rolled back (or stays prepared, for XA), and the session remains usable. Conflicts are reported as deadlock errors that may be retried, other failures as commit errors, fatal ones also stop the server, and no status is mistaken for success.",
 ["fault_sequences","inputs","configurations"],
 "every provider call in every kind of transaction crossed with every status, with and without a concurrent abort",
 "Tests inject a few statuses in one kind of transaction.",
 [T,C],[("status mapping","src/transaction.cpp certify_commit, certify_fragment; src/client_state.cpp enter_toi_local, sync_wait")],
 "session error and provider status after the failing call, storage effects, subsequent transaction")
if __name__ == "__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x)+"\n")
