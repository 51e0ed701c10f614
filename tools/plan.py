"""What each check runs: workloads, the events that make a case count, and the texts for evidence and MANIFEST."""
import random

ASSUMPTIONS = [
    "the provider is a simulated group with one total order, certification, commit order and state transfer; its contract was taken from the provider interface and Galera's documented behaviour",
    "the database is a small row store with locks, a fragment store and durable positions; it calls the hooks the way dbsim and the unit test mocks do",
]

COUNTS = {"quick": 4800, "thorough": 60000}
CAPS = {"quick": 240, "thorough": 700}


def mixed(weights, seed, n, salt=0):
    """a list of cases, profiles interleaved, seeds distinct per profile"""
    r = random.Random(seed * 7919 + 17)
    base = {p: 1 + (seed - 1) * 10000000 + salt * 2000000 for p in weights}
    names = list(weights)
    w = [weights[p] for p in names]
    out = []
    for _ in range(n):
        p = r.choices(names, w)[0]
        out.append((p, base[p]))
        base[p] += 1
    return out


def sim(weights, variant="asan", share=1.0, salt=0):
    def eng(run, res, conf, tier, seed):
        run.run_sim(res, mixed(weights, seed, int(COUNTS[tier] * share), salt), variant, CAPS[tier], conf)
    return eng


def unit(engine, quick, thorough, variant="asan", cap=(120, 500)):
    def eng(run, res, conf, tier, seed):
        run.run_unit(res, engine, quick if tier == "quick" else thorough, variant, cap[tier != "quick"], conf, seed)
    return eng


STATUS = {"certify": [1, 2, 4, 5, 6, 7, 9, 10], "rollback": [6], "append_data": [6], "prep_data": [1], "prep_frag": [1], "start_trx": [1],
          "append_key": [1], "enter_toi": [1, 4, 5, 6, 7, 10], "causal": [7, 9], "st_start": [1], "st_append": [1], "st_update": [1],
          "remove_frags_local": [1]}


PLAN = {}


def P(prop, profiles, tags, evals, rule, level="exploration", expect=(), engines=None, assumptions=(), technique=None, note="", base_assumptions=True):
    PLAN[prop] = {"engines": engines or [sim(profiles)], "tags": tags, "evals": evals, "rule": rule, "level": level,
                  "expect": list(expect), "assumptions": (ASSUMPTIONS if base_assumptions else []) + list(assumptions),
                  "technique": technique or "runtime monitoring: deterministic-schedule stress of the real library in a simulated cluster with online trace monitors and offline history checkers, under AddressSanitizer/UBSan",
                  "note": note}


P("C01", {"hot": 1, "mix": 3, "sr": 2, "plain": 2, "toi": 2, "crash": 1, "join": 1, "member": 1, "vote": 1},
  ["check.row", "check.final_node", "apply.commit"], ["check.row", "check.final_node", "check.apply_result"],
  "a case counts when rows were compared with the reference history on commit and at the end on every server", expect=["check.final_node"])
P("C02", {"hot": 3, "mix": 2, "sr": 2, "plain": 3, "fault": 3, "member": 1, "toi": 1},
  ["check.told", "trx.rolledback", "trx.committed", "told."], ["check.told", "check.session_result"],
  "a case counts when the outcome told to clients was compared with the accepted history")
P("C03", {"hot": 1, "store": 1, "mix": 2, "sr": 2, "plain": 3, "toi": 2, "fault": 1, "vote": 1, "member": 1},
  ["slot.enter", "release.slot", "co_enter.bf_abort"], ["slot.enter", "check.vote", "check.row"],
  "a case counts when commit-order slots were taken and left under the slot monitor")
P("C04", {"hot": 5, "plain": 4, "sr": 3, "mix": 2, "toi": 2},
  ["bf.", "gap.bf_abort", "lock.hp_vs_local", "lock.toi_abort"], ["bf.", "lock.", "check.row"],
  "a case counts when at least one brute-force abort was attempted")
P("C05", {"hot": 6, "store": 2, "plain": 5, "sr": 3, "mix": 1, "fault": 1},
  ["replay.", "trx.committed_by_replay"], ["replay.", "check.told"],
  "a case counts when a certified victim was replayed", expect=["trx.committed_by_replay", "replay.run"])
P("C06", {"idle": 6, "hot": 1, "plain": 4, "sr": 3, "mix": 2, "toi": 1},
  ["rollbacker.", "session.disconnect_in_trx"], ["rollbacker.", "check.session_result"],
  "a case counts when an idle session's transaction was handed to the rollbacker or a session disconnected inside a transaction", expect=["rollbacker.session"])
P("C07", {"hot": 3, "store": 1, "idle": 1, "plain": 4, "sr": 2, "mix": 2, "fault": 3, "toi": 1},
  ["error.", "command.keep"], ["check.session_result", "check.mapping"],
  "a case counts when a command ended with an error", expect=["error.deadlock_error", "command.keep"])
P("C08", {"hot": 3, "sr": 5, "store": 2, "mix": 2, "toi": 2, "crash": 1, "fault": 1},
  ["apply.fragment", "sr."], ["check.row", "check.ws", "check.told", "apply.fragment"],
  "a case counts when a streaming transaction replicated at least one fragment", expect=["apply.fragment"])
P("C09", {"hot": 2, "sr": 4, "store": 1, "fault": 4, "member": 2, "mix": 2, "leave": 1},
  ["order.rollback_fragment", "rollback."], ["order.rollback_fragment", "check.sr_unlock", "check.final_node", "rollback."],
  "a case counts when a streaming transaction's rollback was announced", expect=["order.rollback_fragment", "rollback.nonprim"])
P("C10", {"member": 6, "crash": 2, "leave": 2, "vote": 1},
  ["check.orphan_closed", "check.sr_survives", "ghost.left"], ["check.view", "check.orphan_closed", "check.sr_survives", "check.final_node"],
  "a case counts when a membership change met an open streaming transaction", expect=["check.orphan_closed"])
P("C11", {"crash": 4, "leave": 4, "member": 2, "join": 1},
  ["ctl.crash", "ctl.left", "ctl.leave", "recover.fragment"], ["check.final_node", "recover.", "check.row", "check.told"],
  "a case counts when a server crashed, left or restarted", expect=["ctl.crash", "ctl.left", "recover.fragment"])
P("C12", {"xa": 3, "xasr": 3, "xamember": 3},
  ["xa."], ["xa.", "check.told", "told."],
  "a case counts when a transaction went through XA prepare or one of the XA conclusions", expect=["xa.prepared", "xa.committed_by_xid", "xa.detached"])
P("C13", {"hot": 1, "toi": 5, "toif": 3, "mix": 3, "fault": 1, "member": 1},
  ["trx.toi", "toi."], ["check.toi", "toi.applied", "trx.toi_done", "check.row"],
  "a case counts when a total order isolated operation ran", expect=["toi.applied", "trx.toi_done"])
P("C14", {"nbo": 3, "nbof": 4}, ["nbo."], ["nbo.", "check.toi"],
  "a case counts when a non-blocking operation ran through its phases", expect=["nbo.done", "nbo.applier_done"])
P("C15", {"pause": 3, "pausef": 3}, ["pause.", "rsu.", "desync."], ["pause.", "rsu.", "check.final_node"],
  "a case counts when the provider was paused or the server desynced", expect=["pause.pause", "pause.desync_and_pause", "rsu.done"])
P("C16", {"join": 3, "leave": 3, "member": 2, "crash": 1},
  ["state.", "check.waiter"], ["state.", "check.waiter"],
  "a case counts when server state changes were announced and checked", expect=["check.waiter", "wait.reached", "wait.interrupted"])
P("C17", {"join": 5, "crash": 3, "member": 1},
  ["sst.", "check.joined", "join."], ["check.joined", "sst.", "check.final_node"],
  "a case counts when a server joined by state transfer", expect=["sst.received", "sst.sent"])
P("C18", {"vote": 5, "toif": 1, "nbof": 1}, ["vote.", "ghost.poison", "apply.poison"], ["check.vote", "check.apply_result", "vote."],
  "a case counts when applying a write set failed", expect=["apply.poison_A", "vote.seen"])
P("C19", {"plain": 3, "mix": 2, "toi": 2, "sr": 1, "fault": 1},
  ["check.causal", "check.gtid"], ["check.causal", "check.gtid"],
  "a case counts when the causality tokens of a session were compared with its operations", expect=["check.causal"])
UNIT_TECH = "runtime monitoring: randomised and hostile inputs, faults and threads against the real code under AddressSanitizer/UBSan (and ThreadSanitizer), every result compared online with an independent model"
UNIT_NOTE = "The property is checked on every generated input, sequence, fault and schedule; it is evidence from sampled executions, not a proof."
P("C21", {}, ["values.", "eval.id.", "eval.gtid.", "eval.view.", "eval.xid.", "eval.seqno."], ["eval."],
  "a case counts when values were printed, parsed, compared or queried; every case holds about 60 such groups over random and hostile values",
  engines=[unit("values", 16000, 400000)], expect=["values.id_malformed", "values.gtid_malformed", "values.text_id", "values.view_differs"],
  technique=UNIT_TECH, note=UNIT_NOTE, base_assumptions=False)
P("C22", {}, ["report."], ["eval."],
  "a case counts when reports were made and the file was compared with the model, read concurrently or examined after a kill",
  engines=[unit("reporter", 3200, 60000), unit("reporter", 800, 8000, "tsan")], expect=["report.killed", "report.threads", "report.kept_previous", "report.checked", "report.max_zero"],
  technique=UNIT_TECH, note=UNIT_NOTE, base_assumptions=False,
  assumptions=["time is the wall clock; write failures are short writes, interrupted writes, no space, file size limits, descriptor limits and an obstructed target"])
P("C23", {}, ["options."], ["eval."],
  "a case counts when the registry was compared with the provider's options after synchronisation and after each operation",
  engines=[unit("options", 16000, 400000)], expect=["options.set_failed", "options.duplicate", "options.sync_failed", "options.reset"],
  technique=UNIT_TECH, note=UNIT_NOTE, base_assumptions=False,
  assumptions=["the service which reads the options from a loaded provider library is replaced by a stand-in which reports generated option sets through the same interface"])
P("C24", {"hot": 1, "xa": 1, "xasr": 1, "plain": 3, "sr": 4, "mix": 2, "fault": 1},
  ["check.ws"], ["check.ws"],
  "a case counts when a write set's bytes, keys and flags were compared with what its session generated", expect=["check.ws"])
P("C25", {"fault": 6, "store": 2, "toif": 1, "nbof": 1, "sr": 1, "plain": 1},
  ["check.mapping", "fault.", "check.toi_error"], ["check.mapping", "check.toi_error", "check.session_result"],
  "a case counts when a provider failure was injected and the resulting session error was checked", expect=["check.mapping"])

ALL = {"plain": 3, "sr": 3, "mix": 3, "toi": 2, "hot": 3, "idle": 3, "member": 2, "crash": 1, "leave": 2, "join": 2, "pause": 2, "nbo": 2, "vote": 1, "fault": 2,
       "xa": 2, "xasr": 2, "xamember": 2, "store": 1, "nbof": 1, "toif": 1, "pausef": 1}
P("C20", ALL, ["slot.enter", "bf.", "rollbacker."], ["slot.enter", "bf.", "rollbacker.", "check.view", "check.row"],
  "a case counts when several threads worked on one server: ordered slots were taken, or transactions brute-force aborted or rolled back in the background",
  engines=[sim(ALL, "tsan", 0.4), sim(ALL, "asan", 0.25, 1), sim(ALL, "rel", 0.2, 2)], expect=["slot.enter", "bf.", "rollbacker.session"],
  technique="runtime monitoring: the library compiled with ThreadSanitizer under a deterministic scheduler whose hand-overs the race detector does not see (races and lock order inversions), the same workloads with AddressSanitizer/UBSan with and without assertions, and deadlock and lock misuse monitors in the mutex and condition variable stand-ins",
  assumptions=["happens-before edges besides the library's locks are those of the provider (commit order, apply dependencies, delivery of exclusive events) and of the application's own queues"])
BUILDS = [("asan", None), ("tsan", None), ("rel", None)]
NOTE = ("The property is checked on every execution explored: thousands of seeded, reproducible schedules of a simulated cluster running the real library sources "
        "under AddressSanitizer and UBSan. It is evidence from sampled executions, not a proof; it trusts the simulated provider and database and the monitors.")
