"""Which scenario families, under which monitor configuration, decide which property."""
TOTAL_CAP = {"quick": 300, "thorough": 3600}
ASSUMPTIONS = [
    "schedules are explored at the granularity of atomic operations, blocking calls and sampled plain accesses, with stores that may linger in a store buffer in the nd legs; other weak-memory effects show as data races in the happens-before monitor, not as reorderings",
    "time is virtual in the controlled configurations: a waiting call returns late by as much as the schedule makes it, never early; nothing here measures real latency",
    "the compiler (clang 18 -O1 with TSan instrumentation), libstdc++ and Boost.Context 1.83 are trusted",
]
def L(driver, family, cfg="ctl", quick=4000, **kw):
    d = dict(driver=driver, family=family, cfg=cfg, quick=quick); d.update(kw); return d
R2 = {"race": 2, "tso": 1}
# every scenario family: (driver, family, relative cost)
FAMS = [("mutex", "mutex", 1), ("cv", "cv", 1), ("barrier", "barrier", 1), ("chan", "bchan", 1.5), ("chan", "uchan", 1.5), ("chanlife", "chanlife", 1.3), ("future", "future", .6), ("future", "ptask", .6), ("life", "life", 1),
        ("life", "selfjoin", .4), ("sched", "rr", .3), ("sched", "rrwake", .7), ("remote", "wakeorder", 1), ("sched", "contract", 1), ("remote", "pingpong", 2.5), ("remote", "handoff", 1), ("remote", "shutdown", 1.5), ("sleep", "sleep", 1.2), ("migr", "migshared", 1.7), ("migr", "migpool", 1.5),
        ("fss", "fss", 1), ("props", "props", .5), ("stacks", "stacks", 1), ("locks", "splk", .3), ("locks", "spinq", .8), ("locks", "spmcq", .8), ("locks", "tbar", .3), ("migr", "migsteal", 6), ("numa", "numaws", 6), ("numa", "pin", .5), ("crowd", "crowd", 15), ("migr", "fairshared", 1), ("api", "api", .5), ("gpu", "gpu", 1.5), ("misc", "busy", 1.5), ("misc", "lastone", .6), ("misc", "idle", 5), ("misc", "joiners", .5)]
def everything(cfg, budget, salt, **kw):
    return [L(d, f, cfg, quick=int(budget / w / 100) * 100, salt=salt, numa=d == "numa", chunk=250, **kw) for d, f, w in FAMS]
# large numbers: kind of crowd per property
CROWD = {"C01": [0, 1], "C02": [0], "C04": [2], "C06": [3], "C07": [5, 4], "C08": [4], "C09": [6], "C10": [6], "C11": [5], "C12": [8], "C13": [7], "C14": [9], "C15": [10], "C16": [13], "C18": [16], "C19": [11], "C21": [12]}
CROWD_KINDS = ["lock", "recursion", "cv", "barrier", "buffered", "bigbuf", "unbuffered", "future", "owners", "tasks", "life", "sleep", "fss", "order", "longlife", "cycle", "remote"]
PROPS = {
    "C01": dict(legs=[L("mutex", "mutex", quick=24000, expect=["lock_contended", "try_fail", "lock_errors", "recursive"]), L("mutex", "mutex", "nd", quick=6000, opts=R2), L("misc", "lastone", "nd", quick=6000, salt=1, opts=R2, expect=["last_owner"])]),
    "C02": dict(legs=[L("mutex", "mutex", quick=20000, salt=11, expect=["lock_contended"]), L("mutex", "mutex", quick=8000, salt=12, opts={"type": 0}, name="mutex/plain@ctl"), L("mutex", "mutex", quick=6000, salt=12, opts={"type": 2}, name="mutex/recursive@ctl")]),
    "C03": dict(legs=[L("mutex", "mutex", quick=16000, salt=21, opts={"type": 1}, name="mutex/timed@ctl", expect=["timed_out", "timed_ok"]), L("mutex", "mutex", quick=16000, salt=22, opts={"type": 3}, name="mutex/recursive_timed@ctl", expect=["timed_out", "timed_ok"])]),
    "C04": dict(legs=[L("cv", "cv", quick=24000, expect=["notify_one", "notify_all", "wakeups"]), L("cv", "cv", "nd", quick=6000, opts=R2)]),
    "C05": dict(legs=[L("cv", "cv", quick=28000, salt=51, opts={"timed": 1}, name="cv/timed@ctl", expect=["timeouts", "wakeups"])]),
    "C06": dict(legs=[L("barrier", "barrier", quick=24000, expect=["batches"]), L("barrier", "barrier", "nd", quick=6000, opts=R2)]),
    "C07": dict(legs=[L("chan", "bchan", quick=20000, expect=["capacity_args"]), L("chan", "bchan", "nd", quick=6000, opts=R2)]),
    "C08": dict(legs=[L("chan", "bchan", quick=50000, salt=81, expect=["exact"])]),
    "C09": dict(legs=[L("chan", "uchan", quick=20000), L("chan", "uchan", "nd", quick=6000, opts=R2)]),
    "C10": dict(legs=[L("chan", "uchan", quick=60000, salt=101, expect=["exact"])]),
    "C11": dict(legs=[L("chanlife", "chanlife", quick=20000, expect=["elements"]), L("chanlife", "chanlife", "nd", quick=5000, opts=R2)]),
    "C12": dict(legs=[L("future", "future", quick=30000, expect=["errors_checked"]), L("future", "future", "nd", quick=8000, opts=R2)]),
    "C13": dict(legs=[L("future", "future", quick=36000, salt=131, expect=["timeouts", "ready"])]),
    "C14": dict(legs=[L("future", "ptask", quick=30000), L("future", "ptask", "nd", quick=8000, opts=R2)]),
    "C15": dict(legs=[L("life", "life", quick=18000, expect=["joins", "join_blocked", "detached", "foreign_join"]), L("life", "selfjoin", quick=3000, expect=["self_joins", "errors_checked"]), L("life", "lifefatal", quick=1500, expect=["terminated"]), L("life", "life", "nd", quick=4000, opts=R2)]),
    "C16": dict(legs=[L("sched", "rr", quick=40000, expect=["yields", "posted", "dispatched", "joins"]), L("sched", "rrwake", quick=30000, expect=["woken", "cv_waits", "channel_ops", "barriers", "futures"]), L("remote", "wakeorder", quick=12000, expect=["remote_wakes"]), L("misc", "joiners", quick=4000, salt=16, expect=["joiners"])]),
    "C17": dict(legs=[L("sched", "contract", quick=20000, expect=["picks", "suspends", "notifies", "algo_swaps"]), L("sched", "contract", "nd", quick=5000, opts=R2)]),
    "C18": dict(legs=[L("remote", "pingpong", quick=8000, expect=["messages"]), L("remote", "handoff", quick=12000, expect=["handoffs", "spins"]), L("remote", "pingpong", "nd", quick=1500, opts=R2), L("remote", "handoff", "nd", quick=4000, opts=R2), L("misc", "busy", quick=6000, salt=18, expect=["busy_wakes"]), L("misc", "idle", quick=1600, salt=18, expect=["idle_wakes", "idle_sleeps"])]),
    "C19": dict(legs=[L("sleep", "sleep", quick=24000, expect=["waits_checked", "ordered_pairs", "notified_early", "lonely_timeouts", "busy_rounds"]), L("misc", "busy", quick=8000, salt=19, expect=["busy_items"])]),
    "C20": dict(legs=[L("migr", "migshared", quick=6000), L("migr", "migpool", quick=5000, expect=["migrated"]), L("migr", "migsteal", quick=1600, expect=["migrated", "alone"]), L("migr", "migsteal", "ndsp", quick=1200, opts=R2), L("migr", "migpool", "nd", quick=1500, opts=R2), L("migr", "hogshared", quick=3000, expect=["taken_over"]), L("migr", "hogsteal", quick=1500, expect=["taken_over"]), L("migr", "hogsteal", "nd", quick=800, opts=R2), L("migr", "fairshared", quick=6000, expect=["waited"]), L("migr", "fairsteal", quick=1500, expect=["waited"])]),
    "C21": dict(legs=[L("fss", "fss", quick=24000, expect=["exit_cleanups", "main_fiber_values", "stored_by_cleanup"]), L("fss", "fss", "nd", quick=6000, opts=R2)]),
    "C22": dict(legs=[L("props", "props", quick=24000, expect=["property_changes", "ready_changed", "not_ready_changed", "bad_casts", "made_by_algorithm", "given_at_launch", "algo_swaps", "read_after_end", "main_properties"]), L("props", "props", "nd", quick=6000, opts=R2)]),
    "C23": dict(legs=everything("nd", 3000, 231, opts={"race": 2, "tso": 1}) + [L("migr", "migsteal", "ndsp", quick=500, salt=231, opts=R2)]),
    "C24": dict(legs=everything("ub", 3500, 241) + [L("migr", "migsteal", "ubnd", quick=500, salt=241), L("locks", "spmcq", "ubnd", quick=2000, salt=241), L("stacks", "guard", "ub", quick=300, salt=241), L("numa", "topo", "ub", quick=800, salt=241, numa=True), L("misc", "lastone", "ub", quick=8000, salt=242, name="misc/lastone*@ub", expect=["last_owner", "last_waiter", "last_consumer", "last_requester"])]),
    "C25": dict(legs=[L("stacks", "stacks", quick=16000, expect=["deep_stacks", "refused_launches", "dispatcher_stacks", "prompt_releases"]), L("stacks", "guard", quick=1500, expect=["guard_hits"]), L("stacks", "stacks", "nd", quick=4000, opts=R2), L("misc", "busy", quick=5000, salt=25, expect=["chain", "dispatch_chain", "join_chain"])]),
    "C26": dict(legs=[L("locks", "splk", k, quick=4000, opts=R2, expect=["contended", "try_failed"]) for k in ("nd", "ctl", "stdm", "adap", "futx", "adfx")]
        + [L("locks", "spinq", "nd", quick=8000, opts=R2, expect=["grown", "stolen", "popped"]), L("locks", "spmcq", "nd", quick=10000, opts=R2, expect=["grown", "stolen", "popped"]), L("locks", "spmcq", "ctl", quick=4000), L("locks", "tbar", "nd", quick=4000, opts=R2, expect=["rounds"])]
        + [L("mutex", "mutex", k, quick=2000, salt=5) for k in ("stdm", "adap", "futx", "adfx")]),
    "C27": dict(legs=[L("numa", "topo", quick=5000, numa=True, expect=["several_nodes", "empty_systems", "uma_systems", "distances"]), L("numa", "pin", quick=6000, numa=True, expect=["pinned", "pin_errors"]), L("numa", "numaws", quick=5000, numa=True, expect=["stolen_local", "stolen_remote", "single_cpu_nodes", "migrated"]), L("numa", "numaws", "ndsp", quick=2000, numa=True, opts=R2), L("numa", "numahog", quick=2500, numa=True, expect=["taken_over", "only_remote"])]),
    "C28": dict(legs=[L("remote", "shutdown", quick=16000, expect=["fibers", "steps_during_shutdown"]), L("remote", "shutdown", "nd", quick=4000, opts=R2)]),
    "C29": dict(legs=[L("gpu", "gpu", quick=16000, expect=["single_streams", "many_streams", "refused", "others_ran"]), L("gpu", "gpu", "nd", quick=8000, opts=R2)]),
}
# the same with a choice of scenarios: property -> (kind, scenarios, cases)
LONG = {"C02": [(14, "7", 200)], "C03": [(14, "7", 200)], "C04": [(14, "0,1", 200), (16, "0", 300)], "C05": [(14, "0,1", 200)], "C06": [(14, "4", 200), (15, "", 250), (16, "3", 200)], "C07": [(14, "2", 200)], "C08": [(14, "2", 200), (16, "2", 200)], "C09": [(14, "3", 200)], "C10": [(14, "3", 200)], "C12": [(14, "8", 200)], "C13": [(14, "8", 200), (16, "1", 200)], "C15": [(14, "6", 200)], "C18": [(14, "0,1,2,3,4,7,8", 300)], "C19": [(14, "5", 200)]}
for _p, _ks in LONG.items():
    for _k, _w, _n in _ks:
        if _n:
            PROPS[_p]["legs"].append(L("crowd", "crowd", quick=_n, salt=int(_p[1:]), opts={"kind": _k, **({"what": _w} if _w else {})}, name="crowd/%s@ctl" % CROWD_KINDS[_k], expect=[CROWD_KINDS[_k]], chunk=25))
API_KINDS = ["launch", "result", "element", "vain"]
API = {"C03": [(3, "2,3")], "C05": [(3, "0,1")], "C08": [(3, "4,5,6")], "C10": [(3, "8")], "C11": [(2, "")], "C12": [(1, "0,1,2,3,4,6,8")], "C13": [(3, "7")], "C14": [(1, "1,3,4,5,6,7,7"), (0, "9,10,11,12,13")], "C15": [(0, "")], "C16": [(0, "")], "C22": [(0, "4,5,6,7")], "C25": [(0, "2,3,6,7,8,11,12")]}
API_EXPECT = ["launch_overloads", "odd_results", "throws", "vain_wakeups"]
for _p, _ks in API.items():
    for _k, _w in _ks:
        PROPS[_p]["legs"].append(L("api", "api", quick=8000, salt=int(_p[1:]), opts={"kind": _k, **({"what": _w} if _w else {})}, name="api/%s@ctl" % API_KINDS[_k], expect=[API_EXPECT[_k]] if (_p, _k) not in (("C10", 3), ("C13", 3)) else []))
for _p, _ks in CROWD.items():
    for _k in _ks:
        PROPS[_p]["legs"].append(L("crowd", "crowd", quick=600, salt=int(_p[1:]), opts={"kind": _k}, name="crowd/%s@ctl" % CROWD_KINDS[_k], expect=[CROWD_KINDS[_k]], chunk=100))
# case counts above are for a run of about ten seconds; the registered runs take two to three times as long
for _d in PROPS.values():
    for _l in _d["legs"]:
        _l["quick"] = int(_l["quick"] * (1.5 if _l["driver"] == "crowd" else 2.4))
