"""What each property's check runs: workloads (harness and mode), builds, case counts, monitors."""

MON = {n: 1 << i for i, n in enumerate("FUNC ITER BAL GROW OWN SORT COST PAIR LEAK FOOT CB POOL TIME LIN BLOCK LOCK LIMIT DST FD STEP NEST QUIET".split())}
ALL = 0xffffffff
ASSUMPTIONS = [
    "what was executed is what is judged: the generated histories, not all histories",
    "gcc 13 and clang 18, x86-64, glibc; the library is built from /repo with its own flags plus the build's instrumentation",
    "calls are legal: documented preconditions are met by the workload",
]
SPECS = {}


def mask(names):
    return ALL if names == "all" else sum(MON[n] for n in names.split())


def job(harness, mode, flavour, quick, thorough, mon, **kw):
    return dict(harness=harness, mode=mode, flavour=flavour, quick=quick, thorough=thorough, mon=mask(mon), **kw)


def jobs(harness, modes, flavours, mon, **kw):
    """modes: {mode: (quick, thorough)}; flavours: {flavour: factor}"""
    r = []
    for mode, (q, t) in modes.items():
        for fl, factor in flavours.items():
            if isinstance(factor, tuple):
                fq, ft = factor
            else:
                fq = ft = factor
            nq, nt = int(q * fq), int(t * ft)
            if nq or nt:
                r.append(job(harness, mode, fl, max(nq, 1) if q and fq else 0, max(nt, 1) if t and ft else 0, mon, **kw))
    return r


def spec(pid, rule, js, **kw):
    SPECS[pid] = dict(rule=rule, jobs=js, **kw)


HIST = ("a case is one seeded random history of calls on one to three containers (fixed and automatic sizes, with and without pools, "
        "colliding hashes, extreme compare results, small and large key spaces), every answer compared with an executable model; "
        "non-trivial: the container was filled at some point; distinct: by hash of the whole call history")
AS = {"asan": 1, "ship": 1}
# --- maps
spec("C01", HIST, jobs("h_map", {"ht": (12000, 400000), "ht-big": (6, 60), "ht-grow": (16, 200), "ht-exh": (873, 5913)}, AS, "FUNC"),
     must_observe={})
spec("C02", HIST + "; rb-exh: all insertion orders of up to 7 (thorough: and many of 8 and 9) keys, each with every removal",
     jobs("h_map", {"rb": (12000, 400000), "rb-big": (6, 60), "rb-exh": (5913, 5913)}, AS, "FUNC"))
spec("C03", HIST, jobs("h_map", {"aa": (12000, 400000), "aa-big": (6, 60), "aa-exh": (5913, 5913)}, AS, "FUNC SORT"))
spec("C04", HIST + "; several iterators are advanced in random interleavings, reused, and freed early",
     jobs("h_map", {"ht": (6000, 200000), "rb": (6000, 200000), "aa": (6000, 200000), "ht-big": (4, 30), "rb-big": (4, 30), "aa-big": (4, 30)}, AS, "ITER"))
spec("C05", HIST + "; after every update the whole tree is walked; comparisons are counted by the compare callback",
     jobs("h_map", {"rb": (12000, 400000), "rb-big": (8, 80), "rb-exh": (5913, 5913)}, {"ship": 1, "asan": 0.3}, "BAL"))
spec("C06", HIST + "; ht-grow: one automatically sized table filled with tens of thousands of keys, comparisons and hash computations counted by the callbacks",
     jobs("h_map", {"ht": (8000, 300000), "ht-grow": (32, 400)}, AS, "GROW"))
spec("C07", HIST + "; every key and value is an object in a ledger that knows which operation may release it",
     jobs("h_map", {"ht": (8000, 300000), "rb": (8000, 300000), "aa": (8000, 300000), "ht-big": (4, 30), "rb-big": (4, 30), "aa-big": (4, 30), "rb-exh": (5913, 5913)}, AS, "OWN"))
# --- lists
spec("C08", HIST, jobs("h_list", {"list": (12000, 400000), "list-big": (6, 60)}, AS, "FUNC"))
spec("C09", HIST, jobs("h_list", {"slist": (12000, 400000), "slist-big": (6, 60)}, AS, "FUNC"))
spec("C10", HIST + "; insertions are sorted insertions into sorted lists with many duplicates",
     jobs("h_list", {"list-sort": (10000, 300000), "slist-sort": (10000, 300000), "list-sortbig": (60, 1000), "slist-sortbig": (60, 1000)}, AS, "SORT"))
spec("C11", HIST + "; every data pointer is an object in a ledger that knows which operation may release it",
     jobs("h_list", {"list": (6000, 200000), "slist": (6000, 200000), "stack": (6000, 200000), "queue": (6000, 200000)}, AS, "OWN")
     + jobs("h_list", {m + "-big": (4, 30) for m in ("list", "slist", "stack", "queue")}, AS, "OWN"))
spec("C12", HIST, jobs("h_list", {"stack": (10000, 300000), "queue": (10000, 300000), "stack-big": (4, 40), "queue-big": (4, 40)}, AS, "FUNC"))
spec("C13", "a case is one seeded random history of allocations and releases on one or two pools (item sizes 2..1000, block sizes 2..5000), items filled to the last byte with a pattern that is verified later; "
     "non-trivial: an item was in use; distinct: by hash of the history",
     jobs("h_pool", {"pool": (8000, 150000), "pool-big": (8, 60), "pool-mem": (16, 200)}, AS, "FUNC FOOT LEAK CB"))
spec("C14", HIST + "; nodes come from a user-defined pool with a ledger, shared by several containers",
     jobs("h_map", {"rb": (8000, 300000)}, AS, "POOL") + jobs("h_list", {m: (5000, 200000) for m in ("list", "slist", "stack", "queue", "list-sort", "slist-sort")}, AS, "POOL"))
# --- buffers
BUF = ("a case is one seeded random history of writes, line reads, flushes, conversions and clears on one or two buffers (limits 1 to SSIZE_MAX-1, all byte values, "
       "chunks around the limit and the allocation unit), compared with a byte array; non-trivial: something was stored; distinct: by hash of the history")
spec("C15", BUF, jobs("h_buffer", {"buffer": (12000, 300000), "buffer-big": (6, 40)}, AS, "FUNC"))
spec("C16", BUF, jobs("h_buffer", {"buffer-limit": (12000, 300000), "buffer": (4000, 100000), "buffer-fd": (2000, 40000), "buffer-big": (4, 20)}, AS, "LIMIT"))
spec("C17", BUF + "; strings with exact and understated capacities", jobs("h_buffer", {"buffer": (12000, 300000), "buffer-clear": (4000, 60000)}, AS, "DST"))
spec("C18", BUF + "; reads from pipes, files, directories, closed and failing descriptors with short reads", jobs("h_buffer", {"buffer-fd": (4000, 80000)}, AS, "FD"))
# --- functions
spec("C25", "a case is 60 random strings with variations (placed against inaccessible pages) or 4000 random pointer pairs and 4000 pointers to hash; distinct: by hash of the inputs",
     jobs("h_func", {"str": (1500, 30000), "ptr": (1500, 30000)}, AS, "FUNC"))
# --- across
MAPS, LISTS = ("ht", "rb", "aa"), ("list", "slist", "stack", "queue")
spec("C27", HIST + "; containers are cleared over and over, in every state",
     jobs("h_map", {m + "-clear": (5000, 150000) for m in MAPS}, AS, "all") + jobs("h_map", {m + "-big": (6, 40) for m in MAPS}, AS, "all") + jobs("h_list", {m + "-big": (4, 30) for m in LISTS}, AS, "all") + jobs("h_list", {m + "-clear": (5000, 150000) for m in LISTS}, AS, "all")
     + jobs("h_buffer", {"buffer-clear": (5000, 100000)}, AS, "all"))
spec("C28", HIST + "; comparisons with stored keys are counted by the compare callback", jobs("h_map", {"aa": (12000, 400000), "aa-big": (12, 100), "aa-exh": (5913, 5913)}, AS, "COST"))
spec("C29", HIST, jobs("h_map", {"ht": (8000, 300000), "rb": (8000, 300000), "aa": (8000, 300000), "ht-big": (4, 30), "rb-big": (4, 30), "aa-big": (4, 30)}, AS, "PAIR"))


def everything(q, t):
    return (jobs("h_map", {m: (2000 * q, 60000 * t) for m in MAPS}, {"x": 1}, "LEAK CB")
            + jobs("h_map", {m + "-clear": (500 * q, 20000 * t) for m in MAPS}, {"x": 1}, "LEAK CB")
            + jobs("h_map", {m + "-big": (3 * q, 10 * t) for m in MAPS}, {"x": 1}, "LEAK CB") + jobs("h_map", {"rb-exh": (2000 * q, 5913 * t), "ht-grow": (2 * q, 20 * t)}, {"x": 1}, "LEAK CB")
            + jobs("h_list", {m: (1500 * q, 40000 * t) for m in LISTS + ("list-sort", "slist-sort")}, {"x": 1}, "LEAK CB")
            + jobs("h_list", {m + "-clear": (500 * q, 20000 * t) for m in LISTS}, {"x": 1}, "LEAK CB")
            + jobs("h_pool", {"pool": (1000 * q, 15000 * t)}, {"x": 1}, "LEAK CB")
            + jobs("h_buffer", {"buffer": (1500 * q, 30000 * t), "buffer-limit": (1500 * q, 30000 * t), "buffer-fd": (800 * q, 10000 * t), "buffer-clear": (500 * q, 10000 * t)}, {"x": 1}, "LEAK CB")
            + jobs("h_func", {"str": (200 * q, 3000 * t), "ptr": (100 * q, 1000 * t)}, {"x": 1}, "LEAK CB"))


def with_flavour(js, fl):
    return [dict(j, flavour=fl) for j in js]


spec("C30", "all histories of the other checks again, judged by AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer (thorough: valgrind too), the library's own assertions and the heap ledger; distinct: by hash of the history",
     with_flavour(everything(1, 1), "asan") + with_flavour(everything(0.5, 1), "msan") + with_flavour(everything(0.4, 1), "asrt")
     + with_flavour(everything(0, 0.004), "vgrd"))
spec("C31", HIST + "; -mem: long histories with a bounded population; the library's heap is accounted for after each call",
     jobs("h_map", {m + "-mem": (24, 200) for m in MAPS}, AS, "FOOT") + jobs("h_map", {m: (3000, 100000) for m in MAPS}, AS, "FOOT")
     + jobs("h_list", {m: (3000, 100000) for m in LISTS}, AS, "FOOT") + jobs("h_pool", {"pool-mem": (16, 200), "pool": (1000, 20000)}, AS, "FOOT")
     + jobs("h_buffer", {"buffer-mem": (24, 200), "buffer": (3000, 60000)}, AS, "FOOT"))
# --- the asynchronous queue
SCHED = ("sched: a case is one program of 2 to 6 threads (push, pop, timed pop, count, clear; with and without callback and pools) run on fibers under a virtual lock, condition and clock, "
         "with a seeded scheduler that may switch threads at every load, store and lock call of the library, wake waiters spuriously and let time pass; the whole history is judged. "
         "non-trivial: at least two operations and three thread switches; distinct: by hash of all calls, returns and results in their order. ")
STRESS = "stress: a case is one run of 2 to 14 real threads with random delays; distinct: by hash of what each consumer received in which order"
T_ = dict(threads=True)


def sched(mon, q=24000, t=1500000, asan=(0, 0), **kw):
    r = jobs("h_async_sched", {"sched": (q, t)}, {"sched": 1}, mon, **T_)
    return r + (jobs("h_async_sched", {"sched": asan}, {"asan": 1}, mon, **T_) if asan[0] else [])


def stress(mon, **flavours):
    r = []
    for fl, (q, t) in flavours.items():
        r += jobs("h_async_stress", {"stress": (q, t)}, {fl: 1}, mon, **T_)
    return r


spec("C19", SCHED + STRESS, sched("LIN") + stress("LIN", ship=(400, 15000)), must_observe={"histories linearized": 1000, "items delivered": 1000})
spec("C20", SCHED + STRESS, sched("BLOCK") + stress("BLOCK", ship=(300, 10000)), must_observe={"pop": 1000, "items delivered": 1000})
spec("C21", SCHED, sched("TIME", q=30000), must_observe={"timed-pop": 1000})
spec("C22", SCHED + STRESS + "; in the tsan build each access is checked by ThreadSanitizer, in the sched build by the vector clocks of the fibers",
     sched("LOCK") + stress("LOCK OWN", tsan=(160, 5000)), must_observe={"accesses checked for races": 100000})
spec("C23", SCHED + STRESS, sched("OWN", asan=(3000, 200000)) + stress("OWN", ship=(300, 10000)), must_observe={"items delivered": 1000, "items released": 100})
spec("C24", "a case is one random scenario (a type's constructor, a history of calls, its destructor); it is run once to count the library's allocations (lock calls) and then once for each of them, in a process of its own, with that one failing; "
     "the library and the workload are deterministic, so every one of the counted calls of the scenario is covered; distinct: by hash of the scenario and the failing calls",
     jobs("h_oom", {"oom": (540, 20000), "lock": (120, 4000)}, {"ship": 1}, "FUNC", **T_), level="fault_enumeration",
     must_observe={"failed allocations": 1000, "failed lock calls": 500})
spec("C26", "own: a case is 2 to 6 threads working on containers, pools and buffers of their own, compared with models, each with callbacks that know whose objects they get; "
     "shared: 2 to 6 threads query one container of each type through all const operations and compare with the known content; both under ThreadSanitizer and in the plain build; distinct: by hash of the threads' seeds",
     jobs("h_indep", {"own": (400, 20000), "shared": (300, 15000)}, {"tsan": 1, "ship": 1}, "all"),
     must_observe={"read operations on shared containers": 10000, "operations on a thread's own containers": 10000})
SPECS["C14"]["jobs"] += sched("POOL", q=6000, t=300000)
SPECS["C27"]["jobs"] += sched("LIN OWN", q=4000, t=200000)
SPECS["C30"]["jobs"] += jobs("h_async_sched", {"sched": (2000, 100000)}, {"asan": 1}, "LEAK CB", **T_) + stress("LEAK CB", asan=(60, 2000)) + jobs("h_indep", {"own": (100, 4000), "shared": (60, 2000)}, {"asan": 1}, "LEAK CB")


def seq(mon, q=1500, t=40000, **flavours):
    r = []
    for fl, f in flavours.items():
        r += jobs("h_async_stress", {"seq": (int(q * f), int(t * f))}, {fl: 1}, mon, **T_)
    return r


SPECS["C20"]["jobs"] += jobs("h_async_stress", {"crowd": (4, 100)}, {"ship": 1}, "BLOCK", **T_)
SPECS["C20"]["rule"] += "; crowd: up to 316 threads wait at once and get one item each"
SEQ = "; seq: a case is one single-threaded history with queues of up to thousands of items, compared with a list"
for _p, _m in (("C19", "LIN"), ("C23", "OWN"), ("C14", "POOL"), ("C27", "LIN OWN POOL"), ("C30", "LEAK CB"), ("C31", "LEAK")):
    SPECS[_p]["jobs"] += seq(_m, ship=1 if _p not in ("C30",) else 0, asan=0.5)
    SPECS[_p]["rule"] += SEQ

PIPE = "; pipe: a case is one chain of 3 to 6 queues, used at once by up to 20 threads that take items from one and push them to the next, with and without timeouts"
for _p, _m, _fl in (("C19", "LIN", {"ship": 1}), ("C20", "BLOCK", {"ship": 1}), ("C22", "LOCK", {"tsan": 1}), ("C23", "OWN", {"ship": 1}), ("C26", "LIN OWN BLOCK LOCK LEAK", {"ship": 1, "tsan": 1})):
    SPECS[_p]["jobs"] += jobs("h_async_stress", {"pipe": (100, 4000)}, _fl, _m, **T_)
    SPECS[_p]["rule"] += PIPE

# beyond what 31 and 32 bits can count
for _p, _h, _m, _mon in (("C01", "h_map", "ht-huge", "FUNC"), ("C04", "h_map", "ht-huge", "ITER"), ("C06", "h_map", "ht-huge", "GROW"), ("C07", "h_map", "ht-huge", "OWN"), ("C13", "h_pool", "pool-huge", "FUNC FOOT LEAK"),
                         ("C15", "h_buffer", "buffer-huge", "FUNC"), ("C16", "h_buffer", "buffer-huge", "LIMIT"), ("C17", "h_buffer", "buffer-huge", "DST"), ("C25", "h_func", "huge", "FUNC")):
    SPECS[_p]["jobs"] += jobs(_h, {_m: (1 if _h == "h_map" else 2, 4)}, {"ship": 1}, _mon)
    SPECS[_p]["rule"] += "; huge: more than 2^31 or 2^32 bytes, buckets or characters, if the machine has that much memory"

# every population (length, size) up to some hundreds, one after the other
_m = lambda h, suffix, modes, q, t, mon, fl=AS: jobs(h, {m + suffix: (q, t) for m in modes}, fl, mon)
SWEEP = {
    "C01": _m("h_map", "-sweep", ["ht"], 12, 200, "FUNC"), "C02": _m("h_map", "-sweep", ["rb"], 12, 200, "FUNC"), "C03": _m("h_map", "-sweep", ["aa"], 12, 200, "FUNC SORT"),
    "C04": _m("h_map", "-sweep", MAPS, 6, 60, "ITER"), "C05": _m("h_map", "-sweep", ["rb"], 12, 200, "BAL"), "C06": _m("h_map", "-sweep", ["ht"], 12, 200, "GROW"),
    "C07": _m("h_map", "-sweep", MAPS, 6, 60, "OWN"), "C28": _m("h_map", "-sweep", ["aa"], 12, 200, "COST"), "C29": _m("h_map", "-sweep", MAPS, 6, 60, "PAIR"),
    "C08": _m("h_list", "-sweep", ["list"], 8, 200, "FUNC"), "C09": _m("h_list", "-sweep", ["slist"], 8, 200, "FUNC"), "C10": _m("h_list", "-sort-sweep", ["list", "slist"], 8, 100, "SORT"),
    "C11": _m("h_list", "-sweep", LISTS, 6, 60, "OWN"), "C12": _m("h_list", "-sweep", ["stack", "queue"], 16, 300, "FUNC"),
    "C13": _m("h_pool", "-sweep", ["pool"], 16, 160, "FUNC FOOT LEAK CB"),
    "C14": _m("h_list", "-sweep", LISTS, 6, 60, "POOL"),
    "C15": _m("h_buffer", "-sweep", ["buffer"], 48, 800, "FUNC"), "C16": _m("h_buffer", "-sweep", ["buffer", "buffer-fd"], 48, 400, "LIMIT"), "C17": _m("h_buffer", "-sweep", ["buffer"], 48, 800, "DST"),
    "C18": _m("h_buffer", "-sweep", ["buffer-fd"], 48, 800, "FD"), "C25": _m("h_func", "-sweep", ["str"], 24, 600, "FUNC"),
    "C27": _m("h_map", "-sweep", MAPS, 4, 40, "all") + _m("h_list", "-sweep", LISTS, 4, 40, "all") + _m("h_buffer", "-sweep", ["buffer"], 16, 200, "all"),
    "C30": _m("h_map", "-sweep", MAPS, 4, 40, "LEAK CB", {"asan": 1, "msan": 0.5, "asrt": 0.5}) + _m("h_list", "-sweep", LISTS, 4, 40, "LEAK CB", {"asan": 1, "msan": 0.5, "asrt": 0.5})
    + _m("h_buffer", "-sweep", ["buffer", "buffer-fd"], 16, 100, "LEAK CB", {"asan": 1, "msan": 0.5, "asrt": 0.5}) + _m("h_pool", "-sweep", ["pool"], 16, 100, "LEAK CB", {"asan": 1, "msan": 0.5, "asrt": 0.5})
    + _m("h_func", "-sweep", ["str"], 12, 60, "LEAK CB", {"asan": 1}),
    "C31": _m("h_map", "-sweep", MAPS, 4, 40, "FOOT LEAK") + _m("h_list", "-sweep", LISTS, 4, 40, "FOOT LEAK"),
}
for _p, _mon in (("C19", "LIN"), ("C23", "OWN"), ("C14", "POOL"), ("C27", "LIN OWN POOL"), ("C30", "LEAK CB")):
    SWEEP.setdefault(_p, [])
    SWEEP[_p] += jobs("h_async_stress", {"seq-sweep": (8, 100)}, {"ship": 1, "asan": 0.5} if _p != "C30" else {"asan": 1}, _mon, **T_)
for _p, _j in SWEEP.items():
    SPECS[_p]["jobs"] += _j
    SPECS[_p]["rule"] += "; sweep: a case makes each kind of call at every single population (length, size) up to some hundreds"

# what calls cost
spec("C32", "a case is one container (list, queue, map, pool, buffer) filled to a random size between 16 and 10^5 (thorough: 10^6) in ascending, descending or random order, emptied or cleared, filled again and emptied, with every other kind of call made all along; "
     "the edges of the control flow the library takes and the bytes it copies, clears, searches or has moved by realloc are counted for every single call and compared, kind by kind and each time the population has doubled or halved, with what is fair; "
     "non-trivial: calls were measured; distinct: by hash of the arguments",
     jobs("h_cost", {"list-cost": (32, 320), "slist-cost": (32, 320), "stack-cost": (32, 320), "queue-cost": (32, 320), "async-cost": (32, 320), "ht-cost": (32, 320), "rb-cost": (32, 320), "aa-cost": (48, 320),
                     "pool-cost": (32, 320), "buffer-cost": (64, 640), "func-cost": (32, 320)}, {"cost": 1}, "STEP", threads=True),
     must_observe={"calls measured": 1000000, "steps counted": 10000000})

# containers used by callbacks of others
spec("C33", "nest: a case is one random history over 2 to 14 containers of one or of mixed types (hash tables, trees, arrays, lists, sorted lists, stacks, queues, asynchronous queues, buffers; own, shared user-defined and shared memory pools) in which every callback "
     "(hash, equality, compare, free, node allocation and release) may itself call other containers, four levels deep, and pairs and iterators are held across such calls; each container is compared with its own model after each call and each object is released by the call that has to; "
     "nest-own: containers of containers of containers, four levels, changed at each level and destroyed by free callbacks; non-trivial: callbacks made calls (nest), elements existed (nest-own); distinct: by hash of the whole history",
     jobs("h_nest", {"nest": (12000, 400000), "nest-own": (12000, 400000)}, {"ship": 1, "asan": 0.5}, "NEST"),
     must_observe={"calls made by callbacks": 10000, "elements at the bottom": 10000})

# builds with assertions, and what is printed
spec("C34", "all histories of the other checks again, in the plain build and in one with assertions; everything the library can print with is replaced by a monitor; non-trivial: as in the other checks; distinct: by hash of the history",
     with_flavour(everything(1, 0.5), "ship") + with_flavour(everything(1, 0.5), "asrt"), must_observe={"failures reported on standard error": 100})
for _j in SPECS["C34"]["jobs"]:
    _j["mon"] = mask("QUIET")
SPECS["C34"]["jobs"] += jobs("h_async_sched", {"sched": (1500, 100000)}, {"sched": 1, "asrt": 0.5}, "QUIET", **T_) + stress("QUIET", asrt=(60, 2000)) + seq("QUIET", q=400, asrt=1, ship=1)
SPECS["C34"]["jobs"] += jobs("h_indep", {"own": (60, 3000), "shared": (30, 1000)}, {"ship": 1, "asrt": 0.5}, "QUIET") + jobs("h_nest", {"nest": (1000, 50000), "nest-own": (1000, 50000)}, {"ship": 1, "asrt": 1}, "QUIET")
for _h, _suffix, _modes in (("h_map", "-sweep", MAPS), ("h_list", "-sweep", LISTS), ("h_list", "-sort-sweep", ("list", "slist")), ("h_buffer", "-sweep", ("buffer", "buffer-fd")), ("h_pool", "-sweep", ("pool",)), ("h_func", "-sweep", ("str",))):
    SPECS["C34"]["jobs"] += _m(_h, _suffix, _modes, 4, 60, "QUIET", {"ship": 1, "asrt": 1})

# how much of it: the same workloads, more cases (exhaustive modes stay as they are)
for _p, _s in SPECS.items():
    _q = {"C34": 2, "C30": 2, "C16": 2, "C18": 2, "C24": 3}.get(_p, 4)
    for _j in _s["jobs"]:
        if not _j["mode"].endswith(("-exh", "huge", "-sweep", "-cost")):
            _j["quick"] = int(_j["quick"] * (_q if "big" not in _j["mode"] and "grow" not in _j["mode"] else 2))
            _j["thorough"] = int(_j["thorough"] * 2)
