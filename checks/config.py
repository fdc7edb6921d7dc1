"""What each check builds and runs."""
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
BASE = ["-std=c++17", "-O1", "-g1", "-w"]
PRE = ["-DBOOST_NO_CXX11_VARIADIC_TEMPLATES"]

ND = ["-DNDEBUG"]; S20 = ["-std=c++20"] # users compile with and without assertions, and in newer modes
def clang(src, flags, san=SAN, link=(), cxx="clang++"):
    return {"src": src, "cxx": cxx, "flags": BASE + san + flags, "link": list(link)}

A_BUILDS = {}
for k in range(4): # compilers, standards and assertions vary
    A_BUILDS["a%d" % k] = clang("enginea_main.cpp", ["-DEA_CFG=%d" % k] + ([], ND, S20, [])[k], cxx="g++" if k == 3 else "clang++")
    A_BUILDS["p%d" % k] = clang("enginea_main.cpp", ["-DEA_CFG=%d" % k] + PRE + ([], [], S20, ND)[k], cxx="g++" if k == 1 else "clang++")

A_RULE = ("A case is a program of up to ~70 generated operations on up to 3 signals (connect in every form, disconnect in every form, invoke, block, "
          "scope, track, move, query, ...), whose slots run generated scripts of further operations, run on the library and on a reference model; "
          "the event traces must be equal. Profile '%s' sets the operation mix. Distinct = distinct model trace. Non-trivial: %s.")
A_ASSUME = ["single-threaded; the reference model (harness/enginea_model.hpp) states the documented behaviour",
            "sampled histories: at most ~220 operations, 3 signals, nesting depth 4",
            "Boost 1.83 plus a stand-in for boost/core/invoke_swap.hpp"]

def enginea(profile, nontriv, quick=("a0", "a1", "a2", "a3", "p0", "p3"), extra=("a0", "a3"), secs=20, also=(), cfgs=None):
    """jobs: one shard per build plus extra shards on some of them"""
    def jobs(builds, more):
        l = []
        for b in builds: # every build sees other programs
            l.append({"build": b, "profile": profile, "shards": 1 + list(more).count(b), "seed_offset": 7919 * (1 + sorted(A_BUILDS).index(b))})
        return l
    allb = [b for b in ("a0", "a1", "a2", "a3", "p0", "p1", "p2", "p3") if cfgs is None or int(b[1]) in cfgs]
    return {"level": "exploration", "builds": A_BUILDS, "rule": A_RULE % (profile, nontriv), "assumptions": A_ASSUME,
            "quick": {"jobs": jobs(quick, extra), "secs": secs}, "thorough": {"jobs": jobs(allb, ()), "secs": 420}}

def schedb(mx, pre, san, src="engineb.cpp"):
    return {"script": "build_b.sh", "src": [], "flags": [src, "-DEB_MX=%d" % mx] + (PRE if pre else []) + (ND if mx else []) + ["-fsanitize=" + san]}

B_BUILDS = {"b0": schedb(0, 0, "address,undefined"), "b1": schedb(1, 0, "address,undefined"), "t0": schedb(0, 0, "thread"), "t1": schedb(1, 0, "thread"),
            "q0": schedb(0, 1, "address,undefined"), "q1": schedb(1, 1, "address,undefined"), "u0": schedb(0, 1, "thread"), "u1": schedb(1, 1, "thread")}
B_RULE = ("A case is a generated program: slots connected beforehand (groups, positions, tracked objects, extended, a relayed signal), 2 or 3 threads with up to 5 operations each (connect, disconnect in every form, invoke, "
          "query, block, set_combiner, drop a tracked object, destroy a signal, connect/disconnect churn), slots with scripts of further operations; and a schedule: either a list of preemption points, or a sweep that moves one "
          "preemption over every n-th point of thread 0 and lets the others run there. Threads are real but one runs at a time; preemption is possible at every mutex operation and (granularity 1) at every control-flow edge of the "
          "library. %s Distinct = distinct call histories over the schedules of the case. Non-trivial: in some schedule a preemption took place and an invocation overlapped an operation of another thread.")
B_ASSUME = ["sequentially consistent interleavings at control-flow edges and mutex operations; weaker memory effects are covered only through ThreadSanitizer's happens-before check",
            "up to 3 threads, 10 slots, 2 signals, 4 tracked objects; at most 6 chosen preemptions",
            "signal objects themselves are not moved, swapped or destroyed while another thread uses them directly (documented as not thread-safe)"]

def engineb(what, quick, thorough, extra_builds=None, extra_quick=(), extra_thorough=(), assume=(), secs=25):
    jobs = lambda l, e: [{"build": b, "profile": p, "shards": n, "seed_offset": 1013 * i} for i, (b, p, n) in enumerate(l)] + list(e)
    bl = dict(B_BUILDS); bl.update(extra_builds or {})
    return {"level": "exploration", "technique": "stateful property testing of generated concurrent programs under generated schedules (controlled scheduler), histories judged by an interval oracle, with ThreadSanitizer and AddressSanitizer",
            "builds": bl, "rule": B_RULE % what, "assumptions": B_ASSUME + list(assume),
            "quick": {"jobs": jobs(quick, extra_quick), "secs": secs}, "thorough": {"jobs": jobs(thorough, extra_thorough), "secs": 400}}

def with_churn(c):
    c = dict(c); c["builds"] = dict(c["builds"])
    for k, f in (("h0", ["-DCH_CFG=0"]), ("h1", ["-DCH_CFG=1"]), ("hp", ["-DCH_CFG=0"] + PRE)):
        c["builds"][k] = {"src": "enginec_churn.cpp", "cxx": "clang++", "flags": ["-std=c++17", "-O2", "-w"] + f, "link": []}
    c["rule"] += (" Jobs h0, h1, hp repeat a generated round of connects, disconnects, invocations, blocks, moves, set_combiner ... (also from inside slots) 12000 times: after a round no disconnected slot function may be alive, "
                  "and the library may not hold more than 200 memory blocks more in the last 400 rounds than it did in the first 400. Non-trivial: the round connects something.")
    for t, n in (("quick", 1), ("thorough", 2)):
        c[t] = dict(c[t]); c[t]["jobs"] = list(c[t]["jobs"]) + [{"build": k, "profile": "churn", "shards": 1, "seed_offset": i} for i, k in enumerate(("h0", "h1", "hp")[:2 if t == "quick" else 3])]
    return c

def with_extra(c, src, names, rule, assumptions=(), shards=1, tshards=1):
    """more jobs on another harness; names: build name -> flags, the first len-1... all run in both tiers"""
    c = dict(c); c["builds"] = dict(c["builds"])
    for k, f in names: c["builds"][k] = clang(src, f)
    c["rule"] += " " + rule; c["assumptions"] = list(c["assumptions"]) + list(assumptions)
    for t, n in (("quick", shards), ("thorough", tshards)):
        c[t] = dict(c[t]); c[t]["jobs"] = list(c[t]["jobs"]) + [{"build": k, "profile": "default", "shards": n, "seed_offset": 401 + i} for i, (k, f) in enumerate(names)]
    return c
def with_b(c, quick, thorough=None):
    """concurrent programs on engine B beside the sequential histories"""
    c = dict(c); c["builds"] = dict(c["builds"]); c["builds"].update({"B" + k: v for k, v in B_BUILDS.items()})
    c["rule"] += " Jobs B*: " + B_RULE % ""
    c["technique"] = c.get("technique", "model-based property testing: generated operation histories against a reference model, with ASan/UBSan") + "; generated concurrent programs under generated schedules against an interval oracle"
    c["assumptions"] = list(c["assumptions"]) + B_ASSUME
    for t, l in (("quick", quick), ("thorough", thorough or quick)):
        c[t] = dict(c[t]); c[t]["jobs"] = list(c[t]["jobs"]) + [{"build": "B" + b, "profile": p, "shards": 1, "seed_offset": 601 + i} for i, (b, p) in enumerate(l)]
    return c
TK = [("tk", []), ("tkp", PRE + ND)]
TK_RULE = ("Jobs tk, tkp: a case is a history over up to 8 objects of 9 kinds (boost, std and user-defined shared pointers; classes derived from trackable directly, as one of several bases, virtually; signals of three types) and 6 slots plus 2 extended slots made "
           "to track them in every form (track and track_foreign of shared, weak, aliasing, const, void and empty pointers, of signals and of slots; boost::bind, nested binds and slot's own binding constructors for 1 to 9 arguments with the trackable at every "
           "position by pointer, base pointer, reference and const reference; member functions; null and void pointers), copied, assigned, swapped, converted, called, locked, connected and invoked while objects are dropped, also by running slots. "
           "Non-trivial: at least 2 connects, 2 trackings and a call.")
DT = [("dt", []), ("dtp", PRE + S20)]
DT_RULE = ("Jobs dt, dtp: a case is a history over 2 signals in which the destructors of slot functions, tracked objects and combiners, running slots, and combiners between two steps or after the last, perform generated operations themselves (connect, disconnect by connection, group, function or all, invoke, num_slots, connected, set_combiner, "
           "drop tracked objects, block, destroy, swap and move signals, scoped connections), up to 4 deep, wherever the library happens to run them. A model followed step by step knows which slot may, must or must not be called or counted at every moment; the Mutex type reports user code run with a mutex held, self-lock and nesting; "
           "after each operation every connection, count and lifetime must be exact. Non-trivial: a destructor ran a script and more than 2 connects.")
MT_RULE = ("Jobs mt, mtp: a case is a history of connects and disconnects by function object of 18 kinds (function pointers; functors with exact, coarse and string equality, by value, ref and cref; boost::bind of functions, functors, member functions, pointers, references, values, nested, and the slots' binding constructors; "
           "trackable functors by reference; signals of the same, other and derived types, by value and ref; extended forms of these), by group value of every type convertible to 4 group types, by connection, and all at once, at top level and from running slots, with comparisons that throw, blocks, swaps and signals renewed. "
           "After every disconnect each connection must be connected exactly if the model says so. Non-trivial: more than 2 connects and at least one match.")
CB_RULE = ("Jobs cb, cbp: a case is one of 13 result types (void, int, string, bool, references, pointers, shared pointers, containers, classes without default constructor or with conversions) with up to 24 slots that return values, throw expired_slot, a class derived from it or another "
           "exception, are blocked or disconnect themselves, and up to 5 uses: last_value and optional_last_value over a scripted input range and as combiners of a signal, and user combiners of 11 patterns (standard algorithms, repeated dereference, early stop, skipping ...). "
           "Result, exception and the exact sequence of positions dereferenced must equal the model's. Non-trivial: at least 2 slots and a use.")
SC = [("sc", []), ("scp", PRE + ND + ["-DSC_CFG=1"])]
SC_RULE = ("Jobs sc, scp: a case is a history of operations of large size (up to 3000, sometimes 65600, slots in up to 3000 groups, up to 2999 tracked objects per slot, hundreds of blocks per connection, up to 700 nested invocations whose innermost one "
           "disconnects, connects, expires or blocks, chains of 600 signals, moves), run on the library and on a model; every call in order, every result, count, handle and the number of slot functions kept must be equal. Non-trivial: more than 255 slots or nested invocations.")
GF = ["-DVC_GUIDED", "-fsanitize-coverage=inline-8bit-counters"]
def with_guided(c, only=None, secs=None):
    """thorough tier: the same jobs a second time as a coverage-guided search (clang builds only): cases that reach something new are kept and mutated"""
    c = dict(c); c["builds"] = dict(c["builds"]); c["thorough"] = dict(c["thorough"]); l = list(c["thorough"]["jobs"]); seen = set()
    for j in list(l):
        b = c["builds"][j["build"]]
        if b.get("script") or b.get("cxx") != "clang++" or any("coverage" in f or "MX_" in f or "SC_" in f or "CH_" in f for f in b["flags"]) or b["src"] in ("enginec_scale.cpp", "enginec_churn.cpp") or (j["build"], j.get("profile")) in seen or (only and j["build"] not in only): continue
        seen.add((j["build"], j.get("profile"))); g = dict(b); g["flags"] = b["flags"] + GF; c["builds"][j["build"] + "g"] = g
        k = dict(j); k.update(build=j["build"] + "g", shards=1, guided=True, secs=secs or c["thorough"]["secs"] * 2 // 3); l.append(k)
    if seen:
        c["thorough"]["jobs"] = l
        c["rule"] += " Thorough tier, builds ending in g: coverage-guided search; cases that reach new control-flow edges or hit counts of the library or the model are kept, and their lines deleted, duplicated, exchanged, spliced and their numbers changed."
        c["technique"] = c.get("technique", "model-based property testing: generated operation histories against a reference model, with ASan/UBSan") + "; coverage-guided fuzzing of the same cases in the thorough tier"
    return c
ALLB = ("b0", "b1", "t0", "t1", "q0", "q1", "u0", "u1")
CHECKS = {
    "C13": engineb("Every invocation, query and final state is compared with what the time stamps of all operations allow; ThreadSanitizer builds report data races, AddressSanitizer builds memory errors.",
                   [("t0", "mix", 1), ("t1", "disc", 1), ("t1", "block", 1), ("b0", "mix", 1), ("b0", "disc", 1), ("u1", "mix", 1), ("t0", "comb", 1), ("u1", "disc", 1)],
                   [(b, p, 1) for i, b in enumerate(ALLB) for p in (("mix", "disc") if i % 2 else ("block", "comb"))] + [("b0", "mix", 1), ("t0", "disc", 1)]),
    "C14": with_extra(engineb("Slots, combiners, slot-function and tracked-object destructors check that their thread holds no library mutex; every mutex operation is checked for self-lock, nesting, foreign unlock and deadlock. "
                   "Further jobs run single-threaded histories (engine A, profile mutex) with a checking Mutex type, exceptions included.",
                   [("b0", "lock", 2), ("b1", "lock", 1), ("q0", "lock", 1), ("b0", "expire", 1), ("t0", "lock", 1)],
                   [("b0", "lock", 2), ("b1", "lock", 1), ("q0", "lock", 1), ("q1", "lock", 1), ("b0", "expire", 1), ("t0", "lock", 1)],
                   {k: A_BUILDS[k] for k in ("a0", "a3", "p0")},
                   [{"build": "a0", "profile": "mutex", "shards": 1, "seed_offset": 5}, {"build": "a3", "profile": "mutex", "shards": 1, "seed_offset": 6}],
                   [{"build": k, "profile": "mutex", "shards": 1, "seed_offset": 5} for k in ("a0", "a3", "p0")]), "enginec_dtor.cpp", DT, DT_RULE),
    "C15": engineb("Tracked objects are dropped by their owner thread at every point of others' invocations, queries and disconnections; slots check that what they track is alive, destructors that no slot uses it and no mutex is held.",
                   [("b0", "expire", 2), ("t1", "expire", 2), ("q0", "expire", 1), ("u1", "expire", 1), ("b1", "disc", 1), ("t1", "disc", 1)],
                   [(b, "expire", 1) for b in ALLB] + [(b, "disc", 1) for b in ("b0", "t1", "q0", "u1")]),
    "C18": {
        "level": "exploration", "technique": "stateful property testing of generated lock programs under generated schedules and in real parallel runs, with ThreadSanitizer",
        "builds": {"m0": schedb(0, 0, "thread", "enginemx.cpp"), "m1": schedb(1, 0, "address,undefined", "enginemx.cpp"),
                   "r0": {"src": "enginemx.cpp", "cxx": "clang++", "flags": BASE + ["-DMX_REAL=1", "-fsanitize=thread"], "link": ["-lpthread"]},
                   "r1": {"src": "enginemx.cpp", "cxx": "g++", "flags": ["-std=c++17", "-O2", "-w", "-DMX_REAL=1"] + ND, "link": ["-lpthread"]},
                   "rw": {"src": "enginemx.cpp", "cxx": "clang++", "flags": BASE + ["-DMX_REAL=1", "-DMX_WIN", "-fsanitize=thread"], "link": ["-lpthread"]},
                   "rn": {"src": "enginemx.cpp", "cxx": "clang++", "flags": BASE + ["-DMX_REAL=1", "-DMX_NOP", "-DBOOST_DISABLE_THREADS"], "link": []}},
        "rule": "A case is a generated program of critical sections, try_lock (also while holding, and polled until it succeeds), nested locking in a fixed order and dummy_mutex call sequences for 2 or 3 threads on up to 3 mutexes. "
                "Builds m0, m1 run it under generated schedules of the controlled scheduler with the pthread calls wrapped (every preemption point, exact knowledge of who holds what); r0, r1 run it with real parallel threads, "
                "40 repetitions, followed by a forced hand-over; rw does the same with the Windows mutex over stand-ins for the critical section functions, and rn makes any sequence of calls on the mutex of builds without threads. Checked: mutual exclusion, lost updates, truth of try_lock in both directions, try_lock never waits, waiters wake, no deadlock, races on the protected data (ThreadSanitizer). "
                "Distinct = distinct holding history (controlled) or program (parallel). Non-trivial: threads contended for a mutex (controlled) or at least 3 operations (parallel).",
        "assumptions": ["the Windows mutex runs over stand-ins (not recursive, unlike real critical sections), so only its use of the API is examined", "the C library's pthread mutexes are correct (replaced by an equivalent model in the controlled runs)", "up to 3 threads and 3 mutexes"],
        "quick": {"jobs": [{"build": "m0", "shards": 2}, {"build": "m1", "shards": 2, "seed_offset": 50}, {"build": "r0", "shards": 1}, {"build": "r1", "shards": 1, "seed_offset": 9}, {"build": "rw", "shards": 1, "seed_offset": 13}, {"build": "rn", "shards": 1, "seed_offset": 15}], "secs": 12},
        "thorough": {"jobs": [{"build": "m0", "shards": 3}, {"build": "m1", "shards": 3, "seed_offset": 50}, {"build": "r0", "shards": 1}, {"build": "r1", "shards": 1, "seed_offset": 9}, {"build": "rw", "shards": 1, "seed_offset": 13}, {"build": "rn", "shards": 1, "seed_offset": 15}], "secs": 300},
    },
    "C01": with_extra(with_b(enginea("order", "at least 3 connects in a group and 5 slot calls", extra=("a0",)), [("b0", "mix")], [("b0", "mix"), ("q0", "disc")]), "enginec_scale.cpp", SC, SC_RULE),
    "C02": with_b(enginea("conns", "at least 2 connection queries and 3 connects", extra=("a0",)), [("b0", "disc")], [("b0", "disc"), ("q0", "mix")]),
    "C03": with_b(with_extra(enginea("match", "at least 4 connects and 2 slot calls", extra=()), "enginec_match.cpp", [("mt", ["-DMT_SEL=1"]), ("mtp", ["-DMT_SEL=2"] + PRE + ND)], MT_RULE), [("b0", "disc")], [("b0", "disc"), ("q1", "disc")]),
    "C04": with_extra(with_extra(enginea("reentry", "at least 2 operations performed from inside a running slot and 5 slot calls"), "enginec_dtor.cpp", DT, DT_RULE), "enginec_scale.cpp", SC, SC_RULE),
    "C05": with_extra(with_b(enginea("block", "at least one invocation skipped a connected but blocked slot", extra=()), [("b0", "block"), ("t1", "block")]), "enginec_scale.cpp", SC, SC_RULE),
    "C06": enginea("scoped", "at least 2 scoped_connection operations and 2 connects"),
    "C07": with_extra(with_b(with_extra(enginea("track", "at least 2 calls of slots with tracked objects and at least one expiry found by an invocation", extra=()), "enginec_track.cpp", TK, TK_RULE), [("b0", "expire")], [("b0", "expire"), ("q1", "expire")]), "enginec_scale.cpp", SC, SC_RULE),
    "C09": with_extra(enginea("combiner", "at least one set_combiner and 4 slot calls", quick=("a0", "a1", "a2", "a3", "p0"), extra=("a0",)), "enginec_comb.cpp", [("cb", []), ("cbp", PRE + S20)], CB_RULE),
    "C10": enginea("except", "at least one invocation left by an exception and 4 slot calls"),
    "C11": enginea("faults", "at least one injected fault was hit"),
    "C12": with_extra(with_b(with_extra(with_churn(enginea("life", "at least 2 whole-population liveness checks and 4 connects", extra=())), "enginec_dtor.cpp", DT, DT_RULE), [("b0", "disc")], [("b0", "disc"), ("q0", "mix")]), "enginec_scale.cpp", SC, SC_RULE),
    "C16": enginea("sigobj", "at least 2 moves or swaps of signals and 2 slot calls"),
    "C19": with_b(enginea("ext", "at least 2 extended connects and 4 slot calls", extra=()), [("b0", "ext"), ("t0", "ext")], [("b0", "ext"), ("t1", "ext"), ("u0", "ext")]),
    "C20": with_extra(enginea("slots", "at least 2 direct calls of slot objects", extra=()), "enginec_track.cpp", TK, TK_RULE),
    "C21": {
        "level": "exploration", "technique": "differential property testing: generated operation sequences against std::vector, with element accounting, injected exceptions and ASan/UBSan",
        "builds": {"b%d" % k: clang("enginec_buf.cpp", ["-DBUF_PART=%d" % k] + (ND if k == 1 else [])) for k in range(3)},
        "rule": "A case is up to 60 generated operations (push, insert in every form, erase, assign, copy, swap, reserve, shrink, ...) on 3 auto_buffers of one generated element type, capacity and growth policy, "
                "with an injected exception in some; contents, order, size, capacity, element lifetimes and allocations are compared with a std::vector model after each. Distinct = distinct trace. "
                "Non-trivial: the buffer moved between inline storage and heap at least once and more than 4 operations ran.",
        "assumptions": ["single-threaded", "an element of the buffer itself is not passed as the argument of push_back when it is full (documented limit of the container)"],
        "compile_failure_is_violation": False,
        "quick": {"jobs": [{"build": "b%d" % k, "profile": "default", "shards": 2, "seed_offset": 31 * k} for k in range(3)], "secs": 20},
        "thorough": {"jobs": [{"build": "b%d" % k, "profile": "default", "shards": 2, "seed_offset": 31 * k} for k in range(3)], "secs": 420},
    },
    "C17": {
        "level": "exploration", "technique": "model-based property testing: generated creations and hooks against an event-log model, with injected exceptions and ASan/UBSan",
        "builds": {"v": clang("enginec_decon.cpp", []), "p": clang("enginec_decon.cpp", PRE + ND)},
        "rule": "A case is up to 24 creations and owner operations: deconstruct (12 kinds of class: hooks found in the class, in bases, absent, private constructor, const, over-aligned, enable_shared_from_this, "
                "postconstructible/predestructible; 0..9 constructor arguments of generated value categories; hook arguments; invoker converted, postconstructed, reused, retried after a throw or dropped) and deconstruct_ptr "
                "(with deleter, null, const), with exceptions injected in members, constructor, hook or allocation. The log of constructions, hooks and destructions must equal the model's after every operation. "
                "Non-trivial: at least 2 objects handed out and one hook run.",
        "assumptions": ["single-threaded", "predestruct hooks do not throw (documented requirement of destructors)"],
        "quick": {"jobs": [{"build": b, "profile": "default", "shards": 4, "seed_offset": o} for b, o in (("v", 0), ("p", 77))], "secs": 15},
        "thorough": {"jobs": [{"build": b, "profile": "default", "shards": 4, "seed_offset": o} for b, o in (("v", 0), ("p", 77))], "secs": 420},
    },
    "C08": {
        "level": "exploration", "technique": "property testing of generated signatures, arguments and slot forms against a model of what each slot must observe, with ASan/UBSan",
        "builds": {"%s%d%d" % (m, k, h): clang("enginec_args.cpp", ["-DAR_PART=%d" % k, "-DAR_HALF=%d" % h] + f) for m, f in (("v", []), ("p", PRE + ND)) for k in range(3) for h in range(2)},
        "rule": "A case picks a signature (arity 0..9 in both implementations and 10..12 in the variadic one; parameters by value, reference, const reference, pointer, base reference; six result kinds), connects slots in 12 forms "
                "(functors, function pointers, bound, reference-wrapped, extended, other slot types, another signal), and invokes the signal or a slot object with lvalues or temporaries, possibly the same object for several "
                "parameters. What every slot observed, the identity of references, and what the combiner received must equal the model; introspection is checked for every signature. Non-trivial: arity above 0 and an invocation of several slots.",
        "assumptions": ["single-threaded", "signatures from four parameter patterns and six result kinds"],
        "quick": {"jobs": [{"build": "%s%d%d" % (m, k, h), "profile": "default", "shards": 1, "seed_offset": 10 * k + h} for m, h in (("v", 0), ("p", 1)) for k in range(3)], "secs": 12},
        "thorough": {"jobs": [{"build": "%s%d%d" % (m, k, h), "profile": "default", "shards": 1, "seed_offset": 10 * k + h} for m in "vp" for h in range(2) for k in range(3)], "secs": 300},
    },
    "C23": {
        "level": "exploration", "technique": "metamorphic property testing: the same generated history at growing scale, cost counters compared with the documented complexity",
        "builds": {k: {"src": "enginec_cost.cpp", "cxx": "clang++", "flags": ["-std=c++17", "-O2", "-g1", "-w", "-fsanitize-coverage=trace-pc-guard"] + f, "link": []} for k, f in (("co", []), ("cop", PRE + ND))},
        "rule": "A case is a history of up to 12 steps (fills with every mix of groups, positions, tracked objects and extended slots; disconnecting, expiring or blocking every n-th; then operations that are measured), run with 24, 96 and 384 slots per fill. "
                "Counted: control-flow edges executed, mutex operations, allocations, group comparisons, function comparisons and copies. Operations with constant or logarithmic cost may cost at most twice what they do on the small signals plus a fixed margin, "
                "linear ones at most five times (edges), ten times (group comparisons, which have a logarithmic factor) or twice (the others) their cost per slot on a plain list. Distinct = distinct sequence of operations and mutex counts. Non-trivial: at least 2 measured operations.",
        "assumptions": ["single-threaded", "margins: constant costs may grow by 500 edges or 8 allocations or mutex operations between 24 and 384 slots without being noticed"],
        "quick": {"jobs": [{"build": k, "profile": "default", "shards": 4, "seed_offset": o} for k, o in (("co", 0), ("cop", 77))], "secs": 15},
        "thorough": {"jobs": [{"build": k, "profile": "default", "shards": 4, "seed_offset": o} for k, o in (("co", 0), ("cop", 77))], "secs": 300},
    },
    "C22": {
        "level": "exploration", "technique": "property testing of generated keyword argument lists: type identity and behaviour compared with the positional form",
        "builds": {"k%d" % k: clang("enginec_sigtype.cpp", ["-DST_SEED=%d" % k] + (PRE if k % 3 == 2 else []) + (ND if k % 4 == 1 else []) + (S20 if k % 4 == 2 else [])) for k in range(24)},
        "rule": "Each build instantiates 12 generated signal_type argument lists (a subset of the keywords - consecutive builds go through all 64 subsets - in a pseudo-random order, some parameters positionally, three signatures; "
                "every third build uses the preprocessed implementation) and compares every resulting type with the positional one; a case drives a signal of one of these types through connects in groups, disconnects and "
                "invocations, and checks that the chosen combiner, group order, slot function types and mutex are the ones at work. Non-trivial: at least 2 connects and an invocation.",
        "assumptions": ["single-threaded", "one alternative value per keyword; orders sampled at compile time: 72 argument lists in the quick tier, 288 in the thorough tier"],
        "quick": {"jobs": [{"build": "k%d" % k, "profile": "default", "shards": 1, "seed_offset": k} for k in range(6)], "secs": 6},
        "thorough": {"jobs": [{"build": "k%d" % k, "profile": "default", "shards": 1, "seed_offset": k} for k in range(24)], "secs": 60},
    },
}
CHECKS = {k: (c if k in ("C13", "C15", "C18", "C23", "C22") else with_guided(c, ("v00", "v10", "v20", "p01", "p11", "p21") if k == "C08" else None)) for k, c in CHECKS.items()}

def makespan(jobs, secs, n=8):
    ends = [0] * n
    for j in jobs:
        for _ in range(j.get("shards", 1)): i = ends.index(min(ends)); ends[i] += j.get("secs", secs)
    return max(ends)
def scaled(tc, target):
    """search time of a tier, so that the whole search takes about `target` seconds on 8 cores"""
    m = makespan(tc["jobs"], tc["secs"]); f = target / m
    if f < 1 or target < 100: tc["secs"] = max(4, round(tc["secs"] * f)); tc["jobs"] = [dict(j, secs=max(4, round(j["secs"] * f))) if "secs" in j else j for j in tc["jobs"]]
for k, c in CHECKS.items():
    scaled(c["thorough"], 600)
    if k not in ("C18", "C22", "C23", "C21", "C17"): c["quick"]["secs"] = round(c["quick"]["secs"] * 1.5)
