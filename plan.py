"""Which suites decide which property, with how many cases."""
HOOK = {"RUSTFLAGS": "--cfg thingbuf_vp"}


def hb(feat, extra="", env={}):
    c = ["build", "--release", "--offline"]
    if feat != "full":
        c += ["--no-default-features", "--features", feat]
    return {"crate": "harness", "env": {"RUSTFLAGS": HOOK["RUSTFLAGS"] + extra, **env}, "cargo": c, "bin": "release/vh"}


def tb(std):
    c = ["build", "--offline"] + ([] if std else ["--no-default-features"])
    return {"crate": "traits", "cargo": c, "bin": "debug/traits", "types": 1500, "std": std}


BUILDS = {
    "full": hb("full"),
    # without std; without std and alloc
    "nostd": hb("nostd"),
    "bare": hb("bare"),
    # without debug assertions and overflow checks, as users build it
    "rel": hb("full", env={"CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false"}),
    # the generation counter wraps around after 32 laps
    "wrap": hb("full", " --cfg thingbuf_vp_wrap"),
    "types": tb(True),
    "types_nostd": tb(False),
}

M = 1_000_000
# failure kinds that make any property's verdict: memory is corrupt
MEM = ["dangling", "torn", "crash"]


def full(suites, kinds, **k):
    return {"build": "full", "suites": suites, "kinds": kinds, **k}


ALL = ["order", "empty", "full", "torn", "panic", "acct", "giveback", "race", "freerace", "alias", "dangling", "hang", "deadlock",
       "lifecycle", "recycle", "closed", "rxlost", "txlost", "txstall", "spin", "closelost", "waker", "wake", "isclosed",
       "errors", "alloc", "guard"]


def wrap(suites, kinds):
    return {"build": "wrap", "suites": suites, "kinds": kinds}


def like(suite, twin, n):
    return full([(suite, n)], ALL, unless={suite: twin})


PLANS = {
    "C01": [full([("elems", 300_000), ("seqq", 300_000), ("concq", 3 * M), ("concq_weak", 2 * M)],
                 ["order", "empty", "full", "torn", "panic", "acct", "giveback", "lifecycle"])],
    "C02": [full([("bulk", 50_000), ("elems", 300_000), ("ctor", 300_000), ("seqq", 1500_000), ("concq", 2 * M), ("concq_weak", 1 * M)], ["full", "acct", "giveback", "panic", "empty"]),
            wrap([("seqq", 80_000), ("concq", 200_000)], ["full", "acct", "giveback", "panic", "empty", "order"])],
    "C03": [full([("concq_weak", 3 * M), ("concq", 1 * M), ("chc_weak", 2 * M), ("chc", 500_000), ("chs_async", 300_000), ("chs_block", 200_000)],
                 ["race", "freerace", "alias", "torn", "dangling"])],
    "C04": [full([("seqq", 300_000), ("concq_freeze", 3 * M), ("concq", 1 * M), ("chc", 2 * M), ("chs_async", 500_000), ("chs_block", 300_000)],
                 ["hang", "deadlock"])],
    "C05": [full([("seqq", 1 * M), ("seqq_panic", 500_000), ("concq", 1 * M), ("chc", 1500_000), ("chs_async", 500_000), ("chs_block", 300_000)],
                 ["lifecycle", "torn", "dangling"]),
            wrap([("seqq", 80_000), ("concq", 200_000), ("chc", 200_000)], ["lifecycle", "torn", "dangling"])],
    "C06": [full([("elems", 300_000), ("seqq", 1 * M), ("concq", 1 * M), ("chc", 1 * M), ("chs_async", 800_000), ("chs_block", 400_000)], ["recycle"]),
            wrap([("seqq", 80_000), ("chs_async", 100_000)], ["recycle"])],
    "C07": [full([("bulk", 100_000), ("elems", 300_000), ("chs_async", 500_000), ("chs_block", 500_000), ("chc", 3 * M), ("chc_weak", 1500_000)],
                 ["order", "empty", "full", "closed", "torn", "panic", "lifecycle"])],
    "C08": [full([("chs_async", 500_000), ("chs_block", 400_000), ("chc_async", 2500_000), ("chc_block", 2500_000)],
                 ["rxlost", "empty", "deadlock", "panic"])],
    "C09": [full([("bulk", 100_000), ("chs_async", 500_000), ("chs_block", 400_000), ("chc_async", 2500_000), ("chc_block", 2500_000)],
                 ["txlost", "txstall", "spin", "deadlock", "panic"])],
    "C10": [full([("bulk", 100_000), ("chs_async", 500_000), ("chs_block", 400_000), ("chc_async", 2500_000), ("chc_block", 2500_000)],
                 ["closelost", "closed", "giveback", "lifecycle", "deadlock", "panic"])],
    "C11": [full([("bulk", 100_000), ("chs_async", 1 * M), ("chc_async", 4 * M)],
                 ["dangling", "freerace", "waker", "lifecycle", "txlost", "rxlost", "closelost", "wake", "order", "deadlock", "panic"])],
    "C12": [full([("chs_block", 1 * M), ("chc_block", 3 * M)],
                 ["early", "late", "dangling", "freerace", "txlost", "rxlost", "giveback", "order", "full", "empty", "closed", "spin", "wake", "deadlock", "panic"])],
    "C13": [full([("bulk", 50_000), ("elems", 300_000), ("errs", 500_000), ("seqq", 300_000), ("chs_async", 1 * M), ("chs_block", 500_000), ("chc", 1500_000)],
                 ["full", "empty", "closed", "giveback", "errors", "acct", "order", "recycle", "panic", "early"])],
    "C14": [full([("bulk", 150_000), ("chs_async", 1 * M), ("chs_block", 600_000), ("chc", 2 * M), ("chc_weak", 1 * M), ("chc_ends", 1 * M)], ["isclosed", "closed", "empty", "panic"])],
    "C15": [full([("split", 1 * M), ("diff_q", 200_000), ("diff_async", 200_000), ("diff_block", 200_000)], ["differ", "split"]),
            like("concq_stat", "concq_dyn", 500_000), like("chc_stat", "chc_dyn", 1 * M)],
    "C16": [full([("seqq", 500_000), ("concq", 500_000), ("chs_async", 500_000), ("chs_block", 400_000), ("chc", 2 * M)], ["alloc"])],
    "C17": [full([("seqq_panic", 1 * M), ("concq_panic", 500_000), ("chs_panic", 800_000), ("chs_block_panic", 300_000), ("chc_panic", 2 * M)],
                 ["panic", "lifecycle", "hang", "deadlock", "dangling", "torn", "acct", "closelost", "rxlost", "alias"]),
            # everything else that goes wrong with panics and does not without
            full([("seqq_panic", 300_000), ("concq_panic", 300_000), ("chs_panic", 400_000), ("chs_block_panic", 200_000), ("chc_panic", 1 * M)], ALL,
                 unless={"seqq_panic": "seqq", "concq_panic": "concq_calm", "chs_panic": "chs_calm",
                         "chs_block_panic": "chs_block_calm", "chc_panic": "chc_calm"})],
    "C18": [full([("bulk", 150_000), ("chs_async", 2 * M), ("chs_block", 1500_000)], ["wake", "txlost", "panic"])],
    "C19": [{"build": b, "suites": [("traits", 1)], "kinds": ["unsound", "lost"]} for b in ("types", "types_nostd")],
    "C20": [full([("elems", 300_000), ("fmts", 500_000), ("fmt_q", 150_000), ("fmt_async", 150_000)], ["guard", "fmtdiff"])],
    "C21": [{"build": "nostd", "kinds": ALL, "suites": [
                ("seqq", 200_000), ("concq", 400_000), ("concq_weak", 400_000), ("chs_async", 400_000), ("chc_async", 600_000),
                ("chc_weak", 600_000), ("errs", 100_000), ("elems", 100_000), ("bulk", 30_000), ("fmts", 50_000)]},
            {"build": "bare", "kinds": ALL + ["split"], "suites": [
                ("split", 300_000), ("seqq", 200_000), ("concq", 300_000), ("concq_weak", 300_000), ("concq_freeze", 300_000),
                ("chs_async", 300_000), ("chc_async", 500_000), ("chc_weak", 500_000), ("errs", 100_000), ("elems", 100_000), ("bulk", 30_000), ("fmts", 50_000)]}],
    "C22": [full([("policies", 3 * M)], ["policy"])],
}

for _p, _steps in PLANS.items():
    _f = [s for s in _steps if s["build"] == "full" and "unless" not in s]
    for s in _f:
        _steps.append({"build": "rel", "suites": [(x, n // 5) for x, n in s["suites"]], "kinds": s["kinds"]})

RULES = {
    "fmts": "fmts: generated writes, assignments and formatting (20 format strings, generated width and precision, writers that fail) through every guard type of every flavour, compared with the same on the element itself; non-trivial: an element went through both guards",
    "fmt_q": "fmt_q: a seqq history run with its formatting operations and again without them, all other results compared; non-trivial as seqq",
    "fmt_async": "fmt_async: a chs_async history run with its formatting operations and again without them; non-trivial as chs_async",
    "errs": "errs: generated histories on every flavour; every error's variant, predicates, conversions, equality and texts compared with the model; non-trivial: an operation failed",
    "elems": "elems: generated histories on every flavour with 18 element types (without size, without drop code, over-aligned, large, niche, owning memory), results, guard contents and policy calls compared with a model; non-trivial: the container wrapped around",
    "ctor": "ctor: generated capacities (0, 1, powers of two and neighbours, up to 2000, some up to 2^18) and bulk pushes and pops compared with counters; non-trivial: refused, wrapped or capacity 0",
    "bulk": "bulk: generated bulk operations on channels of any flavour: capacities to 2^17, up to 66000 senders, lines of up to 3000 waiting senders with cancellation and waker changes, closing; compared with counters and queues; non-trivial: more messages than the capacity",
    "policies": "policies: generated capacity bounds, collections, contents and recycling histories on each built-in policy; non-trivial: something was recycled that held items",
    "diff_q": "diff_q: one generated seqq history on dynamic and on static storage, traces compared; non-trivial as seqq",
    "diff_async": "diff_async: one generated chs_async history on dynamic and on static storage, traces compared; non-trivial as chs_async",
    "chs_block": "chs_block: as chs_async on the blocking flavours: every waiting operation has a thread that runs only when the history says so, with unparks recorded, spurious wakeups and time passing by generated amounts; non-trivial as chs_async",
    "diff_block": "diff_block: one generated chs_block history on dynamic and on static storage, traces compared; non-trivial as chs_async",
    "concq_stat": "concq_stat: concq on static storage; a failure counts if concq_dyn does not fail in the same way",
    "chc_stat": "chc_stat: chc on static storage; a failure counts if chc_dyn does not fail in the same way",
    "split": "split: 1-4 threads splitting one static channel under a generated schedule, also after the handles are gone; non-trivial: two attempts overlapped",
    "traits": "traits: every public type with every combination of element and policy marker types, and random nested types; non-trivial: element or policy not both Send and Sync",
    "seqq": "seqq: generated operation sequences with guards held on a dynamic or static queue of capacity 1..16 at a generated position, every result compared with an exact model; non-trivial: at least one push and one pop succeeded and the queue wrapped, refused an operation or had several guards out",
    "seqq_panic": "seqq_panic: as seqq with panics injected in closures, guards dropped by unwinding and panicking policies; non-trivial as seqq plus a panic",
    "concq": "concq: 2-4 generated programs on one queue under a generated schedule (preemption at every atomic, cell and guard access), sequentially consistent; judged by a linearizability search; non-trivial: a thread was preempted inside an operation and elements moved",
    "concq_panic": "concq_panic: concq_weak with panicking closures and guards dropped by unwinding in every case (concq_calm: in none); non-trivial as concq",
    "chs_panic": "chs_panic: chs_async with futures, guards and handles dropped by unwinding in every case and panics in waker clones, policies and destructors of overwritten elements in some (chs_calm: none); non-trivial as chs_async",
    "chs_block_panic": "chs_block_panic: chs_block with guards and handles dropped by unwinding in every case (chs_block_calm: none); non-trivial as chs_async",
    "chc_panic": "chc_panic: chc_weak with guards and handles dropped by unwinding and waker clones that panic (chc_calm: none); non-trivial as chc",
    "concq_weak": "concq_weak: as concq, loads may return any value the C11 model allows; non-trivial as concq",
    "concq_freeze": "concq_freeze: as concq, some threads stop for ever inside an operation; every other operation must return within its own step bound; non-trivial as concq",
    "chs_async": "chs_async: generated sequences of polls, drops, waker changes, guard releases, clones and handle drops on an async channel, futures polled by hand, every result, wakeup and policy call compared with an exact model of the channel and its line of waiting senders; non-trivial: messages were sent and received and a sender waited",
    "chc": "chc: 1-3 generated sender programs and a receiver program on one channel of any flavour under a generated schedule, with cancellation, timeouts, clones, drops and unwinding; judged by a linearizability search and by who may be asleep when nothing can run; non-trivial: preempted inside an operation and a message arrived",
    "chc_weak": "chc_weak: as chc with weak memory; non-trivial as chc",
    "chc_ends": "chc_ends: chc_weak with 2-3 senders that do little and go, and a receiver that asks whether the channel is closed and empties it once it is; non-trivial as chc",
    "chc_async": "chc_async: as chc, async flavours, weak memory in a third of cases; non-trivial as chc",
    "chc_block": "chc_block: as chc, blocking flavours, virtual time, spurious unparks; non-trivial as chc",
}
ASSUME = [
    "the hooks (cfg thingbuf_vp) replace atomics, cells, locks, threads and the clock by instrumented ones with the same semantics",
    "loads are limited to values the modelled C11 fragment allows (release/acquire, coherence, SeqCst fences treated as total order); no load buffering",
]
