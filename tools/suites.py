"""One function per property. Each runs the exhaustive model check, generates
behaviours from the specification, replays them into the real code and has TLC
judge what was recorded."""
import itertools, random
from vlib import Violation, build, known_findings, to_word

CHECKS = {}
TECH = {}
NOTES = {}


def prop(*ids):
    def deco(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return deco


# ---------------------------------------------------------------- C05, C06
BOUNDARY = [0, 1, 2, 0xFFFF, 0x10000, 0xFFFFFFFF, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63,
            (1 << 63) + 1, (1 << 64) - 1, (1 << 64) - 2, 0xFFFF << 48, 0x7FFFFFFFFFFF]


@prop("C05", "C06")
def cells(ctx):
    kind = "counter" if ctx.prop == "C05" else "gauge"
    rnd = random.Random(ctx.seed * 7 + len(kind))
    bins = build("core")
    ctx.assumptions += [
        "Calls are bracketed by stamps of one sequentially consistent counter; a call's effect is searched "
        "for between its two stamps.",
        "Schedules of the real threads are sampled; all schedules are covered only in the specification."]
    ctx.model_check("MC_Cell", f"MC_Cell_{kind}.cfg", dict(MAXOPS=ctx.q(3, 4)))
    ctx.model_check("MC_Cell", "MC_Cell_torn.cfg", dict(KIND=kind), expect_violation=True)
    ctx.model_check("MC_Cell", "MC_Cell_tally.cfg", dict(KIND=kind, MAXOPS=ctx.q(3, 4)))
    ctx.model_check("MC_Cell", "MC_Cell_split.cfg", dict(KIND=kind, MAXOPS=3), expect_violation=True)
    scen = []
    for threads, depth, num in ctx.q([(1, 40, 40), (2, 12, 80), (3, 24, 120), (6, 40, 40)],
                                     [(1, 80, 300), (2, 12, 600), (3, 24, 800), (4, 40, 400), (8, 60, 200)]):
        scen += ctx.generate("Gen_Cell", "Gen_Cell.cfg",
                             dict(KIND=kind, DEPTH=depth, THREADS="{" + ",".join(map(str, range(1, threads + 1))) + "}"),
                             num=num)
    # Random operands, far from the boundaries.
    names = ["increment", "add", "set", "reset", "value", "metric", "entry"] + \
            (["decrement", "sub"] if kind == "gauge" else [])
    for _ in range(ctx.q(60, 600)):
        th = rnd.choice([1, 2, 4, 8])
        scen.append(dict(init=to_word(rnd.getrandbits(64)), kind=kind, calls=[
            dict(t=rnd.randint(1, th), op=rnd.choice(names), a=to_word(rnd.getrandbits(rnd.choice([8, 33, 64]))))
            for _ in range(30)]))
    rel = ["increment", "add"] + (["decrement", "sub"] if kind == "gauge" else [])
    n = ctx.q(20000, 200000)
    for r in range(ctx.q(12, 60)):
        th = rnd.choice([2, 4, 8])
        if r % 3 == 0:      # one delta for all: the returned words are fixed too
            op, a = rnd.choice(rel), to_word(rnd.choice(BOUNDARY + [rnd.getrandbits(64)]))
            scen.append(dict(init=to_word(rnd.choice(BOUNDARY)), kind=kind, uniform=1,
                             bursts=[dict(op=op, a=a, n=n) for _ in range(th)]))
        else:               # a mixture of relative and absolute operations
            ops = rel if r % 3 == 1 else rel + ["set", "reset"]
            scen.append(dict(init=to_word(rnd.choice(BOUNDARY)), kind=kind,
                             bursts=[dict(op=rnd.choice(ops), a=to_word(rnd.getrandbits(64)), n=n) for _ in range(th)]))
    # Long ones: for what happens only after many lost races in a row.
    for op in rel + ["set", "reset"]:
        scen.append(dict(init=to_word(rnd.getrandbits(64)), kind=kind, uniform=1,
                         bursts=[dict(op=op, a=to_word(rnd.getrandbits(64) | 1), n=ctx.q(600000, 5000000))] * 8))
        if op not in rel:
            del scen[-1]["uniform"]
    # Many threads step over a boundary at once.
    for edge in [1 << 64] * 3 + [1 << 63, 1 << 32, 1 << 31, 1 << 16] * 1:
        for op in rel:
            for step in (1,) if op in ("increment", "decrement") else (1, 3):
                for _ in range(ctx.q(5, 60)):
                    k = 400
                    at = edge + (-1 if op in ("increment", "add") else 1) * step * (4 * k + rnd.randrange(k))
                    scen.append(dict(init=to_word(at), kind=kind, uniform=1, bursts=[dict(op=op, a=to_word(step), n=k)] * 8))
    # Every pair of modifying operations in a tight race.
    mod = rel + ["set", "reset"]
    for i, x in enumerate(mod):
        for y in mod[i:]:
            scen.append(dict(init=to_word(rnd.getrandbits(64)), kind=kind,
                             bursts=[dict(op=o, a=to_word(rnd.getrandbits(64)), n=n) for o in (x, y, x, y)]))
    # Races in which every returned word counts: they must chain up.
    def a():
        return to_word(rnd.choice([0, 1, 2, 3, 7, rnd.choice(BOUNDARY)]))
    for r in range(ctx.q(40, 400)):
        ops = mod + ["value", "metric"] if r % 2 else rnd.sample(mod, 2)
        scen.append(dict(init=to_word(rnd.choice([0, 1, 5, rnd.choice(BOUNDARY)])), kind=kind, n=ctx.q(150, 250),
                         race=[[dict(op=rnd.choice(ops), a=a()) for _ in range(rnd.randint(1, 4))]
                               for _ in range(rnd.choice([2, 3, 4, 8]))]))
    for o in ("set", "reset"):      # the same absolute operation against everything else
        for p in mod:
            scen.append(dict(init=to_word(rnd.choice([0, 1, 5])), kind=kind, n=ctx.q(400, 1000),
                             race=[[dict(op=q, a=a())] for q in (o, p, o, p)]))
    out = ctx.path("trace")
    ctx.drive(f"{bins}/drv", ["cell", ctx.write("scen", scen), out], what=kind)
    ev = ctx.validate("Trace_Cell", f"Trace_Cell_{kind}.cfg", out, what=kind)
    if not ctx.quick:
        i = max(k for k, e in enumerate(ev) if e["e"] == "ret")
        bad = [dict(e) for e in ev[:i + 1]]
        bad[i]["r"] = to_word(sum(x << (16 * j) for j, x in enumerate(bad[i]["r"])) + 1)
        ctx.must_reject("Trace_Cell", f"Trace_Cell_{kind}.cfg", bad, what="one returned word off by one")


# ---------------------------------------------------------------- C01, C02, C03
def tset(xs):
    return "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"


ALLKINDS = ["counter", "gauge", "probe", "zst", "big", "aligned", "off", "lazy", "lazyhist"]
CORE_PANICS = ["loop", "fold", "value", "enabled", "any", "provide", "format"]
SNAP_PANICS = ["filter", "snapvalue", "snapformat"]


def reg_gen(ctx, threads, depth, maxids, kinds, panics, num, places=("boxed", "near", "far")):
    return dict(module="Gen_Registry", cfg="Gen_Registry.cfg", num=num,
                subst=dict(THREADS=tset(range(1, threads + 1)), DEPTH=depth, MAXIDS=maxids, KINDS=tset(kinds),
                           PANICS=tset(panics)))


def long_held(rnd, graces):
    """One thread reads while others register and drop, for as long as that takes."""
    res = []
    for g in graces:
        def build(t, i, place="boxed"):
            return dict(t=t, op="build", id=i, kind=rnd.choice(["counter", "probe", "big"]), place=place, name="n", desc=[])
        def reg(t, i):
            return dict(t=t, op="register", id=i, name="m", desc=["x"])
        look = [dict(t=2, op="list", v=1), dict(t=2, op="close", v=1), dict(t=2, op="open", v=2),
                dict(t=2, op="list", v=2), dict(t=2, op="close", v=2)]
        head = [build(1, 1), build(1, 2), build(1, 3, "near"), reg(1, 3), build(3, 4, "far"), dict(t=2, op="open", v=1)]
        res.append(dict(grace=g, steps=head + [dict(t=1, op="drop", id=1), *look]))
        res.append(dict(grace=g, steps=head + [dict(t=1, op="drop", id=3), build(3, 5), dict(t=4, op="drop", id=2), *look]))
        res.append(dict(grace=g, steps=head + [reg(3, 4), dict(t=1, op="drop", id=2), *look]))
        res.append(dict(grace=g, steps=head + [build(3, 5), dict(t=4, op="drop", id=1), *look, dict(t=3, op="drop", id=5)]))
    return res


def crowd(ctx, rnd, obs, kinds):
    """Very many metrics: more than 16 bits count."""
    ctx.model_check("MC_Crowd", "MC_Crowd_ok.cfg")
    ctx.model_check("MC_Crowd", "MC_Crowd_off.cfg", expect_violation=True)
    exe = build("expo") + "/crowd"
    scen = []
    for g in ctx.generate("Gen_Crowd", "Gen_Crowd.cfg", dict(MAX=6, DEPTH=4), num=ctx.q(3, 20)):
        unit = rnd.choice(ctx.q([100, 4000, 22000], [100, 4000, 22000, 60000]))
        if not scen:
            unit = 22000
            g["steps"] = [dict(op="come", lo=1, hi=4), dict(op="go", lo=2, hi=3), dict(op="come", lo=5, hi=5)] + g["steps"][:0]
        cut = [0]
        for _ in range(18):
            cut.append(cut[-1] + unit + rnd.randrange(unit // 10))
        scen.append(dict(obs=obs, kinds=kinds, threads=rnd.choice([1, 4]),
                         steps=[dict(op=st["op"], lo=cut[st["lo"] - 1] + 1, hi=cut[st["hi"]]) for st in g["steps"]]))
    if "snap" in obs:       # of one kind
        for k in kinds:
            n = 65536 + rnd.randrange(300)
            scen.append(dict(obs=obs, kinds=[k], threads=4, steps=[dict(op="come", lo=1, hi=n), dict(op="go", lo=n // 2, hi=n // 2 + 9)]))
    out = ctx.drive_sharded(exe, None, scen, shards=4, what="very many metrics")
    ev = ctx.validate("Trace_Crowd", "Trace_Crowd.cfg", out, what="very many metrics", dfs=False)
    if not ctx.quick and "list" in obs:
        i = max(j for j, e in enumerate(ev) if e["e"] == "see" and e["runs"])
        bad = [dict(e) for e in ev[:i + 1]]
        bad[i]["runs"] = bad[i]["runs"] + [bad[i]["runs"][-1]]
        ctx.must_reject("Trace_Crowd", "Trace_Crowd.cfg", bad, what="metrics are listed twice", dfs=False)


@prop("C01", "C02", "C03")
def registry(ctx):
    p = ctx.prop
    rnd = random.Random(ctx.seed * 31 + int(p[1:]))
    if p == "C03":
        exe = build("expo") + "/drvx"
    else:
        exe = build("core") + "/drv"
    ctx.assumptions += [
        "A registration or drop under a held view is given a few milliseconds to misbehave; an operation that the "
        "specification requires to return gets 60 s.",
        "Dropping a dynamic metric that was never registered may or may not wait for views.",
        "Threads do not register or drop while they themselves hold a view (documented deadlock)."]
    ctx.model_check("MC_Registry", "MC_Registry.cfg", dict(MAXOPS=ctx.q(4, 5)), timeout=ctx.q(300, 3000))
    for i in (1, 2, 3):
        ctx.model_check("MC_Registry", f"MC_Registry_bad{i}.cfg", expect_violation=True)
    k = ctx.q(1, 6)
    if p == "C01":
        gens = [reg_gen(ctx, 1, 60, 30, ALLKINDS, [], 60 * k), reg_gen(ctx, 3, 60, 20, ALLKINDS, [], 60 * k),
                reg_gen(ctx, 2, 40, 12, ["zst", "probe"], [], 40 * k)]
    elif p == "C02":
        gens = [reg_gen(ctx, 2, 40, 10, ["counter", "probe"], [], 100 * k),
                reg_gen(ctx, 4, 60, 12, ["counter", "probe"], [], 100 * k),
                reg_gen(ctx, 6, 80, 16, ["gauge", "probe"], [], 30 * k)]
    else:
        gens = [reg_gen(ctx, 1, 30, 10, ["counter", "probe", "bomb"], CORE_PANICS + SNAP_PANICS, 60 * k),
                reg_gen(ctx, 3, 60, 12, ["counter", "probe", "bomb", "zst"], CORE_PANICS + SNAP_PANICS, 100 * k)]
    scen = ctx.generate_all(gens)
    # Where the step runs (plainly, while unwinding from a panic, on a thread of its own, in a thread's last
    # breath) and what else the builder was given make no difference to the specification.
    for sc in scen:
        for st in sc["steps"]:
            if st["op"] == "build":
                st["style"] = rnd.randrange(8)
            if rnd.random() < 0.3:
                st["via"] = rnd.choice(["unwind", "unwind", "thread", "exit"])
    for i in range(ctx.q(12, 120)):
        s = dict(stress=rnd.choice([2, 4, 6]), ops=60, seed=rnd.getrandbits(30))
        if p == "C03":
            s["panics"] = 1
        scen.append(s)
    if p == "C01":
        scen.append(dict(rounds=[1, 1, 1, -1, 5, -3, 40, -39, 300, -200, 700, -500, 90], seed=rnd.getrandbits(30)))
        scen.append(dict(rounds=[4200, 1, -4000, 5], seed=rnd.getrandbits(30)))
        if not ctx.quick:
            scen.append(dict(rounds=[3000, -1000, 2000, -3500, 10], seed=rnd.getrandbits(30)))
    if p == "C02":      # very many views at once; only the last one to go lets the others in
        for many in ctx.q([270], [270, 700, 2000]):
            vs = list(range(1, many + 1))
            steps = [dict(t=1, op="build", id=1, kind="counter", place="boxed", name="n", desc=[])]
            steps += [dict(t=rnd.choice([2, 3]), op="open", v=v) for v in vs]
            owner = {x["v"]: x["t"] for x in steps[1:]}
            rnd.shuffle(vs)
            steps += [dict(t=1, op="drop", id=1), dict(t=4, op="build", id=2, kind="probe", place="boxed", name="m", desc=["x"])]
            for i, v in enumerate(vs):
                if i in (0, many - 257, many - 256, many - 255, many - 2, many - 1):
                    steps.append(dict(t=owner[v], op="list", v=v))
                steps.append(dict(t=owner[v], op="close", v=v))
            steps += [dict(t=2, op="open", v=many + 1), dict(t=2, op="list", v=many + 1), dict(t=2, op="close", v=many + 1)]
            scen.append(dict(steps=steps, grace=20))
    # The same with views that are held for long while others wait: patience is not a release.
    slow = long_held(rnd, ctx.q([1500, 1500, 4000] + [11000] * (p == "C02"), [1500, 4000, 12000, 30000]))
    slow += [dict(g, grace=ctx.q(1200, 2500)) for g in ctx.generate_all(
        [reg_gen(ctx, 3, 16, 6, ["counter", "probe", "zst"], CORE_PANICS if p == "C03" else [], ctx.q(6, 24))])]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(ctx.drive_sharded, exe, "registry", scen, what="registry")
        b = ex.submit(ctx.drive_sharded, exe, "registry", slow, shards=32, what="registry")
        a, b = a.result(), b.result()
    out = ctx.path("trace")
    with open(out, "w") as f:
        f.write(open(a).read() + open(b).read())
    ev = ctx.validate("Trace_Registry", "Trace_Registry.cfg", out, what="registry")
    if not ctx.quick:
        i = max(j for j, e in enumerate(ev) if e["e"] == "list" and e["dyn"])
        bad = [dict(e) for e in ev[:i + 1]]
        bad[i]["dyn"] = bad[i]["dyn"][1:]
        ctx.must_reject("Trace_Registry", "Trace_Registry.cfg", bad, what="a listing lacks one metric")
    if p == "C01":
        crowd(ctx, rnd, ["list"], ["counter", "gauge", "pinned", "histogram"])


# ---------------------------------------------------------------- C04
# as large as it gets, and where narrower integers end
HUGE = [(1 << k) + d for k in (8, 15, 16, 31, 32, 33, 48, 62, 63, 64) for d in (-2, -1, 0, 1) if (1 << k) + d < 1 << 64]


def huge_skips(rnd, sizes, ops, finals):
    for n in HUGE:
        for d in sizes:
            for pre in ([], ["next"]):
                yield dict(dyn=d, final=rnd.choice(finals), ops=[dict(op=o, n=to_word(0)) for o in pre]
                           + [dict(op=rnd.choice(ops), n=to_word(n)), dict(op="peek", n=to_word(0))])


DE_FINALS = ["fold", "rfold", "collect", "for_each", "loop", "loop_back", "try_fold", "rev", "alternate", "last",
             "step2", "skip1", "revskip1", "count"]


def iter_gen(spec, depth, sizes, skips, statics, finals, de=True, peeks=(), **kw):
    return dict(module="Gen_Iter", cfg="Gen_Iter.cfg",
                subst=dict(SPEC=spec, DEPTH=depth, SIZES=tset(sizes), SKIPS=tset(skips), FINALS=tset(finals),
                           STATICS=statics, DE="TRUE" if de else "FALSE", PEEKS=tset(peeks)), **kw)


@prop("C04")
def traversal(ctx):
    rnd = random.Random(ctx.seed * 5 + 4)
    bins = build("core")
    ctx.model_check("MC_Iter", "MC_Iter.cfg", dict(MAXLEN=ctx.q(4, 6), MAXSKIP=ctx.q(4, 6)))
    traces = []
    for statics in (0, 1, 3):
        # complete: every sequence of two operations with every way to use up the rest
        gens = [iter_gen("GSpecAll", 2, ctx.q([0, 1, 2], [0, 1, 2, 3, 4]), ctx.q([0, 1, 2], [0, 1, 2, 3, 4]), statics,
                         DE_FINALS, simulate=False),
                # complete: every sequence of three operations
                iter_gen("GSpec", 3, ctx.q([0, 1, 2], [0, 1, 2, 3]), ctx.q([0, 1, 3], [0, 1, 2, 3, 4]), statics, ["-"],
                         simulate=False),
                # longer ones over more metrics
                iter_gen("GSpec", 12, [3, 8, 30], [0, 1, 2, 3, 7], statics, ["-"], num=ctx.q(60, 600))]
        scen = ctx.generate_all(gens)
        # very many metrics
        for d in ctx.q([1100], [1100, 5000]):
            for f in ctx.q(["collect", "rfold", "count"], DE_FINALS):
                scen.append(dict(dyn=d, final=f, ops=[dict(op=o, n=to_word(x)) for o, x in
                    [("peek", 0), (rnd.choice(["nth", "nth_back"]), rnd.choice([0, 40, d - 70, d - 1, d])), ("next_back", 0)]]))
        scen += huge_skips(rnd, ctx.q([rnd.choice([0, 1]), 2], [0, 1, 2, 5]), ["nth", "nth_back"], DE_FINALS)
        # more metrics than one map node holds, larger skips
        for _ in range(ctx.q(30, 300)):
            d = rnd.choice([5, 11, 12, 13, 60, 200])
            ops = [dict(op=rnd.choice(["nth", "nth_back", "next", "next_back", "peek"]),
                        n=to_word(rnd.choice([0, 1, d // 3, d, d + 1, rnd.randrange(d + 4), 1 << 40])))
                   for _ in range(rnd.randrange(8))]
            scen.append(dict(dyn=d, ops=ops, final="-"))
        full = []
        for i, s in enumerate(scen):
            if s["final"] == "-":
                s["final"] = rnd.choice(DE_FINALS)
            if statics == 0:
                full.append(dict(s, kind="all"))
                if i % 2 == 0:
                    full.append(dict(s, kind="dyn"))
            else:
                full.append(dict(s, kind="all"))
        rnd.shuffle(full)
        out = ctx.path("trace")
        ctx.drive(f"{bins}/iter{statics}", [ctx.write("scen", full), out], what=f"traversal with {statics} static metrics")
        traces.append(out)
    allt = ctx.path("trace")
    with open(allt, "w") as f:
        for t in traces:
            f.write(open(t).read())
    ev = ctx.validate("Trace_Iter", "Trace_Iter.cfg", allt, what="traversal", dfs=False)
    ctx.assumptions.append("Order is that found by plain stepping; it must be a permutation of the live metrics.")
    crowd(ctx, rnd, ["sizes"], ["counter"])
    if not ctx.quick:
        i = max(j for j, e in enumerate(ev) if e["e"] == "op" and e["r"])
        bad = [dict(e) for e in ev[max(0, i - 3000):i + 1]]
        while bad[0]["e"] != "new":
            bad.pop(0)
        bad[-1]["r"] = []
        ctx.must_reject("Trace_Iter", "Trace_Iter.cfg", bad, what="an entry is skipped")


# ---------------------------------------------------------------- C14
FW_FINALS = ["fold", "collect", "for_each", "loop", "last", "step2", "skip1", "count"]
STATIC_META = {"s0": 0, "s1": 1, "s2": 2, "s3": 3, "s4": 4, "s8": 8, "s20": 20, "s300": 300}
ODD = ["", " ", "a", "A", "b", "k", "key", "é", "日本", "\u0000", "a\"b", "c\\d", "x\ny", "\U0001F600", "k" * 300,
       "metric", "{}", "=", ",", "%", "unit", "\t", "a\r\nb", "\r", "\\n", "\\\"", "\x7f", "\u2028", "a,b=\"c\"", "'"]


def word_of(rnd):
    return rnd.choice(ODD) if rnd.random() < 0.5 else "".join(
        rnd.choice("abcXYZ019_./-é日\U0001F600\"\\\n\t\r ") for _ in range(rnd.randrange(1, 9)))


@prop("C14")
def metadata(ctx):
    rnd = random.Random(ctx.seed * 11 + 14)
    bins = build("core")
    ctx.model_check("MC_Iter", "MC_Iter.cfg", dict(MAXLEN=ctx.q(4, 6), MAXSKIP=ctx.q(4, 6)))
    gens = [iter_gen("GSpecAll", 2, [0, 1, 2, 3, 4], [0, 1, 2, 3, 4], 0, FW_FINALS, de=False, peeks=[1], simulate=False),
            iter_gen("GSpec", 3, [0, 1, 2, 3, 4], [0, 1, 2, 3], 0, ["-"], de=False, peeks=[1], simulate=False),
            iter_gen("GSpecAll", 1, [8, 20], [0, 1, 7], 0, FW_FINALS, de=False, peeks=[1], simulate=False),
            iter_gen("GSpec", 8, [8, 20], [0, 1, 2, 3, 5], 0, ["-"], de=False, peeks=[1], num=ctx.q(60, 600))]
    scen = []
    for s in ctx.generate_all(gens) + list(huge_skips(rnd, ctx.q([rnd.choice([0, 1]), 3], [0, 1, 2, 3, 4]), ["nth"], FW_FINALS)):
        size = s["dyn"]
        srcs = ["builder", "new", "from", "from+clone", "builder+clone"]
        stat = [k for k, v in STATIC_META.items() if v == size]
        srcs += [stat[0], stat[0] + "+clone"] if stat else []
        srcs += ["default", "plain", "bare"] if size == 0 else []
        keys = set()
        while len(keys) < size:
            keys.add(word_of(rnd))
        if s["final"] == "-":
            s["final"] = rnd.choice(FW_FINALS)
        ops = [dict(op="fork") if o["op"] == "peek" and rnd.random() < 0.6 else o for o in s["ops"]]
        for src in sorted(set(rnd.sample(srcs, ctx.q(min(2, len(srcs)), len(srcs))) + (stat[:1] if size >= 8 else []))):
            scen.append(dict(src=src, pairs=[[k, word_of(rnd)] for k in sorted(keys)], ops=ops, final=s["final"],
                             via=rnd.choice(["iter", "into"]),
                             gets=[word_of(rnd) for _ in range(4)] + ["", "metric", "name", "lost", "k1", "a00"]))
    for i, size in enumerate(ctx.q([33, 64, 129, 257, 300, 1100], [33, 64, 129, 257, 300, 1100, 5000])):        # many entries
        for src in ("builder", "new", "from+clone") + (("s300", "s300+clone") if size == 300 else ()):
            for final in FW_FINALS if src[0] == "s" else rnd.sample(FW_FINALS, 3) + ["count"]:
                scen.append(dict(src=src, pairs=[[f"{x}k", word_of(rnd)] for x in range(size)], final=final, via=rnd.choice(["iter", "into"]),
                                 ops=[dict(op=rnd.choice(["next", "nth"]), n=to_word(rnd.choice([0, 1, 31, 255, 256]))) for _ in range(3)],
                                 gets=["", "0k", f"{size}k", "x0", "x299", "x300", "x30"]))
    out = ctx.drive_sharded(f"{bins}/meta", None, scen, what="metadata")
    ev = ctx.validate("Trace_Iter", "Trace_Iter.cfg", out, what="metadata", dfs=False)
    if not ctx.quick:
        i = max(j for j, e in enumerate(ev) if e["e"] == "get" and e["v"])
        bad = [dict(e) for e in ev[max(0, i - 300):i + 1]]
        while bad[0]["e"] != "new":
            bad.pop(0)
        bad[-1]["v"] = [bad[-1]["v"][0] + "x"]
        ctx.must_reject("Trace_Iter", "Trace_Iter.cfg", bad, what="a lookup finds another value")


# ---------------------------------------------------------------- C07
LAZY_OPS = ["force", "deref", "get", "value", "enabled", "any", "snapshot"]
OWNED_OPS = ["force", "deref", "deref_mut", "get", "get_mut", "value", "enabled", "any"]


def lazy_gen(threads, depth, ops, **kw):
    return dict(module="Gen_Lazy", cfg="Gen_Lazy.cfg",
                subst=dict(THREADS=tset(range(1, threads + 1)), DEPTH=depth, OPS=tset(ops)), **kw)


@prop("C07")
def lazy(ctx):
    rnd = random.Random(ctx.seed * 13 + 7)
    bins = build("expo")
    ctx.assumptions.append("An observer called while the initializer runs may not wait for it; a force that the "
                           "specification requires to return gets 60 s.")
    ctx.model_check("MC_Lazy", "MC_Lazy.cfg", dict(MAXOPS=ctx.q(4, 6)))
    ctx.model_check("MC_Lazy", "MC_Lazy_bad.cfg", expect_violation=True)
    k = ctx.q(1, 8)
    kinds = ["dyn", "fn", "default"]
    # complete: every sequence of (quick 3, thorough 4) steps of two threads
    few = lazy_gen(2, ctx.q(3, 4), ["force", "get", "value", "enabled", "snapshot"], simulate=False)
    shared = ctx.generate_all([few, lazy_gen(1, 10, LAZY_OPS, num=40 * k), lazy_gen(2, 12, LAZY_OPS, num=60 * k),
                               lazy_gen(4, 16, LAZY_OPS, num=60 * k)])
    owned = ctx.generate_all([lazy_gen(1, 10, OWNED_OPS, num=60 * k)])
    uniq = {str(s): s for s in shared}
    objs = ["custom", "counter", "gauge", "ahist", "rhist"]
    scen = [dict(s, kind=rnd.choice(kinds), obj=rnd.choice(objs)) for s in uniq.values()]
    scen += [dict(s, kind=rnd.choice(["owned", "owndef"]), obj=rnd.choice(objs)) for s in owned]
    for i in range(ctx.q(150, 1500)):
        th = rnd.choice([2, 4, 8])
        first = rnd.choice([["force"], ["deref"], ["force", "get", "value"], LAZY_OPS, ["get", "value", "snapshot"]])
        scen.append(dict(kind=rnd.choice(kinds), obj=rnd.choice(objs), how="panic" if i % 4 == 0 else "ok", progs=[
            [rnd.choice(first)] + [rnd.choice(LAZY_OPS + ["entry.value", "entry.enabled", "entry.any"])
                                   for _ in range(rnd.randrange(1, 6))] for _ in range(th)]))
    rnd.shuffle(scen)
    out = ctx.drive_sharded(f"{bins}/lazy", None, scen, shards=8, what="lazy")
    # the same instant, again and again
    hot = []
    for th in ctx.q([2, 2, 3, 3], [2, 2, 2, 3, 3, 3, 4, 4] * 3):
        seen = ["get", "value", "enabled", "any"]
        progs = [[rnd.choice(["force", "deref"])] + ([rnd.choice(seen)] if th < 3 else []) for _ in range(th - 1)]
        progs.append(rnd.choice([["force"], [rnd.choice(seen), rnd.choice(seen)], ["deref", "get"]]))
        hot.append(dict(hot=progs, obj=rnd.choice(objs), how="panic" if len(hot) % 4 == 3 else "ok", rounds=10 ** 7, ms=ctx.q(4000, 20000)))
    with open(out, "a") as f:
        f.write(open(ctx.drive_sharded(f"{bins}/lazy", None, hot, shards=2, what="lazy")).read())
    # a static exists once per process
    longer = [s for s in shared if len(s["steps"]) > 5]
    with open(out, "a") as f:
        for i, s in enumerate(rnd.sample(longer, ctx.q(15, 60))):
            o = ctx.path("trace")
            ctx.drive(f"{bins}/lazy", [ctx.write("scen", [dict(s, kind="static", obj=objs[i % 5])]), o],
                      what="lazy static")
            f.write(open(o).read())
    ev = ctx.validate("Trace_Lazy", "Trace_Lazy.cfg", out, what="lazy")
    if not ctx.quick:
        i = max(j for j, e in enumerate(ev) if e["e"] == "ret" and e["addr"])
        bad = [dict(e) for e in ev[:i + 1]]
        bad[i]["addr"] += 1
        ctx.must_reject("Trace_Lazy", "Trace_Lazy.cfg", bad, what="an access returns an object at another address")


# ---------------------------------------------------------------- C08, C09
def cfgset(cs):
    return tset(100 * g + m for g, m in cs)


def around(g, m, rnd, extra):
    vs = {0, (1 << 64) - 1}
    for p in range(0, 65):
        vs |= {(1 << p) - 1, (1 << p), (1 << p) + 1}
    for _ in range(extra):
        vs.add(rnd.getrandbits(rnd.randint(1, 64)))
        if m > g + 1:      # an edge between two buckets of the logarithmic part
            p = rnd.randint(g + 1, m - 1)
            edge = (1 << p) + (rnd.getrandbits(g) << (p - g) if g else 0)
            vs |= {edge - 1, edge, edge + (1 << (p - g)) - 1}
    vs = [v for v in vs if v < 1 << 64]
    rnd.shuffle(vs)
    return vs


@prop("C08")
def atomic_histogram(ctx):
    rnd = random.Random(ctx.seed * 17 + 8)
    bins = build("core")
    ctx.assumptions += ["Configurations up to grouping power 12 (quick) or 18 (thorough): beyond, the bucket array does "
                        "not fit the sandbox.",
                        "Buckets are independent: a load is not one instant for several buckets."]
    ctx.model_check("MC_Buckets", "MC_Buckets.cfg")
    ctx.model_check("MC_AtomicHist", "MC_AtomicHist_ok.cfg", dict(MAXOPS=ctx.q(4, 5)))
    for v in ("race", "torn"):
        ctx.model_check("MC_AtomicHist", f"MC_AtomicHist_{v}.cfg", expect_violation=True)
    corner = [(0, 1), (0, 2), (1, 2), (0, 64), (2, 5), (5, 6), (7, 64), (3, 63), (4, 20), (10, 11), (6, 33)]
    k = ctx.q(1, 10)
    scen = ctx.generate_all([
        dict(module="Gen_Hist", cfg="Gen_Hist.cfg", num=n * k,
             subst=dict(THREADS=tset(range(1, th + 1)), DEPTH=d, CONFIGS=cfgset(corner)))
        for th, d, n in ((1, 20, 60), (2, 8, 150), (4, 16, 150), (8, 24, 60))])
    # one thread, every configuration of a wide grid, values around every edge
    gmax = ctx.q(7, 18)
    for m in range(1, 65):
        for g in range(0, min(m, gmax + 1)):
            if ctx.quick and (m * 7 + g * 3 + ctx.seed) % 4 and m not in (1, 2, 3, 32, 33, 63, 64):
                continue
            vs = around(g, m, rnd, 6)
            if ctx.quick:
                keep = {0, (1 << m) - 1, 1 << m, (1 << m) + 1, (1 << 64) - 1} | set(vs[:40])
                vs = [v for v in vs if v in keep]
            if rnd.random() < 0.3:      # start with values that are rejected
                vs.sort(key=lambda v: v < 1 << m)
            scen.append(dict(g=g, m=m, every=rnd.choice([1000, 30]), alone=[to_word(v) for v in vs]))
    for m in ctx.q([11, 13, 20, 64], range(9, 65)):
        scen.append(dict(g=min(ctx.q(12, 18), m - 1), m=m, every=1000, alone=[to_word(v) for v in around(8, m, rnd, 10)]))
    # the very first recordings, by several threads at once
    for _ in range(ctx.q(1500, 20000)):
        g, m = rnd.choice(corner[:8])
        th = rnd.choice([2, 2, 3, 4])
        v = [to_word(rnd.getrandbits(rnd.randint(1, m))) for _ in range(2)]
        scen.append(dict(g=g, m=m, calls=[dict(t=t, op="inc", a=rnd.choice(v)) for t in range(1, th + 1)] + [
            dict(t=rnd.randint(1, th), op=rnd.choice(["load", "inc"]), a=rnd.choice(v)) for _ in range(3)]))
    # contention on few buckets, with loads in between
    for _ in range(ctx.q(10, 80)):
        g, m = rnd.choice(corner)
        th = rnd.choice([2, 4, 8])
        v = [to_word(rnd.getrandbits(rnd.randint(1, m))) for _ in range(3)]
        calls = []
        for t in range(1, th + 1):
            for _ in range(6):
                calls.append(dict(t=t, op="inc", a=rnd.choice(v), n=rnd.choice([1, 50, 5000])) if rnd.random() < 0.7
                             else dict(t=t, op="load"))
        scen.append(dict(g=g, m=m, calls=calls))
    hot = []
    for th, per in ctx.q([(2, 1), (2, 2), (3, 1)], [(2, 1), (2, 2), (3, 1), (3, 2), (4, 1)] * 4):
        g, m = rnd.choice(corner[:7])
        v = [to_word(x) for x in (0, (1 << m) - 1)]
        hot.append(dict(g=g, m=m, ms=ctx.q(2500, 15000), keep=ctx.q(150, 1500), hot=[
            [dict(op="inc" if not j or rnd.random() < .5 else "load", a=rnd.choice(v)) for j in range(per)] for _ in range(th)]))
    out = ctx.drive_sharded(f"{bins}/drv", "ahist", scen, shards=2, what="atomic histogram")
    with open(out, "a") as f:
        f.write(open(ctx.drive_sharded(f"{bins}/drv", "ahist", hot, shards=2, what="atomic histogram")).read())
    ev = ctx.validate("Trace_Hist", "Trace_Hist.cfg", out, what="atomic histogram", dfs=False)
    if not ctx.quick:
        i = max(j for j, e in enumerate(ev) if e["e"] == "some" and e["cnt"])
        bad = [dict(e) for e in ev[max(0, i - 2000):i + 1]]
        while bad[0]["e"] != "new":
            bad.pop(0)
        bad[-1]["cnt"] = [bad[-1]["cnt"][0] - 1] + bad[-1]["cnt"][1:]
        ctx.must_reject("Trace_Hist", "Trace_Hist.cfg", bad, what="one recording missing", dfs=False)


@prop("C09")
def bulk_histogram(ctx):
    rnd = random.Random(ctx.seed * 19 + 9)
    bins = build("core")
    ctx.model_check("MC_RwHist", "MC_RwHist_ok.cfg", dict(MAXOPS=ctx.q(4, 5)))
    ctx.model_check("MC_RwHist", "MC_RwHist_nolock.cfg", expect_violation=True)
    k = ctx.q(1, 10)
    sizes = {2: (0, 1), 3: (0, 2), 4: (1, 2), 65: (0, 64), 7424: (7, 64), 64: (4, 7), 2048: (10, 11)}
    scen = ctx.generate_all([
        dict(module="Gen_RwHist", cfg="Gen_RwHist.cfg", num=n * k,
             subst=dict(THREADS=tset(range(1, th + 1)), DEPTH=d, SIZES=tset(sizes)))
        for th, d, n in ((1, 16, 80), (2, 8, 200), (3, 12, 200), (5, 15, 100))])
    for s in scen:
        s["g"], s["m"] = sizes[s["size"]]
    # first updates and first loads at once; then long runs over a large array
    for _ in range(ctx.q(800, 10000)):
        g, m = rnd.choice([(0, 1), (7, 64), (3, 10)])
        th = rnd.choice([2, 3, 4])
        scen.append(dict(g=g, m=m, calls=[
            dict(t=t, op=rnd.choice(["update", "load"]), shape=rnd.choice(["const", "const", "random", "short"]))
            for t in range(1, th + 1) for _ in range(2)]))
    for _ in range(ctx.q(40, 400)):
        th = rnd.choice([2, 3, 4])
        g, m = rnd.choice([(7, 64), (9, 64), (10, 30)])
        scen.append(dict(g=g, m=m, calls=[
            dict(t=t, op="update" if t == 1 or rnd.random() < 0.2 else rnd.choice(["load", "load", "entry"]),
                 shape=rnd.choice(["const", "const", "ramp", "random", "max", "zero"]))
            for t in range(1, th + 1) for _ in range(20)]))
    # every configuration once
    for m in range(1, 65):
        for g in range(0, min(m, ctx.q(6, 14))):
            scen.append(dict(g=g, m=m, calls=[dict(t=1, op=o, shape=sh) for o, sh in (
                ("load", "-"), ("update", rnd.choice(["short", "long", "empty"])), ("load", "-"), ("update", "random"),
                ("load", "-"), ("update", rnd.choice(["short", "long", "empty"])), ("load", "-"), ("update", "ramp"))]))
    for i, s in enumerate(scen):
        for j, c in enumerate(s["calls"]):
            c["serial"] = i * 1000 + j + 1
    hot = []
    for g, m, th in ctx.q([(0, 1, 2), (7, 64, 2), (7, 64, 3), (11, 64, 2)], [(0, 1, 2), (3, 10, 3), (7, 64, 2), (7, 64, 4), (9, 64, 3), (12, 64, 2)] * 3):
        def upd(k):
            return dict(op="update", shape="const", serial=k)
        progs = [[upd(2)]] + [rnd.choice([[dict(op="load")], [dict(op="load")], [dict(op="load")] * 2, [upd(3)]]) for _ in range(th - 2)]
        progs.append([dict(op="load")] * rnd.choice([1, 2]))
        hot.append(dict(g=g, m=m, ms=ctx.q(2500, 15000), keep=ctx.q(100, 1000), hot=progs, pre=[upd(1)] * (len(hot) % 2 if g < 7 else rnd.choice([0, 1, 1]))))
    out = ctx.drive_sharded(f"{bins}/drv", "rhist", scen, shards=2, what="bulk histogram")
    with open(out, "a") as f:
        f.write(open(ctx.drive_sharded(f"{bins}/drv", "rhist", hot, shards=2, what="bulk histogram")).read())
    ev = ctx.validate("Trace_RwHist", "Trace_RwHist.cfg", out, what="bulk histogram")
    if not ctx.quick:
        i = max(j for j, e in enumerate(ev) if e["e"] == "some" and e["d"][0][0] > 1)
        bad = [dict(e) for e in ev[max(0, i - 2000):i + 1]]
        while bad[0]["e"] != "new":
            bad.pop(0)
        d = bad[-1]["d"]
        bad[-1]["d"] = [[d[0][0] - 1, d[0][1]], [1, "7"]] + d[1:]
        ctx.must_reject("Trace_RwHist", "Trace_RwHist.cfg", bad, what="one bucket differs")


# ---------------------------------------------------------------- C10
@prop("C10")
def handles(ctx):
    rnd = random.Random(ctx.seed * 23 + 10)
    exe = build("core") + "/entry"
    ctx.model_check("MC_Handle", "MC_Handle_ok.cfg", dict(MAXOPS=ctx.q(6, 8)))
    for v in ("cached", "stale"):
        ctx.model_check("MC_Handle", f"MC_Handle_{v}.cfg", expect_violation=True)
    k = ctx.q(1, 10)
    scen = ctx.generate_all([dict(module="Gen_Handle", cfg="Gen_Handle.cfg", num=n * k, subst=dict(DEPTH=d, MAXIDS=i))
                             for d, i, n in ((6, 3, 60), (20, 8, 40), (40, 20, 10))])
    out = ctx.drive_sharded(exe, "handle", scen, what="handles")
    ev = ctx.validate("Trace_Handle", "Trace_Handle.cfg", out, what="handles", dfs=False)
    # a metric at the very address of the registered one
    out = ctx.path("trace")
    ctx.drive(exe, ["handle", ctx.write("scen", [dict(alias=1)]), out], what="alias")
    try:
        ctx.validate("Trace_Handle", "Trace_Handle.cfg", out, what="a metric that is the first field of another", dfs=False)
    except Violation as v:
        known = known_findings().get(("C10", "alias-first-field"))
        # the finding is this answer and no other
        if not known or v.replay["event"] != {"e": "is", "i": 1, "yes": [1, 1001]}:
            raise
        ctx.known.append(known)
    if not ctx.quick:
        i = max(j for j, e in enumerate(ev) if e["e"] == "read")
        bad = [dict(e) for e in ev[max(0, i - 3000):i + 1]]
        while bad[0]["e"] != "new":
            bad.pop(0)
        bad[-1]["enabled"] = not bad[-1]["enabled"]
        ctx.must_reject("Trace_Handle", "Trace_Handle.cfg", bad, what="an entry reports another enabled state", dfs=False)


# ---------------------------------------------------------------- C11
CX_TYPES = ["A", "B", "refA", "u64", "String", "sstr", "Metadata", "str", "dyn", "Z", "none", "opt", "big"]
CX_REF = ["str", "dyn"]


def cx_gen(depth, att, types, **kw):
    return dict(module="Gen_Context", cfg="Gen_Context.cfg",
                subst=dict(DEPTH=depth, ATT=att, TYPES=tset(types), REFTYPES=tset([t for t in types if t in CX_REF])), **kw)


@prop("C11")
def context(ctx):
    rnd = random.Random(ctx.seed * 29 + 11)
    exe = build("core") + "/entry"
    ctx.model_check("MC_Context", "MC_Context.cfg", dict(MAX=ctx.q(5, 7)))
    ctx.model_check("MC_Context", "MC_Context_bad.cfg", expect_violation=True)
    pairs = [["A", "refA"], ["String", "str"], ["sstr", "str"], ["A", "dyn"], ["Metadata", "u64"], ["u64", "B"], ["Z", "none"], ["opt", "u64"]]
    gens = [cx_gen(ctx.q(3, 4), 1, p, simulate=False) for p in pairs]       # complete
    gens += [cx_gen(10, 3, CX_TYPES, num=ctx.q(300, 4000)), cx_gen(8, 3, ["A", "refA"], num=ctx.q(100, 2000)),
             cx_gen(16, 2, ["A", "Metadata"], num=ctx.q(100, 2000))]
    scen = []
    for s in ctx.generate_all(gens):
        if any(x["op"] == "attach" and x["ty"] == "Metadata" for x in s["steps"]):
            continue        # the builder's own
        for c in ctx.q([rnd.choice(["boxed", "pinned"]), rnd.choice(["bare", "static"])],
                       ["boxed", "pinned", "bare", "static"]):
            scen.append(dict(s, carrier=c))
    out = ctx.drive_sharded(exe, "context", scen, what="context")
    ev = ctx.validate("Trace_Context", "Trace_Context.cfg", out, what="context", dfs=False)
    if not ctx.quick:
        i = max(j for j, e in enumerate(ev) if e["e"] == "result" and e["r"])
        bad = [dict(e) for e in ev[max(0, i - 300):i + 1]]
        while bad[0]["e"] != "new":
            bad.pop(0)
        bad[-1]["r"] = [bad[-1]["r"][0] + 1]
        ctx.must_reject("Trace_Context", "Trace_Context.cfg", bad, what="another offer is returned", dfs=False)


# ---------------------------------------------------------------- C12, C13
@prop("C12", "C13")
def builders(ctx):
    rnd = random.Random(ctx.seed * 37 + int(ctx.prop[1:]))
    exe = build("core") + "/entry"
    ctx.model_check("MC_Builder", "MC_Builder.cfg", dict(MAXOPS=ctx.q(5, 6)))
    k = ctx.q(1, 12)
    gens = [dict(module="Gen_Builder", cfg="Gen_Builder.cfg", num=n * k, subst=dict(SLOTS=tset(range(1, sl + 1)), DEPTH=d))
            for sl, d, n in ((1, 8, 150), (2, 16, 150), (3, 40, 60))]
    scen = []
    for i, s in enumerate(ctx.generate_all(gens)):
        m = {}
        for grp, cnt in (("n", 3), ("k", 5), ("v", 4)):
            seen = set()
            while len(seen) < cnt:
                w = word_of(rnd)
                if w != "-":
                    seen.add(w)
            for j, w in enumerate(sorted(seen, key=lambda _: rnd.random()), 1):
                m[f"{grp}{j}"] = w
        for st in s["steps"]:
            if st["op"] not in ("ctx", "fmt", "build"):
                st["a"], st["b"] = m.get(st["a"], st["a"]), m.get(st["b"], st["b"])
        if i % 10 == 0:
            s["statics"] = 1
        scen.append(s)
    # every combination of little and nothing
    sole = [[], [("", "")], [("a", "")], [("", "a")], [("a", "b")], [("\"", "\"")], [("a", ""), ("", "b")]]
    for i, (name, desc, meta, fmt, place) in enumerate(itertools.product(
            ["", "n"], [[], [""], ["d"]], sole, [[], ["f1"]], ["boxed", "pinned"])):
        given = [("desc", d, "-") for d in desc] + [("meta", a, b) for a, b in meta] + [("fmt", f, "-") for f in fmt]
        rnd.shuffle(given)
        scen.append(dict(steps=[dict(s=1, op=op, a=a, b=b) for op, a, b in
                                [("begin", name, "-")] + given + [("build", place, "-"), ("drop", "-", "-")]]))
    # many attributes
    for _ in range(ctx.q(4, 40)):
        keys = sorted({word_of(rnd) for _ in range(rnd.choice([10, 60]))})
        scen.append(dict(steps=[dict(s=1, op="begin", a="big", b="-")] + [
            dict(s=1, op="meta", a=rnd.choice(keys), b=word_of(rnd)) for _ in range(rnd.choice([7, 40]))] + [
            dict(s=1, op="build", a=rnd.choice(["boxed", "pinned"]), b="-")]))
    for n in ctx.q([10, 25, 60, 60], [10, 20, 30, 40, 60, 100]):     # many types of context
        given = [("ctx", f"T{rnd.randrange(40)}", "-") for _ in range(n)] + [("ctx", "A", "-"), ("meta", "k", "v"), ("fmt", "f1", "-")]
        rnd.shuffle(given)
        scen.append(dict(wide=1, steps=[dict(s=1, op=op, a=a, b=b) for op, a, b in
                                        [("begin", "wide", "-")] + given + [("build", rnd.choice(["boxed", "pinned"]), "-")]]))
    for n in ctx.q([257], [257, 500]):
        given = [("meta", f"k{x}", rnd.choice(["", "\"", "v"]) + str(x % 7)) for x in range(n)] + [("meta", f"k{x}", "again") for x in range(0, n, 50)]
        scen.append(dict(steps=[dict(s=1, op=op, a=a, b=b) for op, a, b in
                                [("begin", "many", "-")] + given + [("build", "boxed", "-"), ("drop", "-", "-")]]))
    for n in ctx.q([300, 70000], [300, 70000]):
        w = "ab\n" * (n // 3)
        # escaping is specified character by character: the longest text is only used unescaped
        v = w if n < 1000 else "v"
        scen.append(dict(steps=[dict(s=1, op=op, a=a, b=b) for op, a, b in
                                [("begin", w, "-"), ("desc", w, "-"), ("meta", w, v), ("build", "pinned", "-"), ("drop", "-", "-")]]))
    out = ctx.drive_sharded(exe, "builder", scen, what="builders")
    # one recording serves both properties
    skip = '"e":"formatted"' if ctx.prop == "C12" else '"e":"entry"'
    mine = ctx.path("trace")
    with open(mine, "w") as f:
        f.writelines(x for x in open(out) if skip not in x)
    ev = ctx.validate("Trace_Builder", "Trace_Builder.cfg", mine, what="builders", dfs=False)
    if not ctx.quick:
        i = max(j for j, e in enumerate(ev) if e["e"] in ("entry", "formatted"))
        bad = [dict(e) for e in ev[max(0, i - 3000):i + 1]]
        while bad[0]["e"] != "new":
            bad.pop(0)
        f = "name" if ctx.prop == "C12" else "text"
        bad[-1][f] += "x"
        ctx.must_reject("Trace_Builder", "Trace_Builder.cfg", bad, what="a string differs", dfs=False)


# ---------------------------------------------------------------- C16, C17
SNAP_KINDS = ["counter", "gauge", "lcounter", "lgauge", "ahist", "rhist", "lahist", "lrhist", "ccounter", "cgauge",
              "cnone", "cother", "wahist", "wrhist", "chidden"]
STATIC_CFG = {5: (2, 10), 6: (1, 6), 7: (7, 64), 8: (0, 3)}
STATIC_NAMES = ["s/counter", "S2", "S3", "S4", "S5", "bulk", "S7", "S8", "S9", "S10"]


def buckets(g, m):
    return (m - g + 1) << g


def snap_fill(rnd, sc, unique):
    """Strings and numbers for the structure the specification generated."""
    conf = dict(STATIC_CFG)
    names = list(STATIC_NAMES)
    pool = [word_of(rnd) for _ in range(4)] + [""]
    keys = [word_of(rnd) for _ in range(3)] + ["description", "grouping_power", "max_value_power", "unit", "metric"]
    for st in sc["steps"]:
        op, i, k = st["op"], st["i"], st["k"]
        if op == "reg":
            conf[i] = (3, 12) if k in ("lahist", "lrhist") else rnd.choice([(0, 1), (0, 4), (2, 8), (7, 64), (3, 3 + 1), (1, 33)])
            st["name"] = f"{i}{word_of(rnd)}" if unique else rnd.choice(pool)
            st["desc"] = [word_of(rnd)] if rnd.random() < 0.5 else []
            st["meta"] = [[rnd.choice(keys), word_of(rnd)] for _ in range(rnd.choice([0, 0, 1, 3]))]
            st["fmt"] = rnd.choice(["", "", "f1", "f2"])
            st["g"], st["m"] = conf[i] if "hist" in k else (0, 1)
            if rnd.random() < 0.15:     # the same string in several roles
                st["desc"] = [st["name"]]
            if rnd.random() < 0.1:
                st["meta"].append([rnd.choice(keys + [st["name"]]), rnd.choice([st["name"]] + st["desc"])])
            names.append(st["name"])
        elif op in ("set", "add"):
            st["a"] = to_word(rnd.choice(BOUNDARY + [rnd.getrandbits(64), rnd.getrandbits(9)]))
        elif op == "rec":
            g, m = conf[i]
            st["a"] = to_word(rnd.choice([0, 1, (1 << m) - 1, (1 << m) & ((1 << 64) - 1), rnd.getrandbits(m), rnd.getrandbits(m),
                                          rnd.getrandbits(min(m, g + 2)), (1 << 64) - 1]))
        elif op == "upd":
            size = buckets(*conf[i])
            st["len"] = rnd.choice([size] * 4 + [size - 1, size + 1, 0])
            at = rnd.sample(range(st["len"]), min(st["len"], rnd.choice([0, 1, 3, 6])))
            st["ps"] = [[x, to_word(rnd.choice([1, (1 << 64) - 1, rnd.getrandbits(64) | 1]))] for x in at]
        elif op in ("snap", "open"):
            st["smeta"] = [[rnd.choice(keys), word_of(rnd)] for _ in range(rnd.choice([0, 1, 4]))]
            st["all"] = rnd.random() < (0.6 if unique else 0.5)
            st["acc"] = [] if st["all"] or rnd.random() < 0.1 else sorted({rnd.choice(names) for _ in range(rnd.choice([1, 5, 20]))})
            if op == "snap" and st["all"] and rnd.random() < 0.3:
                st["plain"] = True
            if op == "snap":
                st["times"] = rnd.choice([1, 1, 2])
    return sc


def snap_gen(depth, ids, kinds, snappers, **kw):
    return dict(module="Gen_Snapshot", cfg="Gen_Snapshot.cfg", subst=dict(
        IDS=tset(range(1, 11 + ids)), DEPTH=depth, KINDS=tset(kinds), SNAP=tset(snappers)), **kw)


def snap_stress(rnd, i):
    def metric(ident, k):
        g, m = rnd.choice([(0, 3), (2, 8)])
        return dict(i=ident, k=k, p=rnd.choice(["boxed", "pinned"]), name=f"m{ident}", desc=[], meta=[], fmt="",
                    g=g if "hist" in k else 0, m=m if "hist" in k else 1, len=buckets(g, m))
    shared = [metric(11 + j, k) for j, k in enumerate(["counter", "gauge", "ahist", "rhist"][:rnd.choice([2, 4])])]
    churn = [metric(21 + j, rnd.choice(["counter", "gauge"])) for j in range(3)]
    return dict(stress=dict(rounds=3, seed=i, shared=shared, churn=churn, acc=[x["name"] for x in shared]))


def snap_run(ctx, exe, scen, ids, shards, what):
    out = ctx.drive_sharded(exe, None, scen, shards=shards, what=what)
    return ctx.validate("Trace_Snapshot", "Trace_Snapshot.cfg", out, dict(IDS=tset(range(1, ids + 1))), what=what)


def snap_selftest(ctx, ev, ids):
    i = max(j for j, e in enumerate(ev) if e["e"] == "snapped" and e["obs"])
    lo = max(j for j, e in enumerate(ev[:i]) if e["e"] == "new")
    for what in ("one reading is missing", "one reading is there twice"):
        bad = [dict(e) for e in ev[lo:i + 1]]
        bad[-1]["obs"] = bad[-1]["obs"][1:] if "missing" in what else bad[-1]["obs"] + bad[-1]["obs"][:1]
        ctx.must_reject("Trace_Snapshot", "Trace_Snapshot.cfg", bad, dict(IDS=tset(range(1, ids + 1))), what=what)


@prop("C16")
def snapshot_content(ctx):
    rnd = random.Random(ctx.seed * 41 + 16)
    exe = build("expo") + "/snap"
    ctx.model_check("MC_Snapshot", "MC_Snapshot_ok.cfg", dict(MAX=ctx.q(4, 6)))
    ctx.model_check("MC_Snapshot", "MC_Snapshot_early.cfg", expect_violation=True)
    k = ctx.q(1, 10)
    gens = [snap_gen(10, 4, SNAP_KINDS, [], num=120 * k), snap_gen(30, 10, SNAP_KINDS, [], num=60 * k),
            snap_gen(20, 6, ["ahist", "rhist", "lahist", "lrhist", "wahist", "wrhist"], [], num=60 * k),
            snap_gen(12, 5, ["lcounter", "lgauge", "cnone", "cother"], [], num=60 * k)]
    scen, huge = [], []
    for s in ctx.generate_all(gens):
        s["steps"].append(dict(op="snap", i=0, k="-", p="-"))
        scen.append(snap_fill(rnd, s, False))
    # many metrics at once
    for _ in range(ctx.q(2, 20)):
        big = [dict(op="reg", i=11 + j, k=rnd.choice(SNAP_KINDS), p=rnd.choice(["boxed", "pinned"])) for j in range(90)]
        first = dict(counter="set", gauge="set", ahist="rec", rhist="upd")
        first |= {p + k: v for k, v in first.items() for p in "lcw"}
        big += [dict(op=first.get(x["k"], "-"), i=x["i"], k=x["k"], p="-") for x in big]
        big = [x for x in big if x["op"] != "-"]
        big += [dict(op="snap", i=0, k="-", p="-")] * 1
        scen.append(snap_fill(rnd, dict(steps=[dict(x) for x in big]), False))
    for _ in range(ctx.q(1, 4)):        # and very many
        big = [dict(op="reg", i=11 + j, k=rnd.choice(["counter", "gauge", "counter", "ahist"]), p="boxed") for j in range(ctx.q(330, 900))]
        big += [dict(op=dict(counter="set", gauge="set", ahist="rec")[x["k"]], i=x["i"], k=x["k"], p="-") for x in big]
        huge.append(snap_fill(rnd, dict(steps=[dict(x) for x in big] + [dict(op="snap", i=0, k="-", p="-")]), False))
    rnd.shuffle(scen)
    ev = snap_run(ctx, exe, scen, 100, 6, "snapshots")
    snap_run(ctx, exe, huge, ctx.q(350, 920), 1, "large snapshots")
    crowd(ctx, rnd, ["snap"], ["counter", "gauge", "histogram"])
    if not ctx.quick:
        snap_selftest(ctx, ev, 100)


@prop("C17")
def snapshot_concurrent(ctx):
    rnd = random.Random(ctx.seed * 43 + 17)
    exe = build("expo") + "/snap"
    ctx.assumptions += ["Interleavings at the filter calls are forced; those within the reading of one metric are sampled."]
    ctx.model_check("MC_Snapshot", "MC_Snapshot_ok.cfg", dict(MAX=ctx.q(5, 6)))
    ctx.model_check("MC_Snapshot", "MC_Snapshot_nofreeze.cfg", expect_violation=True)
    k = ctx.q(1, 10)
    gens = [snap_gen(25, 5, SNAP_KINDS, [1], num=100 * k), snap_gen(40, 8, ["counter", "gauge", "ahist", "rhist"], [1, 2], num=80 * k),
            snap_gen(25, 4, ["counter", "lcounter", "ahist", "lahist", "lrhist"], [1], num=80 * k)]
    scen = [snap_fill(rnd, s, True) for s in ctx.generate_all(gens)]
    for i in range(ctx.q(60, 600)):
        scen.append(snap_stress(rnd, i + 1))
    rnd.shuffle(scen)
    ev = snap_run(ctx, exe, scen, 30, 4, "concurrent snapshots")
    scen = [dict(burst=dict(snaps=ctx.q(400, 3000), writers=w)) for w in ctx.q([1, 2, 4], [1, 2, 4, 6, 7] * 4)]
    for th in ctx.q([1, 2, 4, 6], [1, 2, 3, 4, 5, 6, 7] * 3):
        def toggles():
            half = [rnd.randrange(8) for _ in range(rnd.choice([3, 5, 7]))]
            return half + (half if rnd.random() < 0.3 else half[::-1])
        scen.append(dict(cycle=dict(snaps=ctx.q(20000, 100000), toggles=[toggles() for _ in range(th)])))
    snap_run(ctx, exe, scen, 30, 1, "snapshots during tight loops")
    if not ctx.quick:
        snap_selftest(ctx, ev, 30)


# ---------------------------------------------------------------- C19, C20, C21
ORDERED_KEYS = ["name", "op", "state", "direction", "id", "unit", "grouping_power", "max_value_power"]
VAL_POOL = ["", "a", "b", "a/b", "/", "read", "write", "0", "1"]
VAL_MORE = ["00", "007", "10", "-1", "1.0", " ", " a", "a ", "A", "READ", "Read", "_", "a//b", "/a", "a/", "a_b", "a-b", "a.b", "a:b", "\u00e9", "e\u0301", "a" * 300,
            "none", "null", "metric", "name", "id", "total", "\t", "\n"]


def sorted_pairs(d):
    return [[k, d[k]] for k in sorted(d, key=lambda s: s.encode("utf-8"))]


def identity(rnd, naming):
    """A metric as a recording shows it: a reported name and metadata."""
    val = lambda: rnd.choice(VAL_POOL) if rnd.random() < 0.6 else rnd.choice(VAL_MORE) if rnd.random() < 0.7 else word_of(rnd)
    meta = {}
    if rnd.random() < (0.85 if naming else 0.4):
        meta["metric"] = val()
        for k in ORDERED_KEYS:
            if rnd.random() < 0.35:
                meta[k] = val()
        for _ in range(rnd.choice([0, 0, 1, 2, 4])):
            meta[rnd.choice(["cpu", "node", "A", "zz", "Name", "ID", "metric_type", "description", "nam", "opx", "Metric", "metric ", "Unit", "unit_", "units", "State", "", "-",
                             "idx", "Id", "names", "direction2", "op ", "max_value", "zone", "~", word_of(rnd)])] = val()
    else:
        for _ in range(rnd.choice([0, 0, 1, 2])):
            meta[rnd.choice(["unit", "id", "op", "description", "timestamp", word_of(rnd)])] = val()
    name = rnd.choice(["a", "b", "", "a/b", "read", "timestamp", "duration", "x:buckets", "a:buckets", word_of(rnd), f"{rnd.randrange(9)}x3"])
    return name, meta


HIST_CFG = [(0, 1), (0, 2), (1, 3), (0, 6), (2, 4)]
HIST_MORE = [(g, m) for g in range(8) for m in range(g + 1, 65) if buckets(g, m) <= 150]
HIST_MORE += [c for c in HIST_MORE if buckets(*c) & (buckets(*c) - 1) == 0] * 3


def numeral(rnd, kind, big=False):
    n = rnd.choice(BOUNDARY + [rnd.getrandbits(64), rnd.getrandbits(20), 0, 7])
    if kind == "gauge":
        n = n - (1 << 64) if n >> 63 else n
    return str(n)


def reading(rnd, k, ident, cfgs=HIST_CFG):
    name, meta = ident
    if rnd.random() < 0.2:        # what does not contribute to the name may change
        meta = dict(meta, unit=rnd.choice(VAL_POOL)) if "metric" in meta else dict(meta, extra=rnd.choice(VAL_POOL))
    r = dict(k=k, name=name, meta=sorted_pairs(meta))
    if k == "histogram":
        g, m = rnd.choice(cfgs)
        if cfgs is HIST_CFG and rnd.random() < 0.2:
            g, m = rnd.choice(HIST_MORE)
        dens = rnd.choice([0, 0.1, 0.5, 1]) if buckets(g, m) < 1000 else rnd.choice([0, 0.0003, 0.002])
        r["g"], r["m"] = g, m
        r["v"] = [str(rnd.choice([1, 2, (1 << 64) - 1, rnd.getrandbits(64)])) if rnd.random() < dens else "0" for _ in range(buckets(g, m))]
    else:
        r["v"] = numeral(rnd, k)
    return r


def filemeta(rnd, n):
    return sorted_pairs({rnd.choice(["source", "version", word_of(rnd)]): rnd.choice(VAL_POOL + [word_of(rnd)]) for _ in range(n * 2)})


def snap_of(rnd, ver, fm, reads):
    return dict(ver=ver, ts=str(rnd.choice([0, 1, 999999999, 10**9, (1 << 63), (1 << 64) - 1, rnd.getrandbits(64), 1700000000 * 10**9 + rnd.getrandbits(29)])),
                dur=[] if ver == 1 else [str(rnd.choice([0, 1, 10**9, (1 << 64) - 1, rnd.getrandbits(40)]))],
                meta=filemeta(rnd, fm), reads=reads)


def table_fill(rnd, g, naming=False, cfgs=HIST_CFG, ids=None):
    ids = {} if ids is None else ids
    opts = dict(batch=g["batch"], sparse=g["sparse"], codec=g["codec"], level=rnd.choice([1, 2, 3, 3, 7, 19]))
    sc = dict(schema=[], push=[], opts=opts, extra=filemeta(rnd, g["extra"]))
    for s in g["snaps"]:
        reads = []
        for r in s["reads"]:
            # the same metric number names different things in different kinds, sometimes
            key = (r["j"], r["k"] if r["j"] % 2 else "any")
            if key not in ids:
                ids[key] = identity(rnd, naming)
            reads.append(reading(rnd, r["k"], ids[key], cfgs))
        snap = snap_of(rnd, s["ver"], s["fm"], reads)
        if s["role"] in ("both", "schema"):
            sc["schema"].append(snap)
        if s["role"] in ("both", "rows"):
            sc["push"].append(snap)
    return sc


SPECIAL = ["name", "op", "state", "direction", "id", "unit", "grouping_power", "max_value_power"]


def naming_sweep(rnd):
    """The rule of names, key by key: subsets of the special keys, single values, other keys, pairs of keys in their order."""
    vals = ["", "0", "1", "-1", "00", "true", "false", "None", "null", "nan", "/", "//", "a/", "/a", "a/b", ":", ".", "..", " ", " a", "a ", "a b", "A", "_", "__", "-",
            "timestamp", "duration", "metric", "id", "name", "x:buckets", "total", "all", "\u00e9", "\u65e5", "\n", "\t", "\0", "\"", "\\", "%", "*", "?", "#", "v" * 300]
    keys = ["", "a", "z", "A", "Z", "_", "__", "__name__", "__x", "_x", "x_", "-", ".", "/", " ", "0", "9", "le", "quantile", "description", "timestamp", "metric_type",
            "metric_", "_metric", "Metric", "METRIC", "metrics", "metri", "ID", "Id", "ids", "id_", "_id", "i", "Name", "NAME", "names", "nam", "name_", "Op", "ops", "o", "State",
            "states", "Direction", "directions", "dir", "Unit", "units", "uni", "grouping", "grouping_power_", "Grouping_power", "max_value", "max_value_power2", "maxvaluepower",
            "value", "cpu", "core", "numa_node", "device", "type", "kind", "group", "source", "k" * 300, "\u00e9", "\u65e5", "\0", "\n", "~", "\x7f", "\uffff", "\U0001F600"]
    metas = []
    for bits in range(256):
        sub = [k for i, k in enumerate(SPECIAL) if bits >> i & 1]
        metas.append(dict({k: "V" + k for k in sub}, metric="M" + str(bits % 3), **({"other": "O"} if rnd.random() < 0.3 else {})))
        if bits % 4 == 0:       # the same without the key that matters
            metas.append({k: "V" + k for k in sub})
    for k in ["metric"] + SPECIAL[:5] + ["cpu"]:
        metas += [dict({"metric": "m"}, **{k: v}) for v in vals]
        metas += [dict({"metric": "m", "name": "n", "id": "7", "zone": "z"}, **{k: v}) for v in rnd.sample(vals, 12)]
    for k in keys:
        metas += [{"metric": "m", k: "v"}, {"metric": "m", "id": "i", "op": "o", k: rnd.choice(vals)}, {k: "m"}]
    for _ in range(150):
        metas.append(dict({"metric": "m"}, **{k: f"{i}" for i, k in enumerate(rnd.sample(keys, rnd.choice([2, 2, 3, 6, 20])))}))
    rnd.shuffle(metas)
    for i in range(0, len(metas), 30):
        reads = []
        for j, m in enumerate(metas[i:i + 30]):
            k = ("counter", "gauge", "histogram")[(i // 30 + j // 10) % 3]
            r = dict(k=k, name=rnd.choice([f"r{j}", "r", "a/b"]), meta=sorted_pairs(m), v=str(j))
            if k == "histogram":
                r.update(g=0, m=1, v=[str(j), "1"])
            reads.append(r)
        snap = snap_of(rnd, 2, 0, reads)
        yield dict(schema=[snap], push=[snap, snap_of(rnd, 1, 0, rnd.sample(reads, len(reads)))], extra=[],
                   opts=dict(batch=50000, sparse=rnd.random() < 0.5, codec="none", level=1))


def table_gen(snaps, reads, metrics, batches, roles=("both", "schema", "rows"), **kw):
    return dict(module="Gen_Table", cfg="Gen_Table.cfg", subst=dict(
        SNAPS=snaps, READS=reads, METRICS=tset(range(1, metrics + 1)), BATCHES=tset(batches), ROLES=tset(roles)), **kw)


def doctor_table(ctx, ev, aspects):
    i = max(j for j, e in enumerate(ev) if e["e"] == "closed" and any(c["type"] == "u64" and [] not in c["vals"] and c["vals"] for c in e["cols"]))
    lo = max(j for j, e in enumerate(ev[:i]) if e["e"] == "new")
    import copy
    bad = copy.deepcopy(ev[lo:i + 1])
    c = next(c for c in bad[-1]["cols"] if c["type"] == "u64" and [] not in c["vals"] and c["vals"])
    c["vals"][-1] = [c["vals"][-1][0] + "1"]
    ctx.must_reject("Trace_Table", "Trace_Table.cfg", bad, dict(ASPECTS=tset(aspects)), what="one cell differs", dfs=False)
    bad = copy.deepcopy(ev[lo:i + 1])
    bad[-1]["cols"].pop()
    ctx.must_reject("Trace_Table", "Trace_Table.cfg", bad, dict(ASPECTS=tset(aspects)), what="a column is missing", dfs=False)


@prop("C19", "C20", "C21")
def tables(ctx):
    rnd = random.Random(ctx.seed * 47 + int(ctx.prop[1:]))
    exe = build("expo") + "/table"
    ctx.assumptions += ["Times before 1970 or after 2554 and a batch size of 0 are outside the domain.",
                        "If several readings of one snapshot share a column its cell is one of them."]
    ctx.model_check("MC_Table", "MC_Table_ok.cfg", dict(MAX=ctx.q(3, 4)))
    for v in dict(C19=["shift", "late", "kinds"], C20=["kinds"], C21=["lost", "shift"])[ctx.prop]:
        ctx.model_check("MC_Table", f"MC_Table_{v}.cfg", expect_violation=True)
    k = ctx.q(1, 12)
    both = ("both",)
    if ctx.prop == "C19":
        aspects = ["colmeta", "meta"]
        gens = [table_gen(1, 4, 2, [1, 50000], num=80 * k), table_gen(3, 5, 3, [1, 2, 50000], num=150 * k),
                table_gen(8, 6, 4, [1, 3, 8, 50000], num=60 * k), table_gen(0, 0, 1, [1], num=6, roles=both),
                table_gen(25, 12, 8, [4, 7], num=8 * k)]
        scen = [table_fill(rnd, g) for g in ctx.generate_all(gens)]
        for n in ctx.q([120], [120, 300, 600]):        # many columns
            snaps = [dict(ver=2, fm=1, role="both", reads=[
                dict(k=kk, j=j) for kk in ("counter", "gauge", "histogram") for j in range(1, n + 1) if rnd.random() < 0.8]) for _ in range(3)]
            scen.append(table_fill(rnd, dict(batch=2, sparse=False, codec="none", extra=1, snaps=snaps), naming=True, cfgs=[(0, 1)]))
        for n in ctx.q([150, 300], [150, 300, 2000]):        # many rows
            snaps = [dict(ver=rnd.choice([1, 2]), fm=0, role="both", reads=[
                dict(k=kk, j=j) for kk in ("counter", "gauge", "histogram") for j in (1, 2, 3) if rnd.random() < 0.7]) for _ in range(n)]
            g = dict(batch=rnd.choice([7, 64, 50000]), sparse=rnd.random() < 0.5, codec="zstd", extra=0, snaps=snaps)
            empty = {(j, kk): ("", {}) for kk in ("counter", "gauge", "histogram", "any") for j in (1, 2)}
            scen.append(table_fill(rnd, g, cfgs=[(0, 2)], ids=dict(empty)))
    elif ctx.prop == "C20":
        aspects = []
        gens = [table_gen(1, 6, 5, [50000], num=120 * k, roles=both), table_gen(4, 8, 6, [2, 50000], num=150 * k),
                table_gen(2, 20, 16, [50000], num=30 * k, roles=both)]
        scen = [table_fill(rnd, g, naming=True) for g in ctx.generate_all(gens)]
        scen += naming_sweep(rnd)
    else:
        aspects = ["groups", "codec"]
        gens = [table_gen(n, 4, 3, [1, 2, 3, 4, 5], num=x * k, roles=both) for n, x in ((1, 20), (2, 20), (3, 20), (5, 20), (6, 20), (12, 15))]
        scen = [table_fill(rnd, g) for g in ctx.generate_all(gens)]
        # the same recording with all kinds of options
        base = [table_fill(rnd, g) for g in ctx.generate("Gen_Table", "Gen_Table.cfg", dict(
            SNAPS=10, READS=4, METRICS="{1,2,3}", BATCHES="{1}", ROLES='{"both"}'), num=ctx.q(2, 10))]
        for b in base:
            for batch in (1, 2, 3, 4, 5, 9, 10, 11, 1024):
                for sparse in (False, True):
                    for level in (0, 1, 3, ctx.q(9, 22)):
                        scen.append(dict(b, opts=dict(batch=batch, sparse=sparse, codec="zstd" if level else "none", level=level)))
        # large histograms, many rows
        for g in ctx.generate_all([table_gen(3, 3, 2, [2, 50000], num=ctx.q(6, 40), roles=both)]):
            scen.append(table_fill(rnd, g, cfgs=[(5, 16), (4, 64), (0, 64)]))
        for i, cfg in enumerate(ctx.q([(7, 64), (11, 64), (13, 16)], [(7, 64), (7, 64), (11, 64), (11, 64), (13, 16), (15, 17), (12, 40)])):
            for sparse in (False, True):
                g = dict(batch=2, sparse=sparse, codec="none", extra=0, snaps=[
                    dict(ver=2, fm=0, role="both", reads=[dict(k="histogram", j=1)]) for _ in range(3)])
                scen.append(table_fill(rnd, g, cfgs=[cfg]))
        for n, batch in ctx.q([(1030, 1024), (700, 64)], [(1030, 1024), (700, 64), (3000, 1000), (2049, 1024), (512, 1)]):
            g = dict(batch=batch, sparse=rnd.random() < 0.5, codec="zstd", extra=0, snaps=[
                dict(ver=rnd.choice([1, 2]), fm=0, role="both", reads=[
                    dict(k=kk, j=1) for kk in ("counter", "gauge", "histogram") if rnd.random() < 0.7]) for _ in range(n)])
            scen.append(table_fill(rnd, g, cfgs=[(0, 2)]))
        for level in range(1, 23):      # every level there is
            scen.append(dict(rnd.choice(scen[:60]), opts=dict(batch=rnd.choice([1, 50000]), sparse=level % 2 == 0, codec="zstd", level=level)))
        for batch in [rnd.randrange(513, 1100), 50000, rnd.randrange(65537, 69000), (1 << 30) + 5]:       # more rows than that
            n = rnd.choice([batch + 1, batch + 700]) if batch < 1 << 20 else 66000
            scen.append(table_fill(rnd, dict(batch=batch, sparse=False, codec="zstd", extra=0, snaps=[
                dict(ver=2, fm=0, role="both", reads=[dict(k="counter", j=1)] if i % 5000 == 1 else []) for i in range(n)])))
    rnd.shuffle(scen)
    out = ctx.drive_sharded(exe, None, scen, shards=6, what="tables")
    ev = ctx.validate("Trace_Table", "Trace_Table.cfg", out, dict(ASPECTS=tset(aspects)), what="tables", dfs=False)
    if not ctx.quick:
        doctor_table(ctx, ev, aspects)


# ---------------------------------------------------------------- C18
@prop("C18")
def codec(ctx):
    rnd = random.Random(ctx.seed * 53 + 18)
    exe = build("expo") + "/codec"
    ctx.assumptions += ["Times before 1970 cannot be encoded (serde) and are outside the domain."]
    ctx.model_check("MC_Codec", "MC_Codec_ok.cfg", dict(MAX=ctx.q(2, 3)))
    ctx.model_check("MC_Codec", "MC_Codec_bad.cfg", expect_violation=True)
    k = ctx.q(1, 15)
    gen = lambda mx, counts, num: dict(module="Gen_Codec", cfg="Gen_Codec.cfg", subst=dict(MAX=mx, COUNTS=tset(counts)), num=num * k)
    scen = []
    for g in ctx.generate_all([gen(1, [0, 1, 2], 300), gen(3, [0, 1, 3], 200), gen(8, [0, 1, 5], 60), gen(2, [0, 20], 20)]):
        snaps = []
        for s in g["snaps"]:
            reads = [reading(rnd, kind, (word_of(rnd), {word_of(rnd): word_of(rnd) for _ in range(rnd.choice([0, 1, 3]))}),
                             [(0, 1), (1, 3), (7, 64), (3, 20)])
                     for kind, n in (("counter", s["c"]), ("gauge", s["g"]), ("histogram", s["h"])) for _ in range(n)]
            if rnd.random() < 0.4:      # the same again, beside itself and further away
                for _ in range(rnd.choice([1, 1, 3])):
                    again = [dict(r) for r in reads if rnd.random() < 0.5]
                    reads = [x for r in reads for x in [r] + [a for a in again if a == r][:1]] if rnd.random() < 0.5 else reads + again
            snap = snap_of(rnd, s["ver"], s["fm"], reads)
            snap["ts"] = str(rnd.choice([int(snap["ts"]), (1 << 62) * 10**9 + 999999999, 10**9 - 1, rnd.getrandbits(90)]))
            if snap["dur"]:
                snap["dur"] = [str(rnd.choice([int(snap["dur"][0]), ((1 << 64) - 1) * 10**9 + 999999999, rnd.getrandbits(80)]))]
            snaps.append(snap)
        scen.append(dict(g, snaps=snaps))
    # beyond the short forms of the encodings: long strings, many attributes, many readings
    for i in range(ctx.q(3, 12)):
        g = rnd.choice(scen)
        n = rnd.choice([16, 33, 256, 300])
        long = "".join(rnd.choice(["k\u00e9", "\"", "y", "\n"]) for _ in range(rnd.choice([31, 32, 255, 256, 65536])))
        reads = [reading(rnd, kind, (f"{long if j == 0 else j}", {f"k{x}": str(x) for x in range(n if j == 1 else 0)}), [(0, 2)])
                 for kind in ("counter", "gauge", "histogram") for j in range(n)]
        snap = snap_of(rnd, 1 + i % 2, 1, reads)
        snap["meta"] = [["k" + long, long]] + [[f"m{x}", ""] for x in range(n)]
        snap["meta"] = sorted_pairs(dict(map(tuple, snap["meta"])))
        scen.append(dict(g, snaps=[snap] + g["snaps"][:1]))
    # beyond 16 bits: many readings of one kind, many attributes, a long string
    for i, many in enumerate(["counter", "gauge", "histogram", "meta", "attr", "name"]):
        n = 65536 + rnd.choice([0, 1, 77])
        if many in ("counter", "gauge"):
            reads = [dict(k=many, name=f"{x % 100}", meta=[], v=str(x)) for x in range(n)]
        elif many == "histogram":
            reads = [dict(k=many, name=f"{x % 100}", meta=[], g=0, m=1, v=[str(x), "1"]) for x in range(n)]
        else:
            pairs = [[f"k{x:06}", str(x % 100)] for x in range(n)]
            reads = [dict(k="gauge", name="n" * n if many == "name" else "g", meta=pairs if many == "attr" else [["k" * n, "v" * n]] if many == "name" else [], v="-1")]
        snap = snap_of(rnd, 1 + (i + ctx.seed) % 2, 1, reads)
        if many == "meta":
            snap["meta"] = pairs
        g = rnd.choice(scen)
        scen.append(dict(g, fmt=["json", "msgpack"][(i // 2 + ctx.seed) % 2] if ctx.quick else g["fmt"], snaps=[snap] + g["snaps"][:1],
                         order=[many + "s" if many in ("counter", "gauge", "histogram") else "meta" if many == "meta" else "gauges"]))
    out = ctx.drive_sharded(exe, None, scen, what="encodings")
    ev = ctx.validate("Trace_Codec", "Trace_Codec.cfg", out, what="encodings", dfs=False)
    if not ctx.quick:
        import copy
        i = max(j for j, e in enumerate(ev) if e["e"] == "dec")
        lo = max(j for j, e in enumerate(ev[:i]) if e["e"] == "new")
        bad = copy.deepcopy(ev[lo:i + 1])
        bad[-1]["s"]["ts"] += "0"
        ctx.must_reject("Trace_Codec", "Trace_Codec.cfg", bad, what="the time differs", dfs=False)


# ---------------------------------------------------------------- C22, C23
def conv_gen(snaps, reads, faults, apis, batches=(1, 2, 50000), metrics=4, **kw):
    return dict(module="Gen_Convert", cfg="Gen_Convert.cfg", subst=dict(
        SNAPS=snaps, READS=reads, METRICS=tset(range(1, metrics + 1)), BATCHES=tset(batches), FAULTS=tset(faults), APIS=tset(apis)), **kw)


def conv_fill(rnd, g, mx, cfgs=HIST_CFG):
    t = table_fill(rnd, g, naming=rnd.random() < 0.3, cfgs=cfgs)
    return dict(ss=t["push"], opts=t["opts"], extra=t["extra"], max=mx,
                **{k: g[k] for k in ("fault", "api", "chunk", "short", "sticky")})


@prop("C22", "C23")
def conversions(ctx):
    rnd = random.Random(ctx.seed * 59 + int(ctx.prop[1:]))
    exe = build("expo") + "/convert"
    ctx.model_check("MC_Convert", "MC_Convert_ok.cfg", dict(MAX=ctx.q(5, 8)))
    for v in ("eof1", "eof2", "close", "stay", "cut"):
        ctx.model_check("MC_Convert", f"MC_Convert_{v}.cfg", expect_violation=True)
    k = ctx.q(1, 10)
    if ctx.prop == "C22":
        ctx.assumptions += ["Times before 1970 or after 2554 and a batch size of 0 are outside the domain."]
        aspects = ["colmeta", "groups", "meta", "codec"]
        gens = [conv_gen(0, 0, ["none"], ["handle", "path", "file"], num=12 * k),
                conv_gen(1, 4, ["none"], ["handle", "path", "file"], num=80 * k),
                conv_gen(4, 4, ["none"], ["handle", "path"], num=120 * k),
                conv_gen(12, 4, ["none"], ["handle", "file"], [1, 5, 12, 50000], num=40 * k)]
        scen = [conv_fill(rnd, g, 0) for g in ctx.generate_all(gens)]
        # beyond the size of a buffer
        for g in ctx.generate_all([conv_gen(8, 8, ["none"], ["handle", "path"], num=ctx.q(6, 60))]):
            scen.append(conv_fill(rnd, g, 0, [(5, 16), (4, 64), (6, 20)]))
        for n in ctx.q([300], [300, 2000]):
            g = dict(batch=128, sparse=True, codec="zstd", extra=1, fault="none", api="path", chunk=0, short=False, sticky=False,
                     snaps=[dict(ver=rnd.choice([1, 2]), fm=rnd.choice([0, 1]), role="both", reads=[
                         dict(k=kk, j=j) for kk in ("counter", "gauge", "histogram") for j in (1, 2) if rnd.random() < 0.7]) for _ in range(n)])
            scen.append(conv_fill(rnd, g, 0))
        one = dict(extra=1, fault="none", chunk=0, short=False, sticky=False)
        # more rows than 16 bits count
        n = 65536 + rnd.randrange(1, 300)
        scen.append(conv_fill(rnd, dict(one, batch=50000, sparse=False, codec="zstd", api="handle", snaps=[
            dict(ver=2, fm=0, role="both", reads=[dict(k="gauge", j=1)] if i % 9000 == 7 else [dict(k="counter", j=2)] if i == n - 1 else []) for i in range(n)]), 0))
        # more bytes than any buffer holds
        t = conv_fill(rnd, dict(one, batch=64, sparse=True, codec="none", api="path", snaps=[
            dict(ver=1, fm=0, role="both", reads=[dict(k="counter", j=1 + i % 3), dict(k="histogram", j=1)] + [dict(k="gauge", j=i)] * (i % 13 == 11)) for i in range(90)]), 0)
        for i, x in enumerate(t["ss"]):
            x["meta"] = [["long", f"{i}" + rnd.choice("abc") * rnd.randrange(60000, 70000)]]
        scen.append(t)
        # one snapshot alone is
        t = conv_fill(rnd, dict(one, batch=3, sparse=False, codec="zstd", api="handle", snaps=[
            dict(ver=2, fm=0, role="both", reads=[dict(k="counter", j=1), dict(k="gauge", j=1), dict(k="histogram", j=1)]) for i in range(4)]), 0)
        t["ss"][1]["meta"] = [["long", "x" * 9_000_000]]
        t["ss"][2]["reads"][rnd.randrange(3)]["meta"] = [["note", "y" * 3_000_000]]
        scen.append(t)
    else:
        ctx.assumptions += ["Failing operations report a real error; ErrorKind::Interrupted (retry) is not a failure."]
        aspects = []
        io = ["read", "seek", "write", "flush", "zero"]
        mx = ctx.q(30, 400)
        gens = [conv_gen(n, 3, io, ["handle"], num=x * k) for n, x in ((0, 10), (1, 25), (3, 40), (7, 10))]
        gens += [conv_gen(n, 2, ["truncate"], ["handle", "path"], num=x * k) for n, x in ((1, 6), (3, 8))]
        gens += [conv_gen(n, 3, ["flip"], ["handle"], num=x * k) for n, x in ((1, 10), (3, 10))]
        gens += [conv_gen(n, 2, ["junk"], ["handle"], num=x * k) for n, x in ((0, 1), (2, 5))]
        gens += [conv_gen(2, 3, ["noinput", "dirinput", "nooutput", "full"], ["path"], num=15 * k),
                 conv_gen(0, 0, ["noinput", "nooutput", "full"], ["path"], num=6 * k)]
        scen = [conv_fill(rnd, g, mx) for g in ctx.generate_all(gens)]
        for g in ctx.generate_all([conv_gen(5, 6, io + ["truncate"], ["handle"], num=ctx.q(6, 40))]):
            scen.append(conv_fill(rnd, g, mx, [(5, 16), (4, 64)]))
        # failures in the middle of the rows, over when they have been seen
        for op in ("write", "zero"):
            for sparse in (False, True):
                g = dict(batch=rnd.choice([1, 2]), sparse=sparse, codec="none", extra=0, fault=op, api="handle", chunk=0, short=False,
                         sticky=False, snaps=[dict(ver=2, fm=0, role="both", reads=[
                             dict(k="histogram", j=j) for j in range(1, 7)]) for _ in range(4)])
                t = conv_fill(rnd, g, mx, [(4, 64)])
                for x in t["ss"]:
                    for rd in x["reads"]:
                        rd["v"] = [str(rnd.getrandbits(64) | 1) for _ in rd["v"]]
                scen.append(t)
    rnd.shuffle(scen)
    out = ctx.drive_sharded(exe, None, scen, shards=6, what="conversions")
    ev = ctx.validate("Trace_Convert", "Trace_Convert.cfg", out, dict(ASPECTS=tset(aspects)), what="conversions", dfs=False)
    if not ctx.quick:
        i = max(j for j, e in enumerate(ev) if e["e"] == "done")
        for what, change in (("one row too few is reported", lambda e: e.update(rows=e["rows"] - 1)),
                             ("a conversion fails for no reason", lambda e: (e.clear(), e.update(e="failed")))):
            bad = [dict(ev[i - 1]), dict(ev[i])]
            change(bad[1])
            ctx.must_reject("Trace_Convert", "Trace_Convert.cfg", bad, dict(ASPECTS=tset(aspects)), what=what, dfs=False)
        if any(e["e"] == "failed" for e in ev):
            i = max(j for j, e in enumerate(ev) if e["e"] == "failed" and ev[j - 1]["e"] == "fault")
            bad = [dict(ev[i - 2]), dict(ev[i])]
            ctx.must_reject("Trace_Convert", "Trace_Convert.cfg", bad, dict(ASPECTS=tset(aspects)), what="no fault, but failed", dfs=False)


# ---------------------------------------------------------------- C15
DECL_EDITS = ["extra", "missing", "replaced", "again", "keyagain", "tail", "unknown"]


@prop("C15")
def declare(ctx):
    import declare as D
    rnd = random.Random(ctx.seed * 41 + 15)
    ctx.assumptions += ["Expressions are limited to the classes listed in Declare.tla (string constants, formatting functions, paths).",
                        "Whether a comma after the last argument is tolerated is left open.",
                        "A declaration counts as rejected if the compiler reports an error inside it."]
    ctx.model_check("MC_Declare", "MC_Declare_ok.cfg", dict(MAXLEN=ctx.q(11, 15)))
    ctx.model_check("MC_Declare", "MC_Declare_last.cfg", dict(MAXLEN=8), expect_violation=True)
    kn = '{"k1", "k2", "k3"}'
    gen = lambda **k: dict(module="Gen_Declare", cfg="Gen_Declare.cfg", num=k.pop("num", 100), simulate=k.pop("simulate", True),
                           subst=dict(dict(ARGS=5, KEYS=3, EDITS=tset(["none"]), ATS="{0}", LITS='{"v1", "v2"}', KNAMES=kn), **k))
    every, = [ctx.generate(**gen(KEYS=0, LITS='{"v1"}', KNAMES="{}", simulate=False))]
    # every subset of the arguments in every order (the value classes are drawn)
    shape = {}
    for s in every:
        shape.setdefault(tuple(t["s"] or t["t"] for t in s["toks"] if t["t"] in ("id", "kw")), []).append(s)
    # every list of up to four arguments (three keys) with one given twice
    twice = {}
    for g in ctx.generate_all([gen(KEYS=0, ARGS=4, LITS='{"v1"}', KNAMES="{}", simulate=False, EDITS=tset(["again"]),
                                   ATS="{" + ", ".join(map(str, range(16))) + "}"),
                               gen(KEYS=2, ARGS=1, LITS='{"v1"}', KNAMES='{"k1", "k2"}', simulate=False, EDITS=tset(["keyagain"]), ATS="{0, 8}")]):
        ts = g["toks"]
        k = tuple((a["t"], a["s"]) for a, b in zip(ts, ts[1:]) if b["t"] == "eq")
        if len({x[1] for x in k}) < len(k):
            twice.setdefault(k, []).append(g)
    rounds = ctx.q(1, 6)
    trace = []
    for rd in range(rounds):
        base = ctx.seed * 100 + rd
        some = ctx.generate_all([gen(num=ctx.q(250, 700), seed=base)])
        bad = ctx.generate_all([
            gen(num=ctx.q(500, 1200), seed=base + 50, EDITS=tset(DECL_EDITS), ATS="{" + ", ".join(map(str, range(24))) + "}"),
            gen(num=ctx.q(400, 800), seed=base + 60, EDITS=tset(["keyagain", "again"]), ATS="{0, 4, 8}", LITS='{"v1"}', ARGS=3)])
        bad += [rnd.choice(v) for v in twice.values()]
        seen = {str(s) for s in some}
        bad = [s for s in bad if str(s) not in seen and not seen.add(str(s))]
        lists = [rnd.choice(v) for v in shape.values()] + some
        decls = []
        for i, s in enumerate(lists + bad, 1):
            words = {}
            used = set()
            for k in ("k1", "k2", "k3"):
                words[k] = rnd.choice([w for w in ("unit", "op", "metric", "id", "state", "k", "_k", "K9", "long_" * 20 + "key", "a__b", "__x", "x_", "__", "clé", "value", "self_", "x") if w not in used])
                used.add(words[k])
            if rnd.random() < 0.5:      # keys that are almost the same
                ks = rnd.choice([("unit", "Unit", "UNIT"), ("k", "K", "_k"), ("op", "op_", "Op"), ("k1", "k01", "K1"),
                                 ("cl\u00e9", "cle", "Cl\u00e9"), ("a_b", "ab", "a__b"), ("x", "xx", "xX")])
                words.update(zip(("k1", "k2", "k3"), rnd.sample(ks, 3)))
                used = set(words.values())
            for k in ("v1", "v2"):
                near = words["k1"]
                w = word_of(rnd) if rnd.random() < 0.6 else rnd.choice([near + " ", " " + near, near.swapcase(), near + "\t", near + "\u0301", near[::-1]])
                while w in used or w == "name":
                    w = word_of(rnd)
                words[k] = w
                used.add(w)
            d = D.Decl(rnd, i, s["toks"], words)
            good = i <= len(lists)
            if good and rnd.random() < 0.35:
                p = rnd.choice(D.OUTER)
                hascrate = any(t["t"] == "kw" for t in s["toks"])
                if p in ("lib", "renamed"):
                    d.crate = p
                elif p == "facade" and hascrate:
                    d.crate = p
                elif p == "libmacro":
                    d.pos = p
                elif p == "libmacroplain":
                    d.pos, d.toks = p, [dict(t="kw", s=""), dict(t="eq", s=""), dict(t="path", s="ok")]
            if d.crate != "main":
                d.pos = rnd.choice(["item", "fnbody", "nested", "deadfn", "constblock", "method", "closure", "attrs"])
            if d.pos in D.UNPROBED:
                d.ty = "Tagged"
            if good and d.pos == "item" and rnd.random() < 0.25:
                d.item = rnd.choice(list(D.NOTSTATIC) + ["absent", "absent"])
            decls.append(d)
        trace += D.compile_and_run(ctx, decls, f"round {rd}")
    out = ctx.write("trace", trace)
    ev = ctx.validate("Trace_Declare", "Trace_Declare.cfg", out, what="declared metrics", dfs=False)
    if not ctx.quick:
        one = ev[:next(i for i, e in enumerate(ev) if e["e"] == "listing") + 1]
        last = one[-1]
        for what, f in (("an entry is listed twice", lambda x: x + [x[0]]), ("an entry is missing", lambda x: x[1:]),
                        ("a description differs", lambda x: [dict(x[0], desc=x[0]["desc"] + ["?"])] + x[1:])):
            ctx.must_reject("Trace_Declare", "Trace_Declare.cfg", one[:-1] + [dict(last, entries=f(last["entries"]))], what=what, dfs=False)
        i = next(i for i, e in enumerate(one) if e["e"] == "decl" and not e["ok"] and e["item"] == "static"
                 and e["toks"][-1:] != [dict(t="comma", s="")])
        ctx.must_reject("Trace_Declare", "Trace_Declare.cfg", one[:i] + [dict(one[i], ok=True)], what="a wrong declaration compiles", dfs=False)
