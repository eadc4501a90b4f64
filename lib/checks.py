"""One function per property: what is built, driven, judged and model checked."""
import json
import os
import time
from vlib import Infra, REPO

CHECKS = {}


def check(p):
    def d(f):
        CHECKS[p] = f
        return f
    return d


def confirm(ctx, binary, args, rec, tries=3):
    """Crashes, exits and hangs are reported only if they repeat."""
    sh, it = rec["id"].split("-")[:2]
    for _ in range(tries):
        recs = ctx.drive_one(binary, args, int(sh), int(it), tag="re%s" % rec["id"])
        for r in recs:
            if any(x.get("st", "ok") != "ok" for x in r.get("runs", [r])):
                return True
    return False


def settle(ctx, rej, binary, args, tries=3):
    """rejections -> violations; abnormal ends must repeat first"""
    conf = {}
    for rec, config, why in rej:
        if why.startswith("abnormal"):
            k = rec["id"]
            if k not in conf:
                conf[k] = len(conf) < 12 and confirm(ctx, binary, args, rec, tries)
            if not conf[k]:
                ctx.unrepeated.append("%s %s %s" % (rec["id"], config, why))
                continue
        ctx.reject(rec, config, why, key="%s|%s" % (config.split("/")[0], why.split("-")[0]))


def mccost(r):
    n, m = r["n"], len(r["e"])
    runs = len(r["runs"])
    return 0.002 + 1e-5 * n ** 3 + 2e-6 * m * runs * 3 + 2e-6 * m * n


def mincut_family(ctx, mode, defs, want, quick, thorough, big):
    count, secs, budget = quick if ctx.tier == "quick" else thorough
    bins = ctx.builds([(("hx_mincut.cpp", "hx_" + ("-".join(d) if d else "seq"), d), {}) for d in defs])
    mods = [ctx.model_bg("MCGraphs.tla", "MCGraphs.cfg", workers=2),
            ctx.model_bg("MinCut.tla", {"side": "MinCutSide.cfg", "heur": "MinCutApprox.cfg"}.get(mode, "MinCutExact.cfg"), workers=2)]
    given = ctx.spec_graphs()
    for b in bins:
        args = ["--mode", mode, "--big", str(big)]
        par = 4 if b.endswith("PARALLEL") else None
        jobs = [(args, count, secs, "rnd"), (args + ["--in", given], 0, secs / 2, "giv")]
        for a, c, s, tag in jobs:
            recs = ctx.drive(b, a, count=c, secs=s, par=par, tag=tag, mult=10)
            rej = ctx.judge("MinCutTrace.tla", "MinCutTrace-%s.cfg" % want, recs, cost=mccost, budget=budget / len(bins) / 2)
            settle(ctx, rej, b, a)
            ctx.cov["solver_runs"] = ctx.cov.get("solver_runs", 0) + sum(len(r["runs"]) for r in recs)
    for m in mods:
        m.result()


@check("C01")
def c01(ctx):
    mincut_family(ctx, "exact", [()], "all", (250, 25, 80), (6000, 200, 1500), 80)


@check("C02")
def c02(ctx):
    mincut_family(ctx, "side", [(), ("PARALLEL",)], "side", (150, 10, 60), (5000, 120, 1500), 60)


@check("C03")
def c03(ctx):
    mincut_family(ctx, "heur", [()], "all", (350, 25, 80), (6000, 200, 1500), 40)


@check("C04")
def c04(ctx):
    mincut_family(ctx, "par", [("PARALLEL",), ("PARALLEL", "SCHED")], "all", (150, 18, 80), (4000, 300, 1500), 60)


def cactus_family(ctx, mode, quick, thorough):
    count, secs, budget = quick if ctx.tier == "quick" else thorough
    bins = ctx.builds([(("hx_cactus.cpp", "hx_cactus_seq"), {}), (("hx_cactus.cpp", "hx_cactus_par", ("PARALLEL",)), {}),
                       (("hx_cactus.cpp", "hx_cactus_sched", ("PARALLEL", "SCHED")), {})])
    mods = [ctx.model_bg("MCCactus.tla", "MCCactus.cfg" if ctx.tier == "quick" else "MCCactusDeep.cfg", workers=2),
            ctx.model_bg("MinCut.tla", "MinCutSide.cfg", workers=2)]
    given = ctx.spec_graphs()
    for b in bins:
        args = ["--mode", mode, "--tmp", ctx.work]
        for a, c, s, tag in [(args, count, secs, "rnd"), (args + ["--in", given], 0, secs, "giv")]:
            recs = ctx.drive(b, a, count=c, secs=s, tag=tag, mult=10)
            rej = ctx.judge("CactusTrace.tla", "CactusTrace.cfg", recs,
                            cost=lambda r: 0.006 + 1e-5 * r["n"] ** 3 + (2.0 ** r["k"]) * len(r["e"]) * 1e-6 + 0.002 * len(r["runs"]),
                            budget=budget / 2 / len(bins))
            settle(ctx, rej, b, a)
            ctx.cov["solver_runs"] = ctx.cov.get("solver_runs", 0) + sum(len(r["runs"]) for r in recs)
    for m in mods:
        m.result()


@check("C05")
def c05(ctx):
    cactus_family(ctx, "cactus", (4000, 8, 90), (40000, 200, 1200))


@check("C06")
def c06(ctx):
    cactus_family(ctx, "balanced", (4000, 8, 90), (40000, 200, 1200))


@check("C07")
def c07(ctx):
    count, secs, budget, num = (250, 9, 90, 400) if ctx.tier == "quick" else (6000, 250, 1500, 4000)
    bins = ctx.builds([(("hx_dyn.cpp", "hx_dyn_seq"), {}), (("hx_dyn.cpp", "hx_dyn_par", ("PARALLEL",)), {}),
                       (("hx_dyn.cpp", "hx_dyn_sched", ("PARALLEL", "SCHED")), {})])
    mods = [ctx.model_bg("DynamicMinCut.tla", c, workers=2, timeout=2000)
            for c in (["DynamicMinCut.cfg", "DynamicMinCutQuick.cfg"] + ([] if ctx.tier == "quick" else ["DynamicMinCutDeep.cfg"]))]
    mods.append(ctx.model_bg("DynamicMinCut.tla", "DynamicMinCutForget.cfg", expect="violated", workers=1))
    beh = ctx.behaviours("GenDyn.tla", "GenDyn.cfg", num, 18)

    def cost(r):
        ops = len(r["ops"])
        return 0.4 if r["n"] > 40 else 0.01 + ops * 6e-4 * (1 + (max(0, r["n"] - 6)) ** 2 / 4.0)
    for b in bins:
        for a, c, tag in [([], count, "rnd"), (["--in", beh], 0, "beh")]:
            recs = ctx.drive(b, a, count=c, secs=secs, par=4 if "par" in b else None, tag=tag, mult=20)
            settle(ctx, ctx.judge("DynTrace.tla", "DynTrace.cfg", recs, cost=cost, budget=budget / 2 / len(bins)), b, a)
            ctx.cov["operations_replayed"] = ctx.cov.get("operations_replayed", 0) + sum(len(r["ops"]) for r in recs)
    for m in mods:
        m.result()


@check("C08")
def c08(ctx):
    count, secs, budget = (400, 25, 60) if ctx.tier == "quick" else (20000, 400, 1200)
    b = ctx.build("hx_mc.cpp", "hx_mc")
    mods = [ctx.model_bg("MultiCut.tla", c, workers=2, timeout=3000)
            for c in (["MultiCutQuick.cfg"] if ctx.tier == "quick" else ["MultiCut.cfg", "MultiCutDeep.cfg"])]
    mods.append(ctx.model_bg("MultiCut.tla", "MultiCutWrong.cfg", expect="violated", workers=1))
    given = ctx.spec_graphs()
    for a, c, s, tag in [(["--tmp", ctx.work], count, secs, "rnd"), (["--tmp", ctx.work, "--in", given], 0, secs / 2, "giv")]:
        recs = ctx.drive(b, a, count=c, secs=s, tag=tag, mult=10)
        rej = ctx.judge("MultiCutTrace.tla", "MultiCutTrace.cfg", recs, budget=budget,
                        cost=lambda r: 0.004 + 2e-6 * len(r["e"]) * len(r["runs"]) + (0 if r["big"] else 2e-5 * 2.2 ** min(r["n"], r["k"] * 4)))
        settle(ctx, rej, b, a, tries=8)
        ctx.cov["solver_runs"] = ctx.cov.get("solver_runs", 0) + sum(len(r["runs"]) for r in recs)
    kern(ctx, *((15000, 12, 40) if ctx.tier == "quick" else (300000, 200, 1000)))
    for m in mods:
        m.result()


def kern_cost(r):
    return 0.003 + 0.002 * len(r["steps"]) + 3e-6 * len(r["steps"]) * 2.2 ** min(r["n"], r["k"] * 3)


def kern(ctx, count, secs, budget):
    """single steps of branch and reduce; without the private rules where they
    cannot be named"""
    try:
        b = ctx.build("hx_kern.cpp", "hx_kern_rules", ("RULES",))
    except Infra:
        b = ctx.build("hx_kern.cpp", "hx_kern", ())
    a = ["--keep", "600"]
    recs = ctx.drive(b, a, count=count, secs=secs, tag="kern")
    settle(ctx, ctx.judge("KernTrace.tla", "KernTrace.cfg", recs, cost=kern_cost, budget=budget), b, a)
    ctx.cov["steps_judged"] = sum(len(r["steps"]) for r in recs)
    ctx.cov["step_runs_at_most"] = 8 * count


@check("C21")
def c21(ctx):
    quick = ctx.tier == "quick"
    mods = [ctx.model_bg("MultiCut.tla", c, workers=2, timeout=3000)
            for c in (["MultiCutQuick.cfg"] if quick else ["MultiCut.cfg", "MultiCutTri.cfg"])]
    mods += [ctx.model_bg("MultiCut.tla", c, expect="violated", workers=1) for c in (["MultiCutWrong.cfg"] if quick else ["MultiCutWrong.cfg", "MultiCutPaper.cfg"])]
    kern(ctx, *((30000, 25, 120) if quick else (1000000, 600, 3000)))
    for m in mods:
        m.result()


@check("C19")
def c19(ctx):
    quick = ctx.tier == "quick"
    mods = [ctx.model_bg("BranchQueue.tla", c, workers=2, timeout=3000)
            for c in ["BranchQueue.cfg", "BranchQueueSafe.cfg"] + ([] if quick else ["BranchQueueDeep.cfg"])]
    mods += [ctx.model_bg("BranchQueue.tla", c, expect="violated", workers=1) for c in ["BranchQueueRacy.cfg", "BranchQueueEarly.cfg"]]
    try:
        b = ctx.build_sched("hx_proto.cpp", "hx_proto", defs=("QUEUES",))
    except Infra:
        b = ctx.build_sched("hx_proto.cpp", "hx_proto-public")
    a = ["--keep", "150"]
    count, secs, budget = (20000, 40, 60) if quick else (1000000, 900, 2000)
    recs = ctx.drive(b, a, count=count, secs=secs, tag="proto")
    settle(ctx, ctx.judge("BranchTrace.tla", "BranchTrace.cfg", recs, budget=budget,
                          cost=lambda r: 0.003 + 1e-4 * len(r["ev"])), b, a)
    ctx.cov["schedules_at_most"] = 8 * count
    ctx.cov["events_judged"] = sum(len(r["ev"]) for r in recs)
    for m in mods:
        m.result()


@check("C22")
def c22(ctx):
    quick = ctx.tier == "quick"
    mods = [ctx.model_bg("DistributedQueue.tla", c, workers=2, timeout=3000)
            for c in ["DistributedQueue.cfg", "DistributedQueueSafe.cfg"] + ([] if quick else ["DistributedQueueLive.cfg", "DistributedQueueDeep.cfg"])]
    mods += [ctx.model_bg("DistributedQueue.tla", "DistributedQueue%s.cfg" % c, expect="violated", workers=1)
             for c in ["Unsolicited", "Stale", "Promise"]]
    b = ctx.build_sched("hx_dist.cpp", "hx_dist")
    a = ["--keep", "120"]
    count, secs, budget = (20000, 45, 60) if quick else (1000000, 900, 2000)
    recs = ctx.drive(b, a, count=count, secs=secs, tag="dist")
    settle(ctx, ctx.judge("DistTrace.tla", "DistTrace.cfg", recs, budget=budget,
                          cost=lambda r: 0.003 + 1e-4 * len(r["ev"])), b, a)
    ctx.cov["schedules_at_most"] = 8 * count
    ctx.cov["events_judged"] = sum(len(r["ev"]) for r in recs)
    ctx.cov["problems_sent"] = sum(e[0] == "s" for r in recs for e in r["ev"])
    for m in mods:
        m.result()


@check("C20")
def c20(ctx):
    quick = ctx.tier == "quick"
    mods = [ctx.model_bg("Terminals.tla", c, workers=2, timeout=3000) for c in ["Terminals.cfg"] + ([] if quick else ["TerminalsDeep.cfg"])]
    mods.append(ctx.model_bg("Terminals.tla", "TerminalsWrong.cfg", expect="violated", workers=1))
    tools = [("mincut", "mincut", ()), ("mincut", "mincut_parallel", ("PARALLEL",)), ("multiterminal_cut", "multiterminal_cut", ()),
             ("dynamic_mincut", "dynamic_mincut", ()), ("dynamic_mincut", "dynamic_mincut_parallel", ("PARALLEL",)), ("largest_cc", "largest_cc", ())]
    b = ctx.builds([(("hx_tool.cpp", "hx_tool", ()), {})] + [((os.path.join(REPO, "app", s + ".cpp"), o, d), {}) for s, o, d in tools])[0]
    scratch = os.path.join(ctx.work, "files")
    os.makedirs(scratch, exist_ok=True)
    cost = lambda r: 0.003 + (1e-5 * (r["k"] + 1) ** r["n"] if r["kind"] == "multi" else 3e-5 * len(r["e"]) * r["n"])
    t = ["--tmp", scratch]
    for args, (count, secs, budget) in ((t + ["--mode", "term"], (900, 10, 40) if quick else (40000, 200, 800)),
                                        (t + ["--bin", os.path.dirname(b)], (700, 40, 60) if quick else (20000, 600, 1500))):
        recs = ctx.drive(b, args, count=count, secs=secs, tag=args[2][2:], mult=5)
        settle(ctx, ctx.judge("ToolTrace.tla", "ToolTrace.cfg", recs, budget=budget, cost=cost), b, args)
        for r in recs:
            k = "runs_of_" + (r["cmd"].split()[0] if r["cmd"].strip() else "terminal_selection")
            ctx.cov[k] = ctx.cov.get(k, 0) + 1
    for m in mods:
        m.result()


@check("C10")
def c10(ctx):
    count, secs, budget = (1500, 25, 120) if ctx.tier == "quick" else (60000, 400, 3000)
    b = ctx.build("hx_graph.cpp", "hx_graph")
    mods = [ctx.model_bg("MCMutableGraph.tla", c, workers=2, timeout=3000)
            for c in (["MCMutableGraph.cfg"] if ctx.tier == "quick" else ["MCMutableGraph.cfg", "MCMutableGraphDeep.cfg"])]
    recs = ctx.drive(b, [], count=count, secs=secs, mult=10)
    settle(ctx, ctx.judge("MutableGraphTrace.tla", "MutableGraphTrace.cfg", recs, budget=budget,
                          cost=lambda r: 0.004 + 2e-5 * len(r["ops"]) * r["n"]), b, [])
    ctx.cov["operations_replayed"] = sum(len(r["ops"]) for r in recs)
    for m in mods:
        m.result()


def uf_cost(r):
    return 0.004 + 2e-4 * len(r["ops"])


@check("C11")
def c11(ctx):
    count, secs, budget = (4000, 15, 100) if ctx.tier == "quick" else (100000, 200, 2000)
    b = ctx.build("hx_uf.cpp", "hx_ufseq")
    mod = ctx.model_bg("UnionFind.tla", "UnionFindSeq.cfg", workers=2)
    progs = ctx.behaviours("GenUF.tla", "GenUF.cfg", 0, 0)
    for a, c, tag in [([], count, "rnd"), (["--in", progs], 0, "giv")]:
        recs = ctx.drive(b, a, count=c, secs=secs, tag=tag, mult=10)
        settle(ctx, ctx.judge("UnionFindTrace.tla", "UnionFindTrace.cfg", recs, cost=uf_cost, budget=budget / 2), b, a)
    mod.result()


@check("C12")
def c12(ctx):
    quick = ctx.tier == "quick"
    count, secs, budget, reps = (4000, 15, 100, 4) if quick else (200000, 500, 2000, 100)
    b = ctx.build_sched("hx_uf.cpp", "hx_ufpar", defs=("PARALLEL",))
    mods = [ctx.model_bg("UnionFind.tla", c, workers=2, timeout=3000)
            for c in ["UnionFind.cfg", "UnionFindLive.cfg"] + ([] if quick else ["UnionFindDeep.cfg", "UnionFindLiveDeep.cfg"])]
    mods.append(ctx.model_bg("UnionFind.tla", "UnionFindUnordered.cfg", expect="violated", workers=1))
    progs = ctx.behaviours("GenUF.tla", "GenUF.cfg", 0, 0)
    for a, c, tag in [([], count, "rnd"), (["--in", progs, "--reps", str(reps)], 0, "giv")]:
        recs = ctx.drive(b, a, count=c, secs=secs, tag=tag, mult=10)
        settle(ctx, ctx.judge("UnionFindTrace.tla", "UnionFindTrace.cfg", recs, cost=uf_cost, budget=budget / 2), b, a)
    for m in mods:
        m.result()


def plain(ctx, src, trace, models, quick, thorough, cost, given=False, args=(), defs=(()), wrong=(), build=None, mult=10):
    """build one driver, record, let TLC judge, model check next to it"""
    count, secs, budget = quick if ctx.tier == "quick" else thorough
    mods = [ctx.model_bg(m, c, workers=2, timeout=3000) for m, c in models]
    mods += [ctx.model_bg(m, c, expect="violated", workers=1) for m, c in wrong]
    bins = [build(ctx)] if build else ctx.builds([((src, src[:-4] + "-" + "-".join(d or ("seq",)), d), {}) for d in (defs or ((),))])
    jobs = [([], count, secs, "rnd")]
    if given:
        jobs.append((["--in", given(ctx) if callable(given) else ctx.spec_graphs()], 0, secs, "giv"))
    for b in bins:
        for a, c, s, tag in jobs:
            a = list(args) + a
            recs = ctx.drive(b, a, count=c, secs=s, tag=tag, mult=mult)
            settle(ctx, ctx.judge(trace + ".tla", trace + ".cfg", recs, cost=cost, budget=budget / len(jobs) / len(bins)), b, a)
            ctx.cov["runs"] = ctx.cov.get("runs", 0) + sum(len(r.get("runs", r.get("ops", [0]))) for r in recs)
    for m in mods:
        m.result()


@check("C09")
def c09(ctx):
    q = ctx.tier == "quick"
    plain(ctx, "hx_flow.cpp", "FlowTrace",
          [("PushRelabel.tla", c) for c in ["PushRelabel.cfg", "PushRelabelLive.cfg"] + ([] if q else ["PushRelabelDeep.cfg"])],
          (3000, 15, 120), (60000, 300, 2500), lambda r: 0.004 + 2e-5 * len(r["runs"]) * (r["n"] + 3 * len(r["e"])), given=True,
          wrong=[("PushRelabel.tla", "PushRelabelWrong.cfg")])


@check("C13")
def c13(ctx):
    q = ctx.tier == "quick"
    plain(ctx, "hx_pq.cpp", "PriorityQueueTrace", [("PriorityQueue.tla", "PriorityQueue.cfg")] + ([] if q else [("PriorityQueue.tla", "PriorityQueueDeep.cfg")]),
          (800, 15, 80), (5000, 200, 1500), lambda r: 0.002 + 2.5e-5 * sum(len(x["ops"]) for x in r["runs"]),
          given=lambda c: c.behaviours("GenPQ.tla", "GenPQ.cfg", 0, 0), wrong=[("PriorityQueue.tla", "PriorityQueueWrong.cfg")])


@check("C14")
def c14(ctx):
    q = ctx.tier == "quick"
    plain(ctx, "hx_struct.cpp", "CoreTrace", [("KCore.tla", "KCore.cfg")] + ([] if q else [("KCore.tla", "KCoreDeep.cfg")]),
          (1200, 15, 120), (20000, 250, 2000), lambda r: 0.004 + 4e-4 * r["n"], given=True, args=("--mode", "core"),
          wrong=[("KCore.tla", "KCoreWrong.cfg")])


@check("C18")
def c18(ctx):
    q = ctx.tier == "quick"
    plain(ctx, "hx_struct.cpp", "ConnTrace", [("PathSCC.tla", "PathSCC.cfg")] + ([] if q else [("PathSCC.tla", "PathSCCDeep.cfg")]),
          (2000, 15, 120), (40000, 250, 2000), lambda r: 0.003 + 2e-4 * r["n"], given=True, args=("--mode", "conn"),
          wrong=[("PathSCC.tla", "PathSCCWrong.cfg")])


@check("C15")
def c15(ctx):
    q = ctx.tier == "quick"
    plain(ctx, "hx_io.cpp", "IOTrace", [("MetisReader.tla", "MetisReader.cfg")] + ([] if q else [("MetisReader.tla", "MetisReaderDeep.cfg")]),
          (1500, 15, 120), (30000, 250, 2000), lambda r: 0.003 + 2e-5 * len(r["e"]), given=True, args=("--tmp", ctx.work),
          wrong=[("MetisReader.tla", "MetisReaderRuns.cfg"), ("MetisReader.tla", "MetisReaderLoop.cfg")])


@check("C16")
def c16(ctx):
    q = ctx.tier == "quick"
    plain(ctx, "hx_red.cpp", "ReductionTrace",
          [("ParallelCapforest.tla", "ParallelCapforest.cfg" if q else "ParallelCapforestDeep.cfg"), ("Reductions.tla", "ReductionsOne.cfg"), ("Reductions.tla", "ReductionsAll.cfg")],
          (400, 18, 40), (6000, 250, 1500), lambda r: 0.002 + 2e-6 * 2 ** r["n"] * len(r["e"]), args=("--mode", "red"),
          defs=((), ("PARALLEL", "SCHED")), mult=100,
          wrong=[("ParallelCapforest.tla", "ParallelCapforestRacy.cfg"), ("Reductions.tla", "ReductionsSingles.cfg"), ("Reductions.tla", "ReductionsStrict.cfg")])


@check("C17")
def c17(ctx):
    q = ctx.tier == "quick"
    plain(ctx, "hx_red.cpp", "ReductionTrace", [("MCMutableGraph.tla", "MCMutableGraph.cfg"), ("ParallelContract.tla", "ParallelContract.cfg" if q else "ParallelContractDeep.cfg")],
          (300, 18, 40), (6000, 250, 1500), lambda r: 0.003 + 2e-5 * len(r["e"]) + 2e-6 * r["n"] ** 2, args=("--mode", "contract"),
          defs=((), ("PARALLEL", "SCHED")), mult=100, wrong=[("ParallelContract.tla", "ParallelContractRacy.cfg"), ("ParallelContract.tla", "ParallelContractSlots.cfg")])
