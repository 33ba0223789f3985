"""C06: shared models and sessions behave as values under any interleaving, interrupt or history of calls."""

import json
import math
import pickle
import sys

import numpy as np

from sim import analysis as A
from sim import model, observatory
from sim.oracle import Dense
from sim.props import common as C
from sim.threads import Interrupted, Scheduler

LEVEL = "exploration"
RULE = (
    "one evaluation = one simulated process: 1-4 client threads with scripts of calls on shared models, processes and "
    "conditioned sessions; a seeded scheduler switches threads at lines of the library and interrupts calls, which are "
    "then retried; compiled-code caches are dropped at random; every answer is compared with the dense reference model; "
    "distinct by script, interleaving (slices of lines per thread) and interrupts"
)
REAL = ["smolgp (all of /repo/src/smolgp)", "jax on CPU, float64 (op by op in the line-level groups, compiled in the others)", "CPython threads"]
STUBS = ["the operating system's thread scheduler (seeded, one thread at a time)", "oracle: dense Gaussian process in numpy"]
ASSUMPTIONS = [
    "threads switch at lines of the library; in compiled mode not while jax is tracing (jax holds locks there)",
    "a call that was interrupted is retried by its client",
    "answers are compared to 1e-6 of amplitude, variance and log-likelihood",
]
TOL = 1e-6


def groups(tier):
    k = 1 if tier == "quick" else 15
    out = []
    for gid, structs, ni, runs, cost in [
        ("lines-points", ["Exp", "SHO", "Matern32"], None, 8, 40),
        ("lines-points-sum", ["Exp", ["Sum", "Exp", "Exp"], "Cosine"], None, 6, 40),
        ("lines-exposures", ["Exp"], 2, 2, 60),
    ]:
        out.append(dict(id=gid, structs=structs, insts=ni, n=4, m=3, mode="lines", runs=runs * k, cost=cost, threads=[2, 3], ops=3 if ni is None else 1, parts=2))
    for gid, structs, ni, solvers, runs, cost in [
        ("calls-points", ["Exp", "SHO"], None, ["seq"], 5, 20),
        ("calls-points-sum", [["Sum", "Exp", "Exp"], ["Sum", "Exp", "SHO"]], None, ["seq"], 6, 65),
        ("calls-points-par", ["Exp", "Matern32"], None, ["par", "seq"], 4, 20),
        ("calls-exposures", ["Exp"], 2, ["iseq"], 3, 60),
        ("calls-exposures-sum", [["Sum", "Exp", "Exp"]], 2, ["iseq"], 4, 90),
    ]:
        out.append(dict(id=gid, structs=structs, insts=ni, n=5, m=4, mode="calls", solvers=solvers, runs=runs * k, cost=cost, threads=[2, 3, 4], ops=16 if ni is None else 12, parts=2))
    for gid, structs, ni, solvers, runs, cost in [
        ("history-points", ["Exp", "SHO", ["Sum", "Exp", "Matern32"]], None, ["seq", "par"], 4, 50),
        ("history-products", [["Sum", "Exp", ["Product", "Exp", "Cosine"]], ["Scale", "Matern32"], ["Sum", "Exp", "Exp"]], None, ["seq"], 4, 50),
        ("history-exposures", ["Exp", "Matern32"], 2, ["iseq", "ipar"], 2, 70),
        ("history-exposures-sum", [["Sum", "Exp", "Exp"]], 2, ["iseq"], 2, 60),
    ]:
        out.append(dict(id=gid, structs=structs, insts=ni, n=6, m=4, mode="history", solvers=solvers, runs=runs * k, cost=cost, threads=[1], ops=24 if ni is None else 12, parts=2))
    return out


def gen(group, rng):
    points = group["insts"] is None
    n, m = group["n"], group["m"]
    solvers = group.get("solvers", ["default"])
    data, kernels, sessions = [], [], []
    for _ in range(3):
        t = C.observatory_trace(
            rng, "Exp", group["insts"], n, m, points=points, unit=1.0, origin=0.0,
            rates=(0.1,), faults=rng.random() < 0.5,
        )
        # some clients keep their data in (mutable) numpy arrays; with jit disabled, jax does not convert them
        data.append(dict(records=t["records"], queries=t["queries"], numpy=rng.random() < 0.3 and group["mode"] != "lines"))
    for s in group["structs"]:
        for _ in range(2):
            kernels.append(model.draw(s, rng, rng.choice([0.05, 0.1, 0.3])))
    # shared processes: a kernel, a data set, a solver
    procs = [
        dict(kernel=rng.randrange(len(kernels)), data=rng.randrange(3), solver=rng.choice(solvers), noise=1.0)
        for _ in range(3 if group["mode"] != "lines" else 2)
    ]
    if rng.random() < 0.5:  # the same model and times, another error budget
        procs[-1] = {**procs[0], "noise": 9.0}
    nt = rng.choice(group["threads"])
    kinds = ["logp", "logp_shared", "condition", "condition_shared", "predict", "predict", "data", "components", "save",
             "condition_component", "predict_component"]
    scripts = []
    for _ in range(nt):
        ops = []
        for _ in range(group["ops"]):
            ops.append(
                dict(
                    op=rng.choice(kinds), kernel=rng.randrange(len(kernels)), data=rng.randrange(3),
                    proc=rng.randrange(len(procs)), solver=rng.choice(solvers), y=rng.choice([1.0, 1.0, -2.0]),
                    noise=rng.choice([1.0, 1.0, 1.0, 4.0]), q=rng.sample(range(m), m), jit=group["mode"] != "lines" and rng.random() < 0.15,
                    drop_caches=group["mode"] == "history" and rng.random() < 0.02,
                )
            )
        scripts.append(ops)
    lines = 600 if group["mode"] == "lines" else 60
    switches = []
    if nt > 1:
        for _ in range(rng.choice([10, 40, 120] if group["mode"] == "lines" else [40, 200, 800])):
            switches.append([max(1, int(rng.expovariate(1 / rng.choice([3, 30, lines])))), rng.randrange(nt)])
    interrupts = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 2, 4])):
            interrupts.append([rng.randrange(nt), rng.randrange(1, 1 + rng.choice([20, 200, 2000]))])
    return dict(
        insts=group["insts"], mode=group["mode"], data=data, kernels=kernels, procs=procs, scripts=scripts,
        switches=switches, interrupts=interrupts, faults={}, sim_ticks=0,
    )


class Process:
    """one simulated operating-system process: fresh library state"""

    def __init__(self, trace):
        import jax

        for name in [m for m in sys.modules if m == "smolgp" or m.startswith("smolgp.")]:
            del sys.modules[name]
        if trace["mode"] != "lines":
            jax.clear_caches()
        self.trace = trace
        self.kernels = [model.build(s, trace["insts"]) for s in trace["kernels"]]
        self.data = [self.arrays(d) for d in trace["data"]]
        self.cache = {}
        self.procs = []
        for p in trace["procs"]:
            self.procs.append(self.new_gp(p["kernel"], p["data"], p["solver"], p["noise"]))
        self.sessions = [None] * len(self.procs)
        self.checks = 0
        self.marks = {}
        self.unchanged("the start")

    def arrays(self, d):
        """the arrays of a data set, made once: all clients hand the same objects to the library"""
        import jax.numpy as jnp

        X, y, nz = A.coords(d["records"])
        as_ = np.array if d["numpy"] else jnp.asarray
        X = tuple(as_(v) for v in X) if self.trace["insts"] else as_(X[0])
        return X, {f: as_(y * f) for f in (1.0, -2.0)}, {f: as_(nz * f) for f in (1.0, 4.0, 9.0)}

    def unchanged(self, when):
        """no call changed an object it was given or that others hold"""
        import jax

        shared = dict(kernels=self.kernels, data=self.data, processes=self.procs)
        for i, s in enumerate(self.sessions):
            if s is not None:
                shared[f"session {i} {id(s)}"] = s
                self.keep = [*getattr(self, "keep", []), s]  # so that ids are not reused
        for name, x in shared.items():
            leaves, tree = jax.tree_util.tree_flatten(x)
            mark = (str(tree), [(type(v).__name__, str(getattr(v, "dtype", "")), np.asarray(v).tobytes()) for v in leaves])
            if self.marks.setdefault(name, mark) != mark:
                raise A.Mismatch("mutation", f"shared {name.split(' ')[0]} changed during {when}")
        self.checks += 1

    def xy(self, d, f=1.0, noise=1.0):
        X, y, nz = self.data[d]
        return X, y[f], nz[noise]

    def new_gp(self, k, d, solver, noise=1.0):
        from smolgp import GaussianProcess

        X, y, nz = self.xy(d, noise=noise)
        kw = {}
        cls = A.solver_class(solver)
        if cls is not None:
            kw["solver"] = cls
        return GaussianProcess(self.kernels[k], X, diag=nz, **kw)

    def truth(self, k, d, f, noise):
        key = (k, d, f, noise)
        if key not in self.cache:
            rec = self.trace["data"][d]["records"]
            self.cache[key] = Dense(
                self.trace["kernels"][k], [r[0] for r in rec], [r[1] for r in rec], [r[4] * noise for r in rec],
                [r[3] * f for r in rec],
            )
        return self.cache[key]

    def lib(self, name):
        import importlib

        return importlib.import_module("smolgp." + name)

    def call(self, op, fn, *args):
        import jax

        return jax.jit(fn)(*args) if op["jit"] else fn(*args)

    def execute(self, op, who):
        """one client call; checks the answer"""
        import jax
        import jax.numpy as jnp

        if op["drop_caches"]:
            jax.clear_caches()
        kind = op["op"]
        shared = kind not in ("logp", "condition")
        if shared:
            p = self.trace["procs"][op["proc"]]
            k, d, noise = p["kernel"], p["data"], p["noise"]
        else:
            k, d, noise = op["kernel"], op["data"], op["noise"]
        f = op["y"] if kind in ("logp", "logp_shared", "condition", "condition_shared") else 1.0
        X, y, nz = self.xy(d, f)
        truth = self.truth(k, d, f, noise)
        amp = max(np.abs(truth.y).max(), math.sqrt(truth.prior))
        w = f"{who} {kind}: "

        def same(got, want, scale, what):
            A.expect("isolation", got, want, TOL * scale, w + what)
            self.checks += 1

        if kind in ("logp", "logp_shared"):
            gp = self.procs[op["proc"]] if shared else self.new_gp(k, d, op["solver"], noise)
            got = self.call(op, lambda y: gp.log_probability(y), y)
            same(float(got), truth.log_probability(), 1 + abs(truth.log_probability()), "log_probability")
            return
        if kind in ("condition", "condition_shared"):
            gp = self.procs[op["proc"]] if shared else self.new_gp(k, d, op["solver"], noise)
            got = self.call(op, lambda y: (lambda r: (r.log_probability, r.gp.loc, r.gp.variance))(gp.condition(y)), y)
            same(float(got[0]), truth.log_probability(), 1 + abs(truth.log_probability()), "log_probability")
            mu, var = truth.predict(truth.s, truth.e)
            same(got[1], mu, amp, "posterior mean")
            same(got[2], var, truth.prior, "posterior variance")
            return
        parts = model.leaves(self.trace["kernels"][k])
        if kind == "condition_component":
            gp = self.procs[op["proc"]]
            i = op["q"][0] % len(parts)
            leaf = self.lib("kernels.base").extract_leaf_kernels(gp.kernel)[i]
            got = gp.condition(y, kernel=leaf)
            same(float(got.log_probability), truth.log_probability(), 1 + abs(truth.log_probability()), "log_probability")
            mu, var = truth.predict(truth.s, truth.e, spec=parts[i])
            same(got.gp.loc, mu, amp, f"mean of component {i}")
            same(got.gp.variance, var, truth.prior, f"variance of component {i}")
            return
        # calls on a shared conditioned session, opened by whoever needs it first
        s = self.sessions[op["proc"]]
        if s is None:
            s = self.procs[op["proc"]].condition(y).gp
            self.sessions[op["proc"]] = s
        h = np.array(self.trace["data"][d]["queries"], float)[op["q"]] / 2
        if kind == "predict":
            got = self.call(op, lambda t: s.predict(t, return_var=True), jnp.asarray(h))
            mu, var = truth.predict(h)
            same(got[0], mu, amp, "predicted mean")
            same(got[1], var, truth.prior, "predicted variance")
        elif kind == "data":
            mu, var = truth.predict(truth.s, truth.e)
            got = s.predict(return_var=True)
            same(got[0], mu, amp, "posterior mean of the session")
            same(got[1], var, truth.prior, "posterior variance of the session")
            same(s.loc, mu, amp, "loc of the session")
        elif kind == "predict_component":
            i = op["q"][0] % len(parts)
            leaf = self.lib("kernels.base").extract_leaf_kernels(s.kernel)[i]
            got = s.predict(jnp.asarray(h), return_var=True, kernel=leaf.name)
            mu, var = truth.predict(h, spec=parts[i])
            same(got[0], mu, amp, f"predicted mean of component {i}")
            same(got[1], var, truth.prior, f"predicted variance of component {i}")
        elif kind == "components":
            got = s.get_all_component_means(return_var=True)
            if len(got) != len(parts):
                raise A.Mismatch("isolation", w + f"{len(got)} components, expected {len(parts)}")
            for (name, (m, v)), part in zip(list(got.items()), parts):
                mu, var = truth.predict(truth.s, truth.e, spec=part)
                same(m, mu, amp, f"component {name}")
                same(v, var, truth.prior, f"variance of component {name}")
        elif kind == "save":
            # the client keeps the session in durable storage and continues from the restored copy
            r = pickle.loads(pickle.dumps(s))
            mu, var = truth.predict(h)
            got = r.predict(jnp.asarray(h), return_var=True)
            same(got[0], mu, amp, "predicted mean after restore")
            same(got[1], var, truth.prior, "predicted variance after restore")
            self.sessions[op["proc"]] = r


def check(trace, stats):
    import contextlib

    import jax
    import jax._src.core as jcore

    lines = trace["mode"] == "lines"
    proc = Process(trace)
    clean = (lambda: True) if lines else getattr(jcore, "trace_state_clean", lambda: False)
    sched = Scheduler(trace["switches"], trace["interrupts"], clean)
    retries = [0]

    def client(i, script):
        def body():
            for j, op in enumerate(script):
                while True:
                    try:
                        with jax.disable_jit() if lines else contextlib.nullcontext():
                            proc.execute(op, f"client {i} call {j}")
                            if len(trace["scripts"]) == 1:
                                proc.unchanged(f"call {j} ({op['op']})")
                        break
                    except Interrupted:
                        retries[0] += 1
                        sys.settrace(sched._global)

        return body

    sched.run([client(i, s) for i, s in enumerate(trace["scripts"])])
    proc.unchanged("the run")
    stats["calls"] += sum(len(s) for s in trace["scripts"])
    stats["answers_checked"] += proc.checks
    stats["fault:interrupted_call"] += sched.fired
    stats["fault:context_switch"] += sched.context_switches
    stats["fault:cache_drop"] += sum(op["drop_caches"] for s in trace["scripts"] for op in s)
    stats["probe:library_lines_scheduled"] += sum(sched.lines.values())
    stats["probe:retried_calls"] += retries[0]
    stats["digest"] = json.dumps(sched.events)


def signature(trace):
    return json.dumps([trace["scripts"], trace["switches"], trace["interrupts"]])


def describe(trace):
    return dict(
        mode=trace["mode"], kernels=trace["kernels"], procs=trace["procs"],
        scripts=[[f"{o['op']} proc={o['proc']} data={o['data']}" for o in s][:10] for s in trace["scripts"]],
        switches=trace["switches"][:10], interrupts=trace["interrupts"], run=trace.get("run"),
    )


def size(trace):
    return dict(
        calls=sum(len(s) for s in trace["scripts"]), switches=len(trace["switches"]), interrupts=len(trace["interrupts"])
    )


def shrink(trace):
    if len(trace["scripts"]) > 1:
        for k in range(len(trace["scripts"])):
            yield {**trace, "scripts": trace["scripts"][:k] + trace["scripts"][k + 1 :]}
    if trace["interrupts"]:
        yield {**trace, "interrupts": []}
    if trace["switches"]:
        yield {**trace, "switches": []}
        for s in C.fewer(trace["switches"]):
            yield {**trace, "switches": s}
    for k, s in enumerate(trace["scripts"]):
        for cut in C.fewer(s):
            yield {**trace, "scripts": [*trace["scripts"][:k], cut, *trace["scripts"][k + 1 :]]}
