"""A simulated parallel machine behind jax.lax.associative_scan.

The runtime is free to evaluate a prefix scan with any bracketing, on any number
of workers, and to re-execute work that a failed worker lost.  Here that freedom
belongs to a seeded scheduler: it plans a bracketing, lets workers pick ready
operations at random, crashes workers (their unsaved results are destroyed) and
re-executes the lost operations, possibly with another bracketing.  The outcome
is a straight-line program over registers which the compiled code executes with
the caller's own combine function, so one compilation serves every schedule.

    program: rows (op, dst, left, right); op 0 combine, 1 destroy, 2 nothing
"""

from __future__ import annotations

from collections import Counter

import numpy as np

SCHEDULES = {}  # length -> (rows, outs) used by the next execution
HITS = Counter()
_real = None
_on = False


def capacity(n):
    return 6 * n + 8


def registers(n):
    return n + capacity(n) + 1


def plan(rng, n):
    """{(i, j): split} covering every prefix, and the style used"""
    need = {}

    def bracket(i, j, how):
        if j - i == 1 or (i, j) in need:
            return
        m = i + 1 + how(j - i - 1)
        need[i, j] = m
        bracket(i, m, how)
        bracket(m, j, how)

    style = rng.choice(["left", "chunks", "random", "doubling", "halving"])
    if n == 1:
        return {}, style
    if style == "left":
        for k in range(2, n + 1):
            need[0, k] = k - 1
    elif style == "chunks":
        cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 2, 3, 7]))))
        edges = [0, *cuts, n]
        for a, b in zip(edges, edges[1:]):
            for k in range(a + 2, b + 1):
                need[a, k] = k - 1
        for q in range(1, len(edges) - 1):  # totals of the chunks before
            if q > 1:
                need[0, edges[q]] = edges[q - 1]
        for a, b in zip(edges[1:], edges[2:]):
            for k in range(a + 1, b + 1):
                need.setdefault((0, k), a)
    elif style == "doubling":
        # Kogge-Stone: prefix of k from two overlapping powers of two
        def span(i, j):
            if j - i == 1 or (i, j) in need:
                return
            p = 1
            while 2 * p < j - i:
                p *= 2
            need[i, j] = j - p
            span(i, j - p)
            span(j - p, j)

        for k in range(2, n + 1):
            span(0, k)
    elif style == "halving":
        for k in range(2, n + 1):
            bracket(0, k, lambda w: w // 2)
    else:
        for k in range(2, n + 1):
            j = rng.randrange(max(1, k - 4), k)
            need[0, k] = j
            bracket(j, k, lambda w: rng.randrange(w) if w else 0)
    if len(need) > 4 * n:
        return plan(rng, n)
    return need, style


def schedule(rng, n, faults=True):
    """one execution of an n-prefix scan on a simulated machine"""
    splits, style = plan(rng, n)
    workers = rng.choice([1, 2, 3, 4, 8])
    crash_rate = rng.choice([0.0, 0.03, 0.1]) if faults else 0.0
    reg = {(i, i + 1): i for i in range(n)}  # live results
    owner = {}  # results not yet saved: interval -> worker
    todo = dict(splits)
    rows = []
    stats = Counter(workers=workers)
    fresh = n
    cap = capacity(n)

    def ready():
        return [k for k, m in todo.items() if (k[0], m) in reg and (m, k[1]) in reg]

    def resplit(k):
        opts = [m for m in range(k[0] + 1, k[1]) if (k[0], m) in reg and (m, k[1]) in reg]
        return rng.choice(opts) if opts else splits[k]

    while todo:
        r = ready()
        k = rng.choice(r)
        w = rng.randrange(workers)
        i, j = k
        m = todo.pop(k)
        if rng.random() < 0.1:
            m = resplit(k)
        rows.append([0, fresh, reg[i, m], reg[m, j]])
        reg[k] = fresh
        fresh += 1
        owner[k] = w
        stats["operations"] += 1
        if rng.random() < 0.15:  # checkpoint
            owner = {a: b for a, b in owner.items() if b != w}
        left = cap - len(rows) - len(todo)
        lost = [a for a, b in owner.items() if b == w]
        if rng.random() < crash_rate and left > 2 * len(lost) + 2:
            stats["worker_crash"] += 1
            for a in lost:
                rows.append([1, reg.pop(a), 0, 0])
                owner.pop(a)
                todo[a] = splits[a]
                stats["reexecuted"] += 1
            for a in lost:
                todo[a] = resplit(a)
            # a lost result whose planned halves are also lost waits for them: keep the plan acyclic
            for a in list(todo):
                if not all(h in reg or h in todo for h in ((a[0], todo[a]), (todo[a], a[1]))):
                    todo[a] = splits[a]
            # operations still to do may need results that were consumed and lost: all of those are in todo again
    outs = [reg[0, k] for k in range(1, n + 1)]
    assert len(rows) <= cap, (len(rows), cap)
    return dict(n=n, style=style, rows=rows, outs=outs), stats


def arm(schedules):
    """use these schedules (by scan length) for the executions that follow"""
    SCHEDULES.clear()
    for s in schedules:
        SCHEDULES[s["n"]] = s


def _fetch(n):
    HITS[n] += 1
    cap = capacity(n)
    rows = np.full((cap, 4), 0, np.int32)
    rows[:, 0] = 2
    s = SCHEDULES.get(n)
    if s is None:  # no schedule given: left to right
        body = [[0, n, 0, 1]] if n > 1 else []
        body += [[0, n + k - 1, n + k - 2, k + 0] for k in range(2, n)]
        outs = [0] + [n + k for k in range(n - 1)]
        s = dict(rows=body, outs=outs)
    if s["rows"]:
        rows[: len(s["rows"])] = np.array(s["rows"], np.int32)
    return rows, np.array(s["outs"], np.int32)


def simulated_scan(fn, elems, reverse=False, axis=0):
    import jax
    import jax.numpy as jnp
    from jax.experimental import io_callback

    if not _on or axis != 0:
        return _real(fn, elems, reverse=reverse, axis=axis)
    tm = jax.tree_util.tree_map
    if reverse:
        elems = tm(lambda a: jnp.flip(a, 0), elems)
    n = jax.tree_util.tree_leaves(elems)[0].shape[0]
    cap, size = capacity(n), registers(n)
    shapes = (jax.ShapeDtypeStruct((cap, 4), np.int32), jax.ShapeDtypeStruct((n,), np.int32))
    rows, outs = io_callback(lambda: _fetch(n), shapes, ordered=False)
    regs = tm(lambda a: jnp.concatenate([a, jnp.full((size - n, *a.shape[1:]), jnp.nan, a.dtype)], 0), elems)

    def step(k, regs):
        op, dst, a, b = rows[k, 0], rows[k, 1], rows[k, 2], rows[k, 3]

        def combine(regs):
            left = tm(lambda r: jax.lax.dynamic_slice_in_dim(r, a, 1), regs)
            right = tm(lambda r: jax.lax.dynamic_slice_in_dim(r, b, 1), regs)
            new = fn(left, right)
            return tm(lambda r, v: jax.lax.dynamic_update_slice_in_dim(r, v.astype(r.dtype), dst, 0), regs, new)

        def destroy(regs):
            return tm(
                lambda r: jax.lax.dynamic_update_slice_in_dim(r, jnp.full((1, *r.shape[1:]), jnp.nan, r.dtype), dst, 0),
                regs,
            )

        return jax.lax.switch(op, [combine, destroy, lambda r: r], regs)

    regs = jax.lax.fori_loop(0, cap, step, regs)
    out = tm(lambda r: r[outs], regs)
    if reverse:
        out = tm(lambda a: jnp.flip(a, 0), out)
    return out


def install(on):
    """put the simulated machine behind jax.lax.associative_scan (before smolgp is used)"""
    global _real, _on
    import jax

    if _real is None:
        _real = jax.lax.associative_scan
        jax.lax.associative_scan = simulated_scan
    if on != _on:
        _on = on
        jax.clear_caches()
        from sim import analysis

        analysis._program.cache_clear()
