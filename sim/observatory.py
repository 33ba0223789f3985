"""A discrete-event simulation of a multi-instrument observatory.

Nodes: instruments (each a sequential process with its own clock), the network
that carries their records, and the archive that stores them in arrival order.
Time is an integer tick counter; the queue is ordered by (tick, sequence
number), so one `random.Random` decides the whole execution.

The outcome is a trace: plain JSON holding the records the archive holds, in
the order they arrived, and how often each fault fired.  A record is
    [start_tick, end_tick, instrument, value, noise_variance]
"""

from __future__ import annotations

import heapq
import math
from collections import Counter

FAULTS = (
    "drop",
    "retransmit",
    "duplicate",
    "delay",
    "crash",
    "truncate",
    "outage",
    "clock_jump",
)


def draw_mix(rng, faults=True, n_inst=3, points=False, wide_noise=False):
    """swarm knobs of one run"""
    mix = {
        "lengths": rng.choice([[2, 4, 6], [0, 2, 4, 10], [2, 20], [4], [0, 2], [2, 2, 4, 60], [10, 20, 30]]),
        "gaps": rng.choice([[0], [0, 2, 6], [2], [6, 14], [0, 0, 40], [1, 2, 3], [0, 2, 200]]),
        "sync": rng.choice([0.0, 0.0, 0.15, 0.5]),
        "off": [0] * n_inst if rng.random() < 0.3 else [rng.choice([0, 1, 2, 5, 20]) for _ in range(n_inst)],
        "faults": sorted(f for f in FAULTS if rng.random() < 0.45) if faults else [],
        "latency": rng.choice([1, 5, 50, 400]),
        "noise": rng.choice([[-2.0, -2.0], [-4.0, -1.0], [-1.0, 0.0], [-3.0, 1.0], [-3.0, 6.0 if wide_noise else 1.0]]),
    }
    if points:
        mix["lengths"] = [0]
        mix["gaps"] = rng.choice([[1, 2], [0, 1, 1], [0, 0, 0, 50], [1, 1, 3000], [7], [1, 10, 100]])
    return mix


def simulate(rng, n_inst, n_records, mix, time_sorted=False, amp=1.0):
    """Run until the archive holds n_records; returns (records, stats)"""
    q = []
    seq = 0
    stats = Counter()

    def after(t, kind, *data):
        nonlocal seq
        seq += 1
        heapq.heappush(q, (t, seq, kind, data))

    on = set(mix["faults"])
    archive = {}  # record id -> record, in arrival order
    order = []
    skew = [0] * n_inst  # recorded = true + skew; only ever jumps forward
    epoch = [0] * n_inst  # bumped by a crash: stale events are ignored
    phases = [rng.uniform(0, 6.28) for _ in range(3)]
    scale = rng.choice([3.0, 20.0, 100.0])
    nid = 0

    def value(s, e):
        m = (s + e) / 2
        out = sum(math.sin(m / scale * (k + 1) + p) / (k + 1) for k, p in enumerate(phases))
        return round(amp * (out + 0.3 * rng.gauss(0, 1)), 6)

    def gap():
        g = rng.choice(mix["gaps"])
        if "outage" in on and rng.random() < 0.06:
            stats["outage"] += 1
            g += rng.choice([100, 1000, 20000])
        return g

    def send(t, rec):
        """the network: loss, retransmission, duplication, delay"""
        nonlocal nid
        nid += 1
        lat = 1 + rng.randrange(3)
        if "delay" in on and rng.random() < 0.4:
            stats["delay"] += 1
            lat += rng.randrange(mix["latency"] * 4)
        if "drop" in on and rng.random() < 0.25:
            stats["drop"] += 1
            if "retransmit" in on and rng.random() < 0.6:
                stats["retransmit"] += 1
                after(t + lat + 2 * mix["latency"], "deliver", nid, rec)
            return
        after(t + lat, "deliver", nid, rec)
        if "duplicate" in on and rng.random() < 0.2:
            after(t + lat + 1 + rng.randrange(2 * mix["latency"]), "deliver", nid, rec)

    def begin(t, i):
        d = rng.choice(mix["lengths"])
        if "clock_jump" in on and rng.random() < 0.08:
            stats["clock_jump"] += 1
            skew[i] += rng.choice([2, 4, 100])
        if "crash" in on and d > 0 and rng.random() < 0.12:
            after(t + rng.randrange(d + 1), "crash", i, epoch[i], t)
        after(t + d, "close", i, epoch[i], t)

    def expose(t, i):
        # a synchronised shutter: wait for the next common trigger
        if rng.random() < mix["sync"]:
            stats["sync_trigger"] += 1
            t = -(-t // 20) * 20
        after(t, "open", i, epoch[i])

    def noise():
        return float(f"{amp * amp * 10 ** rng.uniform(*mix['noise']):.6g}")

    for i in range(n_inst):
        expose(mix["off"][i], i)
    now = 0
    while len(order) < n_records:
        now, _, kind, data = heapq.heappop(q)
        if kind == "open":
            i, ep = data
            if ep == epoch[i]:
                begin(now, i)
        elif kind == "close":
            i, ep, t0 = data
            if ep != epoch[i]:
                continue
            s, e = t0 + skew[i], now + skew[i]
            send(now, [s, e, i, value(s, e), noise()])
            expose(now + gap(), i)
        elif kind == "crash":
            i, ep, t0 = data
            if ep != epoch[i]:
                continue
            stats["crash"] += 1
            epoch[i] += 1
            if "truncate" in on and rng.random() < 0.6:
                # the part read out before the crash was durable
                stats["truncate"] += 1
                s, e = t0 + skew[i], now + skew[i]
                send(now, [s, e, i, value(s, e), noise()])
            down = rng.choice([1, 10, 500])
            expose(now + down, i)
        elif kind == "deliver":
            rid, rec = data
            if rid in archive:
                stats["duplicate"] += 1
                continue
            if order and rec[0] < archive[order[-1]][0]:
                stats["reorder"] += 1
            archive[rid] = rec
            order.append(rid)
    records = [archive[r] for r in order]
    if time_sorted:
        records.sort(key=lambda r: (r[1], r[0], r[2]))
    stats["ticks"] = max(r[1] for r in records) - min(r[0] for r in records)
    stats["sim_ticks"] = now
    return records, stats


def queries(rng, records, m):
    """query ticks (in half ticks): on, next to, between, before and after the events"""
    ev = sorted({r[0] for r in records} | {r[1] for r in records})
    lo, hi = ev[0], ev[-1]
    out = []
    for _ in range(m):
        k = rng.randrange(8)
        if k <= 2:
            h = 2 * rng.choice(ev)
        elif k == 3:
            h = 2 * rng.choice(ev) + rng.choice([-1, 1])
        elif k == 4:
            j = rng.randrange(len(ev))
            h = ev[j] + ev[min(j + 1, len(ev) - 1)]
        elif k == 5:
            h = 2 * lo - rng.choice([0, 1, 7, 40, 2000])
        elif k == 6:
            h = 2 * hi + rng.choice([0, 1, 7, 40, 2000])
        else:
            h = rng.randrange(2 * lo - 10, 2 * hi + 11)
        out.append(h)
    return out


def shape_of(records):
    """the interleaving: order and ties of all shutter events, and the arrival order"""
    ev = []
    for n, (s, e, i, *_r) in enumerate(records):
        ev.append((s, 0, i, n))
        ev.append((e, 1, i, n))
    ev.sort()
    out = []
    last = None
    for t, k, i, n in ev:
        out.append(("=" if t == last else "<") + "se"[k] + str(i) + "." + str(n))
        last = t
    return "".join(out)
