"""Model structures, their random parameters, and how to build them from the public API.

A structure is a nested list of kernel names, e.g. ["Sum", "SHO", ["Scale", "Exp"]].
A spec (see oracle.py) is a structure with its parameters filled in.
"""

from __future__ import annotations

import math

NPAR = {"SHO": 3, "Exp": 2, "Matern32": 2, "Matern52": 2, "Cosine": 2, "Constant": 1}
COMBINE = ("Sum", "Product")


def label(struct):
    if isinstance(struct, str):
        return struct
    if struct[0] == "Scale":
        return f"c*{label(struct[1])}"
    if struct[0] == "ESS":
        return f"ESS{struct[1]}"
    op = "+" if struct[0] == "Sum" else "*"
    return f"({label(struct[1])}{op}{label(struct[2])})"


def structure(spec):
    """the structure of a spec"""
    if spec[0] in COMBINE:
        return [spec[0], structure(spec[1]), structure(spec[2])]
    if spec[0] == "Scale":
        return ["Scale", structure(spec[2])]
    if spec[0] == "ESS":
        return ["ESS", spec[4]]
    return spec[0]


def params(spec):
    """flat list of the parameters, in structure order"""
    if spec[0] in COMBINE:
        return params(spec[1]) + params(spec[2])
    if spec[0] == "Scale":
        return [spec[1]] + params(spec[2])
    if spec[0] == "ESS":
        return list(spec[1:4])
    return list(spec[1:])


def fill(struct, p):
    """the spec of a structure with the parameters from the iterator p"""
    if isinstance(struct, str):
        return [struct] + [next(p) for _ in range(NPAR[struct])]
    if struct[0] == "Scale":
        c = next(p)
        return ["Scale", c, fill(struct[1], p)]
    if struct[0] == "ESS":
        return ["ESS", next(p), next(p), next(p), struct[1]]
    a = fill(struct[1], p)
    return [struct[0], a, fill(struct[2], p)]


def leaves(spec):
    """additive components of a spec, left to right, scale factors applied"""
    if spec[0] == "Sum":
        return leaves(spec[1]) + leaves(spec[2])
    return [spec]


def rescale(spec, ct, ca):
    """the same model in time units ct times smaller and amplitude units ca times smaller"""
    k = spec[0]
    if k == "Sum":
        return ["Sum", rescale(spec[1], ct, ca), rescale(spec[2], ct, ca)]
    if k == "Product":
        return ["Product", rescale(spec[1], ct, ca), rescale(spec[2], ct, 1.0)]
    if k == "Scale":
        return ["Scale", spec[1], rescale(spec[2], ct, ca)]
    if k == "SHO":
        return [k, spec[1] / ct, spec[2], spec[3] * ca]
    if k == "Constant":
        return [k, spec[1] * ca]
    if k == "ESS":
        return [k, spec[1] * ct, spec[2], spec[3] * ca, spec[4]]
    return [k, spec[1] * ct, spec[2] * ca]


def draw(struct, rng, rate_max, spread=4.0):
    """random spec whose fastest rate is at most rate_max (per time unit)"""

    def amp():
        return round(10 ** rng.uniform(-0.4, 0.4), 4)

    def rate():
        return rate_max / rng.choice([1.0, 1.0, rng.uniform(1.0, spread)])

    def one(s):
        if isinstance(s, str):
            r = rate()
            if s == "SHO":
                q = rng.choice(
                    [
                        0.5,
                        round(rng.uniform(0.6, 3.0), 3),
                        round(10 ** rng.uniform(0.5, 2.0), 3),
                        round(rng.uniform(0.12, 0.42), 3),
                        round(0.5 + rng.choice([-1, 1]) * 10 ** rng.uniform(-3.5, -1.0), 5),
                    ]
                )
                if q < 0.5:
                    w = r / (1 / (2 * q) + math.sqrt(1 / (4 * q * q) - 1))
                else:
                    w = r
                return ["SHO", w, q, amp()]
            if s == "Exp":
                return ["Exp", 1 / r, amp()]
            if s == "Matern32":
                return ["Matern32", math.sqrt(3) / r, amp()]
            if s == "Matern52":
                return ["Matern52", math.sqrt(5) / r, amp()]
            if s == "Cosine":
                return ["Cosine", 2 * math.pi / r, amp()]
            if s == "Constant":
                return ["Constant", amp()]
            raise ValueError(s)
        if s[0] == "Scale":
            return ["Scale", round(10 ** rng.uniform(-0.7, 0.7), 4), one(s[1])]
        if s[0] == "ESS":
            # many terms only matter to a large gamma
            g = (3.0, 20.0) if s[1] and s[1] >= 8 else (0.2, 3.0)
            return ["ESS", 2 * math.pi * s[1] / rate(), round(rng.uniform(*g), 3), amp(), s[1]]
        return [s[0], one(s[1]), one(s[2])]

    return one(struct)


def build(spec, num_insts=None):
    """the smolgp kernel of a spec; integrated kernels if num_insts is given"""
    import smolgp.kernels as K

    kind = spec[0]
    if kind == "Sum":
        return build(spec[1], num_insts) + build(spec[2], num_insts)
    if kind == "Product":
        return build(spec[1], num_insts) * build(spec[2], num_insts)
    if kind == "Scale":
        return spec[1] * build(spec[2], num_insts)
    if num_insts is not None:
        cls = getattr(K, "Integrated" + kind)
        args = spec[1:]
        kw = {"num_insts": num_insts}
    else:
        cls = {"ESS": K.ExpSineSquared}.get(kind) or getattr(K, kind)
        args, kw = spec[1:], {}
    if kind == "SHO":
        return cls(omega=args[0], quality=args[1], sigma=args[2], **kw)
    if kind == "Constant":
        return cls(args[0], **kw)
    if kind == "ESS":
        return cls(period=args[0], gamma=args[1], sigma=args[2], order=args[3], **kw)
    return cls(scale=args[0], sigma=args[1], **kw)
