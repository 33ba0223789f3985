"""Independent reference model: a dense Gaussian process in plain numpy.

It shares no code with smolgp.  A model is a nested list ("spec"):

    ["SHO", omega, quality, sigma]      ["Exp", scale, sigma]
    ["Matern32", scale, sigma]          ["Matern52", scale, sigma]
    ["Cosine", scale, sigma]            ["Constant", sigma]
    ["ESS", period, gamma, sigma, order]
    ["Scale", c, spec]  ["Sum", a, b]  ["Product", a, b]

The covariance of point values is the documented closed form k(lag); the
covariance of exposure averages is the integral of k over both exposures, done
by piecewise Gauss-Legendre quadrature of k against the overlap (trapezoid)
weight of the two exposures.
"""

from __future__ import annotations

import math
from functools import lru_cache

import numpy as np
from scipy.special import iv


def cov(spec, tau):
    """k(|tau|) for an array of lags; analytic in the parameters, so that they may be complex (see Dense.gradient)"""
    tau = np.abs(np.asarray(tau, dtype=float))
    kind = spec[0]
    if kind == "Sum":
        return cov(spec[1], tau) + cov(spec[2], tau)
    if kind == "Product":
        return cov(spec[1], tau) * cov(spec[2], tau)
    if kind == "Scale":
        return spec[1] * cov(spec[2], tau)
    if kind == "Constant":
        return spec[1] ** 2 * np.ones_like(tau)
    if kind == "Exp":
        return spec[2] ** 2 * np.exp(-tau / spec[1])
    if kind == "Matern32":
        x = math.sqrt(3) * tau / spec[1]
        return spec[2] ** 2 * (1 + x) * np.exp(-x)
    if kind == "Matern52":
        x = math.sqrt(5) * tau / spec[1]
        return spec[2] ** 2 * (1 + x + x * x / 3) * np.exp(-x)
    if kind == "Cosine":
        return spec[2] ** 2 * np.cos(2 * np.pi * tau / spec[1])
    if kind == "SHO":
        w, q, s = spec[1:]
        a = w / (2 * q)
        if np.real(q) == 0.5:
            # the limit, to first order in eta**2 (exact for the value and the first derivative)
            e, x = 1 - 1 / (4 * q * q), w * tau
            return s**2 * np.exp(-a * tau) * (1 - e * x * x / 2 + x * (1 - e * x * x / 6) / (2 * q))
        under = np.real(q) > 0.5
        eta = np.sqrt((1 if under else -1) * (1 - 1 / (4 * q * q)))
        x = eta * w * tau
        if under:
            return s**2 * np.exp(-a * tau) * (np.cos(x) + np.sin(x) / (2 * eta * q))
        f = 1 / (2 * eta * q)
        slow = np.exp(-(a - eta * w) * tau)
        fast = np.exp(-(a + eta * w) * tau)
        return s**2 * 0.5 * ((1 + f) * slow + (1 - f) * fast)
    if kind == "ESS":
        # the truncated series the model documents: harmonics 0..order-1
        period, gamma, s, order = spec[1:]
        arg = gamma / 2
        out = np.zeros_like(tau)
        for j in range(order):
            out = out + (1.0 if j == 0 else 2.0) * iv(j, arg) * np.exp(-arg) * np.cos(
                2 * np.pi * j * tau / period
            )
        return s**2 * out
    raise ValueError(kind)


def real(spec):
    return [real(v) if isinstance(v, list) else v if isinstance(v, str) else np.real(v) for v in spec]


def rate(spec):
    """the fastest inverse length in k, to choose the quadrature order"""
    kind = spec[0]
    if kind in ("Sum", "Product"):
        return rate(spec[1]) + rate(spec[2]) if kind == "Product" else max(rate(spec[1]), rate(spec[2]))
    if kind == "Scale":
        return rate(spec[2])
    if kind == "Constant":
        return 0.0
    if kind == "Exp":
        return 1 / spec[1]
    if kind == "Matern32":
        return math.sqrt(3) / spec[1]
    if kind == "Matern52":
        return math.sqrt(5) / spec[1]
    if kind == "Cosine":
        return 2 * math.pi / spec[1]
    if kind == "SHO":
        w, q = spec[1], spec[2]
        if q < 0.5:
            return w * (1 / (2 * q) + math.sqrt(1 / (4 * q * q) - 1))
        return w
    if kind == "ESS":
        return 2 * math.pi * spec[4] / spec[1]
    raise ValueError(kind)


@lru_cache(maxsize=None)
def _gl(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def exposure_cov(spec, s1, e1, s2, e2):
    """cov of the averages over [s1,e1] and [s2,e2]; a zero-length interval is a point"""
    s1, e1, s2, e2 = np.broadcast_arrays(*(np.asarray(v, float) for v in (s1, e1, s2, e2)))
    shape = s1.shape
    s1, e1, s2, e2 = (v.ravel() for v in (s1, e1, s2, e2))
    d1, d2 = e1 - s1, e2 - s2
    out = np.empty(s1.shape, cov(spec, np.zeros(1)).dtype)
    zero = (d1 == 0) & (d2 == 0)
    out[zero] = cov(spec, s1[zero] - s2[zero])
    one = ((d1 == 0) ^ (d2 == 0))
    both = (d1 > 0) & (d2 > 0)
    r = rate(real(spec))
    if one.any():
        p = np.where(d1[one] == 0, s1[one], s2[one])
        a = np.where(d1[one] == 0, s2[one], s1[one])
        b = np.where(d1[one] == 0, e2[one], e1[one])
        brk = np.sort(np.stack([a - p, np.clip(0.0, a - p, b - p), b - p], 1), 1)
        out[one] = _piecewise(spec, brk, None, r) / (b - a)
    if both.any():
        a, b, c, d = s1[both], e1[both], s2[both], e2[both]
        lo, hi = a - d, b - c
        brk = np.stack([lo, a - c, b - d, hi, np.clip(0.0, lo, hi)], 1)
        brk = np.sort(brk, 1)

        def weight(tau):
            # length of {v in [c,d] : v+tau in [a,b]}
            return np.maximum(
                0.0,
                np.minimum(b[:, None], d[:, None] + tau) - np.maximum(a[:, None], c[:, None] + tau),
            )

        out[both] = _piecewise(spec, brk, weight, r) / ((b - a) * (d - c))
    return out.reshape(shape)


def _piecewise(spec, brk, weight, r):
    total = 0
    for i in range(brk.shape[1] - 1):
        lo, hi = brk[:, i], brk[:, i + 1]
        length = hi - lo
        m = float(np.max(length)) * r if length.size else 0.0
        n = int(min(400, 12 + 1.2 * m))
        n = ((n + 3) // 4) * 4
        x, w = _gl(n)
        tau = lo[:, None] + length[:, None] * x
        f = cov(spec, tau)
        if weight is not None:
            f = f * weight(tau)
        total = total + length * (f @ w)
    return total


class Dense:
    """Exact conditional of the GP given observations.

    obs: arrays (start, end) of the averaging interval of each observation
    """

    def __init__(self, spec, start, end, noise, y, amp=None):
        self.spec = spec
        self.s = np.asarray(start, float)
        self.e = np.asarray(end, float)
        self.y = np.asarray(y, float)
        self.noise = np.broadcast_to(np.asarray(noise, float), self.s.shape)
        self.amp = np.ones_like(self.s) if amp is None else np.asarray(amp, float)
        self.Kff = self.amp[:, None] * self.amp[None, :] * exposure_cov(
            spec, self.s[:, None], self.e[:, None], self.s[None, :], self.e[None, :]
        )
        self.K = self.Kff + np.diag(self.noise)
        n = len(self.y)
        if n:
            self.L = np.linalg.cholesky(self.K)
            self.alpha = np.linalg.solve(self.L.T, np.linalg.solve(self.L, self.y))
        self.prior = float(cov(spec, np.zeros(()))[()])

    def log_probability(self):
        n = len(self.y)
        if n == 0:
            return 0.0
        w = np.linalg.solve(self.L, self.y)
        return float(
            -0.5 * w @ w - np.log(np.diag(self.L)).sum() - 0.5 * n * math.log(2 * math.pi)
        )

    def predict(self, start, end=None, spec=None, amp=None):
        """posterior mean and variance of (a component of) the signal averaged over [start,end]"""
        s = np.atleast_1d(np.asarray(start, float))
        e = s if end is None else np.atleast_1d(np.asarray(end, float))
        spec = self.spec if spec is None else spec
        a = np.ones_like(s) if amp is None else np.asarray(amp, float)
        kss = a * a * exposure_cov(spec, s, e, s, e)
        if len(self.y) == 0:
            return np.zeros_like(s), kss
        Ks = a[:, None] * self.amp[None, :] * exposure_cov(
            spec, s[:, None], e[:, None], self.s[None, :], self.e[None, :]
        )
        mu = Ks @ self.alpha
        V = np.linalg.solve(self.L, Ks.T)
        var = kss - (V * V).sum(0)
        return mu, var

    def gradient(self, specs):
        """d log_probability / d (parameters, data, noise); specs[j] has 1e-30j added to parameter j"""
        inv = np.linalg.inv(self.K)
        g = []
        for c in specs:
            dK = exposure_cov(c, self.s[:, None], self.e[:, None], self.s[None, :], self.e[None, :]).imag / 1e-30
            g.append(0.5 * self.alpha @ dK @ self.alpha - 0.5 * float(np.sum(inv * dK)))
        return np.array(g), -self.alpha, 0.5 * (self.alpha**2 - np.diag(inv))
