"""Models a user could write against the documented interface: the required matrices and nothing else."""

from __future__ import annotations

import equinox as eqx
import jax.numpy as jnp
from smolgp.kernels import Wrapper
from smolgp.kernels.base import StateSpaceModel
from smolgp.kernels import Exp, SHO
from smolgp.kernels.integrated import IntegratedSHO, IntegratedStateSpaceModel


class Custom(StateSpaceModel):
    """a companion-form model in a state basis of the user's choice: x -> T x with T = diag(1, c, c**2)"""

    kind: str = eqx.field(static=True)
    p: tuple
    c: float
    name: str = eqx.field(static=True)

    def __init__(self, kind, p, c=1.0, name="mine"):
        self.kind, self.p, self.c, self.name = kind, tuple(p), c, name

    def _raw(self):
        p = self.p
        if self.kind == "SHO":
            w, q, s = p
            F = jnp.array([[0.0, 1.0], [-(w**2), -w / q]])
            Pinf = jnp.diag(jnp.array([s**2, (w * s) ** 2]))
            return F, Pinf, 2 * w**3 * s**2 / q
        if self.kind == "Exp":
            return jnp.array([[-1 / p[0]]]), jnp.array([[p[1] ** 2]]), 2 * p[1] ** 2 / p[0]
        if self.kind == "Matern32":
            a, s = jnp.sqrt(3.0) / p[0], p[1]
            F = jnp.array([[0.0, 1.0], [-(a**2), -2 * a]])
            return F, jnp.diag(jnp.array([s**2, (a * s) ** 2])), 4 * a**3 * s**2
        a, s = jnp.sqrt(5.0) / p[0], p[1]
        F = jnp.array([[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-(a**3), -3 * a**2, -3 * a]])
        k = (a * s) ** 2 / 3
        Pinf = jnp.array([[s**2, 0.0, -k], [0.0, k, 0.0], [-k, 0.0, a**4 * s**2]])
        return F, Pinf, 16 / 3 * a**5 * s**2

    def _basis(self):
        n = {"Exp": 1, "Matern52": 3}.get(self.kind, 2)
        return self.c ** jnp.arange(n)

    def design_matrix(self):
        T = self._basis()
        return T[:, None] * self._raw()[0] / T[None, :]

    def stationary_covariance(self):
        T = self._basis()
        return T[:, None] * self._raw()[1] * T[None, :]

    def observation_matrix(self, X):
        del X
        T = self._basis()
        return jnp.zeros((1, len(T))).at[0, 0].set(1.0)

    def noise(self):
        return jnp.array([[self._raw()[2]]])

    def noise_effect_matrix(self):
        T = self._basis()
        return jnp.zeros((len(T), 1)).at[-1, 0].set(T[-1])


class IntegratedCustom(IntegratedStateSpaceModel):
    """a user's model averaged over exposures"""

    def __init__(self, base, num_insts, name="mine-averaged"):
        self.base_model, self.num_insts, self.name = base, num_insts, name


class Derivative(Wrapper):
    """the data are derivatives of the process (docs/tutorials/derivative.ipynb)"""

    order: int = eqx.field(static=True)

    def __init__(self, kernel, order, name="derivative"):
        self.kernel, self.order, self.name = kernel, order, name

    def observation_matrix(self, X):
        del X
        return jnp.zeros((1, self.kernel.dimension)).at[0, self.order].set(1.0)


class Modulated(Wrapper):
    """an amplitude that changes with time: f(t) (1 + b sin(w t + phi))"""

    b: float
    w: float
    phi: float

    def __init__(self, kernel, b, w, phi, name="modulated"):
        self.kernel, self.b, self.w, self.phi, self.name = kernel, b, w, phi, name

    def observation_matrix(self, X):
        return self.kernel.observation_matrix(X) * (1 + self.b * jnp.sin(self.w * X + self.phi))


class Mixed(Wrapper):
    """data that mix the value and the slope, in proportions that change: f + m sin(w t + phi) f'"""

    m: float
    w: float
    phi: float

    def __init__(self, kernel, m, w, phi, name="mixed"):
        self.kernel, self.m, self.w, self.phi, self.name = kernel, m, w, phi, name

    def observation_matrix(self, X):
        H = jnp.zeros((1, self.kernel.dimension)).at[0, 0].set(1.0)
        return H.at[0, 1].set(self.m * jnp.sin(self.w * X + self.phi))


class Rotation(SHO):
    """a built-in kernel in the user's own parameters, by inheritance"""

    def __init__(self, period, quality, sigma, name="rotation"):
        super().__init__(omega=2 * jnp.pi / period, quality=quality, sigma=sigma, name=name)


class AveragedRotation(IntegratedSHO):
    def __init__(self, period, quality, sigma, num_insts, name="averaged-rotation"):
        super().__init__(omega=2 * jnp.pi / period, quality=quality, sigma=sigma, num_insts=num_insts, name=name)


class Diffusing(Exp):
    """a parameter of the user's own that shares the name of a field: the time over which the correlation halves"""

    def __init__(self, scale, sigma, name="diffusing"):
        super().__init__(scale=scale / jnp.log(2.0), sigma=sigma, name=name)
