"""User-side objects handed to pySOT: problem, design and surrogate.

They are ordinary implementations of pySOT's public interfaces (the seams the
library already has).  Design and surrogate tell the current oracle what
happens to them; the oracle is found through a module global, so the objects
stay picklable and a checkpoint never contains a part of the simulator.
"""
import numpy as np
from pySOT.experimental_design import (
    ExperimentalDesign, LatinHypercube, SymmetricLatinHypercube, TwoFactorial)
from pySOT.optimization_problems import OptimizationProblem
from pySOT.surrogate import (
    ConstantTail, CubicKernel, GPRegressor, LinearKernel, LinearTail, PolyRegressor, RBFInterpolant, TPSKernel)

CUR = None  # current oracle


def set_current(oracle):
    global CUR
    CUR = oracle


class SimProblem(OptimizationProblem):
    def __init__(self, dim, lb, ub, int_var):
        self.dim = dim
        self.lb = np.array(lb, dtype=float)
        self.ub = np.array(ub, dtype=float)
        self.int_var = np.array(int_var, dtype=int)
        self.cont_var = np.array([i for i in range(dim) if i not in int_var], dtype=int)
        self.min = 0.0
        self.minimum = self.lb.copy()
        self.info = "simulated problem"

    def eval(self, x):
        raise RuntimeError("evaluations go through the simulated workers")


class TapDesign(ExperimentalDesign):
    """Delegates to a real design and reports each generated design."""

    def __init__(self, real):
        self.real = real
        self.dim = real.dim
        self.num_pts = real.num_pts

    def generate_points(self, lb=None, ub=None, int_var=None):
        genuine = True
        try:
            pts = self.real.generate_points(lb=lb, ub=ub, int_var=int_var)
        except ValueError:  # "No valid design found": possible for small integer domains
            genuine = False
            a, b = (0.0, 1.0) if lb is None or ub is None else (lb, ub)
            pts = a + np.random.rand(self.num_pts, self.dim) * (b - a)
            if int_var is not None and len(int_var) > 0 and lb is not None and ub is not None:
                pts[:, int_var] = np.round(pts[:, int_var])
        if CUR is not None:
            CUR.on_design(np.array(pts, dtype=float), genuine, lb is not None and ub is not None)
        return pts


class _TapSurrogate(object):
    def reset(self):
        super().reset()
        if CUR is not None:
            CUR.on_surrogate_reset(self)

    def add_points(self, xx, fx):
        super().add_points(xx, fx)
        if CUR is not None:
            CUR.on_surrogate_add(self, xx, fx)

    def predict(self, xx):
        out = super().predict(xx)
        if CUR is not None:
            CUR.on_surrogate_predict(self, xx, out)
        return out


class TapRBF(_TapSurrogate, RBFInterpolant):
    pass


class TapPoly(_TapSurrogate, PolyRegressor):
    pass


class TapGP(_TapSurrogate, GPRegressor):
    def predict_std(self, xx):
        out = super().predict_std(xx)
        if CUR is not None:
            CUR.on_surrogate_predict_std(self, xx, out)
        return out


def make_design(kind, dim, num_pts, iterations=24):
    if kind == "slhd":
        return SymmetricLatinHypercube(dim=dim, num_pts=num_pts, iterations=iterations)
    if kind == "lhd":
        return LatinHypercube(dim=dim, num_pts=num_pts, iterations=iterations)
    return TwoFactorial(dim=dim)


def make_gp_model(dim):
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process.kernels import RBF, ConstantKernel, WhiteKernel
    kernel = ConstantKernel(1.0) * RBF(length_scale=0.4 * np.ones(dim)) + WhiteKernel(1e-4)
    return GaussianProcessRegressor(kernel=kernel, optimizer=None)


def make_surrogate(kind, prob, transform=None, tapped=True, eta=1e-6, parts=None):
    """parts: kernels and tails that several surrogates share."""
    parts = {} if parts is None else parts

    def part(cls, *args):
        key = (cls.__name__,) + args
        if key not in parts:
            parts[key] = cls(*args)
        return parts[key]

    rbf = TapRBF if tapped else RBFInterpolant
    poly = TapPoly if tapped else PolyRegressor
    gp = TapGP if tapped else GPRegressor
    kw = dict(dim=prob.dim, lb=prob.lb, ub=prob.ub, output_transformation=transform)
    if kind.startswith("rbf-linear"):
        eta = min(eta, 1e-6)  # this kernel is conditionally negative definite: eta could make the system singular
    if kind == "rbf-cubic-linear":
        return rbf(kernel=part(CubicKernel), tail=part(LinearTail, prob.dim), eta=eta, **kw)
    if kind == "rbf-default-cubic":  # what the class chooses itself
        return rbf(eta=eta, **kw)
    if kind == "rbf-tps-linear":
        return rbf(kernel=part(TPSKernel), tail=part(LinearTail, prob.dim), eta=eta, **kw)
    if kind == "rbf-linear-constant":
        return rbf(kernel=part(LinearKernel), tail=part(ConstantTail, prob.dim), eta=eta, **kw)
    if kind == "rbf-linear-linear":
        return rbf(kernel=part(LinearKernel), tail=part(LinearTail, prob.dim), eta=eta, **kw)
    if kind == "poly1":
        return poly(degree=1, **kw)
    if kind == "poly2":
        return poly(degree=2, **kw)
    if kind == "gp-default":
        return gp(n_restarts_optimizer=1, **kw)
    return gp(gp=make_gp_model(prob.dim), **kw)
