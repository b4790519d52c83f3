"""C31: a call means the same however its arguments are passed, and an option left out has its documented value.

The calls of an entry point form a finite space: which options are given (every subset), how many of the arguments are passed
by position (every prefix, documented order), the others by keyword. All of them are executed on a problem in which every
option matters, and compared with the call that gives every argument by its documented name and default."""

import itertools
import warnings

import numpy as np
import pylops

import pyproximal as pp
from pyproximal import projection as pj
from pyproximal.optimization import palm as PL
from pyproximal.optimization import primal as P
from pyproximal.optimization import primaldual as PD
from pyproximal.optimization.bregman import Bregman
from pyproximal.optimization.pnp import PlugAndPlay
from pyproximal.optimization.segmentation import Segment
from pyproximal.optimization.sr3 import SR3
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from pyproximal.utils.gradtest import gradtest_bilinear, gradtest_proximal
from pyproximal.utils.moreau import moreau

from mc.props import c18

ID = "C31"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "names, order and default values as in the published signatures; one problem per entry point, built so that each option changes "
    "the result; options that only print are left out",
    "subsets of given options: all of them up to 8 options, beyond that all of size <= 3 (quick: 2) and their complements",
]


def E():
    return c18.Env(0, 1)


X32 = np.array([[1.0, 0.2], [-0.5, 0.7], [0.3, -1.0]])
Y24 = np.array([[0.4, 1.0, -0.6, 0.1], [0.9, -0.2, 0.5, 0.8]])
D34 = np.array([1.0, 2.0, -1.0, 0.5, 3.0, -2.0, 0.3, 0.4, 1.5, -0.7, 0.2, 0.9])


def lrf(e):
    return LowRankFactorizedMatrix(X32.copy(), Y24.copy(), D34.copy())


def den(x, tau):
    return np.sign(x) * np.maximum(np.abs(x) - 0.1 * tau, 0)


class Quartic(pp.Nonlinear):
    def fun(self, x):
        return float(np.sum(x ** 4))

    def grad(self, x):
        return 4 * x ** 3

    def optimize(self):
        x = self.x0.copy()
        for _ in range(self.niter):
            x = x - 0.02 * self._gradprox(x, self.tau)
        return x


class Off(pp.ProxOperator):
    def __init__(self, d):
        super().__init__(None, False)
        self.d = d

    def __call__(self, x):
        return 0.0

    def prox(self, x, tau):
        return x / (1 + tau) + self.d

    def proxdual(self, x, tau):
        return x / (1 + tau)


class OffGrad(pp.ProxOperator):
    def __init__(self, d):
        super().__init__(None, True)
        self.d = d

    def __call__(self, x):
        return float(np.real(np.sum(0.5 * np.abs(x) ** 2 + x)))

    def prox(self, x, tau):
        return x

    def grad(self, x):
        return (x + 1) * (1 + self.d)


def ops(*points, taus=(0.6, 1.5)):
    """everything a user can ask of an operator, at some points"""
    def obs(op):
        out = []
        for x in points:
            x = np.asarray(x, dtype=float if not np.iscomplexobj(x) else complex)
            for f in [lambda: op(x.copy())] + [lambda t=t: op.prox(x.copy(), t) for t in taus] + [lambda: op.proxdual(x.copy(), taus[0]), lambda: op.grad(x.copy())]:
                try:
                    v = f()
                    out.append(np.asarray(0.0 if v is None else v, dtype=complex).ravel())
                except NotImplementedError:
                    out.append(np.array([-77.0 + 0j]))
        return out
    return obs


def calls(*points):
    def obs(f):
        return [np.asarray(f(np.array(x, dtype=float)), dtype=complex).ravel() for x in points]
    return obs


def res(v):
    return [np.asarray(w, dtype=complex).ravel() for w in c18.flat(v)]


def truth(v):
    return [np.array([complex(bool(v))])]


x3 = np.array([1.0, -2.0, 0.4])
x6 = np.array([1.0, 2.0, -1.0, 0.5, 3.0, -2.0])
M = np.array([[2.0, 0.3, 0.0], [0.3, 1.0, -0.4], [0.0, -0.4, 1.5]])
A43 = c18.A
mm = c18.mm
deep = [np.array([0.5, 0.5]) + np.array([10.0 ** -k, 0]) for k in range(1, 13)]

# name -> (callable, observation, required {name: value}, options [(name, documented default, other value)]), built afresh
S = {}


def entry(fn):
    S[fn.__name__] = fn
    return fn


def solver(name, fn, req, opts, obs=res):
    S[name] = lambda: (fn, obs, req(E()), opts(E()))


cbk = ("niter", 10, 3)
solver("ProximalPoint", P.ProximalPoint, lambda e: dict(prox=e.l2, x0=e.x0 * 3, tau=0.1),
       lambda e: [cbk, ("tol", None, 0.3)])
solver("ProximalGradient", P.ProximalGradient, lambda e: dict(proxf=e.f2, proxg=e.l1, x0=e.x0),
       lambda e: [("epsg", 1.0, 0.4), ("tau", None, 1.5 / e.L), ("backtracking", False, True), ("beta", 0.5, 0.7), ("eta", 1.0, 0.8), cbk,
                  ("niterback", 100, 1), ("acceleration", None, "fista"), ("tol", None, 1e-1)])
solver("AcceleratedProximalGradient", P.AcceleratedProximalGradient, lambda e: dict(proxf=e.f2, proxg=e.l1, x0=e.x0),
       lambda e: [("tau", None, 1.5 / e.L), ("beta", 0.5, 0.7), ("epsg", 1.0, 0.4), cbk, ("niterback", 100, 1), ("acceleration", "vandenberghe", "fista"),
                  ("tol", None, 1e-1)])
solver("AndersonProximalGradient", P.AndersonProximalGradient, lambda e: dict(proxf=e.fid, proxg=e.l1, x0=e.x0 * 5),
       lambda e: [("epsg", 1.0, 0.4), ("tau", 1.0, 0.3), ("niter", 10, 4), ("nhistory", 10, 2), ("epsr", 1e-10, 1e-2), ("safeguard", False, True),
                  ("tol", None, 1e-1)])
solver("GeneralizedProximalGradient", P.GeneralizedProximalGradient, lambda e: dict(proxfs=[e.f2, e.fid], proxgs=[pp.L1(0.2), pp.L2(b=e.z0, sigma=0.4)], x0=e.x0, tau=0.5 / e.L),
       lambda e: [("epsg", 1.0, 0.4), ("weights", None, np.array([0.3, 0.7])), ("eta", 1.0, 0.6), cbk, ("acceleration", None, "fista")])
solver("HQS", P.HQS, lambda e: dict(proxf=e.f2, proxg=e.l1, x0=e.x0, tau=0.4), lambda e: [cbk, ("z0", None, e.z0), ("gfirst", True, False)])
solver("ADMM", P.ADMM, lambda e: dict(proxf=e.f2, proxg=e.l1, x0=e.x0, tau=0.4), lambda e: [cbk, ("z0", None, e.z0), ("gfirst", False, True)])
solver("ADMML2", P.ADMML2, lambda e: dict(proxg=e.l1, Op=mm(e.A), b=e.b, A=mm(e.D), x0=e.x0, tau=0.4),
       lambda e: [cbk, ("z0", None, e.zd), ("gfirst", False, True)])
solver("LinearizedADMM", P.LinearizedADMM, lambda e: dict(proxf=e.f2, proxg=e.l1, A=mm(e.D), x0=e.x0, tau=0.4, mu=0.05),
       lambda e: [cbk, ("z0", None, e.zd)])
solver("TwIST", P.TwIST, lambda e: dict(proxg=e.l1, A=mm(e.A / 4), b=e.b, x0=e.x0),
       lambda e: [("alpha", None, 1.1), ("beta", None, 0.9), ("eigs", None, (0.05, 0.6)), cbk], res)
solver("DouglasRachfordSplitting", P.DouglasRachfordSplitting, lambda e: dict(proxf=e.f2, proxg=e.l1, x0=e.x0, tau=0.4),
       lambda e: [("eta", 1.0, 0.8), cbk, ("gfirst", True, False)])
solver("PPXA", P.PPXA, lambda e: dict(proxfs=[e.fid, e.l1], x0=e.x0, tau=0.2),
       lambda e: [("eta", 1.0, 0.8), ("weights", None, np.array([0.3, 0.7])), ("niter", 1000, 5), ("tol", 1e-7, 1e-3)])
solver("PPXA slow", P.PPXA, lambda e: dict(proxfs=[e.fid, e.l1], x0=e.x0, tau=0.001), lambda e: [("eta", 1.0, 1.0), ("weights", None, None), ("niter", 1000, 5), ("tol", 1e-7, None)])
solver("ConsensusADMM", P.ConsensusADMM, lambda e: dict(proxfs=[e.fid, e.l1], x0=e.x0, tau=0.2), lambda e: [("niter", 1000, 5), ("tol", 1e-7, 1e-3)])
solver("ConsensusADMM slow", P.ConsensusADMM, lambda e: dict(proxfs=[e.fid, e.l1], x0=e.x0, tau=0.001), lambda e: [("niter", 1000, 5), ("tol", 1e-7, None)])
solver("PrimalDual", PD.PrimalDual, lambda e: dict(proxf=e.f2, proxg=e.l2, A=mm(3 * e.D), x0=e.x0, tau=0.05, mu=0.3),
       lambda e: [("y0", None, e.zd), ("z", None, e.zlin), ("theta", 1.0, 0.5), cbk, ("gfirst", True, False)])
solver("AdaptivePrimalDual", PD.AdaptivePrimalDual, lambda e: dict(proxf=e.f2, proxg=e.l1, A=mm(e.D), x0=e.x0, tau=0.5, mu=0.05),
       lambda e: [("alpha", 0.5, 0.3), ("eta", 0.95, 0.6), ("s", 1.0, 3.0), ("delta", 1.5, 1.05), ("z", None, e.zlin), ("niter", 10, 4), ("tol", 1e-10, 0.3)])
solver("AdaptivePrimalDual long", PD.AdaptivePrimalDual, lambda e: dict(proxf=e.fid, proxg=e.l1, A=mm(e.D), x0=e.x0, tau=0.5, mu=0.5),
       lambda e: [("alpha", 0.5, 0.5), ("eta", 0.95, 0.95), ("s", 1.0, 1.0), ("delta", 1.5, 1.5), ("z", None, None), ("niter", 10, 3000), ("tol", 1e-10, 1e-5)])
solver("PALM", PL.PALM, lambda e: dict(H=lrf(e), proxf=e.l1, proxg=e.l1, x0=X32.ravel(), y0=Y24.ravel()),
       lambda e: [("gammaf", 1.0, None), ("gammag", 1.0, 1.5), ("beta", 0.5, 0.7), cbk, ("niterback", 100, 1)])
solver("iPALM", PL.iPALM, lambda e: dict(H=lrf(e), proxf=e.l1, proxg=e.l1, x0=X32.ravel(), y0=Y24.ravel()),
       lambda e: [("gammaf", 1.0, None), ("gammag", 1.0, 1.5), ("a", (1.0, 1.0), (0.5, 0.3)), ("beta", 0.5, 0.7), cbk, ("niterback", 100, 1)])
solver("Segment", Segment, lambda e: dict(y=e.yimg, cl=e.cl, sigma=0.1, alpha=0.05),
       lambda e: [("clsigmas", None, np.array([1.0, 0.5, 2.0])), ("z", None, np.sin(np.arange(18.0))), cbk,
                  ("x0", None, np.tile(np.array([0.2, 0.3, 0.5]), (6, 1)).T.ravel()), ], res)
solver("SR3", SR3, lambda e: dict(Op=mm(e.A), Reg=mm(e.D), data=e.b, kappa=0.3, eps=0.2),
       lambda e: [("x0", None, e.x0), ("adaptive", True, False), ("iter_lim_outer", 100, 3), ("iter_lim_inner", 100, 1)], res)


def bregman(*a, **k):
    e = E()
    return Bregman(*a, **k, **dict(tau=0.9 / e.L, niter=5, epsg=1.0))


S["Bregman"] = lambda: (bregman, res, (lambda e: dict(proxf=e.f2, proxg=e.l1, x0=e.x0, solver=P.ProximalGradient))(E()),
                        [("A", None, None), ("alpha", 1.0, 0.5), ("niterouter", 10, 2), ("warm", False, True), ("tolx", 1e-10, 1e-1), ("tolf", 1e-10, 0.3)])
S["Bregman long"] = lambda: (bregman, res, (lambda e: dict(proxf=e.fid, proxg=e.l2, x0=e.x0, solver=P.ProximalGradient))(E()),
                             [("A", None, None), ("alpha", 1.0, 1.0), ("niterouter", 10, 400), ("warm", False, False), ("tolx", 1e-10, 1e-5), ("tolf", 1e-10, 1e-6)])


@entry
def pnp():
    e = E()

    def go(*a, **k):
        return PlugAndPlay(*a, **k, tau=0.4, niter=4)
    return go, res, dict(proxf=e.f2, denoiser=den, dims=(3,), x0=e.x0), [("solver", P.ADMM, P.HQS)]


# operators: constructor arguments
def op(name, fn, req, opts, points=(x3, np.array([0.2, 0.0, 5.0])), obs=None):
    S[name] = lambda: (fn, obs or ops(*points), req(), opts())


def tols(n, lo=1, hi=13):
    """points at geometrically decreasing distances"""
    return [10.0 ** -k for k in np.arange(lo, hi, 0.5)]


op("L0", pp.L0, dict, lambda: [("sigma", 1.0, 0.3)])
op("L1", pp.L1, dict, lambda: [("sigma", 1.0, 0.3), ("g", None, np.array([0.1, 0.2, -0.3]))])
op("L1Ball", pp.L1Ball, lambda: dict(n=3, radius=1.0), lambda: [("maxiter", 100, 3), ("xtol", 1e-5, 1e-1)])
op("L2", pp.L2, dict, lambda: [("Op", None, mm(A43[:3])), ("b", None, np.array([1.0, 0.5, -1.0])), ("q", None, np.array([0.3, 0.2, 0.1])), ("sigma", 1.0, 0.4),
                               ("alpha", 1.0, 2.0), ("qgrad", True, False), ("niter", 10, 2), ("x0", None, np.array([1.0, 1.0, 0.0])), ("warm", True, False),
                               ("solver", "legacy", "cg"), ("densesolver", None, "scipy"), ("kwargs_solver", None, {})])
implicit = lambda A: mm(A) * pylops.Identity(3)
op("L2 iterative", lambda Op, b, q=None, alpha=1.0, qgrad=True, niter=10, x0=None, warm=True, solver="legacy", kwargs_solver=None:
   pp.L2(Op, b, q, 1.0, alpha, qgrad, niter, x0, warm, solver, None, kwargs_solver), lambda: dict(Op=implicit(A43), b=np.array([1.0, 0.5, -1.0, 2.0])),
   lambda: [("q", None, np.array([0.3, 0.2, 0.1])), ("alpha", 1.0, 2.0), ("qgrad", True, False), ("niter", 10, 1), ("x0", None, np.array([1.0, 1.0, 0.0])), ("warm", True, False),
            ("solver", "legacy", "cg"), ("kwargs_solver", None, dict(tol=1e30))])
op("L2Convolve dims", lambda h, b, nfft=1024, sigma=1.0, dir=None: pp.L2Convolve(h, b, nfft, sigma, (2, 3), dir),
   lambda: dict(h=np.array([1.0, 0.5]), b=np.array([[1.0, 0.0, 2.0], [-1.0, 3.0, 0.5]])), lambda: [("nfft", 1024, 8), ("sigma", 1.0, 0.3), ("dir", None, 0)], (x6,))
op("Quadratic iterative", lambda Op, b, c=0.0, niter=10, x0=None, warm=True: pp.Quadratic(Op, b, c, niter, x0, warm), lambda: dict(Op=implicit(M), b=np.array([1.0, 0.5, -1.0])),
   lambda: [("c", 0.0, 2.0), ("niter", 10, 1), ("x0", None, np.array([1.0, 1.0, 0.0])), ("warm", True, False)])
op("L2Convolve", pp.L2Convolve, lambda: dict(h=np.array([1.0, 0.5]), b=np.array([1.0, 0.0, 2.0])),
   lambda: [("nfft", 1024, 8), ("sigma", 1.0, 0.3), ("dims", None, (3,)), ("dir", None, 0)])
op("L21", pp.L21, lambda: dict(ndim=2), lambda: [("sigma", 1.0, 0.3)], (x6,))
op("L21_plus_L1", pp.L21_plus_L1, dict, lambda: [("sigma", 1.0, 0.3), ("rho", 0.8, 0.3)], (x6.reshape(2, 3), x6.reshape(3, 2)))
op("Log", pp.Log, lambda: dict(sigma=0.7), lambda: [("gamma", 1.3, 3.0)])
op("Log1", pp.Log1, lambda: dict(sigma=0.7), lambda: [("delta", 1e-10, 0.3)], (np.array([1e-5, 0.3, -1e-10]), np.array([3e-10, 0.0, 2e-9])))
op("ETP", pp.ETP, lambda: dict(sigma=0.7), lambda: [("gamma", 1.0, 3.0)])
op("Geman", pp.Geman, lambda: dict(sigma=0.7), lambda: [("gamma", 1.3, 3.0)])
op("SCAD", pp.SCAD, lambda: dict(sigma=0.7), lambda: [("a", 3.7, 5.5)])
op("Euclidean", pp.Euclidean, dict, lambda: [("sigma", 1.0, 0.3)])
op("Box", pp.Box, dict, lambda: [("lower", -np.inf, -0.5), ("upper", np.inf, 0.7)])
op("Nuclear", pp.Nuclear, lambda: dict(dim=(2, 3)), lambda: [("sigma", 1.0, 0.3)], (x6,))
op("NuclearBall", pp.NuclearBall, lambda: dict(dims=(2, 3), radius=1.0), lambda: [("maxiter", 100, 3), ("xtol", 1e-5, 1e-1)], (x6,))
op("Simplex", pp.Simplex, lambda: dict(n=6, radius=1.0), lambda: [("dims", None, (2, 3)), ("axis", -1, 0), ("maxiter", 100, 4), ("ftol", 1e-8, 1e-1), ("xtol", 1e-8, 1e-1),
                                                                 ("call", True, False), ("engine", "numpy", "numba")], (x6,))
op("Quadratic", pp.Quadratic, dict, lambda: [("Op", None, mm(M)), ("b", None, np.array([1.0, 0.5, -1.0])), ("c", 0.0, 2.0), ("niter", 10, 1),
                                             ("x0", None, np.array([1.0, 1.0, 0.0])), ("warm", True, False)])
op("Nonlinear", Quartic, lambda: dict(x0=np.array([0.5, -0.5, 0.1])), lambda: [("niter", 10, 2), ("warm", True, False)])
op("Orthogonal", pp.Orthogonal, lambda: dict(f=pp.L1(0.4), Q=mm(np.array([[0.6, 0.8, 0.0], [-0.8, 0.6, 0.0], [0.0, 0.0, 1.0]]))), lambda: [("partial", False, True), ("b", None, np.array([0.2, 0.1, -1.0])), ("alpha", 1.0, 2.0)])
op("RelaxedMumfordShah", pp.RelaxedMumfordShah, dict, lambda: [("sigma", 1.0, 0.3), ("kappa", 1.0, 0.5)])
op("Intersection", pp.Intersection, lambda: dict(k=3, n=2, sigma=0.3), lambda: [("niter", 100, 2), ("tol", 1e-5, 1e-1), ("call", True, False)], (x6, 10 * x6))
op("GenericIntersectionProx", pp.GenericIntersectionProx,
   lambda: dict(projections=[pj.EuclideanBallProj(np.zeros(3), 1.0), pj.HalfSpaceProj(np.array([1.0, 1.0, 0.2]), -1.2)]),
   lambda: [("niter", 1000, 3), ("tol", 1e-6, 1e-1), ("use_parallel", False, True)], (x3, 4 * x3))
op("Sum", pp.Sum, lambda: dict(ops=[pp.L1(0.5), pp.Euclidean(0.3), pp.EuclideanBall(np.array([0.1, 0.2, 0.3]), 0.9)]),
   lambda: [("weights", None, [0.2, 0.5, 0.3]), ("niter", 1000, 3), ("tol", 1e-7, 1e-2), ("use_parallel", False, True), ("use_original_tau", False, True)], (x3, 4 * x3))
op("TV", pp.TV, lambda: dict(dims=(6,)), lambda: [("sigma", 1.0, 0.3), ("niter", 10, 3), ("rtol", 1e-4, 1e-1)], (x6,))
op("VStack", pp.VStack, lambda: dict(ops=[pp.L1(0.5), pp.L2(sigma=0.3)]), lambda: [("nn", None, [2, 4]), ("restr", None, [pylops.Restriction(6, [0, 2, 4]), pylops.Restriction(6, [1, 3, 5])])], (x6,))
# required arguments only: order
op("EuclideanBall", pp.EuclideanBall, lambda: dict(center=np.array([0.1, 0.2, 0.3]), radius=0.7), list)
op("HalfSpace", pp.HalfSpace, lambda: dict(w=np.array([1.0, 2.0, 0.5]), b=-3.0), list)
op("AffineSet", pp.AffineSet, lambda: dict(Op=mm(c18.D), b=np.array([0.2, -0.1]), niter=8), list)
op("L0Ball", pp.L0Ball, lambda: dict(radius=2), list)
op("L10Ball", pp.L10Ball, lambda: dict(ndim=2, radius=1), list, (x6,))

# projections
op("BoxProj", pj.BoxProj, dict, lambda: [("lower", -np.inf, -0.5), ("upper", np.inf, 0.7)], obs=calls(x3))
op("HyperPlaneBoxProj", pj.HyperPlaneBoxProj, lambda: dict(coeffs=np.array([1.0, 0.5, 2.0]), scalar=0.3),
   lambda: [("lower", -np.inf, -0.5), ("upper", np.inf, 0.7), ("maxiter", 100, 4), ("xtol", 1e-5, 1e-1)], obs=calls(x3, 5 * x3))
op("GenericIntersectionProj", pj.GenericIntersectionProj,
   lambda: dict(projections=[pj.EuclideanBallProj(np.zeros(3), 1.0), pj.HalfSpaceProj(np.array([1.0, 1.0, 0.2]), -1.2)]),
   lambda: [("niter", 1000, 3), ("tol", 1e-6, 1e-1), ("use_parallel", False, True)], obs=calls(x3, 4 * x3))
op("IntersectionProj", pj.IntersectionProj, lambda: dict(k=3, n=2, sigma=0.3 * np.ones((3, 3))), lambda: [("niter", 100, 2), ("tol", 1e-5, 1e-1)], obs=calls(x6.reshape(3, 2), 10 * x6.reshape(3, 2)))
op("L1BallProj", pj.L1BallProj, lambda: dict(n=3, radius=1.0), lambda: [("maxiter", 100, 3), ("xtol", 1e-5, 1e-1)], obs=calls(x3, np.array([0.9, -0.8, 0.77])))
op("NuclearBallProj", pj.NuclearBallProj, lambda: dict(n=2, radius=1.0), lambda: [("maxiter", 100, 3), ("xtol", 1e-5, 1e-1)], obs=calls(x6.reshape(2, 3)))
op("SimplexProj", pj.SimplexProj, lambda: dict(n=3, radius=1.0), lambda: [("maxiter", 100, 3), ("xtol", 1e-5, 1e-1)], obs=calls(x3))


# membership tolerances: every decade (and half decade) of distance from the set
def member(name, make, point):
    def go(x, *a, **k):
        o = make()
        return [np.array([complex(bool(o(x(d), *a, **k)))]) for d in tols(0, 0, 14)]
    S["member " + name] = lambda: (go, lambda v: v, dict(x=point[0]), [("tol", point[1], 3e-3)])


member("Intersection", lambda: pp.Intersection(2, 2, 0.5), (lambda d: np.array([1.0, 0.0, 0.5 - d, 0.0]) + np.array([0, 0, 0, 0.0]), 1e-8))
member("L10Ball", lambda: pp.L10Ball(2, 1), (lambda d: np.array([1.0, 2.0, 0.5 , d]), 1e-4))
member("L1Ball", lambda: pp.L1Ball(3, 1.0), (lambda d: np.array([0.5, 0.5 + d, 0.0]), 1e-4))
member("NuclearBall", lambda: pp.NuclearBall((2, 2), 1.0), (lambda d: np.array([0.5 + d, 0, 0, 0.5]), 1e-5))
member("Simplex", lambda: pp.Simplex(2, 1.0), (lambda d: np.array([0.5, 0.5 + d]), 1e-8))


# checkers
def lim(name, fn, req, opts):
    def go(*a, **k):
        out = []
        for d in tols(0, 0, 14):
            b = req(d)
            aa = [b.get(v, v) if isinstance(v, str) and v.startswith("@") else v for v in a]
            kk = {n: b.get(v, v) if isinstance(v, str) and v.startswith("@") else v for n, v in k.items()}
            np.random.seed(3)
            try:
                v = bool(fn(*aa, **kk))
            except (AssertionError, ValueError):
                v = 2
            out.append(np.array([complex(v)]))
        return out
    return go


@entry
def moreau_check():
    go = lim("moreau", moreau, lambda d: {"@p": Off(d)}, None)
    return go, lambda v: v, dict(prox="@p", x=x3, tau=0.7), [("tol", 1e-5, 1e-2), ("raiseerror", True, False)]


@entry
def gradtest_proximal_check():
    go = lim("g", gradtest_proximal, lambda d: {"@p": OffGrad(d)}, None)
    return go, lambda v: v, dict(Op="@p", n=3), [("x", None, x3), ("dtype", "float64", "float32"), ("delta", 1e-6, 1e-2), ("rtol", 1e-6, 1e-3), ("atol", 1e-21, 1e-1),
                                                 ("complexflag", False, True), ("raiseerror", True, False)]


class OffBil(LowRankFactorizedMatrix):
    d_ = 0.0

    def gradx(self, x):
        return super().gradx(x) * (1 + self.d_)


@entry
def gradtest_bilinear_check():
    def mk(d):
        # complex factors: an imaginary perturbation of real ones would be a misuse
        o = OffBil(X32 + 0.1j, Y24 - 0.2j, 100 * D34 + 1j)
        o.d_ = d
        return {"@p": o}
    go = lim("g", gradtest_bilinear, mk, None)
    return go, lambda v: v, dict(Op="@p"), [("delta", 1e-6, 1e-2), ("rtol", 1e-6, 1e-3), ("atol", 1e-21, 1e-1), ("complexflag", False, True), ("raiseerror", True, False)]


@entry
def lowrank():
    x, y = X32.ravel() + 0.1, Y24.ravel() - 0.2

    def obs(o):
        vals = [o(np.concatenate([x, y])), o(x, y), o(x=x, y=y), o.gradx(x), o.grady(y), o.grad(np.concatenate([x, y])), o.lx(x), o.ly(y)]
        return [np.asarray(v, dtype=complex).ravel() for v in vals]
    return LowRankFactorizedMatrix, obs, dict(X=X32.copy(), Y=Y24.copy(), d=D34.copy()), [("Op", None, mm(np.diag(np.arange(1.0, 13.0))))]


@entry
def adjoint_args():
    """arithmetic entry points by keyword"""
    f = pp.L1(0.4)

    def go(sigma, a, b, tau):
        g = f.precomposition(a=a, b=b).postcomposition(sigma=sigma).affine_addition(v=np.array([0.1, 0.2, 0.3]))
        return [np.asarray(g.prox(x=x3.copy(), tau=tau), dtype=complex), np.asarray(g.proxdual(x=x3.copy(), tau=tau), dtype=complex), np.array([complex(g(x3.copy()))])]
    return go, lambda v: v, dict(sigma=2.0, a=0.5, b=np.array([1.0, 0.0, -1.0]), tau=0.7), []


# options whose other value changes the result of at least one of the observed calls (alone, or together with the others" other values)
EFFECT = {
    "ProximalPoint": "niter tol",
    "ProximalGradient": "epsg tau beta eta niter niterback acceleration tol backtracking",
    "AcceleratedProximalGradient": "tau beta epsg niter niterback acceleration tol",
    "AndersonProximalGradient": "epsg tau niter nhistory epsr safeguard tol",
    "GeneralizedProximalGradient": "epsg weights eta niter acceleration",
    "HQS": "niter gfirst z0",
    "ADMM": "niter z0 gfirst",
    "ADMML2": "niter z0 gfirst",
    "LinearizedADMM": "niter z0",
    "TwIST": "alpha beta eigs niter",
    "DouglasRachfordSplitting": "eta niter gfirst",
    "PPXA": "niter tol eta weights",
    "PPXA slow": "niter",
    "ConsensusADMM": "niter tol",
    "ConsensusADMM slow": "niter",
    "PrimalDual": "y0 z theta niter gfirst",
    "AdaptivePrimalDual": "alpha eta s delta z niter tol",
    "AdaptivePrimalDual long": "niter tol",
    "PALM": "gammaf gammag niter beta niterback",
    "iPALM": "gammaf gammag a niter beta niterback",
    "Segment": "clsigmas z niter x0",
    "SR3": "adaptive iter_lim_outer x0 iter_lim_inner",
    "Bregman": "alpha niterouter warm tolx",
    "Bregman long": "niterouter tolf",
    "pnp": "solver",
    "L0": "sigma",
    "L1": "sigma g",
    "L1Ball": "maxiter xtol",
    "L2": "b q sigma Op alpha qgrad",
    "L2 iterative": "q niter kwargs_solver alpha qgrad x0 solver",
    "L2Convolve dims": "nfft sigma dir",
    "Quadratic iterative": "c niter x0 warm",
    "L2Convolve": "nfft sigma",
    "L21": "sigma",
    "L21_plus_L1": "sigma rho",
    "Log": "gamma",
    "Log1": "delta",
    "ETP": "gamma",
    "Geman": "gamma",
    "SCAD": "a",
    "Euclidean": "sigma",
    "Box": "lower upper",
    "Nuclear": "sigma",
    "NuclearBall": "maxiter xtol",
    "Simplex": "dims axis maxiter ftol engine",
    "Quadratic": "Op b c",
    "Nonlinear": "niter warm",
    "Orthogonal": "b partial alpha",
    "RelaxedMumfordShah": "sigma kappa",
    "Intersection": "niter",
    "GenericIntersectionProx": "niter tol",
    "Sum": "niter tol use_original_tau weights",
    "TV": "sigma niter rtol",
    "VStack": "nn restr",
    "BoxProj": "lower upper",
    "HyperPlaneBoxProj": "lower upper maxiter xtol",
    "GenericIntersectionProj": "niter tol",
    "IntersectionProj": "niter",
    "L1BallProj": "maxiter xtol",
    "NuclearBallProj": "maxiter xtol",
    "SimplexProj": "maxiter xtol",
    "member Intersection": "tol",
    "member L1Ball": "tol",
    "member NuclearBall": "tol",
    "member Simplex": "tol",
    "moreau_check": "tol raiseerror",
    "gradtest_proximal_check": "dtype delta rtol atol raiseerror",
    "gradtest_bilinear_check": "rtol atol complexflag raiseerror",
    "lowrank": "Op",
}


def cases(tier):
    return [[tier, n] for n in S]


def subsets(n, tier):
    if n <= 8:
        return [set(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]
    m = 2 if tier == "quick" else 3
    out = []
    for k in range(m + 1):
        for c in itertools.combinations(range(n), k):
            out += [set(c), set(range(n)) - set(c)]
    return out


def attempt(make, how):
    """run one call; how(required, options) gives args, kwargs"""
    fn, obs, req, opts = make()
    a, k = how(req, opts)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return obs(fn(*a, **k))
    except (ValueError, NotImplementedError, RuntimeError, ZeroDivisionError, np.linalg.LinAlgError) as ex:
        return [type(ex).__name__]
    except (TypeError, KeyError, AttributeError, IndexError, AssertionError) as ex:
        return ["! " + type(ex).__name__ + " " + str(ex)[:80]]


def eq(a, b, tol=1e-9):
    if len(a) != len(b):
        return False
    for v, w in zip(a, b):
        if isinstance(v, str) or isinstance(w, str):
            if not (isinstance(v, str) and isinstance(w, str) and v.split()[:2] == w.split()[:2]):
                return False
        elif v.shape != w.shape or not np.allclose(v, w, rtol=tol, atol=tol * 1e-2, equal_nan=True):
            return False
    return True


def run(case, r):
    tier, name = case
    make = S[name]
    _, _, req, opts = make()
    rn, on = list(req), [o[0] for o in opts]
    n = len(on)
    changed = set()
    base = None
    for T in subsets(n, tier):
        def full(q, o):
            return (), {**q, **{m: (alt if i in T else d) for i, (m, d, alt) in enumerate(o)}}

        def given(q, o):
            return (), {**q, **{m: alt for i, (m, d, alt) in enumerate(o) if i in T}}

        want = attempt(make, full)
        got = attempt(make, given)
        if not T:
            base = want
        r.trans(2)
        r.trace()
        r.state(name, tuple(sorted(T)))
        r.outcome(*[v if isinstance(v, str) else v for v in want])
        d = "%s with %s" % (name, ", ".join("%s=%s" % (on[i], opts[i][2]) for i in sorted(T)) or "no option")
        r.check(eq(got, want), "default|" + name, "%s: %s, with the documented values of the other options given explicitly %s" % (d, got, want))
        if len(T) == 1 and not eq(want, base):
            changed |= T
    # arguments that matter are not ignored: alone, or with all the others
    if name in EFFECT:
        everything = attempt(make, lambda q, o: ((), {**q, **{m: b for m, _, b in o}}))
        for i, m in enumerate(on):
            if m not in EFFECT[name].split():
                continue
            alone = attempt(make, lambda q, o: ((), {**q, **{k: (b if k == m else d) for k, d, b in o}}))
            without = attempt(make, lambda q, o: ((), {**q, **{k: (d if k == m else b) for k, d, b in o}}))
            r.trans(2)
            r.trace()
            r.state(name, "effect", m)
            r.check(not eq(alone, base, 1e-7) or not eq(without, everything, 1e-7), "ignored|%s|%s" % (name, m),
                    "%s: %s=%s changes nothing, neither alone nor together with all other options" % (name, m, opts[i][2]))
    # positions: every prefix, for the defaults and for the other values
    for alt in (False, True):
        val = lambda o: {m: (b if alt else d) for m, d, b in o}
        want = attempt(make, lambda q, o: ((), {**q, **val(o)}))
        for p in range(len(rn) + n + 1):
            def prefix(q, o):
                allv = list({**q, **val(o)}.items())
                return tuple(v for _, v in allv[:p]), dict(allv[p:])
            got = attempt(make, prefix)
            r.trans()
            r.trace()
            r.state(name, "pos", alt, p)
            r.check(eq(got, want), "position|" + name, "%s: first %d arguments by position give %s, all by keyword %s" % (name, p, got, want))
    # numbers of every kind
    for i, m in enumerate(rn + on):
        def val(q, o, conv=None):
            allv = {**q, **{k: b for k, _, b in o}}
            if conv is not None:
                allv[m] = conv(allv[m])
            return (), allv
        make0 = make()
        v = {**make0[2], **{k: b for k, _, b in make0[3]}}[m]
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            continue
        if isinstance(v, int):
            kinds = [(int, np.int64, 1e-9), (int, np.int32, 1e-9), (int, np.int16, 1e-9)]
        else:
            kinds = [(float, np.float64, 1e-9), (lambda w: float(np.float32(w)), np.float32, 1e-4)]
            if name != "adjoint_args":
                kinds += [(lambda w: float(np.ceil(w)), lambda w: int(np.ceil(w)), 1e-9), (lambda w: float(np.ceil(w)), lambda w: np.int64(np.ceil(w)), 1e-9)]
        if name == "adjoint_args" and m in ("sigma", "a"):
            kinds = kinds[:1]
        for plain, conv, tol in kinds:
            want = attempt(make, lambda q, o: val(q, o, plain))
            got = attempt(make, lambda q, o: val(q, o, conv))
            r.trans(2)
            r.trace()
            r.state(name, "kind", m, repr(conv(v)))
            refused = isinstance(want[0], str) and isinstance(got[0], str)
            r.check(refused or eq(got, want, tol), "kind|%s|%s" % (name, m), "%s with %s=%r: %s, with the Python number %r: %s" % (name, m, conv(v), got, plain(v), want))
    r.check(not any(isinstance(v, str) and v.startswith("!") for v in (base or [])), "call|" + name, "%s: the plain call fails: %s" % (name, base))
    r.sample("%s: options that alone change the result: %s, not: %s" % (name, [on[i] for i in sorted(changed)], [on[i] for i in range(n) if i not in changed]))

