"""Builders of short-rate models and their reference quantities, shared by the R checks."""
from datetime import datetime, timedelta

import numpy as np
from dateutil.relativedelta import relativedelta

from .. import gen as G, oracle as O
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.base_short_rate_model import ShortRateModel
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.stochastic_market_price_of_risk import StochasticMarketPriceOfRisk
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.trebly_mean_reverting_vasicek import TreblyMeanRevertingVasicek
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel, VasicekModel
from . import m01


def concrete(cls):
    """The calibration interface is abstract in the library; it plays no part in prices, so the subclass leaves it empty."""
    names = ('set_volatiltiy_parameters_from_dict', 'set_shape_parameters_from_dict', 'set_state_variables_from_dict')
    body = {n: (lambda self: None) for n in names}
    body['parameter_calibration_dict'] = property(lambda self: {})
    return type('Concrete' + cls.__name__, (cls,), body)


Multi = concrete(MultivariateVasicekModel)
Trebly = concrete(TreblyMeanRevertingVasicek)
Smpr = concrete(StochasticMarketPriceOfRisk)


def span(rng, lo_days, hi_days, max_steps=80):
    start = G.rdatetime(rng, 2000, 2045)
    days = rng.randint(lo_days, hi_days)
    if rng.random() < 0.1:       # a model of dates, in steps of whole days or months
        start = start.date()
        step = max(1, days // rng.randint(5, max_steps))
        dt = rng.choice([relativedelta(days=step), timedelta(days=step)])
        return start, start + timedelta(days=days), relativedelta(months=max(1, days // 900)) if days > 200 and rng.random() < 0.3 else dt
    end = start + timedelta(days=days) + (timedelta(seconds=rng.randint(0, 86399)) if rng.random() < 0.3 else timedelta(0))
    step = max(1, days // rng.randint(5, max_steps))
    dt = rng.choice([relativedelta(days=step), timedelta(days=step), relativedelta(days=step, hours=rng.choice([0, 7]))])
    if days > 200 and rng.random() < 0.3:
        dt = relativedelta(months=max(1, days // 900))
    return start, end, dt


def spectrum(r, n, lo=0.02, hi=1.5, distinct=True):
    while True:
        lam = np.exp(r.uniform(np.log(lo), np.log(hi), n))
        if n == 1 or not distinct or np.min(np.abs(np.subtract.outer(lam, lam))[~np.eye(n, dtype=bool)]) > 0.02:
            return lam


def reversion(c, n):
    """A reversion matrix whose eigenvalues have positive real parts: distinct and real, or with a complex pair (spiral)."""
    r = c.np_rng()
    kind = c.rng.choice(['diagonal', 'triangular', 'general', 'general', 'symmetric', 'spiral'])
    if kind == 'spiral' and n > 1:
        lam = spectrum(r, n)
        w = r.uniform(0.05, 1.5)
        D = np.diag(lam)
        D[:2, :2] = [[lam[0], w], [-w, lam[0]]]
        while True:
            v = r.normal(size=(n, n))
            v /= np.linalg.norm(v, axis=0)
            K = v @ D @ np.linalg.inv(v)
            if np.linalg.cond(v) < 8 and np.linalg.cond(np.linalg.eig(K)[1]) < 60:
                c.event('spiral')
                return kind, K
    lam = spectrum(r, n)
    if kind == 'diagonal' or n == 1:
        return kind, np.diag(lam)
    if kind == 'triangular':
        size = 0.8
        while True:                          # couplings weak enough for a well-conditioned eigenbasis
            K = np.diag(lam) + np.tril(r.uniform(-size, size, (n, n)), -1)
            if np.linalg.cond(np.linalg.eig(K)[1]) < 60:
                return kind, K
            size *= 0.8
    if kind == 'symmetric':
        q, _ = np.linalg.qr(r.normal(size=(n, n)))
        return kind, (q * lam) @ q.T
    while True:
        v = r.normal(size=(n, n))
        v /= np.linalg.norm(v, axis=0)
        if np.linalg.cond(v) < 15:
            return kind, v @ np.diag(lam) @ np.linalg.inv(v)


NODES = np.polynomial.legendre.leggauss(24)


class Affine:
    """Reference of dX = K(theta - X)dt + S dW, r = mu + g.X: solves the pricing equations numerically."""

    def __init__(self, K, theta, S, mu, g):
        self.K, self.theta, self.S = np.atleast_2d(K).astype(float), np.atleast_1d(theta).astype(float), np.atleast_2d(S).astype(float)
        self.mu, self.g = float(mu), np.atleast_1d(g).astype(float)
        self.C = self.S @ self.S.T
        self.n = len(self.theta)

    def rhs(self, y):
        B = y[:self.n]
        dB = -self.K.T @ B - self.g
        dA = -self.mu + B @ self.K @ self.theta + 0.5 * B @ self.C @ B
        return np.concatenate([dB, [dA]])

    def loadings(self, tau):
        """B(tau): the solution of dB = -K'B - g from zero, by one exponential of the augmented system."""
        M = np.zeros((self.n + 1, self.n + 1))
        M[:self.n, :self.n] = -self.K.T
        M[:self.n, self.n] = -self.g
        return self.expm(M * tau)[:self.n, self.n]

    def coeffs(self, tau):
        """(A, B) of log P = A + B.x: the intercept is the Gauss-Legendre integral of its own equation along B."""
        if tau <= 0:
            return 0.0, np.zeros(self.n)
        panels = int(np.ceil(max(1.0, tau * float(np.abs(self.K).sum()) / 8)))
        A, h = 0.0, tau / panels
        for p in range(panels):
            for u, w in zip(*NODES):
                B = self.loadings((p + 0.5 * (u + 1)) * h)
                A += 0.5 * h * w * (-self.mu + B @ self.K @ self.theta + 0.5 * B @ self.C @ B)
        return float(A), self.loadings(tau)

    def logprice(self, tau, x):
        A, B = self.coeffs(tau)
        return A + B @ x

    def forward(self, tau, x):
        A, B = self.coeffs(tau)
        d = self.rhs(np.concatenate([B, [A]]))
        return -(d[-1] + d[:-1] @ x)

    def expm(self, M):
        import scipy.linalg
        return scipy.linalg.expm(M)

    def mean(self, tau, x):
        E = self.expm(-self.K * tau)
        return E @ x + (np.eye(self.n) - E) @ self.theta

    def rate(self, x):
        return self.mu + self.g @ x

    def average_rate(self, tau, x):
        # int_0^tau exp(-Ks) ds = K^{-1}(I - exp(-K tau))
        I = np.linalg.solve(self.K, np.eye(self.n) - self.expm(-self.K * tau))
        return self.rate(self.theta + I @ (x - self.theta) / tau)

    def covariance(self, tau):
        """int_0^tau e^{-Ks} C e^{-K's} ds by Gauss-Legendre panels."""
        panels = int(np.ceil(max(1.0, tau * float(np.abs(self.K).sum()) / 8)))
        h, out = tau / panels, np.zeros((self.n, self.n))
        step, base = self.expm(-self.K * h), np.eye(self.n)
        inner = [(0.5 * h * w, self.expm(-self.K * (0.5 * (u + 1) * h))) for u, w in zip(*NODES)]
        for _ in range(panels):
            for w, E in inner:
                F = base @ E
                out += w * (F @ self.C @ F.T)
            base = base @ step
        return out
