"""Small independent reference models.  Nothing here imports the package under test."""
import calendar
import datetime as dt
import math

import numpy as np
from scipy.interpolate import CubicSpline
from scipy.special import ndtr


# ------------------------------------------------------------------------------------------------ dates
def ord_of(x):
    """ISO date string -> proleptic ordinal."""
    return dt.date.fromisoformat(x).toordinal()


def iso(o):
    return dt.date.fromordinal(o).isoformat()


def year_frac(a, b, basis):
    """a, b: dates (datetime.date), a <= b."""
    days = (b - a).days
    if basis == 'ACT_365':
        return days / 365.0
    if basis == 'ACT_360':
        return days / 360.0
    if basis == 'ACT_366':
        return days / 366.0
    if basis == 'ACT_ACT':
        if a.year == b.year:
            return days / (366.0 if calendar.isleap(a.year) else 365.0)
        la, lb = (366.0 if calendar.isleap(y) else 365.0 for y in (a.year, b.year))
        return (dt.date(a.year + 1, 1, 1) - a).days / la + (b.year - a.year - 1) + (b - dt.date(b.year, 1, 1)).days / lb
    if basis == '_30E_360':
        d1, d2 = min(a.day, 30), min(b.day, 30)
        return (360 * (b.year - a.year) + 30 * (b.month - a.month) + d2 - d1) / 360.0
    if basis == '_30_360':
        d1 = min(a.day, 30)
        d2 = 30 if (b.day == 31 and d1 == 30) else b.day
        return (360 * (b.year - a.year) + 30 * (b.month - a.month) + d2 - d1) / 360.0
    raise ValueError(basis)


def days_per_year(basis):
    return {'ACT_365': 365.0, 'ACT_360': 360.0, 'ACT_366': 366.0, '_30_360': 360.0, '_30E_360': 360.0}[basis]


def add_months(d, n):
    y, m = divmod(d.year * 12 + d.month - 1 + n, 12)
    return dt.date(y, m + 1, min(d.day, calendar.monthrange(y, m + 1)[1]))


# ------------------------------------------------------------------------------------------------ zero curve
class Curve:
    """Discount factors of a curve given as pillars (t > 0 strictly increasing; a pillar at 0 may be included)."""

    def __init__(self, t, df, interp):
        t, df = np.asarray(t, float), np.asarray(df, float)
        self.interp = interp
        self.t, self.df = t, df
        if interp == 'CUBIC_SPLINE_ON_CCZR':
            self.z = CubicSpline(t, -np.log(df) / t, bc_type='not-a-knot', extrapolate=True)
        else:
            if t[0] != 0:
                t, df = np.r_[0.0, t], np.r_[1.0, df]
            self.x, self.y = t, np.log(df)
            if interp == 'CUBIC_SPLINE_ON_LN_DISCOUNT':
                self.s = CubicSpline(t, np.log(df), bc_type='not-a-knot', extrapolate=True)

    def ln_df(self, t):
        t = np.asarray(t, float)
        if self.interp == 'LINEAR_ON_LN_DISCOUNT':
            out = np.empty(t.shape)
            flat, res = np.atleast_1d(t), np.atleast_1d(out)
            for i, u in enumerate(flat):
                if u >= self.x[-1]:
                    res[i] = self.y[-1]
                    continue
                k = int(np.searchsorted(self.x, u, side='right')) - 1
                w = (u - self.x[k]) / (self.x[k + 1] - self.x[k])
                res[i] = (1 - w) * self.y[k] + w * self.y[k + 1]
            return res.reshape(t.shape) if t.shape else res[0]
        if self.interp == 'CUBIC_SPLINE_ON_LN_DISCOUNT':
            return self.s(t)
        return -self.z(t) * t

    def discount(self, t):
        return np.exp(self.ln_df(t))

    def fwd(self, t):
        """Instantaneous forward rate."""
        if self.interp == 'CUBIC_SPLINE_ON_LN_DISCOUNT':
            return -self.s(t, 1)
        return self.z(t) + np.asarray(t) * self.z(t, 1)


def zero_rate(freq, t, df):
    """Zero rate of a discount factor for a compounding frequency."""
    if freq == 'CONTINUOUS':
        return -np.log(df) / t
    if freq == 'SIMPLE':
        return (1 / df - 1) / t
    n = {'DAILY': 365, 'WEEKLY': 52, 'MONTHLY': 12, 'QUARTERLY': 4, 'SEMIANNUAL': 2, 'ANNUAL': 1}[freq]
    return n * (df ** (-1.0 / (n * t)) - 1)


def df_of_zero_rate(freq, t, r):
    if freq == 'CONTINUOUS':
        return np.exp(-r * t)
    if freq == 'SIMPLE':
        return 1 / (1 + r * t)
    n = {'DAILY': 365, 'WEEKLY': 52, 'MONTHLY': 12, 'QUARTERLY': 4, 'SEMIANNUAL': 2, 'ANNUAL': 1}[freq]
    return (1 + r / n) ** (-n * t)


# ------------------------------------------------------------------------------------------------ path recursions
def gbm(s0, drift, vol, dts, z):
    """z: (steps, underlyings, sims) -> (steps+1, underlyings, sims)"""
    out = np.empty((z.shape[0] + 1, z.shape[1], z.shape[2]))
    for u in range(z.shape[1]):
        for p in range(z.shape[2]):
            ln = math.log(s0[u])
            out[0, u, p] = s0[u]
            for i in range(z.shape[0]):
                ln += (drift[i][u] - vol[i][u] ** 2 / 2) * dts[i] + vol[i][u] * math.sqrt(dts[i]) * z[i, u, p]
                out[i + 1, u, p] = math.exp(ln)
    return out


def heston(S0, mu, v0, vv, kappa, theta, rho, tau, z, method):
    """z: (steps, 2) -> (steps+1, 2): one trajectory."""
    n = z.shape[0]
    h = tau / n
    out = np.empty((n + 1, 2))
    out[0] = S0, v0
    if method == 'quadratic_exponential':
        x, v = math.log(S0), v0
        e = math.exp(-kappa * h)
        for i in range(n):
            m = theta + (v - theta) * e
            s2 = v * vv * vv * e / kappa * (1 - e) + theta * vv * vv / (2 * kappa) * (1 - e) ** 2
            psi = s2 / (m * m)
            if psi <= 1.5:
                b2 = 2 / psi - 1 + math.sqrt(2 / psi) * math.sqrt(2 / psi - 1)
                vn = m / (1 + b2) * (math.sqrt(b2) + z[i, 1]) ** 2
            else:
                p = (psi - 1) / (psi + 1)
                beta = (1 - p) / m
                u = float(ndtr(z[i, 1]))
                vn = 0.0 if u <= p else math.log((1 - p) / (1 - u)) / beta
            k0 = -rho * kappa * theta * h / vv
            k1 = 0.5 * h * (kappa * rho / vv - 0.5) - rho / vv
            k2 = 0.5 * h * (kappa * rho / vv - 0.5) + rho / vv
            k3 = 0.5 * h * (1 - rho * rho)
            x = x + mu * h + k0 + k1 * v + k2 * vn + math.sqrt(k3 * v + k3 * vn) * z[i, 0]
            v = vn
            out[i + 1] = math.exp(x), v
        return out
    absorb = method == 'euler_with_absorption_of_volatility_process'
    clean = (lambda w: max(w, 0.0)) if absorb else abs
    s, v = S0, v0
    for i in range(n):
        w_s = z[i, 0] * math.sqrt(h)
        w_v = (rho * z[i, 0] + math.sqrt(1 - rho * rho) * z[i, 1]) * math.sqrt(h)
        s, v = (s + s * (mu * h + math.sqrt(v) * w_s),
                clean(v + kappa * (theta - v) * h + vv * math.sqrt(v) * w_v))
        out[i + 1] = s, v
    return out


def clewlow(t_curve, px, sims, spd, T, a, sigma, tapes):
    """Reference paths for the tapes drawn chunk by chunk; tapes: list of (steps, 1, chunk) arrays."""
    h = 1.0 / spd
    steps = T * spd
    tau = np.arange(steps + 1) * h
    f = np.log(np.interp(tau, t_curve, px))
    cols = []
    for tape in tapes:
        for c in range(tape.shape[2]):
            x = f[0]
            path = [x]
            for i in range(1, steps + 1):
                x = x + (f[i] - f[i - 1]) + (a * (f[i - 1] - x) - 0.25 * sigma ** 2 * (1 + math.exp(-2 * a * tau[i - 1]))) * h \
                    + sigma * math.sqrt(h) * tape[i - 1, 0, c]
                path.append(x)
            cols.append(np.exp(np.array(path)[::spd]))
    return np.array(cols).T if cols else np.empty((T + 1, 0))


def hw_theta(curve, alpha, sigma, t, h):
    f = curve.fwd(t)
    df = (curve.fwd(t + h) - curve.fwd(t - h)) / (2 * h)
    return df + alpha * f + sigma ** 2 / (2 * alpha) * -np.expm1(-2 * alpha * np.asarray(t))


def hw_paths(r0, theta, alpha, sigma, tau, z, method):
    """z: (steps, sims) -> rates (steps+1, sims) and discount factors."""
    n = z.shape[0]
    h = tau / n
    R = np.empty((n + 1, z.shape[1]))
    R[0] = r0
    for i in range(n):
        r = R[i]
        if method == 'euler':
            R[i + 1] = r + (theta[i] - alpha * r) * h + sigma * math.sqrt(h) * z[i]
        elif method == 'rk4':
            g = lambda x: theta[i] - alpha * x
            a1 = g(r)
            a2 = g(r + h / 2 * a1)
            a3 = g(r + h / 2 * a2)
            a4 = g(r + h * a3)
            R[i + 1] = r + h / 6 * (a1 + 2 * a2 + 2 * a3 + a4) + sigma * math.sqrt(h) * z[i]
        else:
            e = math.exp(-alpha * h)
            # theta is linear between the grid points
            x = alpha * h
            i0 = -math.expm1(-x) / alpha                           # int exp(-alpha (h - s)) ds
            i1 = (h - i0) / alpha if x > 1e-3 else h * h * (1 / 2 - x / 6 + x * x / 24)   # int s exp(-alpha (h - s)) ds
            mean = r * e + theta[i] * i0 + (theta[i + 1] - theta[i]) / h * i1
            R[i + 1] = mean + sigma * math.sqrt(-math.expm1(-2 * x) / (2 * alpha)) * z[i]
    integral = np.vstack([np.zeros(z.shape[1]), np.cumsum((R[1:] + R[:-1]) / 2 * h, axis=0)])
    return R, np.exp(-integral)


# ------------------------------------------------------------------------------------------------ options
def gk_price(S, F, rd, tau, cp, K, vol):
    sd = vol * math.sqrt(tau)
    d1 = (math.log(F / K) + 0.5 * sd * sd) / sd
    return math.exp(-rd * tau) * cp * (F * ndtr(cp * d1) - K * ndtr(cp * (d1 - sd)))


def black76(F, tau, r, cp, K, vol, shift=0.0):
    F, K = F + shift, K + shift
    sd = vol * math.sqrt(tau)
    d1 = (math.log(F / K) + 0.5 * sd * sd) / sd
    return math.exp(-r * tau) * cp * (F * ndtr(cp * d1) - K * ndtr(cp * (d1 - sd)))


def bachelier(F, tau, r, cp, K, vol):
    sd = vol * math.sqrt(tau)
    d = cp * (F - K) / sd
    return math.exp(-r * tau) * (cp * (F - K) * ndtr(d) + sd * math.exp(-d * d / 2) / math.sqrt(2 * math.pi))


def heston_price(S0, tau, r, q, cp, K, v0, vv, kappa, theta, rho):
    """Single-integral (Lewis) price with the numerically stable characteristic function."""
    from scipy.integrate import quad
    X = math.log(S0 / K) + (r - q) * tau

    def cf(u):
        b = kappa - rho * vv * 1j * u
        d = np.sqrt(b * b + vv ** 2 * (1j * u + u * u))
        g = (b - d) / (b + d)
        e = np.exp(-d * tau)
        C = kappa * theta / vv ** 2 * ((b - d) * tau - 2 * np.log((1 - g * e) / (1 - g)))
        D = (b - d) / vv ** 2 * (1 - e) / (1 - g * e)
        return np.exp(C + D * v0)
    real_quad = getattr(quad, '__frm_sim_real__', quad)
    f = lambda u: (np.exp(1j * u * X) * cf(u - 0.5j)).real / (u * u + 0.25)
    total = sum(real_quad(f, a, b, limit=500, epsabs=1e-12, epsrel=1e-10)[0]
                for a, b in [(0, 5), (5, 20), (20, 80), (80, 300), (300, 1500)])
    F = S0 * math.exp((r - q) * tau)
    call = math.exp(-r * tau) * (F - math.sqrt(F * K) / math.pi * total)
    return call if cp == 1 else call - math.exp(-r * tau) * (F - K)


def hw_zbo(P_T, P_S, alpha, sigma, T, S, K, cp):
    """European option expiring at T on the zero coupon bond maturing at S (Brigo-Mercurio 3.40, 3.41)."""
    B = (1 - math.exp(-alpha * (S - T))) / alpha
    sp = sigma * math.sqrt((1 - math.exp(-2 * alpha * T)) / (2 * alpha)) * B
    if sp < 1e-14:
        return max(cp * (P_S - K * P_T), 0.0)
    h = math.log(P_S / (P_T * K)) / sp + sp / 2
    return cp * (P_S * ndtr(cp * h) - K * P_T * ndtr(cp * (h - sp)))


def hw_bond(P_T, P_S, f_T, alpha, sigma, T, S, r):
    """Bond price at T for short rate r (Brigo-Mercurio 3.39)."""
    B = (1 - math.exp(-alpha * (S - T))) / alpha
    return P_S / P_T * np.exp(B * f_T - sigma ** 2 / (4 * alpha) * (1 - math.exp(-2 * alpha * T)) * B * B - B * np.asarray(r))
