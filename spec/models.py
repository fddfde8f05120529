"""Reference formulas for data preparation, parameter mapping, prior and log-density.

Parsed and abstracted by the analyser, never executed.
"""
import numpy as np
from filters import car1_filter, carma_filter


def prepare(t, y, yerr):
    """Observations in time order, one per distinct time."""
    s = np.argsort(t)
    keep = s[np.unique(t[s], return_index=True)[1]]
    return t[keep], y[keep], yerr[keep]


def bounds(t, y):
    """default prior bounds: largest standard deviation, largest and smallest frequency"""
    dt = t[1:] - t[:-1]
    return 10.0 * np.sqrt(np.var(y, ddof=1)), 1.0 / dt.min(), 1.0 / (t.max() - t.min())


def quad_roots(theta, first, m):
    """roots of the product of quadratics s^2 + b s + a (and a linear factor when m is odd), a and b given by their logarithms"""
    roots = np.zeros(m, dtype=complex)
    for i in range(m // 2):
        a = np.exp(theta[first + 2 * i])
        b = np.exp(theta[first + 2 * i + 1])
        d = b * b - 4.0 * a
        if d > 0:
            roots[2 * i] = -0.5 * (b + np.sqrt(d))
            roots[2 * i + 1] = -0.5 * (b - np.sqrt(d))
        else:
            roots[2 * i] = -0.5 * b - 0.5j * np.sqrt(-d)
            roots[2 * i + 1] = -0.5 * b + 0.5j * np.sqrt(-d)
    if m % 2 == 1:
        roots[m - 1] = -np.exp(theta[first + m - 1])
    return roots


def ar_roots(theta, p):
    return quad_roots(theta, 3, p)


def ma_car(theta, p):
    ma = np.zeros(p)
    ma[0] = 1.0
    return ma


def ma_carma(theta, p, q):
    """coefficients of the moving-average polynomial, constant term one, padded to the autoregressive order"""
    c = np.real(np.poly(quad_roots(theta, 3 + p, q)))
    ma = np.zeros(p)
    for i in range(q + 1):
        ma[i] = c[q - i] / c[q]
    return ma


def ma_kappa(kappa, p):
    """coefficients of (1 + s / kappa)^(p - 1)"""
    ma = np.zeros(p)
    ma[0] = 1.0
    for i in range(1, p):
        ma[i] = binomial(p - 1, i) / kappa ** i
    return ma


def autocov(roots, ma, sigma, lag):
    """autocovariance of a CARMA process from the residues of its spectrum"""
    total = 0.0
    for k in range(len(roots)):
        r = roots[k]
        den = -2.0 * np.real(r)
        for l in range(len(roots)):
            if l != k:
                den = den * (roots[l] - r) * (np.conj(roots[l]) + r)
        b1 = 0.0
        b2 = 0.0
        for l in range(len(ma)):
            b1 = b1 + ma[l] * r ** l
            b2 = b2 + ma[l] * (-r) ** l
        total = total + b1 * b2 * np.exp(r * lag) / den
    return sigma ** 2 * np.real(total)


def log_prior(theta):
    """scaled inverse chi-square law of the error scale, 50 degrees of freedom"""
    return -25.0 / theta[1] - 26.0 * np.log(theta[1])


def log_prior_kappa(theta, p):
    x = theta[3 + p]
    return log_prior(theta) - x - 2.0 * np.log(1.0 + np.exp(-x))


def log_like(y, mu, mean, var):
    total = 0.0
    for i in range(len(y)):
        r = y[i] - mu - mean[i]
        total = total - 0.5 * np.log(var[i]) - 0.5 * r * r / var[i]
    return total


def sigsqr_car1(theta):
    return 2.0 * theta[0] ** 2 * np.exp(theta[3])


def sigsqr_carma(theta, roots, ma):
    """driving-noise variance giving the process the standard deviation theta[0]"""
    return theta[0] ** 2 / autocov(roots, ma, 1.0, 0.0)


def log_like_car1(theta, t, y, yerr):
    omega = np.exp(theta[3])
    mu = theta[2]
    mean, var = car1_filter(t, y - mu, np.sqrt(theta[1]) * yerr, sigsqr_car1(theta), omega)
    return log_like(y, mu, mean, var)


def log_like_carma(theta, t, y, yerr, roots, ma):
    sigsqr = sigsqr_carma(theta, roots, ma)
    mu = theta[2]
    mean, var = carma_filter(t, y - mu, np.sqrt(theta[1]) * yerr, sigsqr, roots, ma)
    return log_like(y, mu, mean, var)


def support_common(theta, max_stdev):
    return theta[0] >= 0 and theta[0] <= max_stdev and theta[1] >= 0.5 and theta[1] <= 2.0


def support_car1(theta, max_stdev, max_freq, min_freq):
    omega = np.exp(theta[3])
    return support_common(theta, max_stdev) and omega <= max_freq and omega >= min_freq


def support_roots(roots, max_freq, min_freq):
    p = len(roots)
    ok = True
    for i in range(p):
        width = -np.real(roots[i]) / (2.0 * np.pi)
        cent = np.abs(np.imag(roots[i])) / (2.0 * np.pi)
        if not (width < max_freq and width > min_freq and cent < max_freq):
            ok = False
        if i > 0:
            before = np.abs(np.imag(roots[i - 1])) / (2.0 * np.pi)
            if cent - before > 1e-8:
                ok = False
        for j in range(i):
            if np.abs((roots[i] - roots[j]) / (roots[i] + roots[j])) <= 1e-4:
                ok = False
    return ok


def support_carma(theta, roots, max_stdev, max_freq, min_freq):
    return support_common(theta, max_stdev) and support_roots(roots, max_freq, min_freq)


def within(ok, value):
    if ok:
        return value
    return -np.inf


def log_density_car1(theta, t, y, yerr, max_stdev, max_freq, min_freq):
    return within(support_car1(theta, max_stdev, max_freq, min_freq), log_like_car1(theta, t, y, yerr) + log_prior(theta))


def kappa_fixed(t):
    dt = t[1:] - t[:-1]
    return 1.0 / dt.min()


def kappa_free(theta, p, t):
    dt = t[1:] - t[:-1]
    high = 1.0 / dt.min()
    low = max(1.0 / (t.max() - t.min()), 1.0 / (10.0 * np.median(dt)))
    return kappa_between(theta, p, low, high)


def kappa_between(theta, p, low, high):
    x = theta[3 + p]
    return low + (high - low) * np.exp(x) / (1.0 + np.exp(x))
