"""Reference values of the quantities the Python layer derives from a parameter vector.

Parsed and abstracted by the analyser, never executed.
"""
import numpy as np
from models import ar_roots, quad_roots, autocov


def roots(theta, p):
    return ar_roots(theta, p)


def width(theta, p):
    """half width of the Lorentzian of each root"""
    r = ar_roots(theta, p)
    return -np.real(r) / (2.0 * np.pi)


def centroid(theta, p):
    r = ar_roots(theta, p)
    return np.abs(np.imag(r)) / (2.0 * np.pi)


def quad(theta, p):
    out = np.zeros(p)
    for i in range(p):
        out[i] = np.exp(theta[3 + i])
    return out


def ar_coefs(theta, p):
    """monic polynomial with the given roots, highest power first"""
    return np.real(np.poly(ar_roots(theta, p)))


def ma_coefs(theta, p, q):
    """moving-average polynomial with constant term one, lowest power first"""
    c = np.poly(quad_roots(theta, 3 + p, q))
    ma = np.zeros(q + 1)
    for i in range(q + 1):
        ma[i] = np.real(c[q - i] / c[q])
    return ma


def sigma(theta, p, q):
    return theta[0] / np.sqrt(autocov(ar_roots(theta, p), ma_coefs(theta, p, q), 1.0, 0.0))


def sigma1(theta):
    return np.sqrt(2.0 * theta[0] ** 2 * np.exp(theta[3]))


def root1(theta):
    r = np.zeros(1)
    r[0] = -np.exp(theta[3])
    return r


def spectrum(f, sigma, ar, ma):
    """sigma^2 |beta|^2 / |alpha|^2 at one frequency; ar highest power first, ma lowest power first"""
    w = 2.0 * np.pi * 1j * f
    a = 0.0
    for k in range(len(ar)):
        a = a + ar[k] * w ** (len(ar) - 1 - k)
    b = 0.0
    for k in range(len(ma)):
        b = b + ma[k] * w ** k
    return sigma ** 2 * np.abs(b) ** 2 / np.abs(a) ** 2


def spectra(f, size, sigmas, ars, mas):
    out = np.zeros(size)
    for i in range(size):
        out[i] = spectrum(f, sigmas[i, 0], ars[i, :], mas[i, :])
    return out


def spectrum1(f, sigma, omega):
    return sigma ** 2 / (omega ** 2 + (2.0 * np.pi * f) ** 2)


def spectra1(f, size, sigmas, log_omegas):
    out = np.zeros(size)
    for i in range(size):
        out[i] = spectrum1(f, sigmas[i, 0], np.exp(log_omegas[i, 0]))
    return out


def thinned(x, size, used):
    """every (size / used)-th sample"""
    out = np.zeros(used)
    for k in range(used):
        out[k] = x[int(k * size / used)]
    return out


def band(values, percent):
    lower = (100.0 - percent) / 2.0
    return np.percentile(values, lower), np.percentile(values, 100.0 - lower), np.median(values)


def frequency(t, k, count):
    """logarithmic grid from one over the span to half over the smallest gap"""
    gap = (t[1:] - t[:-1]).min()
    low = np.log(1.0 / (t.max() - t.min()))
    high = np.log(0.5 / gap)
    return np.exp(low + (high - low) * k / (count - 1))
