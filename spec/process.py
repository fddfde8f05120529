"""Reference laws of simulated processes.

Parsed and abstracted by the analyser, never executed.
"""
import numpy as np

from filters import carma_state


def car1(time, sigsqr, tau):
    """Stationary first value, then exact conditional draws."""
    n = len(time)
    stat = sigsqr * tau / 2.0
    out = np.zeros(n)
    out[0] = np.random.normal(0.0, np.sqrt(stat))
    for i in range(1, n):
        rho = np.exp(-(time[i] - time[i - 1]) / tau)
        out[i] = np.random.normal(rho * out[i - 1], np.sqrt(stat * (1.0 - rho ** 2)))
    return out


def carma(time, sigsqr, roots, ma):
    """Each value from its law given all earlier ones; ma has one coefficient per root."""
    n = len(time)
    time = np.sort(time)
    b, V = carma_state(sigsqr, roots, ma)
    out = np.zeros(n)
    x = np.zeros(len(roots), dtype=complex)
    P = V
    m = 0.0
    S = np.real(np.dot(np.dot(b, P), np.conj(b)))
    out[0] = np.random.normal(m, np.sqrt(S))
    for i in range(1, n):
        gain = np.dot(P, np.conj(b)) / S
        x = x + gain * (out[i - 1] - m)
        P = P - S * np.outer(gain, np.conj(gain))
        rho = np.exp(roots * (time[i] - time[i - 1]))
        x = rho * x
        P = np.outer(rho, np.conj(rho)) * (P - V) + V
        m = np.real(np.dot(b, x))
        S = np.real(np.dot(np.dot(b, P), np.conj(b)))
        out[i] = np.random.normal(m, np.sqrt(S))
    return out


def padded(ma, p):
    out = np.zeros(p)
    for k in range(len(ma)):
        out[k] = ma[k]
    return out


def lorentz_root(width, centroid):
    return -2.0 * np.pi * (width + 1j * centroid)


def standard():
    return np.random.normal(0.0, 1.0)
