"""Reference recursions for Gaussian state-space models of CAR(1) and CARMA(p,q) processes.

Parsed and abstracted by the analyser, never executed.
"""
import numpy as np


def car1_filter(t, y, yerr, sigsqr, omega):
    """One-step predictive mean and variance of a stationary Ornstein-Uhlenbeck process observed with noise."""
    n = len(t)
    mean = np.zeros(n)
    var = np.zeros(n)
    stat = sigsqr / (2.0 * omega)
    x = 0.0
    P = stat
    mean[0] = x
    var[0] = P + yerr[0] ** 2
    for i in range(1, n):
        rho = np.exp(-omega * (t[i] - t[i - 1]))
        gain = P / var[i - 1]
        x = rho * (x + gain * (y[i - 1] - mean[i - 1]))
        P = stat * (1.0 - rho ** 2) + rho ** 2 * P * (1.0 - gain)
        mean[i] = x
        var[i] = P + yerr[i] ** 2
    return mean, var


def carma_state(sigsqr, roots, ma):
    """Rotated state space: stationary covariance of the rotated state and rotated moving-average row."""
    p = len(roots)
    E = np.zeros((p, p), dtype=complex)
    for k in range(p):
        E[k, :] = roots ** k
    R = np.zeros(p, dtype=complex)
    R[p - 1] = 1.0
    J = np.linalg.solve(E, R)
    V = np.zeros((p, p), dtype=complex)
    for i in range(p):
        for j in range(p):
            V[i, j] = -sigsqr * J[i] * np.conj(J[j]) / (roots[i] + np.conj(roots[j]))
    b = np.dot(ma, E)
    return b, V


def carma_filter(t, y, yerr, sigsqr, roots, ma):
    """One-step predictive mean and variance of a CARMA(p,q) process observed with noise."""
    n = len(t)
    b, V = carma_state(sigsqr, roots, ma)
    mean = np.zeros(n)
    var = np.zeros(n)
    x = np.zeros(len(roots), dtype=complex)
    P = V
    var[0] = np.real(np.dot(np.dot(b, P), np.conj(b))) + yerr[0] ** 2
    for i in range(1, n):
        gain = np.dot(P, np.conj(b)) / var[i - 1]
        x = x + gain * (y[i - 1] - mean[i - 1])
        P = P - var[i - 1] * np.outer(gain, np.conj(gain))
        rho = np.exp(roots * (t[i] - t[i - 1]))
        x = rho * x
        P = np.outer(rho, np.conj(rho)) * (P - V) + V
        mean[i] = np.real(np.dot(b, x))
        var[i] = np.real(np.dot(np.dot(b, P), np.conj(b))) + yerr[i] ** 2
    return mean, var


def car1_predict(t, y, yerr, sigsqr, omega, tau):
    """Conditional mean and variance of the process at time tau given every observation."""
    n = len(t)
    i = 0
    while i < n and tau > t[i]:
        i = i + 1
    stat = sigsqr / (2.0 * omega)
    mean = 0.0
    var = stat
    if i > 0:
        # filtered moments at the last epoch before tau
        P = stat
        x = 0.0
        for k in range(1, i):
            S = P + yerr[k - 1] ** 2
            gain = P / S
            rho = np.exp(-omega * (t[k] - t[k - 1]))
            x = rho * (x + gain * (y[k - 1] - x))
            P = stat * (1.0 - rho ** 2) + rho ** 2 * P * (1.0 - gain)
        gain = P / (P + yerr[i - 1] ** 2)
        rho = np.exp(-omega * (tau - t[i - 1]))
        mean = rho * (x + gain * (y[i - 1] - x))
        var = stat * (1.0 - rho ** 2) + rho ** 2 * P * (1.0 - gain)
    if i < n:
        # later observations are linear in the predicted value plus independent innovations
        prec = 1.0 / var
        wsum = mean / var
        rho = np.exp(-omega * (t[i] - tau))
        c = 0.0
        s = rho
        P = stat * (1.0 - rho ** 2)
        S = P + yerr[i] ** 2
        prec = prec + s ** 2 / S
        wsum = wsum + s * (y[i] - c) / S
        for k in range(i + 1, n):
            rho = np.exp(-omega * (t[k] - t[k - 1]))
            gain = P / S
            c = rho * (c + gain * (y[k - 1] - c))
            s = rho * s * (1.0 - gain)
            P = stat * (1.0 - rho ** 2) + rho ** 2 * P * (1.0 - gain)
            S = P + yerr[k] ** 2
            prec = prec + s ** 2 / S
            wsum = wsum + s * (y[k] - c) / S
        var = 1.0 / prec
        mean = wsum / prec
    return mean, var


def carma_predict(t, y, yerr, sigsqr, roots, ma, tau):
    """Conditional mean and variance of a CARMA(p,q) process at time tau given every observation."""
    n = len(t)
    i = 0
    while i < n and tau > t[i]:
        i = i + 1
    b, V = carma_state(sigsqr, roots, ma)
    x = np.zeros(len(roots), dtype=complex)
    P = V
    if i > 0:
        S = np.real(np.dot(np.dot(b, P), np.conj(b))) + yerr[0] ** 2
        m = 0.0
        for k in range(1, i):
            gain = np.dot(P, np.conj(b)) / S
            x = x + gain * (y[k - 1] - m)
            P = P - S * np.outer(gain, np.conj(gain))
            rho = np.exp(roots * (t[k] - t[k - 1]))
            x = rho * x
            P = np.outer(rho, np.conj(rho)) * (P - V) + V
            m = np.real(np.dot(b, x))
            S = np.real(np.dot(np.dot(b, P), np.conj(b))) + yerr[k] ** 2
        gain = np.dot(P, np.conj(b)) / S
        x = x + gain * (y[i - 1] - m)
        P = P - S * np.outer(gain, np.conj(gain))
        rho = np.exp(roots * (tau - t[i - 1]))
        x = rho * x
        P = np.outer(rho, np.conj(rho)) * (P - V) + V
    mean = np.real(np.dot(b, x))
    var = np.real(np.dot(np.dot(b, P), np.conj(b)))
    if i < n:
        prec = 1.0 / var
        wsum = mean / var
        # condition the state on the predicted value: constant and slope of the state in that value
        gain = np.dot(P, np.conj(b)) / var
        xc = x - gain * mean
        xs = gain
        P = P - var * np.outer(gain, np.conj(gain))
        rho = np.exp(roots * (t[i] - tau))
        xc = rho * xc
        xs = rho * xs
        P = np.outer(rho, np.conj(rho)) * (P - V) + V
        c = np.real(np.dot(b, xc))
        s = np.real(np.dot(b, xs))
        S = np.real(np.dot(np.dot(b, P), np.conj(b))) + yerr[i] ** 2
        prec = prec + s ** 2 / S
        wsum = wsum + s * (y[i] - c) / S
        for k in range(i + 1, n):
            gain = np.dot(P, np.conj(b)) / S
            xc = xc + gain * (y[k - 1] - c)
            xs = xs - gain * s
            P = P - S * np.outer(gain, np.conj(gain))
            rho = np.exp(roots * (t[k] - t[k - 1]))
            xc = rho * xc
            xs = rho * xs
            P = np.outer(rho, np.conj(rho)) * (P - V) + V
            c = np.real(np.dot(b, xc))
            s = np.real(np.dot(b, xs))
            S = np.real(np.dot(np.dot(b, P), np.conj(b))) + yerr[k] ** 2
            prec = prec + s ** 2 / S
            wsum = wsum + s * (y[k] - c) / S
        var = 1.0 / prec
        mean = wsum / prec
    return mean, var


def car1_simulate(t, y, yerr, sigsqr, omega, req):
    """Sequential draws, in time order, each conditional on the data and the earlier draws; returned as requested."""
    order = np.argsort(req)
    req = np.sort(req)
    out = np.zeros(len(req))
    for k in range(len(req)):
        mean, var = car1_predict(t, y, yerr, sigsqr, omega, req[k])
        v = np.random.normal(mean, np.sqrt(var))
        out[order[k]] = v
        i = 0
        while i < len(t) and t[i] < req[k]:
            i = i + 1
        t = np.insert(t, i, req[k])
        y = np.insert(y, i, v)
        yerr = np.insert(yerr, i, 0.0)
    return out


def carma_simulate(t, y, yerr, sigsqr, roots, ma, req):
    """Sequential draws, in time order, each conditional on the data and the earlier draws; returned as requested."""
    order = np.argsort(req)
    req = np.sort(req)
    out = np.zeros(len(req))
    for k in range(len(req)):
        mean, var = carma_predict(t, y, yerr, sigsqr, roots, ma, req[k])
        v = np.random.normal(mean, np.sqrt(var))
        out[order[k]] = v
        i = 0
        while i < len(t) and t[i] < req[k]:
            i = i + 1
        t = np.insert(t, i, req[k])
        y = np.insert(y, i, v)
        yerr = np.insert(yerr, i, 0.0)
    return out
