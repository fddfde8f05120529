"""Parameters of the best fit used for prediction and simulation.

Parsed and abstracted by the analyser, never executed.
"""
import numpy as np


def best(logpost):
    return np.argmax(logpost)


def anyone(count):
    return np.random.randint(0, count)


def sample_scalars(sigma, mu, i):
    return sigma[i, 0] ** 2, mu[i, 0]


def mean_scalars(sigma, mu):
    return np.mean(sigma ** 2), np.mean(mu)


def median_scalars(sigma, mu):
    return np.median(sigma) ** 2, np.median(mu)


def sample_row(x, i):
    return x[i, :]


def mean_row(x):
    return np.mean(x, axis=0)


def median_row(x):
    return np.median(x, axis=0)


def sample_rate(x, i):
    return np.exp(x[i, 0])


def mean_rate(x):
    return np.exp(np.mean(x))


def median_rate(x):
    return np.exp(np.median(x))


def residuals(y, mu, mean, var):
    return (y - mu - mean) / np.sqrt(var)
