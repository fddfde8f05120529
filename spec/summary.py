"""Reference posterior summaries.

Parsed and abstracted by the analyser, never executed.
"""
import numpy as np


def median(x):
    return np.median(x)


def deviation(x):
    return np.sqrt(np.mean((x - np.mean(x)) ** 2))


def interval(x, low, high):
    return np.percentile(x, low), np.percentile(x, high)


def dic(loglik):
    d = -2.0 * loglik
    return np.mean(d) + 0.5 * np.mean((d - np.mean(d)) ** 2)
