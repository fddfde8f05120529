"""Choice of the best fit and of the order of the model.

Parsed and abstracted by the analyser, never executed.
"""


def aicc(fun, p, q, size):
    k = 2 + p + q
    return 2 * k + 2 * fun + 2 * k * (k + 1) / (size - k - 1)


def best2(a, b, va, vb):
    if b < a:
        return vb
    return va
