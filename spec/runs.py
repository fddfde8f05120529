"""Schedule of a sampling run.  sweep(w) is the effect of doing every step once on the state w of all chains; keep(r, s, w) records the
state w in slot s of r."""


def schedule(w, r, size, burnin, thin):
    for b in range(burnin):
        w = sweep(w)
    for s in range(size):
        for j in range(thin):
            w = sweep(w)
        r = keep(r, s, w)
    return w, r


def sweep(w):
    return w


def keep(r, s, w):
    return r


def prior_bound(y):
    n = len(y)
    m = sum(y) / n
    v = 0.0
    for i in range(n):
        v = v + (y[i] - m) ** 2
    return 10.0 * (v / n) ** 0.5
