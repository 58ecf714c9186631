"""Statistical oracles: each alarms on correct code with odds below 1e-11."""
from math import sqrt, log
LIM = sqrt(log(2/1e-11)/2)          # Dvoretzky-Kiefer-Wolfowitz

def ks_uniform(mon, xs, what):
    """xs should be uniform on 0..1."""
    n = len(xs)
    xs = sorted(xs)
    D = 0.
    for i, x in enumerate(xs):
        D = max(D, abs(x - i/float(n)), abs(x - (i + 1)/float(n)))
    mon.check(D <= LIM/sqrt(n), '%s: the distribution deviates by %.4f from the stated one over %d draws (limit %.4f)', what, D, n, LIM/sqrt(n))
    # the range is used up to its ends: odds of a false alarm exp(-30)
    mon.check(xs[-1] >= 1 - 30./n and xs[0] <= 30./n, '%s: %d draws only range from %.5f to %.5f of the range', what, n, xs[0], xs[-1])
    mon.event('distributions')

def uncorrelated(mon, xs, ys, what):
    n = len(xs)
    if n < 500:
        return
    mx, my = sum(xs)/n, sum(ys)/n
    sx = sqrt(sum((x - mx)**2 for x in xs))
    sy = sqrt(sum((y - my)**2 for y in ys))
    if sx < 1e-9*n or sy < 1e-9*n:
        return
    r = sum((x - mx)*(y - my) for x, y in zip(xs, ys))/(sx*sy)
    mon.check(abs(r) < 8./sqrt(n), '%s: correlation %.3f over %d draws', what, r, n)
    mon.event('correlations')

def _tail(k, n, p):
    """Bound on the log odds of k or more extreme out of n at chance p (Chernoff)."""
    q = k/float(n)
    x = 0.
    if q > 0:
        x += q*log(q/p)
    if q < 1:
        x += (1 - q)*log((1 - q)/(1 - p))
    return n*x

def cells(mon, rows, grid, what):
    """Tuples of independent uniform numbers: every cell of the grid gets its share. Odds of a false alarm below 1e-15 per grid."""
    n = len(rows)
    size = 1
    for g in grid:
        size *= g
    count = {}
    for r in rows:
        c = tuple(min(int(x*g), g - 1) for x, g in zip(r, grid))
        count[c] = count.get(c, 0) + 1
    p = 1./size
    if size == 1:
        return
    lim = log(2e15*size)
    if n*p > lim:                     # an empty cell tells something
        mon.check(len(count) == size, '%s: %d of %d cells are empty after %d draws', what, size - len(count), size, n)
    for c, k in count.items():
        mon.check(_tail(k, n, p) <= lim, '%s: cell %s of %s holds %d of %d draws, expected are %.1f', what, c, grid, k, n, n*p)
    mon.event('joint_cells', size)
