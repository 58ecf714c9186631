from common import *
import stats
from tracer import sources

RULE = ("a case draws one or several bundles from a source of random place, direction, size, spread, flux and ray count, and tests every ray's start "
    "and direction, and their joint distribution when the sample is large; non-trivial if rays were tested")
ASSUMPTIONS = ["statistical limits are set so that correct code exceeds one with odds below 1e-10 per test; the random generator is numpy's, seeded per case",
    "the direction given is a unit vector, the centre a column, as documented"]
MINIMUM = dict(disk_rays=50000, distributions=120, correlations=100, square_rays=5000, fluxes=50, squares=100, pillbox_rays=10000)


def rcentre(rng):
    k = rng.random()
    L = lin(rng, 1e-3, 1e4)
    c = (0., 0., 0.) if k < .2 else rvec(rng, L)
    if k > .8:
        c = tuple(float(round(x)) for x in c)
    return c


def rdirection(rng):
    k = rng.random()
    if k < .3:
        return rng.choice(AXES)
    if k < .45:
        return G.unit(G.add(rng.choice(AXES), G.mul(rdir(rng), 10**rng.uniform(-9, -2))))
    return rdir(rng)


def rspread(rng):
    return rng.choice([4.65e-3, pi/2, lin(rng, 1e-5, pi/2), lin(rng, 1e-3, 1.), rng.uniform(.1, pi/2)])


def tangents(n):
    h = (1., 0., 0.) if abs(n[0]) < .7 else (0., 1., 0.)
    u = G.unit(G.cross(n, h))
    return u, G.cross(n, u)


def disk_case(rng, mon, n, single=False):
    c, d = rcentre(rng), rdirection(rng)
    R = lin(rng, 1e-3, 1e3) if rng.random() > .04 else 0.          # a point is a disk, too
    ang = 0. if rng.random() < .08 else rspread(rng)
    flux = rng.choice([None, 0., 0, 1., 1000., lin(rng, 1e-6, 1e6), rng.randint(1, 2000)])
    mon.input('disk', [n, c, d, R, ang, flux])
    dn = np.array(d)
    cn = np.array(c)[:, None]
    if rng.random() < .2:
        cn = np.array([[int(round(x))] for x in c])
        c = tuple(float(x) for x in cn[:, 0])
    Ra = R
    if R and rng.random() < .15:
        Ra = max(1, int(round(R)))
        R = float(Ra)
    kw = {} if flux is None and rng.random() < .5 else dict(flux=flux)
    b = sources.solar_disk_bundle(n, cn, dn, Ra, ang, **kw)
    mon.check(tuple(dn.tolist()) == tuple(d) and tuple(float(x) for x in cn[:, 0]) == tuple(c), 'a disk source changed its arguments')
    V, D = b.get_vertices(), b.get_directions()
    mon.check(V.shape == (3, n) and D.shape == (3, n) and b.get_num_rays() == n, 'a disk source asked for %d rays gave vertices %s and directions %s', n, V.shape, D.shape)
    if flux is not None:
        e = np.array(b.get_energy())
        mon.check(e.shape == (n,), 'energies of shape %s for %d rays', e.shape, n)
        mon.check((abs(e - flux*pi*R*R/n) <= 1e-12*flux*pi*R*R/n).all(), 'a disk of radius %r and flux %r with %d rays gives them energies %r..%r, not %r',
            R, flux, n, e.min(), e.max(), flux*pi*R*R/n)
        mon.event('fluxes')
    u, w = tangents(d)
    tol = 1e-9*R + 1e-13*G.norm(c) + 1e-300
    out = []
    s0 = sin(ang)
    for x, q in zip(V.T.tolist(), D.T.tolist()):
        x, q = tuple(x), tuple(q)
        y = G.sub(x, c)
        mon.check(abs(G.dot(y, d)) < tol, 'a ray of a disk source starts %r off the disk plane', G.dot(y, d))
        r = G.norm(y)
        mon.check(r <= R*(1 + 1e-9) + tol, 'a ray of a disk source of radius %r starts %r from its centre', R, r)
        mon.check(abs(G.norm(q) - 1) < 1e-9, 'a source direction of length %r', G.norm(q))
        sq = G.norm(G.cross(q, d))
        mon.check(G.dot(q, d) >= -1e-9 and sq <= s0*(1 + 1e-9) + 1e-9, 'a source ray deviates by %r from the direction, the range is %r', atan2(sq, G.dot(q, d)), ang)
        mon.event('disk_rays')
        a1 = atan2(G.dot(y, w), G.dot(y, u))/(2*pi) % 1.
        a2 = atan2(G.dot(q, w), G.dot(q, u))/(2*pi) % 1.
        out.append((min((r/R)**2, 1.) if R else 0., a1, min((sq/s0)**2, 1.) if ang else 0., a2))
    fine = tol < 1e-3*R and R > 1e-9*G.norm(c)
    return out, ang, fine


def judge(mon, out, ang, fine, what):
    n = len(out)
    if n < 600:
        return
    if fine:
        stats.ks_uniform(mon, [o[0] for o in out], what + ', share of the disk area within the start')
        stats.ks_uniform(mon, [o[1] for o in out], what + ', azimuth of the start')
    if ang:
        stats.ks_uniform(mon, [o[2] for o in out], what + ', squared sine of the deviation')
        stats.ks_uniform(mon, [o[3] for o in out], what + ', azimuth of the deviation')
    if fine and ang:
        stats.ks_uniform(mon, [(o[1] - o[3]) % 1. for o in out], what + ', azimuth between start and deviation')
        for i in (0, 1):
            for j in (2, 3):
                stats.uncorrelated(mon, [o[i] for o in out], [o[j] for o in out], what + ', start and deviation')
        stats.uncorrelated(mon, [o[0] for o in out], [cos(2*pi*o[1]) for o in out], what + ', start radius and azimuth')
        stats.uncorrelated(mon, [o[2] for o in out], [cos(2*pi*o[3]) for o in out], what + ', tilt and azimuth')
    ok = [i for i in range(4) if (fine if i < 2 else ang)]
    for i in ok:
        for j in ok:
            if i != j:
                for grid in ((50, 2), (16, 8), (5, 5)) + (((100, 4), (4, 100), (24, 24)) if n > 20000 else ()):
                    stats.cells(mon, [(o[i], o[j]) for o in out], grid, what + ', pairs of coordinates')
    if len(ok) == 4:
        stats.cells(mon, out, (3, 4, 3, 4), what + ', all coordinates')
    for i in range(4):
        if (i < 2 and not fine) or (i >= 2 and not ang):
            continue
        xs = [o[i] for o in out]
        stats.uncorrelated(mon, xs[:-1], xs[1:], what + ', successive rays')
        m = n//2
        stats.uncorrelated(mon, xs[:m], xs[m:2*m], what + ', rays half a bundle apart')


def disk(rng, mon, tier):
    n = rng.choice([1500, 3000, 6000])
    out, ang, fine = disk_case(rng, mon, n)
    judge(mon, out, ang, fine, 'a disk source')
    mon.state('disk', ang == 0, ang > 1, fine)


def huge(rng, mon, tier):
    """Enough rays to see what goes on in a hundredth of the disk or of the sun."""
    out, ang, fine = disk_case(rng, mon, rng.choice([40000, 65536, 70001]))
    judge(mon, out, ang, fine, 'a disk source')

def small(rng, mon, tier):
    n = rng.choice([1, 1, 2, 3, rng.randint(4, 60)])
    disk_case(rng, mon, n)
    mon.state('small', n if n < 4 else 4)


def calls(rng, mon, tier):
    """Many small bundles from the same source are as good as a big one."""
    c, d, R, ang = rcentre(rng), rdirection(rng), lin(rng, .1, 10.), rspread(rng)
    k = rng.choice([1, 1, 2, 4])
    m = 900//k
    mon.input('calls', [c, d, R, ang, k])
    u, w = tangents(d)
    out = []
    for _ in range(m):
        b = sources.solar_disk_bundle(k, np.zeros((3, 1)), np.array(d), R, ang)
        for y, q in zip(b.get_vertices().T.tolist(), b.get_directions().T.tolist()):
            sq = G.norm(G.cross(tuple(q), d))
            out.append((min((G.norm(y)/R)**2, 1.), atan2(G.dot(y, w), G.dot(y, u))/(2*pi) % 1., min((sq/sin(ang))**2, 1.),
                atan2(G.dot(q, w), G.dot(q, u))/(2*pi) % 1.))
            mon.event('disk_rays')
    judge(mon, out, ang, True, 'a disk source called again and again')


def pillbox(rng, mon, tier):
    n, ang = rng.choice([1, 1000, 4000]), rspread(rng)
    mon.input('pillbox', [n, ang])
    a = np.array(sources.pillbox_sunshape_directions(n, ang))
    mon.check(a.shape == (3, n), 'sunshape directions of shape %s for %d rays', a.shape, n)
    out = []
    for q in a.T.tolist():
        mon.check(abs(G.norm(q) - 1) < 1e-9, 'a sunshape direction of length %r', G.norm(q))
        s = sqrt(q[0]**2 + q[1]**2)
        mon.check(q[2] >= -1e-9 and s <= sin(ang)*(1 + 1e-9), 'a sunshape direction deviates by %r, the range is %r', atan2(s, q[2]), ang)
        mon.event('pillbox_rays')
        out.append((0., 0., min((s/sin(ang))**2, 1.), atan2(q[1], q[0])/(2*pi) % 1.))
    judge(mon, out, ang, False, 'the sunshape')


def square(rng, mon, tier):
    n = rng.choice([1, 2, 3, 4, 100, rng.randint(1, 12)**2, rng.randint(1, 400), rng.randint(1, 400)])
    c, d = rcentre(rng), rdirection(rng)
    W = rng.choice([1, 1., 2, lin(rng, 1e-3, 1e3)])
    mon.input('square', [n, c, d, W])
    dn, cn = np.array(d), np.array(c)[:, None]
    b = sources.square_bundle(n, cn, dn, W)
    mon.check(tuple(dn.tolist()) == tuple(d) and tuple(cn[:, 0].tolist()) == tuple(c), 'a square source changed its arguments')
    V, D = b.get_vertices(), b.get_directions()
    m = V.shape[1]
    mon.check(D.shape == (3, m) and b.get_num_rays() == m, 'a square source gave %d starts and %d directions', m, D.shape[1])
    mon.check(m >= n, 'a square source asked for %d rays gave %d', n, m)
    side = int(round(sqrt(m)))
    mon.check(side*side == m and (side - 1)**2 < n, 'a square source asked for %d rays gave %d, not the next square grid', n, m)
    tol = 1e-9*W + 1e-12*G.norm(c)
    step = 2.*W/side
    pts = []
    for x, q in zip(V.T.tolist(), D.T.tolist()):
        y = G.sub(x, c)
        mon.check(abs(G.dot(y, d)) < tol, 'a ray of a square source starts %r off its plane', G.dot(y, d))
        mon.check(G.dist(q, d) < 1e-12, 'a ray of a square source goes along %s instead of %s', q, d)
        pts.append(y)
        mon.event('square_rays')
    # Grid axes: X lies in the world's XY plane
    ux = (d[1], -d[0], 0.)
    ux = G.unit(ux) if G.norm(ux) else (1., 0., 0.)
    uy = G.cross(d, ux)
    seen = set()
    for y in pts:
        i, j = (G.dot(y, ux) + W)/step, (G.dot(y, uy) + W)/step
        k = (int(round(i)), int(round(j)))
        mon.check(abs(i - k[0])*step < 10*tol and abs(j - k[1])*step < 10*tol, 'a square source of %d rays and width %r has a start at %r, %r, off its grid of spacing %r', n, W,
            G.dot(y, ux), G.dot(y, uy), step)
        mon.check(0 <= k[0] < side and 0 <= k[1] < side and k not in seen, 'a square source misses or repeats a place of its grid')
        seen.add(k)
    mon.event('squares')
    mon.state('square', side if side < 6 else 6)


QUICK = 2
KINDS = dict(huge=(huge, 4, 60), disk=(disk, 45, 1500), small=(small, 200, 20000), calls=(calls, 6, 200), pillbox=(pillbox, 20, 800), square=(square, 150, 10000))
