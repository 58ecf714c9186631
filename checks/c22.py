from common import *
from tracer.models.homogenizer import rect_homogenizer

RULE = ("a case builds a homogenizer of random dimensions, efficiency and placement, sends light through its mouths (compared with the path unfolded by mirror "
    "images) and from anywhere (compared with the four reference walls); non-trivial if light was compared")
ASSUMPTIONS = ["light that passes within a millionth of an edge or corner is left open"]
MINIMUM = dict(unfolded=1500, reflections=3000, straight=50, hits=2000, outside=200)


def walls(a, b, h, eff, place):
    """The four walls: Z inwards."""
    out = []
    for s, (w, n, off) in enumerate((((h, b), (-1., 0., 0.), (a/2, 0., h/2)), ((h, b), (1., 0., 0.), (-a/2, 0., h/2)),
            ((h, a), (0., -1., 0.), (0., b/2, h/2)), ((h, a), (0., 1., 0.), (0., -b/2, h/2)))):
        x = (0., 0., 1.)
        y = G.cross(n, x)
        R = tuple((x[i], y[i], n[i]) for i in range(3))
        out.append(G.Surf(('rect',) + w, ('absrefl', 1 - eff), G.compose(place, (R, off)), obj=s))
    return out


def make(rng):
    L = rng.choice([1., lin(rng, .01, 100.)])
    a, b, h = L*lin(rng, .2, 3.), L*lin(rng, .2, 3.), L*lin(rng, .2, 6.)
    if rng.random() < .15:
        a, b, h = float(rng.randint(1, 4)), float(rng.randint(1, 4)), float(rng.randint(1, 8))
    eff = rng.choice([1., .9, 0., 1e-3, rng.uniform(.1, 1.), rng.uniform(.1, 1.)])
    place = rplace(rng, L*rng.choice([1., 10.]))
    args = (a, b, h, eff)
    if rng.random() < .2 and a == int(a):
        args = (int(a), int(b), int(h), eff)
    real = rect_homogenizer(*args)
    if rng.random() < .4:
        real.set_transform(npmat(place))
        root = real
    else:
        w = rplace(rng, L)
        root = Assembly(subassemblies=[real])
        real.set_transform(npmat(G.compose(G.inverse(w), place)))
        root.set_transform(npmat(w))
    return L, a, b, h, eff, place, root


def fold(x0, dx, t, a):
    """Position and direction after unfolding, the crossing times, or None if near an edge at the end."""
    X = x0 + dx*t
    u = (X + a/2)/a
    k = int(floor(u))
    r = u - k
    if min(r, 1 - r) < 1e-6:
        return None
    times = []
    if k > 0:
        times = [((i - .5)*a - x0)/dx for i in range(1, k + 1)]
    elif k < 0:
        times = [((-i + .5)*a - x0)/dx for i in range(1, -k + 1)]
    if k % 2:
        r, dx = 1 - r, -dx
    return r*a - a/2, dx, times


def through(rng, mon, tier):
    L, a, b, h, eff, place, root = make(rng)
    mon.input('through', [a, b, h, eff, place])
    S = []
    for _ in range(rng.randint(3, 25)):
        up = rng.random() < .5
        x0, y0 = a*rng.uniform(-.499, .499), b*rng.uniform(-.499, .499)
        k = rng.random()
        if k < .1:
            d = (0., 0., 1. if up else -1.)
        elif k < .25:
            az = rng.choice([0., pi/2, pi, -pi/2])
            th = rng.uniform(.05, 1.3)
            d = (sin(th)*cos(az), sin(th)*sin(az), cos(th)*(1 if up else -1))
        else:
            th, az = rng.uniform(0, 1.45), rng.uniform(0, 2*pi)
            d = (sin(th)*cos(az), sin(th)*sin(az), cos(th)*(1 if up else -1))
        t = h/abs(d[2])
        fx, fy = fold(x0, d[0], t, a), fold(y0, d[1], t, b)
        if fx is None or fy is None:
            continue
        times = sorted(fx[2] + fy[2])
        if len(times) > 40 or any(q - p < 1e-5*max(a, b, h) for p, q in zip(times, times[1:])) or (times and (times[0] < 1e-5*h or t - times[-1] < 1e-5*h)):
            continue
        back = rng.choice([0., .3*L, 2*L])
        x = (x0 - d[0]*back, y0 - d[1]*back, (0. if up else h) - d[2]*back)
        if back and (abs(x[0]) > 50*L or abs(x[1]) > 50*L):
            continue
        S.append((x, d, (fx[0], fy[0], h if up else 0.), (fx[1], fy[1], d[2]), len(times), t + back))
    if not S:
        return
    E = [lin(rng, .1, 10.) for _ in S]
    bund = gen.bundle(dict(v=[G.apply(place, s[0]) for s in S], d=[G.mv(place[0], s[1]) for s in S], e=E))
    eng = TracerEngine(root)
    reps = max(s[4] for s in S) + 2
    eng.ray_tracer(bund, reps, -1.)
    lv = levels(eng.tree)
    kids = [kids_of(lv, l) for l in range(len(lv))]
    scale = max(L, a, b, h, G.norm(place[1]))
    for i, s in enumerate(S):
        l, j, length = 0, i, 0.
        while kids[l].get(j):
            k = kids[l][j]
            mon.check(len(k) == 1, 'light in a homogenizer splits in %d', len(k))
            length += G.dist(lv[l]['v'][j], lv[l + 1]['v'][k[0]])
            l, j = l + 1, k[0]
        mon.check(l == s[4], 'light entering a homogenizer of %r by %r by %r at %s along %s reflects %d times, unfolded it crosses %d walls', a, b, h, s[0], s[1], l, s[4])
        x, d = G.unapply(place, lv[l]['v'][j]), G.mtv(place[0], lv[l]['d'][j])
        mon.check(G.dist(d, s[3]) < 1e-8*(l + 1), 'light leaves a homogenizer along %s, unfolded along %s', d, s[3])
        q = (s[2][2] - x[2])/d[2]
        y = G.add(x, G.mul(d, q))
        mon.check(q > -1e-9*scale and G.dist(y, s[2]) < 1e-7*scale*(l + 1), 'light leaves a homogenizer at %s, unfolded at %s', y, s[2])
        want = E[i]*eff**l
        mon.check(abs(lv[l]['e'][j] - want) <= 1e-9*want, 'light of energy %r leaves a homogenizer of efficiency %r after %d reflections with %r, not %r', E[i], eff, l, lv[l]['e'][j], want)
        mon.event('unfolded')
        mon.count('reflections', l)
        if l == 0:
            mon.count('straight')
        mon.state('through', min(l, 12), s[1][2] > 0)


def anywhere(rng, mon, tier):
    L, a, b, h, eff, place, root = make(rng)
    mon.input('anywhere', [a, b, h, eff, place])
    surfs = walls(a, b, h, eff, place)
    n = rng.randint(5, 40)
    r = gen.rays(rng, surfs, n, L, 1.)
    r['n'] = [1.]*n
    eng = TracerEngine(root)
    reps = rng.randint(1, 12)
    me = rng.choice([1e-9, 0., -1.])
    eng.ray_tracer(gen.bundle(r), reps, me)
    lv = levels(eng.tree)
    log = verify_trace(mon, surfs, lv, reps, me, ALL)
    for i in range(n):
        if log[0][i][0] == 'hit':
            s = surfs[log[0][i][1]]
            if G.dot(G.col(s.place[0], 2), r['d'][i]) > 1e-6:
                k = kids_of(lv, 0)[i]
                mon.check(all(lv[1]['e'][j] == 0 for j in k), 'light meets a homogenizer from outside and goes on')
                mon.event('outside')


QUICK = 4
KINDS = dict(through=(through, 300, 15000), anywhere=(anywhere, 150, 7000))
