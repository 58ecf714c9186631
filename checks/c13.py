from common import *
import shapes, stats

RULE = ("a case sends some thousand rays, from one or many directions, onto a diffuse surface of any shape and placement, in one or many calls, "
    "and tests each outgoing ray and their joint distribution; non-trivial if a distribution was tested")
ASSUMPTIONS = ["statistical limits are set so that correct code exceeds one with odds below 1e-10 per test; the random generator is numpy's, seeded per case"]
MINIMUM = dict(outgoing=50000, distributions=150, correlations=80, trace_outgoing=500, many_rays=10)


def setup(rng):
    s, real, L = shapes.make(rng, G.FLAT + G.CURVED)
    s.optics = (rng.choice(['lamb', 'lrecv']), rabs(rng))
    real = Surface(real.get_geometry_manager(), real_optics(s.optics), location=np.array(s.place[1]), rotation=np.array(s.place[0]))
    return s, real, L


def basis(n, h):
    """Tangents at normal n: the first along h's projection."""
    u = G.sub(h, G.mul(n, G.dot(h, n)))
    if G.norm(u) < 1e-3:
        u = G.cross(n, (1., 0., 0.) if abs(n[0]) < .9 else (0., 1., 0.))
    u = G.unit(u)
    return u, G.cross(n, u)


def strike(rng, mon, s, real, r, h, only=None):
    """Sends the bundle; returns per hit (sin^2, azimuth about h, azimuth about the plane of incidence)."""
    n = len(r['v'])
    base = scale_of([s])
    tag = np.arange(n) + 11
    b = gen.bundle(r, tag=tag.copy())
    real.register_incoming(b)
    hits = []
    for i in range(n):
        a = shapes.decide(s, r['v'][i], r['d'][i], max(base, G.norm(r['v'][i])))
        if a[0] == 'hit' and a[3] > 1e-3:
            hits.append((i, a))
    if not hits:
        real.done()
        return []
    idx = np.array([i for i, _ in hits])
    real.select_rays(idx)
    o = real.get_outgoing()
    mon.check(o.get_num_rays() == len(hits), '%d rays met a diffuse surface, %d left it', len(hits), o.get_num_rays())
    v, d, e = o.get_vertices().T.tolist(), o.get_directions().T.tolist(), o.get_energy().tolist()
    par, tg, ri = [int(p) for p in o.get_parents()], o.get_tag().tolist(), o.get_ref_index().tolist()
    out = []
    for k, (i, a) in enumerate(hits):
        x = G.add(r['v'][i], G.mul(r['d'][i], a[1]))
        scale = max(base, G.norm(r['v'][i]))
        mon.check(par[k] == i and tg[k] == tag[i] and ri[k] == r['n'][i], 'a diffusely reflected ray lost its parent or properties')
        mon.check(G.dist(tuple(v[k]), x) <= 50*a[2] + 1e-9*scale, 'a ray meets a diffuse %s at %s but goes on from %s', s.geom, x, v[k])
        mon.check(abs(e[k] - r['e'][i]*(1 - s.optics[1])) <= 1e-12*r['e'][i], 'a ray of energy %r left a diffuse surface of absorptivity %r with %r', r['e'][i], s.optics[1], e[k])
        w = tuple(d[k])
        mon.check(abs(G.norm(w) - 1) < 1e-9, 'a ray leaves a diffuse surface with a direction of length %r', G.norm(w))
        nrm = G.normal_at(s, x, r['d'][i])
        c = G.dot(w, nrm)
        mon.check(c > -1e-6, 'a ray along %s leaves a diffuse %s with normal %s to the other side, along %s', r['d'][i], s.geom, nrm, w)
        mon.event('outgoing')
        u1, u2 = basis(nrm, h)
        az = atan2(G.dot(w, u2), G.dot(w, u1))/(2*pi) % 1.
        p1, p2 = basis(nrm, r['d'][i])
        az2 = atan2(G.dot(w, p2), G.dot(w, p1))/(2*pi) % 1.
        out.append((min(max(1 - c*c, 0.), 1.), az, az2))
    real.done()
    return out


def judge(mon, res, what):
    if len(res) < 600:
        mon.count('small_samples')
        return
    stats.ks_uniform(mon, [x[0] for x in res], what + ', squared sine from the normal')
    stats.ks_uniform(mon, [x[1] for x in res], what + ', azimuth')
    stats.ks_uniform(mon, [x[2] for x in res], what + ', azimuth from the plane of incidence')
    for k, nm in ((0, 'tilt'), (1, 'azimuth')):
        xs = [x[k] for x in res]
        stats.uncorrelated(mon, xs[:-1], xs[1:], what + ', %s of successive rays' % nm)
        m = len(xs)//2
        stats.uncorrelated(mon, xs[:m], xs[m:2*m], what + ', %s of rays half a bundle apart' % nm)
    stats.uncorrelated(mon, [x[0] for x in res], [x[1] for x in res], what + ', tilt and azimuth')
    for k in (1, 2):
        for grid in ((30, 2), (2, 30), (8, 8)):
            stats.cells(mon, [(x[0], x[k]) for x in res], grid, what + ', tilt and azimuth')


def rays_for(rng, s, L, n):
    k = rng.random()
    V, D = [], []
    if k < .35:
        # one ray, over and over
        for _ in range(200):
            o, d = aimed_ray(rng, [s], L)
            if shapes.decide(s, o, d, max(scale_of([s]), G.norm(o)))[0] == 'hit':
                break
        V, D = [o]*n, [d]*n
    elif k < .5:
        # one ray at grazing incidence
        for _ in range(200):
            p = G.apply(s.place, sample_point(rng, s.geom, .9))
            nrm = G.normal_at(s, p, rdir(rng))
            d = G.unit(G.add(basis(nrm, rdir(rng))[0], G.mul(nrm, -lin(rng, 3e-3, .1))))
            o = G.sub(p, G.mul(d, lin(rng, .05, 1.)*L))
            a = shapes.decide(s, o, d, max(scale_of([s]), G.norm(o)))
            if a[0] == 'hit' and a[3] > 1e-3:
                break
        V, D = [o]*n, [d]*n
    elif k < .7:
        # along the axis: normals at and around +-Z
        for _ in range(n):
            p = sample_point(rng, s.geom, .9)
            dd = G.mv(s.place[0], (0., 0., rng.choice([-1., 1.])))
            V.append(G.sub(G.apply(s.place, p), G.mul(dd, L)))
            D.append(dd)
    else:
        for _ in range(n):
            p = G.apply(s.place, sample_point(rng, s.geom, .95))
            d = rdir(rng)
            V.append(G.sub(p, G.mul(d, L*lin(rng, .1, 3.))))
            D.append(d)
    return dict(v=V, d=D, e=[rng.choice([1., 2.5]) for _ in range(n)], n=[rng.choice([1., 1.5]) for _ in range(n)])


def big(rng, mon, tier):
    s, real, L = setup(rng)
    r = rays_for(rng, s, L, 2500 if tier == 'quick' else 6000)
    mon.input('diffuse', [s.geom, s.place, s.optics, r['v'][:2], r['d'][:2]])
    h = rdir(rng)
    a = strike(rng, mon, s, real, r, h)
    judge(mon, a, 'diffuse %s' % s.geom[0])
    b = strike(rng, mon, s, real, r, h)
    if len(a) == len(b):
        stats.uncorrelated(mon, [x[0] for x in a], [x[0] for x in b], 'tilt in two successive calls')
        stats.uncorrelated(mon, [x[1] for x in a], [x[1] for x in b], 'azimuth in two successive calls')
    mon.state(s.geom[0], s.optics[0], len(set(r['d'])) == 1)


def huge(rng, mon, tier):
    """So many rays at once that work on them may be divided; flat and round, so that normals are plain."""
    n = crowd(rng, 1, 1.)*rng.choice([1, 2, 4]) if rng.random() < .5 else rng.randint(9000, 50000)
    R = lin(rng, .2, 5.)
    flat = rng.random() < .5
    s = G.Surf(('rect', 2*R, 2*R) if flat else ('sphere', R), (rng.choice(['lamb', 'lrecv']), rabs(rng)), rplace(rng, 3.))
    real = Surface(real_geom(s.geom), real_optics(s.optics), location=np.array(s.place[1]), rotation=np.array(s.place[0]))
    mon.input('many diffuse', [s.geom, s.place, s.optics, n])
    rs = np.random.RandomState(rng.randrange(2**31))
    place, rot = np.array(s.place[1])[:, None], np.array(s.place[0])
    if flat:
        p = np.vstack((rs.uniform(-.95*R, .95*R, (2, n)), np.zeros(n)))
        nrm = np.tile(np.array([[0.], [0.], [1.]]), (1, n))
    else:
        nrm = rs.normal(size=(3, n))
        nrm /= np.sqrt((nrm**2).sum(axis=0))
        p = R*nrm
    d = rs.normal(size=(3, n))
    d /= np.sqrt((d**2).sum(axis=0))
    c = (d*nrm).sum(axis=0)
    if not flat:                # from outside
        d[:, c > 0] *= -1
    else:
        nrm[:, c > 0] *= -1
    d[:, abs(c) < .05] = -nrm[:, abs(c) < .05]
    e = rs.uniform(.5, 2., n)
    v, d, nrm = np.dot(rot, p - d) + place, np.dot(rot, d), np.dot(rot, nrm)
    b = RayBundle(vertices=v, directions=d, energy=e, ref_index=np.ones(n), tag=np.arange(n))
    t = real.register_incoming(b)
    mon.check((abs(t - 1) < 1e-6).all(), 'of %d rays meeting a %s at distance 1, %d are reported elsewhere', n, s.geom, int((abs(t - 1) >= 1e-6).sum()))
    real.select_rays(np.arange(n))
    o = real.get_outgoing()
    real.done()
    w = np.array(o.get_directions())
    mon.check(w.shape == (3, n) and (o.get_parents() == np.arange(n)).all() and (o.get_tag() == np.arange(n)).all(), '%d rays met a diffuse surface, what leaves it is not one of each', n)
    mon.check((abs(o.get_energy() - e*(1 - s.optics[1])) <= 1e-12*e).all(), 'a ray left a diffuse surface with the wrong energy')
    mon.check((abs(o.get_vertices() - (np.dot(rot, p) + place)) < 1e-8).all(), 'a ray leaves a diffuse surface from another point than it met it')
    cs = (w*nrm).sum(axis=0)
    mon.check((abs((w**2).sum(axis=0) - 1) < 1e-9).all() and cs.min() > -1e-6, 'a ray leaves a diffuse surface with a wrong direction')
    u = np.cross(nrm.T, np.array(rdir(rng))).T
    u /= np.maximum(np.sqrt((u**2).sum(axis=0)), 1e-9)
    q = np.cross(nrm.T, u.T).T
    az = np.arctan2((w*q).sum(axis=0), (w*u).sum(axis=0))/(2*pi) % 1.
    tilt = np.clip(1 - cs**2, 0., 1.)
    mon.event('outgoing', n)
    for x, nm in ((tilt, 'squared sine from the normal'), (az, 'azimuth')):
        stats.ks_uniform(mon, x.tolist(), 'many diffuse rays, ' + nm)
        # no draw is used twice, near or far
        k = len(set(np.round(x, 13).tolist()))
        mon.check(k > .999*n, 'of %d diffuse rays only %d have a %s of their own', n, k, nm)
        for lag in (1, n//2, 1024, 4096):
            if lag < n:
                stats.uncorrelated(mon, x[:-lag].tolist(), x[lag:].tolist(), 'many diffuse rays, %s of rays %d apart' % (nm, lag))
    stats.uncorrelated(mon, tilt.tolist(), az.tolist(), 'many diffuse rays, tilt and azimuth')
    mon.count('many_rays')


def singles(rng, mon, tier):
    """Few rays per call, many calls and surfaces."""
    s, real, L = setup(rng)
    r = rays_for(rng, s, L, 900 if tier == 'quick' else 2500)
    mon.input('diffuse calls', [s.geom, s.place, s.optics, r['v'][:2], r['d'][:2]])
    h = rdir(rng)
    res = []
    k, n = 0, len(r['v'])
    while k < n:
        m = rng.randint(1, 4)
        sub = dict((key, r[key][k:k + m]) for key in r)
        res += strike(rng, mon, s, real, sub, h)
        k += m
    judge(mon, res, 'diffuse %s, ray by ray' % s.geom[0])


def traced(rng, mon, tier):
    t = run_trace(rng, mon, ('direction', 'energy', 'index', 'number', 'hit'), menu=('lamb', 'lrecv', 'lamb', 'refl'), nsurf=(1, 5), enclose=.7, reps=(2, 6))
    mon.count('trace_outgoing', sum(1 for L in t.log for o in L if o[0] == 'hit'))
    # tracing again draws afresh
    if t.led.events and any(ev.surf.optics[0] in ('lamb', 'lrecv') for ev in t.led.events):
        first = [ev for ev in t.led.events if ev.surf.optics[0] in ('lamb', 'lrecv')][0]
        led2 = Ledger()
        sc = build(t.spec, wrap=led2.wrap)
        TracerEngine(sc.root).ray_tracer(gen.bundle(t.rays, uid=led2.source_uids(len(t.rays['v']))), 1, 0.)
        same = [ev for ev in led2.events if ev.surf.index == first.surf.index]
        if same and same[0].uids == first.uids:
            mon.check(same[0].out_dirs != first.out_dirs, 'tracing again repeats the random directions of a diffuse surface')
            mon.event('fresh_draws')

QUICK = 1.5
KINDS = dict(huge=(huge, 12, 400), big=(big, 48, 1200), singles=(singles, 32, 500), traced=(traced, 60, 2000))
