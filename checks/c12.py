from common import *
import shapes
from tracer import optics

RULE = ("a case sends rays at hostile angles (normal, Brewster, around critical, grazing) onto a refracting surface of any shape and placement, "
    "or calls the optics laws directly; non-trivial if at least one ray's split was compared with Snell and Fresnel")
ASSUMPTIONS = ["within 1e-10 of the critical angle (in the squared cosine) both outcomes are accepted"]
MINIMUM = dict(refracted=5000, total=1000, laws=5000, dispersion=1000, critical=200, trace_interactions=1000)


def indices(rng):
    return rng.choice([(1., 1.5), (1.5, 1.), (1., 1.33), (lin(rng, 1., 4.), 1.), (1., lin(rng, 1., 4.)), (lin(rng, 1., 3.), lin(rng, 1., 3.)), (1.4, 1.4), (1., 1. + 1e-6), (1., lin(rng, 4., 60.)), (lin(rng, 4., 60.), 1.)])


def laws(mon, d, n, n1, n2, refl, refr, what, err=1e-14):
    """d arrives, n faces it; refl = (direction, fraction of energy), refr = (direction, fraction) or None."""
    c1 = -G.dot(d, n)
    k = 1 - (n1/n2)**2*(1 - c1*c1)
    amp = max(1., n1/n2)**2         # how an error of the normal grows
    near = abs(k) < max(1e-10, 1e3*err*amp)
    if near:
        mon.count('critical_open')
        return
    if abs(k) < 1e-3 and n1 > n2:
        mon.count('critical')
    tol = 1e-9 + 1e-13/sqrt(abs(k)) + 1e-13/max(c1, 1e-9) + 10*err*amp/sqrt(abs(k))
    rd, re = refl
    mon.check(abs(G.norm(rd) - 1) < 1e-9, '%s: reflected direction of length %r', what, G.norm(rd))
    mon.check(G.dist(rd, G.reflect(d, n)) < 1e-8, '%s: reflected along %s instead of %s', what, rd, G.reflect(d, n))
    if k < 0:
        mon.check(refr is None, '%s: a totally reflected ray (%r to %r at cosine %r) is refracted too', what, n1, n2, c1)
        mon.check(abs(re - 1) < 1e-12, '%s: total reflection keeps %r of the energy', what, re)
        mon.event('total')
        return
    mon.check(refr is not None, '%s: a ray (%r to %r at cosine %r) is not refracted', what, n1, n2, c1)
    td, te = refr
    mon.check(abs(G.norm(td) - 1) < 1e-9 + tol, '%s: refracted direction of length %r', what, G.norm(td))
    s1, s2 = G.norm(G.cross(d, n)), G.norm(G.cross(td, n))
    mon.check(abs(n1*s1 - n2*s2) < 1e-8*max(n1, n2), "%s: Snell's law broken: %r * %r against %r * %r", what, n1, s1, n2, s2)
    # plane of incidence, forward
    pl = G.cross(d, n)
    if G.norm(pl) > 1e-7:
        mon.check(abs(G.dot(td, G.unit(pl))) < 1e-8, '%s: refracted out of the plane of incidence', what)
        tang = G.sub(d, G.mul(n, G.dot(d, n)))
        mon.check(G.dot(td, tang) >= -1e-9, '%s: refracted backwards in the plane of incidence', what)
    mon.check(G.dot(td, n) < 1e-9 + tol, '%s: the refracted ray does not continue to the far side', what)
    t, _ = G.refract(n1, n2, d, n)
    mon.check(G.dist(t, td) < tol*10, '%s: refracted along %s instead of %s', what, td, t)
    R = G.fresnel(n1, n2, c1)
    etol = 1e-7 + 1e-12/sqrt(k)/max(c1, 1e-6) + 100*err*amp**1.5/sqrt(k)
    mon.check(abs(re - R) < etol, '%s: reflectance %r instead of %r (%r to %r at cosine %r)', what, re, R, n1, n2, c1)
    mon.check(abs(te - (1 - R)) < etol, '%s: transmittance %r instead of %r', what, te, 1 - R)
    mon.event('refracted')


def angles(rng, n1, n2, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .15:
            a = rng.choice([0., 0., 1e-9, 1e-8, 1e-7])
        elif k < .25:
            a = atan(n2/n1) + rng.choice([0., 1e-6, -1e-6])
        elif k < .45 and n1 > n2:
            a = asin(n2/n1) + rng.choice([0., 1e-15, -1e-15, 1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4])
        elif k < .55:
            a = pi/2 - 10**rng.uniform(-5, -1)
        else:
            a = rng.uniform(0, pi/2 - 1e-4)
        out.append(min(a, pi/2 - 1e-5))
    return out


def mostly_total(rng, mon, tier):
    """Thousands of rays totally reflected, a few among them refracted, or the reverse."""
    surface(rng, mon, tier, few=rng.randint(0, 3))


def surface(rng, mon, tier, few=None):
    s, real, L = shapes.make(rng, G.FLAT + G.CURVED)
    n1, n2 = indices(rng)
    if few is not None:
        n1, n2 = rng.sample([rng.uniform(1., 1.2), rng.uniform(1.4, 3.)], 2)
    s.optics = ('refr', n1, n2)
    opt = oc.RefractiveHomogenous(n1, n2)
    real = Surface(real.get_geometry_manager(), opt, location=np.array(s.place[1]), rotation=np.array(s.place[0]))
    base = scale_of([s])
    for rep in range(2):
        n = crowd(rng, rng.randint(1, 60), .02)
        idx = [rng.choice([n1, n2]) for _ in range(n)] if rng.random() < .6 else [rng.choice([n1, n2])]*n
        rare = ()
        if few is not None:
            n = rng.randint(1000, 3000)
            idx = [max(n1, n2)]*n
            rare = rng.sample(range(n), few)
            beyond = rng.random() < .75
        V, D = [], []
        for i in range(n):
            # aim at a point of the shape at a chosen angle
            p = sample_point(rng, s.geom, .95)
            g = G.unit(G.gradient(s.geom, p)) if G.norm(G.gradient(s.geom, p)) > 0 else (0., 0., 1.)
            a = angles(rng, idx[i], n2 if idx[i] == n1 else n1, 1)[0]
            if few is not None:
                ac = asin(min(n1, n2)/max(n1, n2))
                a = rng.uniform(ac + 1e-3, pi/2 - 1e-4) if (i in rare) != beyond else rng.uniform(0, ac - 1e-3)
            u = rdir(rng)
            u = G.cross(g, u)
            u = G.unit(u) if G.norm(u) > 1e-6 else (1., 0., 0.)
            sg = rng.choice([1., -1.])
            d = G.unit(G.add(G.mul(g, -sg*cos(a)), G.mul(u, sin(a))))
            V.append(G.apply(s.place, G.sub(p, G.mul(d, L*lin(rng, .01, 2.)))))
            D.append(G.unit(G.mv(s.place[0], d)))
        r = dict(v=V, d=D, e=[rng.choice([1., lin(rng, 1e-6, 1e6)]) for _ in range(n)], n=idx)
        mon.input('glass', [s.geom, s.place, n1, n2, V[:2], D[:2], n])
        tag = np.arange(n)*5 + 1
        b = gen.bundle(r, tag=tag.copy())
        real.register_incoming(b)
        hits = []
        for i in range(n):
            a = shapes.decide(s, V[i], D[i], max(base, G.norm(V[i])))
            if a[0] == 'hit':
                hits.append((i, a))
        if rng.random() < .5:
            rng.shuffle(hits)
        hits = hits[:rng.randint(0, len(hits))] if rng.random() < .5 else hits
        real.select_rays(np.array([i for i, _ in hits], dtype=int))
        o = real.get_outgoing()
        if not hits:
            mon.check(o.get_num_rays() == 0, 'a refracting surface nothing met emits %d rays', o.get_num_rays())
            real.done()
            continue
        kids = {}
        par = [int(p) for p in o.get_parents()]
        for k, p in enumerate(par):
            kids.setdefault(p, []).append(k)
        mon.check(set(par) <= set(i for i, _ in hits), 'rays leave a refracting surface with parents that did not meet it')
        v, dd, en, ri, tg = o.get_vertices(), o.get_directions(), o.get_energy(), o.get_ref_index(), o.get_tag()
        for i, a in hits:
            ks = kids.get(i, [])
            mon.check(1 <= len(ks) <= 2, 'a ray meeting a refracting surface leaves %d rays', len(ks))
            x = G.add(V[i], G.mul(D[i], a[1]))
            scale = max(base, G.norm(V[i]))
            m1, m2 = idx[i], G.toggle(n1, n2, idx[i])
            nrm = G.normal_at(s, x, D[i])
            c1 = -G.dot(D[i], nrm)
            for k in ks:
                mon.check(G.dist(tuple(v[:, k]), x) <= 50*a[2] + 1e-9*scale, 'a ray meets a refracting %s at %s but goes on from %s', s.geom, x, v[:, k].tolist())
                mon.check(int(tg[k]) == int(tag[i]), 'an extra property changed at a refracting surface')
                mon.check(float(en[k]) >= 0 and float(en[k]) == float(en[k]), 'a ray leaves a refracting surface with energy %r', float(en[k]))
            back = [k for k in ks if G.dot(tuple(dd[:, k]), nrm) > 0] if c1 > 1e-4 else None
            if m1 != m2:
                rl = [k for k in ks if ri[k] == m1]
                rr = [k for k in ks if ri[k] == m2]
                mon.check(len(rl) + len(rr) == len(ks), 'a ray between media %r and %r goes on in %s', m1, m2, [float(ri[k]) for k in ks])
            else:
                mon.check(all(ri[k] == m1 for k in ks), 'a ray between equal media changed its refractive index')
                if back is None:
                    continue
                rl, rr = back, [k for k in ks if k not in back]
            mon.check(len(rl) == 1 and len(rr) <= 1, 'a ray meeting a refracting surface leaves %d reflected and %d refracted rays', len(rl), len(rr))
            # The normal is known only up to rounding of the hit point
            R = G.radius(s.geom)
            nerr = (5*a[2] + 1e-13*scale)/R if s.geom[0] in G.CURVED else 1e-13
            kk = 1 - (m1/m2)**2*(1 - c1*c1)
            if abs(kk) < 1e3*nerr or c1 < 1e3*nerr or nerr > 1e-11:
                mon.count('critical_open')
                continue
            e = r['e'][i]
            f = lambda k: (tuple(dd[:, k].tolist()), float(en[k])/e)
            laws(mon, D[i], nrm, m1, m2, f(rl[0]), f(rr[0]) if rr else None, 'at a %s' % s.geom[0], max(nerr, 1e-14))
            mon.state(s.geom[0], m1 > m2, bool(rr), len(hits) == 1)
        real.done()


def functions(rng, mon, tier):
    """reflections, refractions and fresnel for many rays at once, in their various argument forms."""
    n = rng.randint(1, 40)
    n1, n2 = indices(rng)
    form = rng.randrange(4)
    ds, ns = [], []
    per = [(n1, n2) if form < 2 else indices(rng) for _ in range(n)]
    common = rdir(rng)
    for i in range(n):
        nv = common if form == 1 else rdir(rng)
        a = angles(rng, per[i][0], per[i][1], 1)[0]
        u = G.unit(G.cross(nv, rdir(rng)))
        d = G.unit(G.add(G.mul(nv, -cos(a)), G.mul(u, sin(a))))
        ds.append(d)
        ns.append(nv)
    mon.input('functions', [per[:2], ds[:2], ns[:2], n, form])
    flip = [rng.choice([1., -1.]) if form == 3 else 1. for _ in range(n)]
    D = np.array(ds).T.reshape(3, n)
    Nn = (np.array(ns)*np.array(flip)[:, None]).T.reshape(3, n)
    if form == 1:
        Nn = np.array(common)[:, None]
    a1 = per[0][0] if form < 2 else np.array([p[0] for p in per])
    a2 = per[0][1] if form < 2 else np.array([p[1] for p in per])
    d0, n0 = D.copy(), Nn.copy()
    refr, dirs = optics.refractions(a1, a2, D, Nn)
    refl = optics.reflections(D, Nn)
    refr = np.array(refr)
    mon.check(refr.shape == (n,) and dirs.shape == (3, int(refr.sum())), 'refractions gave %s and %s for %d rays', refr.shape, dirs.shape, n)
    R = np.ones(n)
    if refr.any():
        pick = lambda x: x[refr] if np.ndim(x) else x
        R[refr] = optics.fresnel(D[:, refr], Nn if form == 1 else Nn[:, refr], pick(a1), pick(a2))
    mon.check((D == d0).all() and (Nn == n0).all(), 'the optics laws changed their arguments')
    k = 0
    for i in range(n):
        t = None
        if refr[i]:
            t = (tuple(dirs[:, k].tolist()), float(1 - R[i]))
            k += 1
        laws(mon, ds[i], ns[i], per[i][0], per[i][1], (tuple(refl[:, i].tolist()), float(R[i])), t, 'optics')
        mon.event('laws')


def dispersion(rng, mon, tier):
    a, b, d = rng.uniform(1, 2), rng.uniform(-.1, .1), rng.uniform(-.1, .1)
    c, e = rng.uniform(2, 5), rng.uniform(-1, .1)
    lam = np.array([rng.uniform(.2, 1.5) for _ in range(rng.randint(1, 20))])
    if rng.random() < .3:            # whole nanometres
        lam = np.array([rng.randint(200, 1500) for _ in range(rng.randint(1, 20))])
        b, d, c, e = [1e3*x for x in (b, d, c, e)]
        if rng.random() < .5:
            a, b, d, c, e = int(round(a)), int(round(b)) or 1, int(round(d)) or 1, int(round(c)), int(round(e))
    lam = lam[abs(e - lam) > 1e-3]
    if not len(lam):
        return
    arg = lam if rng.random() < .7 else lam[0].item()
    mon.input('hartmann', [a, b, c, d, e, lam[:2].tolist()])
    got = np.atleast_1d(optics.refr_idx_hartmann(arg, a, b, c, d, e))
    for g, l in zip(got.tolist(), lam.tolist()):
        w = a + b/(c - l) + d/(e - l)
        mon.check(abs(g - w) < 1e-12*max(1., abs(w), abs(d/(e - l))), 'index at wavelength %r is %r instead of %r', l, g, w)
        mon.event('dispersion')


def traced(rng, mon, tier):
    t = run_trace(rng, mon, ('direction', 'energy', 'index', 'number'), menu=('refr',), nsurf=(1, 5), spread=1.3, reps=(2, 5), nrays=(1, 20))
    mon.count('trace_interactions', sum(1 for L in t.log for o in L if o[0] == 'hit'))

QUICK = 4
KINDS = dict(mostly_total=(mostly_total, 12, 300), surface=(surface, 260, 10000), functions=(functions, 300, 12000), dispersion=(dispersion, 200, 4000), traced=(traced, 60, 2000))
