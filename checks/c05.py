from common import *

RULE = ("a case traces one bundle through a scene, then subsets, permutations and batches of it through the same and through "
    "freshly built scenes; or asks one surface about a bundle and about parts of it; non-trivial if descendants of a ray were compared")
ASSUMPTIONS = ["rays whose fate rounding decides (edges, ties, tangency) and what descends from them are skipped", "only surfaces without random draws"]
MINIMUM = dict(nodes_compared=5000, parts=300, single_compared=5000, outgoing_compared=500)
DET = ('refl', 'refl', 'absrefl', 'refr', 'rrecv')


def parts(rng, n):
    """Lists of ray indices: alone, subsets, permutations, batches."""
    k = rng.random()
    idx = list(range(n))
    if k < .25:
        return [[rng.randrange(n)] for _ in range(min(n, 3))]
    if k < .5:
        return [rng.sample(idx, rng.randint(1, n))]
    if k < .75:
        rng.shuffle(idx)
        return [idx]
    out, rng2 = [], idx[:]
    if rng.random() < .5:
        rng.shuffle(rng2)
    while rng2:
        c = rng.randint(1, max(1, n//2))
        out.append(rng2[:c])
        rng2 = rng2[c:]
    return out[:4]


def scenes(rng, mon, tier, **kw):
    tag = lambda n: dict(tag=np.array([rng.randrange(10**6) for _ in range(n)]), vec=np.array([[rng.random() for _ in range(n)] for _ in range(2)]))
    a = dict(menu=DET, reps=(1, 6), nrays=(2, 40), extra=None)
    a.update(kw)
    tags = {}
    def extra(n):
        tags.update(tag(n))
        return tags
    a['extra'] = extra
    t = run_trace(rng, mon, (), **a)
    n = t.lv[0]['n']
    fresh = rng.random() < .5
    if rng.random() < .3:
        # together with strangers
        more = gen.rays(rng, t.sc.surfs, rng.randint(1, 30), 2.)
    else:
        more = None
    for sel in parts(rng, n):
        pos = list(range(len(sel)))
        r = dict(v=[t.rays['v'][i] for i in sel], d=[t.rays['d'][i] for i in sel], e=[t.rays['e'][i] for i in sel], n=[t.rays['n'][i] for i in sel])
        tg, vc = [tags['tag'][i] for i in sel], [[tags['vec'][k][i] for i in sel] for k in range(2)]
        if more is not None:
            m = len(more['v'])
            at = rng.randint(0, len(sel))
            for key in ('v', 'd', 'e'):
                r[key] = r[key][:at] + more[key] + r[key][at:]
            r['n'] = r['n'][:at] + [1.]*m + r['n'][at:]
            tg = tg[:at] + [-1]*m + tg[at:]
            vc = [row[:at] + [-1.]*m + row[at:] for row in vc]
            pos = [k if k < at else k + m for k in pos]
        root = build(t.spec).root if fresh else t.sc.root
        b = gen.bundle(r, tag=np.array(tg), vec=np.array(vc), uid=np.arange(len(r['v'])))
        eng = TracerEngine(root)
        eng.ray_tracer(b, t.reps, t.min_energy)
        lv = levels(eng.tree)
        c = Comparison(mon, t.sc.surfs, t.lv, t.log, lv, props=('tag', 'vec'), what='a ray traced in different company')
        for k, i in zip(pos, sel):
            c.source(i, k)
        mon.event('parts')


def general(rng, mon, tier):
    scenes(rng, mon, tier)

def onsurf(rng, mon, tier):
    """Rays starting on surfaces, mirrors and glass close together."""
    scenes(rng, mon, tier, nsurf=(1, 5), stacks=.6, enclose=.6, spread=1.2)

def glass(rng, mon, tier):
    scenes(rng, mon, tier, kinds=('sphere', 'hemi', 'cut', 'fcyl', 'rect', 'dish'), menu=('refr', 'refr', 'refl'), nsurf=(1, 4), spread=1.2, reps=(1, 4), nrays=(2, 20))


def single(rng, mon, tier):
    """One surface asked about whole bundles, parts, and permutations, over and over."""
    g = rgeom(rng, G.FLAT + G.CURVED)
    place = rplace(rng)
    s = G.Surf(g, ('refl', .25), place)
    real = Surface(real_geom(g), real_optics(('refl', .25)), location=np.array(place[1]), rotation=np.array(place[0]))
    n = crowd(rng, rng.randint(2, 60), .02)
    r = gen.rays(rng, [s], n, 1.)
    mon.input('surface', [g, place, r['v'][:3]])
    scale = scale_of([s])
    res = []
    for i in range(n):
        sc = max(scale, G.norm(r['v'][i]))
        res.append(G.nearest([s], r['v'][i], r['d'][i], sc))
    b = gen.bundle(r)
    full = real.register_incoming(b).tolist()
    out = outgoing(rng, real, full)
    real.done()
    for _ in range(4):
        for sel in parts(rng, n):
            b2 = gen.bundle(dict(v=[r['v'][i] for i in sel], d=[r['d'][i] for i in sel], e=[r['e'][i] for i in sel]))
            part = real.register_incoming(b2).tolist()
            o2 = outgoing(rng, real, part)
            real.done()
            for k, i in enumerate(sel):
                if res[i][0] == 'open':
                    continue
                a, c = full[i], part[k]
                if a <= 1e-6 or c <= 1e-6:
                    # The ray's own start: reported or not, it does not count
                    continue
                mon.check((a == inf) == (c == inf), 'a %s surface reports %r for a ray among %d and %r among %d others', g[0], a, n, c, len(sel))
                if a != inf:
                    tol = 1e-8*max(scale, G.norm(r['v'][i])) + (100*res[i][3] if res[i][0] == 'hit' else 0.)
                    mon.check(abs(a - c) <= tol, 'a %s surface reports %r for a ray among %d and %r among %d others', g[0], a, n, c, len(sel))
                mon.event('single_compared')
                mon.state(g[0], a == inf, len(sel) == 1)
                if i in out and k in o2 and res[i][0] == 'hit' and res[i][4] > 1e-3:
                    for x, y, w in zip(out[i], o2[k], ('start', 'direction', 'energy')):
                        x, y = np.array(x), np.array(y)
                        tol = 1e-6*(max(scale, G.norm(r['v'][i])) if w == 'start' else 1. + abs(float(np.max(np.abs(x)))))
                        mon.check(float(np.max(np.abs(x - y))) <= tol, 'a %s surface sends a ray off with %s %s in one company and %s in another', g[0], w, x, y)
                    mon.event('outgoing_compared')


def outgoing(rng, real, ts):
    idx = [i for i, t in enumerate(ts) if t != inf and t > 1e-6]
    if rng.random() < .5:
        idx = rng.sample(idx, rng.randint(0, len(idx)))
    if not idx:
        return {}
    real.select_rays(np.array(idx))
    o = real.get_outgoing()
    v, d, e = o.get_vertices(), o.get_directions(), o.get_energy()
    return dict((i, (v[:, k].tolist(), d[:, k].tolist(), float(e[k]))) for k, i in enumerate(idx))


QUICK = 2.5
KINDS = dict(general=(general, 110, 3000), onsurf=(onsurf, 80, 2500), glass=(glass, 60, 1500), single=(single, 250, 8000))
