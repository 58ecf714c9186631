from common import *

RULE = ("a case traces rays carrying extra properties of several types and dimensions through a random scene with branching, thresholds and "
    "policies; non-trivial if at least one descendant's properties were compared with its source ray's")
ASSUMPTIONS = ["ancestry is taken from the recorded parents where a ray starts on its parent's path, otherwise from the identities logged at the surfaces"]
MINIMUM = dict(dense=50, descendants=5000, index_kept=2000, deep=1000)


def props(rng, n):
    out = {}
    while not out:
        if rng.random() < .6:
            out['tag'] = np.array([rng.randrange(10**rng.choice([1, 6, 18])) for _ in range(n)])
        if rng.random() < .4:
            out['wavelength'] = np.array([rng.random() for _ in range(n)])
        if rng.random() < .4:
            out['pol'] = np.array([[rng.random() for _ in range(n)] for _ in range(2)]).reshape(2, n)
        if rng.random() < .2:
            out['jones'] = np.array([rng.random() for _ in range(4*n)]).reshape(2, 2, n)
        if rng.random() < .2:
            out['mark'] = np.array([rng.random() < .5 for _ in range(n)])
        if rng.random() < .12:
            out['amp'] = np.array([complex(rng.random(), rng.random()) for _ in range(n)])
        if rng.random() < .12:
            out['name'] = np.array([''.join(rng.choice('abcxyz') for _ in range(rng.randint(0, 7))) for _ in range(n)], dtype='U7')
        if rng.random() < .12:
            out['what'] = np.array([rng.choice([None, 'x', 3, 2.5]) for _ in range(n)], dtype=object)
        if rng.random() < .12:
            out['gap'] = np.array([rng.choice([nan, inf, -inf, -0., rng.random()]) for _ in range(n)])
        if rng.random() < .12:
            out['few'] = np.array([rng.randrange(200) for _ in range(n)], dtype=rng.choice(['uint8', 'int16', 'float32']))
        if n < 200 and rng.random() < .1:
            out['sq'] = np.array([rng.random() for _ in range(n*n)]).reshape(n, n)
    return out


def alike(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if b.dtype.kind in 'OU':
        return a.shape == b.shape and a.tolist() == b.tolist()
    return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())


def case(rng, mon, **kw):
    given = {}
    def extra(n):
        given.update(props(rng, n))
        return dict((k, v.copy()) for k, v in given.items())
    t = run_trace(rng, mon, ('index',), extra=extra, **kw)
    led = t.led
    index = [dict((u, i) for i, u in enumerate(us)) for us in t.uid]
    base = scale_of(t.sc.surfs)
    def came_from(L, j):
        """The ray of level L - 1 this one stems from: the recorded parent where it starts on that ray's path, else by the log."""
        p = t.lv[L]['p'][j]
        if 0 <= p < t.lv[L - 1]['n']:
            v, d = t.lv[L - 1]['v'][p], t.lv[L - 1]['d'][p]
            w = G.sub(t.lv[L]['v'][j], v)
            a = G.dot(w, d)
            if a > -1e-9*base and G.norm(G.sub(w, G.mul(d, a))) < 1e-7*(base + G.norm(v) + abs(a)):
                return p
        return index[L - 1].get(led.parent_of[t.uid[L][j]])
    anc = [[(i, True) for i in range(t.lv[0]['n'])]]
    refr = set(id(s) for s in t.sc.surfs if s.optics[0] == 'refr')
    for L in range(1, len(t.lv)):
        b = t.lv[L]['bund']
        vals = {}
        for k, v in given.items():
            mon.check(b.has_property(k), 'property %s is gone at level %d', k, L)
            vals[k] = np.array(getattr(b, 'get_' + k)())
            mon.check(vals[k].shape == v.shape[:-1] + (t.lv[L]['n'],), 'property %s has shape %s for %d rays at level %d', k, vals[k].shape, t.lv[L]['n'], L)
        anc.append([])
        for j, u in enumerate(t.uid[L]):
            p = came_from(L, j)
            if p is None or anc[-2][p] is None:
                anc[-1].append(None)
                mon.count('origin_unknown')
                continue
            i, plain = anc[-2][p]
            plain = plain and id(led.surf_of[u]) not in refr
            anc[-1].append((i, plain))
            for k, v in given.items():
                mon.check(alike(vals[k][..., j], v[..., i]), 'ray %d of level %d descends from source ray %d with %s %s, but carries %s',
                    j, L, i, k, np.asarray(v[..., i]).tolist(), np.asarray(vals[k][..., j]).tolist())
            mon.event('descendants')
            if L > 2:
                mon.count('deep')
            if plain:
                mon.check(t.lv[L]['r'][j] == t.rays['n'][i], 'ray %d of level %d met no refracting surface, but its index went from %r to %r', j, L, t.rays['n'][i], t.lv[L]['r'][j])
                mon.event('index_kept')
    # the rays handed in
    for k, v in given.items():
        mon.check(alike(np.array(getattr(t.bundle, 'get_' + k)()), v), 'the source rays lost their %s', k)
    mon.state(tuple(sorted(given)), len(t.lv))


def general(rng, mon, tier):
    case(rng, mon)

def weak(rng, mon, tier):
    case(rng, mon, nsurf=(2, 9), enclose=.8, menu=('refl', 'absrefl', 'refr', 'rrecv', 'lamb', 'lrecv'), min_energy=rng.choice([1e-3, .05, .3]), reps=(3, 10),
        policies=Policies(rng) if rng.random() < .5 else None)

def branching(rng, mon, tier):
    case(rng, mon, menu=('refr', 'refr', 'lamb', 'refl'), nsurf=(1, 6), spread=1.4, enclose=.6, reps=(2, 6), nrays=(1, 25))

def inside(rng, mon, tier):
    """Rays starting inside dense bodies: many are totally reflected, in between others that are not."""
    n = rng.choice([1.5, 2.4, rng.uniform(1.2, 2.6)])
    g = rgeom(rng, ('sphere', 'fcyl', 'rect', 'hemi'), 1.)
    pl = rplace(rng)
    s = dict(place=pl, geom=g, opt=('refr', 1., n))
    more = [dict(place=rplace(rng, 2.), geom=rgeom(rng, ('rect', 'sphere', 'round'), 1.), opt=roptics(rng, ('refl', 'refr', 'lamb'))) for _ in range(rng.randint(0, 2))]
    spec = dict(asm=dict(place=G.EYE, objs=[dict(place=G.EYE, surfs=[s] + more)], subs=[]), style=rng.randint(0, 3))
    def rays(sc):
        k = rng.randint(3, 40)
        r = gen.rays(rng, sc.surfs[:1], k, 1.)
        if g[0] == 'sphere':
            r['v'] = [G.apply(pl, G.mul(rdir(rng), g[1]*rng.uniform(.6, .99))) for _ in range(k)]
            r['d'] = [rdir(rng) for _ in range(k)]
        r['n'] = [n if rng.random() < .8 else 1. for _ in range(k)]
        return r
    case(rng, mon, spec=spec, rays=rays, reps=(1, 4))
    mon.count('dense')

def big(rng, mon, tier):
    case(rng, mon, vcheck=False, **extreme(rng, 'big'))

def deep(rng, mon, tier):
    case(rng, mon, **extreme(rng, 'deep'))

def many(rng, mon, tier):
    case(rng, mon, **extreme(rng, 'many'))

QUICK = 1.2
KINDS = dict(inside=(inside, 60, 2500), big=(big, 2, 20), deep=(deep, 6, 200), many=(many, 6, 200), general=(general, 120, 4000), weak=(weak, 100, 4000), branching=(branching, 70, 2500))
