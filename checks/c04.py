from common import *

RULE = ("a case is a random scene traced with a random threshold and bounce limit, and again without history and with a smaller "
    "limit; non-trivial if followed or dropped rays were checked")
ASSUMPTIONS = ["paired runs restart the random draws of diffuse surfaces from the same state"]
MINIMUM = dict(weak_seen=300, strong_seen=2000, returned_compared=2000, no_history_runs=150, shorter_runs=100, exact_threshold=50, just_above=10)
CATS = ('follow', 'lost', 'stop', 'ghost')


def returned(mon, t):
    v, d = t.ret
    lv, reps = t.lv, t.reps
    mon.check(v.shape == d.shape and v.shape[0] == 3, 'returned shapes %s and %s', v.shape, d.shape)
    last = lv[-1]
    if len(lv) - 1 == reps:
        keep = [j for j in range(last['n']) if reps == 0 or last['e'][j] > t.min_energy]
    else:
        keep = []
    mon.check(v.shape[1] == len(keep), '%d rays are still followed after the last bounce, %d were returned', len(keep), v.shape[1])
    for k, j in enumerate(keep):
        mon.check(tuple(v[:, k]) == last['v'][j] and tuple(d[:, k]) == last['d'][j],
            'returned ray %d is not the followed ray %d of the last level', k, j)
        mon.event('returned_compared')
    for L in range(1, len(lv)):
        for e in lv[L]['e']:
            if e > t.min_energy:
                mon.count('strong_seen')
                if e - t.min_energy < 1e-6*e:
                    mon.count('just_above')
            else:
                mon.event('weak_seen')
                if e == t.min_energy:
                    mon.count('exact_threshold')


def same(mon, a, b, what):
    """Two levels hold the same rays, in any order of the weak ones."""
    ka = sorted(zip(a['v'], a['d'], a['e'], a['r'], a['p'] if a['p'] is not None else [0]*a['n']))
    kb = sorted(zip(b['v'], b['d'], b['e'], b['r'], b['p'] if b['p'] is not None else [0]*b['n']))
    mon.check(len(ka) == len(kb), '%s: %d rays against %d', what, len(ka), len(kb))
    for x, y in zip(ka, kb):
        mon.check(x == y, '%s: ray %s against %s', what, x, y)


def again(mon, t, state, reps, tree):
    np.random.set_state(state)
    led2 = Ledger()
    sc = build(t.spec, wrap=led2.wrap)
    b = gen.bundle(t.rays, uid=led2.source_uids(len(t.rays['v'])))
    eng = TracerEngine(sc.root)
    ret = eng.ray_tracer(b, reps, t.min_energy, tree=tree)
    return ret, levels_of(eng.tree, first=not tree), led2, sc


def levels_of(tree, first=False):
    out = []
    for k in range(tree.num_bunds()):
        b = tree[k]
        try:
            p = [int(x) for x in b.get_parents()]
        except (KeyError, AttributeError, TypeError):
            p = None
        out.append(dict(n=b.get_num_rays(), v=[tuple(x) for x in b.get_vertices().T.tolist()],
            d=[tuple(x) for x in b.get_directions().T.tolist()], e=b.get_energy().tolist(), r=b.get_ref_index().tolist(), p=p))
    return out


def pair(rng, mon, t, state):
    returned(mon, t)
    # without history
    ret, lv, led, sc = again(mon, t, state, t.reps, False)
    mon.check(ret[0].shape == t.ret[0].shape and (ret[0] == t.ret[0]).all() and (ret[1] == t.ret[1]).all(),
        'the trace without history returned other rays')
    mon.check(len(led.events) == len(t.led.events), 'the trace without history had %d surface interactions instead of %d', len(led.events), len(t.led.events))
    for a, b in zip(led.events, t.led.events):
        mon.check(a.uids == b.uids and a.e_in == b.e_in and a.e_out == b.e_out and a.out_dirs == b.out_dirs and a.out_verts == b.out_verts,
            'the trace without history interacted differently')
    mon.check(len(lv) == 1, 'the trace without history stored %d bundles', len(lv))
    if t.reps == 0 or len(t.lv) - 1 == t.reps:
        want = t.lv[-1]
    elif lv[0]['n'] == 0:
        want = None                    # the last bounce hit nothing
        mon.check(any(e > t.min_energy for e in t.lv[-1]['e']) or len(t.lv) == 1, 'the last bounce is missing from the trace without history')
    else:
        want = t.lv[-1]
        mon.check(len(t.lv) > 1 and not any(e > t.min_energy for e in want['e']), 'the trace without history stored an earlier bounce')
    if want is not None:
        w = dict(want)
        if t.reps == 0:
            w['p'] = lv[0]['p'] = None
        same(mon, w, lv[0], 'last bounce with and without history')
    for s, s2 in zip(t.sc.surfs, sc.surfs):
        if s.optics[0] in ('rrecv', 'lrecv'):
            a, b = s.real_opt.get_all_hits(), s2.real_opt.get_all_hits()
            mon.check(a[0].tolist() == b[0].tolist(), 'a receiver got other energies without history')
    mon.event('no_history_runs')
    # with fewer bounces
    if t.reps > 0:
        k = rng.randrange(t.reps)
        ret, lv, led, sc = again(mon, t, state, k, True)
        mon.check(len(lv) == min(len(t.lv), k + 1), 'limit of %d bounces: %d levels recorded, the longer trace has %d', k, len(lv), len(t.lv))
        for L in range(1, len(lv)):
            same(mon, t.lv[L], lv[L], 'level %d of a trace limited to %d bounces against a longer one' % (L, k))
        mon.event('shorter_runs')


def run(rng, mon, **kw):
    state = np.random.get_state()
    t = run_trace(rng, mon, CATS, **kw)
    pair(rng, mon, t, state)


def general(rng, mon, tier):
    run(rng, mon, reps=(0, 10))

def weak(rng, mon, tier):
    run(rng, mon, nsurf=(2, 9), enclose=.7, menu=('refl', 'absrefl', 'refr', 'rrecv', 'lamb'), min_energy=rng.choice([0., 1e-3, .02, .1, .5]), reps=(1, 10))

def exact(rng, mon, tier):
    """Energies that fall exactly on the threshold: halves of powers of two."""
    menu = [rng.choice([('refl', .5), ('absrefl', .5), ('rrecv', .5), ('refl', 0.), ('absrefl', 0.), ('refl', .75), ('refl', 1.)])]
    spec = rscene(rng, nsurf=(1, 6), menu=('refl',), enclose=.8)
    for s, _, _ in walk(spec['asm']):
        s['opt'] = rng.choice([('refl', .5), ('absrefl', .5), ('rrecv', .5), ('refl', 0.), ('absrefl', 0.), ('refl', .75), ('refl', 1.)])
    def rays(sc):
        n = rng.randint(1, 40)
        r = gen.rays(rng, sc.surfs, n, 2.)
        r['e'] = [2.**rng.randint(-3, 3) for _ in range(n)]
        if rng.random() < .5:           # a hair above or below
            r['e'] = [e*(1 + rng.choice([0., 2.**-52, -2.**-53, 1e-14, 1e-11, 1e-9, 1e-7, -1e-12, -1e-9])) for e in r['e']]
        return r
    run(rng, mon, spec=spec, rays=rays, min_energy=rng.choice([0., 2.**rng.randint(-5, 2), -1.]), reps=(1, 8))

def big(rng, mon, tier):
    run(rng, mon, vcheck=False, **extreme(rng, 'big', min_energy=rng.choice([.001, .05]), enclose=rng.choice([.4, 1., 1.])))

def deep(rng, mon, tier):
    run(rng, mon, **extreme(rng, 'deep', min_energy=rng.choice([0., 1e-6, 1e-12])))

def long(rng, mon, tier):
    """Light that is never absorbed, followed for a thousand bounces and more."""
    spec = rscene(rng, ('rect', 'sphere'), ('refl',), (1, 1), enclose=1.)
    for s, _, _ in walk(spec['asm']):
        s['opt'] = ('refl', 0.)
    run(rng, mon, spec=spec, min_energy=0., reps=(1030, 2100), nrays=(2, 4))

def many(rng, mon, tier):
    run(rng, mon, **extreme(rng, 'many'))

def weak_source(rng, mon, tier):
    """Sources of many rays, some of them below the threshold: those meet the first surface like the others."""
    me = rng.choice([.01, .1, .5, 1.])
    n = rng.choice([crowd(rng, 1, 1.), rng.randint(1001, 3000)])
    def rays(sc):
        r = gen.rays(rng, sc.surfs, n, 1.5)
        r['e'] = [me*rng.choice([0., .1, .5, 1., 2., 10.]) for _ in range(n)]
        r['n'] = start_indices(rng, sc.surfs, n)
        return r
    run(rng, mon, nsurf=(1, 2), enclose=.7, menu=('refl', 'absrefl', 'refr', 'rrecv'), rays=rays, min_energy=me, reps=(1, 2))
    mon.count('weak_sources')

def nothing(rng, mon, tier):
    """No rays at all, or none that meets anything."""
    spec = rscene(rng, menu=MENU, nsurf=(1, 5), enclose=0.)
    sc = build(spec)
    reps, tree = rng.randint(0, 5), rng.random() < .5
    n = rng.choice([0, 0, rng.randint(1, 9)])
    far = (1e4, 0., 0.)
    r = dict(v=[G.add(far, rvec(rng)) for _ in range(n)], d=[G.unit(G.add((1., 0., 0.), rvec(rng, .1))) for _ in range(n)], e=[1.]*n)
    mon.input('nothing', spec_digest(spec, r, reps, tree))
    if any(s.geom[0] in ('plane', 'icyl', 'parab') for s in sc.surfs) and n:
        return
    b = gen.bundle(r, tag=np.arange(n))
    e = TracerEngine(sc.root)
    v, d = e.ray_tracer(b, reps, 0., tree=tree)
    m = n if reps == 0 else 0
    mon.check(np.shape(v) == (3, m) and np.shape(d) == (3, m), '%d rays that meet nothing, limit of %d bounces: returned are %s', n, reps, np.shape(v))
    mon.check(e.tree.num_bunds() == 1, '%d rays that meet nothing leave %d levels', n, e.tree.num_bunds())
    if tree:
        x = e.tree[0]
        mon.check(x.get_num_rays() == n and x.get_tag().tolist() == list(range(n)) and x.get_energy().tolist() == r['e'], 'the first level of the record is not the source')
    for s in sc.surfs:
        if s.optics[0] in ('rrecv', 'lrecv'):
            mon.check(len(s.real_opt.get_all_hits()[0]) == 0, 'a receiver got something from nothing')
    mon.event('nothing')

KINDS = dict(weak_source=(weak_source, 4, 150), nothing=(nothing, 100, 3000), big=(big, 2, 30), deep=(deep, 6, 200), long=(long, 2, 30), many=(many, 6, 200), general=(general, 120, 5000), weak=(weak, 120, 4000), exact=(exact, 140, 4000))
