from common import *

RULE = ("a case is a history of traces through a scene with receivers (some shared by several surfaces), with resets in between, each receiver's "
    "account compared with the log of surface interactions; non-trivial if at least one account was compared")
ASSUMPTIONS = ["the log of interactions is taken at the surfaces' optics; its hits are checked against the reference geometry by the trace monitor"]
MINIMUM = dict(accounts=500, entries=5000, resets=100, multi_trace=100, light_checks=100, shared=20, empty_accounts=50)


class Acc(object):
    """A receiver under test with what it should hold."""
    def __init__(self, opt, ab):
        self.opt, self.ab = opt, ab
        self.want = []


class Tap(object):
    """Stands for the surface's optics: notes what arrives, then hands over to the shared receiver."""
    def __init__(self, acc, log):
        self.acc, self.log = acc, log

    def __call__(self, geometry, rays, selector):
        e = rays.get_energy()[selector].tolist()
        v = rays.get_vertices()[:, selector].T.tolist()
        d = rays.get_directions()[:, selector].T.tolist()
        o = self.acc.opt(geometry, rays, selector)
        first = {}
        par = [int(p) for p in o.get_parents()]
        pts = o.get_vertices().T.tolist()
        for p, x in zip(par, pts):
            first[p] = tuple(x)
        for k, i in enumerate(np.array(selector).tolist()):
            self.acc.want.append((e[k]*self.acc.ab, first.get(i), tuple(v[k]), tuple(d[k])))
        return o


def compare(mon, acc, scale, mess=False):
    raw = acc.opt.get_all_hits()
    en, pts = np.array(raw[0]), np.array(raw[1])
    mon.check(en.ndim == 1 and pts.shape == (3, len(en)), 'an account of shapes %s and %s', en.shape, pts.shape)
    mon.check(len(en) == len(acc.want), '%d rays met the receiver, its account lists %d', len(acc.want), len(en))
    mon.event('accounts')
    if mess:
        # the arrays are the caller's now
        for a in raw:
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = 7.
    if not acc.want:
        mon.count('empty_accounts')
    # The order is not promised, the matching of energy and place is
    got = list(zip([tuple(p) for p in pts.T.tolist()], en.tolist()))
    want = [((w[1] if w[1] is not None else (0., 0., 0.)), w[0]) for w in acc.want]
    for x, e in pair_off(got, want, scale):
        mon.fail('the receiver lists %r at %s, where no such ray arrived' % (e, x))
    mon.event('entries', len(got))
    for e, x, v, d in acc.want:
        # place: on the path of the ray that arrived
        if x is None:
            continue
        w = G.sub(x, v)
        s = G.dot(w, d)
        mon.check(G.norm(G.sub(w, G.mul(d, s))) < 1e-7*max(scale, abs(s), G.norm(v), G.norm(x)), 'a receiver entry does not lie on the path of the ray it is for')


def pair_off(got, want, scale):
    """Matches entries with expected ones, one to one; returns what is left of the entries."""
    def alike(a, b):
        return G.dist(a[0], b[0]) < 1e-9*max(scale, G.norm(b[0])) and abs(a[1] - b[1]) <= 1e-12*b[1] + 1e-300
    left, spare = [], []
    for a, b in zip(got, want):          # the usual order first
        if not alike(a, b):
            left.append(a)
            spare.append(b)
    cell = 1e-8*scale
    box = {}
    for b in spare:
        box.setdefault(tuple(floor(c/cell) for c in b[0]), []).append(b)
    out = []
    for a in left:
        k = tuple(floor(c/cell) for c in a[0])
        for q in ((k[0] + i, k[1] + j, k[2] + l) for i in (0, -1, 1) for j in (0, -1, 1) for l in (0, -1, 1)):
            m = [b for b in box.get(q, []) if alike(a, b)]
            if m:
                box[q].remove(m[0])
                break
        else:
            far = [b for bs in box.values() for b in bs if G.norm(b[0]) > 5*scale and alike(a, b)] if G.norm(a[0]) > 4*scale else []
            if far:
                for bs in box.values():
                    if far[0] in bs:
                        bs.remove(far[0])
                        break
            else:
                out.append(a)
    return out


def big(rng, mon, tier):
    """More hits than small integers count."""
    history(rng, mon, tier, True)


def long(rng, mon, tier):
    """Many small traces on one account."""
    history(rng, mon, tier, False, rng.randint(40, 150))


def history(rng, mon, tier, big=False, long=0):
    spec = rscene(rng, nsurf=(1, 2) if big else (1, 3) if long else (1, 7), menu=('refl', 'rrecv', 'lrecv', 'rrecv', 'refr', 'lamb'), enclose=.6)
    recs = [s for s, _, _ in walk(spec['asm']) if s['opt'][0] in ('rrecv', 'lrecv')]
    if not recs:
        s = rng.choice([s for s, _, _ in walk(spec['asm'])])
        s['opt'] = (rng.choice(['rrecv', 'lrecv']), rabs(rng))
        recs = [s]
    accs = []
    bykey = {}
    for s in recs:
        if accs and rng.random() < .25:
            acc = rng.choice(accs)          # one receiver on several surfaces
            s['opt'] = acc.kind
            mon.count('shared')
        else:
            k, ab = s['opt']
            cls = oc.ReflectiveReceiver if k == 'rrecv' else oc.LambertianReceiver
            how = rng.randrange(3)
            if how == 0 and rng.random() < .3:
                ab = 1.
                s['opt'] = (k, 1.)
                opt = cls()
            elif how == 1 and rng.random() < .2:
                ab = 1.
                s['opt'] = (k, 1.)
                opt = oc.AbsorptionAccountant(oc.Reflective if k == 'rrecv' else oc.LambertianReflector)
            elif how == 1:
                opt = oc.AbsorptionAccountant(oc.Reflective if k == 'rrecv' else oc.LambertianReflector, ab)
            else:
                opt = cls(ab)
            acc = Acc(opt, ab)
            acc.kind = s['opt']
            accs.append(acc)
        bykey[id(s)] = acc
        s['shared_opt'] = acc.opt
    taps = {}
    led = Ledger()
    def wrap(opt, rs):
        for acc in accs:
            if opt is acc.opt:
                opt = Tap(acc, None)
                break
        return led.wrap(opt, rs)
    sc = build(spec, wrap=wrap)
    # The input digest must not contain objects
    for s in recs:
        s.pop('shared_opt')
    scale = scale_of(sc.surfs)
    traces = 2 if big else long or rng.randint(1, 4)
    mon.input('receivers', [spec, traces])
    for acc in accs:
        compare(mon, acc, scale)
    eng = TracerEngine(sc.root)
    r = None
    for k in range(traces):
        n = rng.randint(20000, 40000) if big else rng.randint(1, 4) if long else rng.randint(1, 40)
        if r and rng.random() < .4:            # nearly, or exactly, the light of the last time
            w = rvec(rng, rng.choice([0., scale*10**rng.uniform(-7, -3)]))
            r = dict(r, v=[G.add(x, w) for x in r['v']])
            n = len(r['v'])
            mon.count('similar')
        else:
            r = gen.rays(rng, sc.surfs, n, 2.)
            r['n'] = start_indices(rng, sc.surfs, n)
        reps = rng.randint(1, 2 if big or long else 6)
        me = rthreshold(rng)
        led.events = []
        led.level_of.clear()
        b = gen.bundle(r, uid=led.source_uids(n, r['e']))
        eng.ray_tracer(b, reps, me)
        lv = levels(eng.tree)
        if not big:
            verify_trace(mon, sc.surfs, lv, reps, me, ('hit', 'lost', 'ghost'))
        if k:
            mon.count('multi_trace')
        light(mon, sc, led)
        if rng.random() < (.05 if long else .8):
            for acc in accs:
                compare(mon, acc, scale, rng.random() < .3)
                if rng.random() < .3:
                    compare(mon, acc, scale)       # reading does not change it
        for acc in accs:
            if rng.random() < (.01 if long else .25):
                acc.opt.reset()
                acc.want = []
                compare(mon, acc, scale)
                mon.count('resets')
    for acc in accs:
        compare(mon, acc, scale)


def light(mon, sc, led):
    """The light that goes on is that of the plain surface."""
    for ev in led.events:
        if ev.surf.optics[0] not in ('rrecv', 'lrecv'):
            continue
        mon.check(sorted(ev.out_puids) == sorted(ev.uids), 'a receiver sends on other rays than those that met it')
        e = dict(zip(ev.uids, ev.e_in))
        d = dict(zip(ev.uids, ev.dirs))
        for p, eo, do, x in zip(ev.out_puids, ev.e_out, ev.out_dirs, ev.out_verts):
            mon.check(abs(eo - e[p]*(1 - ev.surf.optics[1])) <= 1e-12*e[p], 'a receiver of absorptivity %r sends a ray of energy %r on with %r', ev.surf.optics[1], e[p], eo)
            if ev.surf.optics[0] == 'rrecv' and ev.surf.geom[0] in G.FLAT:
                n = G.normal_at(ev.surf, tuple(x), tuple(d[p]))
                mon.check(G.dist(tuple(do), G.reflect(tuple(d[p]), n)) < 1e-8, 'a mirror with an account reflects differently')
            mon.event('light_checks')


QUICK = 1.5
KINDS = dict(big=(big, 3, 60), long=(long, 12, 200), history=(history, 260, 8000))
