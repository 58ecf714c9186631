from common import *
from tracer.models.one_sided_mirror import rect_one_sided_mirror, one_sided_receiver

RULE = ("a case is a random scene whose objects decide ownership and relevance per ray, surface and bounce by a fixed rule; non-trivial if bounces were "
    "compared with the reference restricted by the same rule")
ASSUMPTIONS = ["the rule is a function of the ray's identity tag, of the emitting surface and of the object"]
MINIMUM = dict(restricted=3000, changed_fate=300, decisions_audited=4000, hits=4000, owned_misses=50)

ALLCATS = ('hit', 'lost', 'stop', 'ghost', 'number', 'lineage', 'energy', 'direction', 'follow')


def audit(mon, t, pol):
    """Decisions were asked for exactly the rays that go on, under the right surface number."""
    first = {}
    for i, s in enumerate(t.sc.surfs):
        first.setdefault(s.obj, i)
    asked = {'own': {}, 'rel': {}}
    for what, oi, si, uids in pol.calls:
        for u in uids:
            asked[what].setdefault(u, []).append((oi, si))
    goes_on, must = set(), set()
    for ev in t.led.events:
        for u, e in zip(ev.out_uids, ev.e_out):
            if e > t.min_energy:
                goes_on.add(u)
                if t.led.level_of[u] < t.reps:
                    must.add(u)
    for what in asked:
        for u, calls in asked[what].items():
            s = t.led.surf_of.get(u)
            mon.check(s is not None and u in goes_on, 'an object was asked about ray %d, which does not go on from any surface', u)
            for oi, si in calls:
                mon.check(oi == s.obj and si == s.index - first[s.obj],
                    'about a ray leaving surface %d of object %d, object %d was asked as of surface %d', s.index - first[s.obj], s.obj, oi, si)
            mon.event('decisions_audited')
        for u in must:
            s = t.led.surf_of[u]
            if s.obj in pol.hooked:
                mon.check(u in asked[what], 'an object was not asked about a ray leaving its surface')


def effect(mon, t, pol):
    """How often the rules mattered: for evidence."""
    allowed = pol.allowed(t.sc.surfs, t.uid)
    base = scale_of(t.sc.surfs)
    org = [None]*t.lv[0]['n']
    for L in range(1, len(t.lv)):
        lv = t.lv[L]
        for i in range(lv['n']):
            if lv['e'][i] <= t.min_energy or L >= t.reps:
                continue
            s = t.led.surf_of[t.uid[L][i]]
            ok = allowed(s.index, i, L)
            if all(ok(k) for k in range(len(t.sc.surfs))):
                continue
            mon.count('restricted')
            o = t.log[L][i]
            if o[0] == 'miss':
                mon.count('owned_misses')
            free = G.nearest(t.sc.surfs, lv['v'][i], lv['d'][i], max(base, G.norm(lv['v'][i])))
            if free[0] != 'open' and o[0] != 'open' and (free[0] != o[0] or (free[0] == 'hit' and free[1] != o[1])):
                mon.count('changed_fate')


class Audited(Policies):
    def __init__(self, *a, **k):
        Policies.__init__(self, *a, **k)
        self.hooked = set()

    def hook(self, obj, ospec, oi):
        Policies.hook(self, obj, ospec, oi)
        if 'own_rays' in obj.__dict__:
            self.hooked.add(oi)


def run(rng, mon, styles=Policies.STYLES, **kw):
    pol = Audited(rng, styles)
    t = run_trace(rng, mon, ALLCATS, policies=pol, **kw)
    audit(mon, t, pol)
    effect(mon, t, pol)


def general(rng, mon, tier):
    run(rng, mon, nsurf=(2, 9), enclose=.6, reps=(2, 10))

def owners(rng, mon, tier):
    run(rng, mon, ('own_all', 'own_some', 'both', 'default'), nsurf=(3, 9), enclose=.6, menu=('refl', 'refr', 'absrefl', 'refl'), reps=(2, 8))

def weak(rng, mon, tier):
    """Many rays drop out as weak between those that go on."""
    run(rng, mon, ('own_some', 'both', 'rel_some', 'onesided'), nsurf=(3, 9), enclose=.8, menu=('refl', 'refr', 'refr', 'absrefl', 'rrecv'), reps=(2, 7),
        min_energy=rng.choice([.01, .05, .2]))

def close(rng, mon, tier):
    """Plates a hair apart, as in one-sided mirrors."""
    run(rng, mon, nsurf=(2, 8), stacks=.9, kinds=('rect', 'round', 'plane', 'sphere'), enclose=.7, reps=(2, 10))

def deep(rng, mon, tier):
    run(rng, mon, **extreme(rng, 'deep', nsurf=(2, 5)))

def many(rng, mon, tier):
    run(rng, mon, **extreme(rng, 'many', enclose=.8))

QUICK = 2.5
KINDS = dict(deep=(deep, 6, 200), many=(many, 8, 250), general=(general, 110, 4000), owners=(owners, 90, 3000), weak=(weak, 90, 3000), close=(close, 70, 2500))
