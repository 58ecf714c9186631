"""What most checks share: running a random scene through the real engine under the monitors."""
from math import *
import numpy as np
import ref as G
import gen
from gen import *
from mon import Violation
from verify import verify_trace, ALL
from ledger import Ledger, WatchedOptics, InjectedFault
from tracer.tracer_engine import TracerEngine

MENU = ('refl', 'refl', 'absrefl', 'refr', 'lamb', 'rrecv', 'lrecv')


class Trace(object):
    def open_uid(self, u):
        """Was this ray's next hit left open by the reference (tie, edge)?"""
        lev = self.led.level_of[u]
        if lev >= len(self.uid):
            return True
        try:
            i = self.uid[lev].index(u)
        except ValueError:
            return True
        return self.log[lev][i][0] == 'open'


def spec_digest(spec, r, *more):
    return [spec, r['v'][:3], r['d'][:3], len(r['v'])] + list(more)


def crowd(rng, n, p=.03):
    """A number of rays: usually n, now and then one at or next to a number that divides work into pieces."""
    if rng.random() >= p:
        return n
    return max(1, rng.choice([256, 512, 1000, 1024, 2048, 4096, 8192, 10000]) + rng.choice([-1, 0, 1, 1]))


def rthreshold(rng):
    return rng.choice([0., 0., 1e-6, 1e-3, .05, .5])


def run_trace(rng, mon, cats, kinds=G.FLAT + G.CURVED, menu=MENU, nsurf=(1, 8), L=1., depth=3, enclose=.4, stacks=.3,
        spread=2.5, nrays=(1, 60), reps=(1, 12), min_energy=None, energy='mixed', spec=None, extra=None, tree=True, policies=None, rays=None, vcheck=True, obj_hook=None, scale_extra=0., wrap=None, script=None):
    """Generates, traces and verifies one scene; returns everything for further checks."""
    t = Trace()
    t.spec = spec or rscene(rng, kinds, menu, nsurf, L, depth, enclose, stacks, spread)
    t.led = Ledger()
    t.sc = build(t.spec, wrap=wrap(t.led) if wrap else t.led.wrap, obj_hook=policies.hook if policies else obj_hook)
    n = rng.randint(*nrays)
    if rays is None:
        if nrays[1] < 200 and nrays[0] < 30 and reps[1] < 50 and len(t.sc.surfs) < 20:
            n = crowd(rng, n, .006)
        t.rays = gen.rays(rng, t.sc.surfs, n, L*spread/2., energy)
        t.rays['n'] = start_indices(rng, t.sc.surfs, n)
    else:
        t.rays = rays(t.sc) if callable(rays) else rays
        n = len(t.rays['v'])
        t.rays.setdefault('n', [1.]*n)
    t.reps = rng.randint(*reps)
    if n > 200 and reps[0] < 3:
        t.reps = min(t.reps, 2)
    t.min_energy = rthreshold(rng) if min_energy is None else min_energy
    if any(s.optics[0] == 'refr' for s in t.sc.surfs) and t.min_energy < 1e-3 and t.reps > 6:
        t.reps = 6              # branching
    t.uid0 = t.led.source_uids(n, t.rays['e'])
    t.bundle = gen.bundle(t.rays, uid=t.uid0, **((extra(n) if callable(extra) else extra) or {}))
    mon.input('scene', spec_digest(t.spec, t.rays, t.reps, t.min_energy))
    t.engine = TracerEngine(t.sc.root)
    t.ret = t.engine.ray_tracer(t.bundle, t.reps, t.min_energy, tree=tree)
    t.lv = levels(t.engine.tree)
    t.uid = [[int(u) for u in lv['bund'].get_uid()] for lv in t.lv]
    mon.count('levels', len(t.lv))
    mon.count('recorded_rays', sum(lv['n'] for lv in t.lv))
    if tree and vcheck:
        t.log = verify_trace(mon, t.sc.surfs, t.lv, t.reps, t.min_energy, cats,
            policy=policies.allowed(t.sc.surfs, t.uid) if policies else None, scale_extra=scale_extra,
            script=(lambda *a: script(t, *a)) if script else None)
    return t


def extreme(rng, which, **kw):
    """Arguments for run_trace: bundles, traces and scenes larger than small integers count."""
    a = dict(big=dict(nsurf=(1, 3), nrays=(33000, 70000), reps=(1, 2), menu=('refl', 'absrefl', 'lamb', 'rrecv', 'refr'), spread=1.5),
        deep=dict(nsurf=(1, 3), nrays=(2, 12), reps=(130, 400), enclose=1., menu=('refl', 'refl', 'absrefl', 'rrecv'), min_energy=0., spread=1.),
        many=dict(nsurf=(65, 300), nrays=(10, 60), reps=(1, 4), depth=5, spread=3.))[which]
    a.update(kw)
    return a


def start_indices(rng, surfs, n):
    """Refractive indices of the source rays: media found in the scene, or vacuum."""
    pool = [1.]
    for s in surfs:
        if s.optics[0] == 'refr':
            pool += [s.optics[1], s.optics[2], 1.]
    return [rng.choice(pool) if rng.random() < .3 else 1. for _ in range(n)]


# ------------------------------------------------------------------ ownership / relevance policies
class Policies(object):
    """Per-object decisions as a fixed function of the ray's identity, for the real objects and the reference."""
    STYLES = ('default', 'onesided', 'own_all', 'own_some', 'rel_some', 'both')

    def __init__(self, rng, styles=STYLES):
        self.rng = rng
        self.styles = styles
        self.salt = rng.randint(1, 10**6)
        self.style = {}
        self.nsurf = {}
        self.calls = []

    def _h(self, *k):
        x = self.salt
        for a in k:
            x = (x*1000003 ^ (int(a) + 77)*2654435761) & 0xffffffff
        x ^= x >> 15
        x = (x*2246822519) & 0xffffffff
        return (x >> 13) & 0xffff

    def own(self, oi, si, uid):
        st = self.style[oi]
        if st == 'own_all':
            return True
        if st in ('own_some', 'both'):
            return self._h(1, oi, si, uid) % 2 == 0
        return False

    def rel(self, oi, si, uid, sj):
        st = self.style[oi]
        if st == 'onesided':
            return False
        if st in ('rel_some', 'both'):
            return self._h(2, oi, si, uid, sj) % 2 == 0
        return True

    def hook(self, obj, ospec, oi):
        self.style[oi] = self.rng.choice(self.styles)
        self.nsurf[oi] = len(ospec['surfs'])
        if self.style[oi] == 'default' and self.rng.random() < .5:
            return
        pol = self

        def own_rays(rays, surface_id):
            u = [int(x) for x in rays.get_uid()]
            pol.calls.append(('own', oi, int(surface_id), u))
            return np.array([pol.own(oi, surface_id, x) for x in u], dtype=bool)

        def surfaces_for_next_iteration(rays, surface_id):
            u = [int(x) for x in rays.get_uid()]
            pol.calls.append(('rel', oi, int(surface_id), u))
            return np.array([[pol.rel(oi, surface_id, x, sj) for x in u] for sj in range(pol.nsurf[oi])],
                dtype=bool).reshape(pol.nsurf[oi], len(u))
        obj.own_rays = own_rays
        obj.surfaces_for_next_iteration = surfaces_for_next_iteration

    def allowed(self, surfs, uid_levels):
        first = {}
        for i, s in enumerate(surfs):
            first.setdefault(s.obj, i)
        def pol(origin, i, L):
            u = uid_levels[L][i]
            so = surfs[origin]
            si = origin - first[so.obj]
            owned = self.own(so.obj, si, u)
            def ok(k):
                if surfs[k].obj == so.obj:
                    return self.rel(so.obj, si, u, k - first[so.obj])
                return not owned
            return ok
        return pol


# ------------------------------------------------------------------ comparing two traces of the same physics
def kids_of(lv, L):
    out = {}
    if L + 1 < len(lv):
        for j, p in enumerate(lv[L + 1]['p']):
            out.setdefault(p, []).append(j)
    return out


def na_v(lv, L, kids):
    return lv[L + 1]['v'][kids[0]]


class Comparison(object):
    """
    Compares the descendants of source rays in trace A with those in trace B, where B's world is A's moved
    by the placement `move`. Growth of rounding errors along the path is bounded from the reference; what
    rounding may decide is skipped.
    """
    def __init__(self, mon, surfs, A, logA, B, move=None, props=(), min_a=0., min_b=0., reps=None, what='the two traces'):
        self.mon, self.surfs, self.A, self.log, self.B, self.move = mon, surfs, A, logA, B, move
        self.props, self.what = props, what
        self.ka = [kids_of(A, L) for L in range(len(A))]
        self.kb = [kids_of(B, L) for L in range(len(B))]
        self.scale = 1e-3
        for s in surfs:
            self.scale = max(self.scale, G.norm(s.place[1]) + (G.size(s.geom) if s.geom[0] != 'plane' else 0.))
        if move is not None:
            self.scale = max(self.scale, G.norm(move[1]) + self.scale)
        self.limit = reps

    def pos(self, x):
        return x if self.move is None else G.apply(self.move, x)

    def dir(self, x):
        return x if self.move is None else G.mv(self.move[0], x)

    def source(self, i, j):
        e = 1e-14*max(self.scale, G.norm(self.A[0]['v'][i]))
        self.node(0, i, j, e, 1e-15)

    def node(self, L, i, j, ep, ed):
        a, b = self.A[L], self.B[L]
        st = self.log[L][i]
        if st[0] == 'open' or ep > 1e-8*self.scale:
            self.mon.count('subtrees_left_open')
            return
        if self.limit is not None and L >= self.limit:
            return
        ca = self.ka[L].get(i, [])
        cb = self.kb[L].get(j, [])
        if st[0] == 'hit' and ca and G.children(self.surfs[st[1]], na_v(self.A, L, ca), a['d'][i], a['e'][i], a['r'][i]) is None:
            self.mon.count('subtrees_left_open')      # critical angle, or along a one-sided surface
            return
        if st[0] == 'miss' and cb and all(G.dist(self.B[L + 1]['v'][y], b['v'][j]) > 1e6*self.scale for y in cb):
            self.mon.count('subtrees_left_open')      # along an infinite shape: rounding makes it meet it very far away
            return
        if len(ca) != len(cb):
            self.mon.fail('%s differ: ray %d of level %d leaves %d rays in one and %d in the other' % (self.what, i, L, len(ca), len(cb)))
        self.mon.event('nodes_compared')
        if not ca:
            return
        if st[0] != 'hit':
            return
        s = self.surfs[st[1]]
        left = list(cb)
        na, nb = self.A[L + 1], self.B[L + 1]
        for x in ca:
            v, d = self.pos(na['v'][x]), self.dir(na['d'][x])
            y = min(left, key=lambda y: G.dist(nb['d'][y], d) + abs(nb['e'][y] - na['e'][x]))
            left.remove(y)
            t = G.dist(a['v'][i], na['v'][x])
            n = G.normal_at(s, na['v'][x], a['d'][i])
            c = max(abs(G.dot(n, a['d'][i])), 1e-9)
            R = G.radius(s.geom) if s.geom[0] in G.CURVED else inf
            ep2 = (ep + t*ed)/c + 1e-13*max(self.scale, G.norm(v))/c
            ed2 = 3*(ed + ep2/R*2 + 1e-14)
            if s.optics[0] == 'refr':
                c2 = max(abs(G.dot(n, na['d'][x])), 1e-9)
                ed2 = 3*ed2/c2
            if ep2 > 1e-8*self.scale or ed2 > 1e-6:
                self.mon.count('subtrees_left_open')
                continue
            if G.dist(nb['v'][y], v) > 100*ep2 + 1e-11*self.scale:
                self.mon.fail('%s differ: descendants of ray %d of level %d start at %s and %s' % (self.what, i, L, v, nb['v'][y]))
            if G.dist(nb['d'][y], d) > 100*ed2 + 1e-11:
                self.mon.fail('%s differ: descendants of ray %d of level %d go along %s and %s' % (self.what, i, L, d, nb['d'][y]))
            if abs(nb['e'][y] - na['e'][x]) > (1e-7 + 100*ed2)*abs(a['e'][i]) + 1e-300:
                self.mon.fail('%s differ: energies %r and %r below ray %d of level %d' % (self.what, na['e'][x], nb['e'][y], i, L))
            if nb['r'][y] != na['r'][x]:
                self.mon.fail('%s differ: refractive indices %r and %r below ray %d of level %d' % (self.what, na['r'][x], nb['r'][y], i, L))
            for p in self.props:
                pa = np.array(getattr(na['bund'], 'get_' + p)()[..., x])
                pb = np.array(getattr(nb['bund'], 'get_' + p)()[..., y])
                if not (pa == pb).all():
                    self.mon.fail('%s differ: property %s is %s and %s below ray %d of level %d' % (self.what, p, pa, pb, i, L))
            self.node(L + 1, x, y, ep2, ed2)
