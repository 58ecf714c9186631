from functools import partial
from common import *
from tracer.geometry_manager import GeometryManager
from tracer.ray_bundle import concatenate_rays

RULE = ("a case is a random scene some or all of whose surfaces carry optics or geometry written for the check; non-trivial if rays sent on by such optics, or hits "
    "on such shapes, were checked")
ASSUMPTIONS = ["all optics of a scene give their rays the same set of properties, as concatenate_rays asks", "ties and edges are left open as in C01"]
MINIMUM = dict(scripted_hits=2500, scripted_kids=3000, none_sent=500, many_sent=200, own_shape_hits=2000, handed=3000, carried=2000, all_swallowed=20, added=200)


class Script(object):
    """Optics whose outgoing rays are a fixed function of the arriving ray's identity."""
    MODES = dict(one=(1,), filter=(0, 1), none=(0,), few=(0, 1, 1, 2), split=(0, 1, 2, 3), swarm=(3, 4), rare=(0, 0, 0, 0, 0, 0, 0, 5))

    def __init__(self, rng, mode, adds=False):
        self.mode, self.adds = mode, adds
        self.counts = self.MODES[mode]
        self.salt = rng.randint(1, 10**9)
        self.dirs = [rdir(rng) for _ in range(40)] + list(AXES)
        self.fracs = [0., 1., 1., .5, .25, rng.random(), rng.random(), rng.uniform(1., 2.)]
        self.refs = [None, None, None, 1., 1.5]
        self.order = rng.choice(['plain', 'reversed', 'shuffled', 'ranks'])
        self.how = rng.choice(['inherit', 'sum', 'concat', 'fresh', 'set', 'delete'])
        self.calls = 0

    def __repr__(self):
        return 'Script(%s, %s, %s, %d)' % (self.mode, self.order, self.how, self.salt)

    def h(self, *k):
        x = self.salt
        for a in k:
            x = (x*1000003 ^ (int(a) + 77)*2654435761) & 0xffffffff
        x ^= x >> 15
        x = (x*2246822519) & 0xffffffff
        return (x >> 11) & 0xfffff

    def kids(self, uid, ref, tag, energy):
        """[(direction, energy, index, tag)]"""
        n = self.counts[self.h(1, uid) % len(self.counts)]
        out = []
        for k in range(n):
            r = self.refs[self.h(2, uid, k) % len(self.refs)]
            out.append((self.dirs[self.h(3, uid, k) % len(self.dirs)], energy*self.fracs[self.h(4, uid, k) % len(self.fracs)],
                ref if r is None else r, (tag*31 + self.h(5, uid, k)) % 1000003))
        return out

    def __call__(self, geometry, rays, selector):
        self.calls += 1
        pts = np.asarray(geometry.get_intersection_points_global())
        nrm = np.asarray(geometry.get_normals())
        if pts.shape != (3, len(selector)) or nrm.shape != (3, len(selector)):
            raise Violation('optics handed %d rays were given hit points %s and normals %s' % (len(selector), pts.shape, nrm.shape))
        sel = [int(x) for x in selector]
        uid, e, ref, tag = rays.get_uid(), rays.get_energy(), rays.get_ref_index(), rays.get_tag()
        rows = []                     # (rank, position in selector, kid)
        for k, i in enumerate(sel):
            for j, kid in enumerate(self.kids(uid[i], ref[i], int(tag[i]), float(e[i]))):
                rows.append((j, k, kid))
        if self.order == 'reversed':
            rows.reverse()
        elif self.order == 'ranks':
            rows.sort(key=lambda r: r[:2])
        elif self.order == 'shuffled':
            rows.sort(key=lambda r: self.h(9, r[0], r[1]))
        return self.make(rays, sel, pts, rows)

    def make(self, rays, sel, pts, rows):
        pieces = [rows]
        if self.how in ('sum', 'concat') and len(rows) > 1:
            m = 1 + self.h(11, len(rows)) % (len(rows) - 1)
            pieces = [rows[:m], [], rows[m:]] if self.how == 'sum' else [[], rows[:m], rows[m:]]
        b = [self.piece(rays, sel, pts, p) for p in pieces]
        if len(b) == 1:
            return b[0]
        if self.how == 'sum':
            return b[0] + b[1] + b[2]
        return concatenate_rays(b)

    def piece(self, rays, sel, pts, rows):
        n = len(rows)
        idx = np.array([sel[r[1]] for r in rows], dtype=int)
        v = pts[:, [r[1] for r in rows]].reshape(3, n) if n else np.zeros((3, 0))
        d = np.array([r[2][0] for r in rows], dtype=float).reshape(n, 3).T
        e = np.array([r[2][1] for r in rows], dtype=float)
        ref = np.array([r[2][2] for r in rows], dtype=float)
        tag = np.array([r[2][3] for r in rows], dtype=int)
        more = dict(hue=np.array([tag*2., tag*3.]).reshape(2, n)) if self.adds else {}
        if self.how == 'fresh':
            return RayBundle(v, d, e, idx, ref, uid=rays.get_uid()[idx], tag=tag, pol=rays.get_pol()[:, idx], **more)
        if self.how == 'set':
            o = rays.inherit(idx, parents=idx, **more)
            o.set_vertices(v)
            o.set_directions(d)
            o.set_energy(e)
            o.set_ref_index(ref)
            o.set_tag(tag)
            return o
        if self.how == 'delete' and n:
            # one ray too many, removed again
            w = lambda a: np.concatenate((a, a[..., :1]), axis=-1)
            more = dict((k, w(x)) for k, x in more.items())
            return rays.inherit(w(idx), vertices=w(v), direction=w(d), energy=w(e), ref_index=w(ref), parents=w(idx), tag=w(tag), **more).delete_rays([n])
        return rays.inherit(idx, vertices=v, direction=d, energy=e, ref_index=ref, parents=idx, tag=tag, **more)


class OwnGM(GeometryManager):
    """A shape answering the documented protocol, built on the reference geometry instead of the package's."""
    log = None

    def __init__(self, geom):
        self.geom = geom

    def find_intersections(self, frame, ray_bundle):
        GeometryManager.find_intersections(self, frame, ray_bundle)
        self.place = (tuple(tuple(r) for r in frame[:3, :3].tolist()), tuple(frame[:3, 3].tolist()))
        V, D = ray_bundle.get_vertices().T.tolist(), ray_bundle.get_directions().T.tolist()
        out = []
        self.rows = []
        for v, d in zip(V, D):
            o, dl = G.unapply(self.place, v), G.mtv(self.place[0], d)
            ts = [t for t, terr, mg, c in G.crossings(self.geom, o, dl, max(1., G.norm(v))) if mg >= 0 and terr < inf and t < 1e200]
            if self.geom[0] in G.FLAT:
                ts = [max(t, 0.) for t in ts if t > -1e-6]       # a start on the surface is reported as such
            else:
                ts = [t for t in ts if t > 1e-6]
            out.append(min(ts) if ts else inf)
            self.rows.append((v, d, out[-1]))
        return np.array(out)

    def select_rays(self, idxs):
        self.picked = [self.rows[int(i)] for i in idxs]
        self.hits = [G.add(v, G.mul(d, t)) for v, d, t in self.picked]

    def get_normals(self):
        out = []
        for x, (v, d, t) in zip(self.hits, self.picked):
            g = G.mv(self.place[0], G.unit(G.gradient(self.geom, G.unapply(self.place, x))))
            out.append(G.mul(g, -1.) if G.dot(g, d) > 0 else g)
        return np.array(out).reshape(-1, 3).T

    def get_intersection_points_global(self):
        return np.array(self.hits).reshape(-1, 3).T

    def done(self):
        GeometryManager.done(self)
        self.rows = self.picked = self.hits = None


def dressed(rng):
    """A wrapper of the watched optics: any callable will do."""
    def of(led):
        def wrap(opt, rs):
            w = led.wrap(opt, rs)
            k = rng.randrange(5)
            if k == 0:
                return lambda g, r, s: w(g, r, s)
            if k == 1:
                return w.__call__
            if k == 2:
                return partial(WatchedOptics.__call__, w)
            if k == 3:
                def f(geometry, rays, selector):
                    return w(geometry, rays, selector)
                return f
            return w
        return wrap
    return of


def judge(mon):
    def script(t, s, L, i, mine):
        cur, nxt = t.lv[L], t.lv[L + 1] if L + 1 < len(t.lv) else None
        want = sorted(s.real_opt.kids(t.uid[L][i], cur['r'][i], int(cur['bund'].get_tag()[i]), float(cur['e'][i])))
        got = sorted((nxt['d'][j], nxt['e'][j], nxt['r'][j], int(nxt['bund'].get_tag()[j])) for j in mine)
        mon.event('scripted_hits')
        mon.check(len(want) == len(got), 'optics sent on %d rays for ray %d of level %d, %d descend from it', len(want), i, L, len(got))
        for a, b in zip(want, got):
            mon.check(a == b, 'optics sent on %s for ray %d of level %d, recorded is %s', a, i, L, b)
            mon.event('scripted_kids')
        if not want:
            mon.count('none_sent')
        if len(want) > 2:
            mon.count('many_sent')
        if s.real_opt.adds and mine:
            h = nxt['bund'].get_hue()
            for j in mine:
                g = int(nxt['bund'].get_tag()[j])
                mon.check(h.shape[-1] == nxt['n'] and h[:, j].tolist() == [g*2., g*3.], 'a property added by the optics is %s for ray %d of level %d, given was %s', h[..., j].tolist(), j, L + 1, [g*2., g*3.])
                mon.event('added')
        return len(want)
    return script


def after(mon, t):
    """Who was handed what, what built-in optics carry along, and how it all ended."""
    surfs = t.sc.surfs
    handed = {}
    for ev in t.led.events:
        for u in ev.uids:
            k = (ev.surf.index, u)
            mon.check(k not in handed, 'ray %d was handed twice to the optics of the same surface', u)
            handed[k] = ev
    due = set()
    loose = set()
    for L in range(len(t.lv)):
        for i, o in enumerate(t.log[L]):
            if o[0] == 'hit':
                due.add((o[1], t.uid[L][i]))
                if surfs[o[1]].own:
                    mon.event('own_shape_hits')
            elif o[0] == 'open':
                loose.add(t.uid[L][i])
    for k in due:
        mon.check(k in handed, 'ray %d met surface %d, whose optics was not handed it', k[1], k[0])
        mon.event('handed')
    for k in handed:
        mon.check(k in due or k[1] in loose, 'the optics of surface %d was handed ray %d, which did not meet it', k[0], k[1])
    for L in range(1, len(t.lv)):
        a, b = t.lv[L - 1]['bund'], t.lv[L]['bund']
        for j, p in enumerate(t.lv[L]['p']):
            mon.check(b.get_pol()[:, j].tolist() == a.get_pol()[:, p].tolist(), 'a property no optics changes was lost on the way to level %d', L)
            o = t.log[L - 1][p]
            if o[0] == 'hit' and surfs[o[1]].optics[0] != 'script':
                mon.check(b.get_tag()[j] == a.get_tag()[p], 'a property set by the user\'s optics was lost at a built-in one')
                mon.event('carried')
    # the rays returned: what is still followed
    last = t.lv[-1]
    keep = [j for j in range(last['n']) if last['e'][j] > t.min_energy] if len(t.lv) - 1 == t.reps and t.reps else []
    if t.reps == 0:
        keep = list(range(last['n']))
    mon.check(t.ret[0].shape == (3, len(keep)) and t.ret[1].shape == (3, len(keep)), '%d rays are still followed after the last bounce, %s were returned', len(keep), t.ret[0].shape)
    for k, j in enumerate(keep):
        mon.check(tuple(t.ret[0][:, k]) == last['v'][j] and tuple(t.ret[1][:, k]) == last['d'][j], 'returned ray %d is not the followed ray %d of the last level', k, j)
    if t.led.events and all(not e.out_uids for e in t.led.events if t.led.level_of[e.uids[0]] == len(t.lv) - 1) and any(t.led.level_of[e.uids[0]] == len(t.lv) - 1 for e in t.led.events):
        mon.count('all_swallowed')


def scene(rng, modes, custom=.5, own=.4, adds=False, **kw):
    spec = rscene(rng, menu=kw.pop('menu', MENU), **kw)
    shared = None
    ss = [s for s, _, _ in walk(spec['asm'])]
    must = rng.choice(ss)
    for s in ss:
        if s is must or rng.random() < custom:
            if shared is not None and rng.random() < .3:
                o = shared
            else:
                o = shared = Script(rng, rng.choice(modes), adds)
            s['shared_opt'], s['opt'] = o, ('script', o.mode)
        if rng.random() < own and s['geom'][0] != 'cut':
            s['gm'] = OwnGM
    return spec


def run(rng, mon, spec, policy=None, **kw):
    n = rng.randint(*kw.pop('nrays', (1, 25)))
    def rays(sc):
        for s, (real, sp) in zip(sc.surfs, [(a, b) for a, b in sc.nodes if isinstance(a, Surface)]):
            s.own = bool(sp.get('gm'))
        r = gen.rays(rng, sc.surfs, n, 1.2)
        r['n'] = start_indices(rng, sc.surfs, n)
        return r
    extra = dict(tag=np.array([rng.randint(0, 10**6) for _ in range(n)]), pol=np.array([[rng.random() for _ in range(n)] for _ in range(2)]))
    if policy is None and rng.random() < .3:
        policy = Policies(rng)
    t = run_trace(rng, mon, ALL, spec=spec, rays=rays, extra=extra, wrap=dressed(rng), script=judge(mon), policies=policy, min_energy=rng.choice([0., -1., 1e-6, .01, .2]), **kw)
    after(mon, t)


def mixed(rng, mon, tier):
    run(rng, mon, scene(rng, ('one', 'few', 'filter', 'split', 'rare', 'none'), nsurf=(2, 7), enclose=.6), reps=(1, 5))

def thin(rng, mon, tier):
    """Optics that swallow most or all of what arrives."""
    run(rng, mon, scene(rng, ('none', 'filter', 'rare'), custom=.8, nsurf=(1, 6), enclose=.5), reps=(1, 7))

def swarms(rng, mon, tier):
    run(rng, mon, scene(rng, ('swarm', 'split'), nsurf=(1, 4), enclose=.7), nrays=(1, 8), reps=(1, 4))

def adding(rng, mon, tier):
    run(rng, mon, scene(rng, ('few', 'one', 'split', 'filter'), custom=1., adds=True, nsurf=(1, 5), enclose=.6), reps=(1, 4))

def shapes(rng, mon, tier):
    """Shapes of the user's own, with the built-in optics."""
    run(rng, mon, scene(rng, ('one', 'few'), custom=0., own=.8, nsurf=(2, 8), enclose=.6), reps=(1, 6))

KINDS = dict(mixed=(mixed, 90, 3500), thin=(thin, 70, 2500), swarms=(swarms, 30, 900), adding=(adding, 50, 2000), shapes=(shapes, 60, 2500))

QUICK = 3
