from common import *
import copy
import shapes
from tracer.models import tau_minidish
from tracer.models.heliostat_field import HeliostatField, radial_stagger
from tracer.models.spherical_lens import SphericalLens
from tracer.models.homogenizer import rect_homogenizer

RULE = ("a case is a history of traces on one scene (repeated, aborted by a fault at a random protocol step, with members moved or added in between, or with "
    "another scene traced in the middle), with a protocol automaton on every surface; non-trivial if repeated records were compared")
ASSUMPTIONS = ["repeated traces restart the random draws of diffuse surfaces from the same state",
    "after a fault the scene's records of received light may hold what arrived before the fault; only the tracing is compared"]
MINIMUM = dict(protocol_steps=20000, repeats=400, faults=100, faults_recovered=100, edits=60, exchanged=10, surfaces_added=10, inputs_unchanged=400, records_unchanged=400, interleaved=40, bare_moves=200,
    hits=1000)


class Fault(Exception):
    pass


class Automaton(object):
    """Follows the protocol of every surface of a scene, and may abort the trace at a chosen step."""
    def __init__(self, mon, real):
        self.mon = mon
        self.real = []
        self.state, self.given, self.sel = {}, {}, {}
        self.geom_open = {}
        self.steps = 0
        self.fail_at = None
        self.fail_late = False
        self.seq = {}
        for s in real:
            self.watch(s)

    def watch(self, s):
        i = len(self.real)
        self.real.append(s)
        g = s.get_geometry_manager()
        reg, sel, outg, done = s.register_incoming, s.select_rays, s.get_outgoing, s.done
        find, gdone = g.find_intersections, g.done
        self.state[i] = 'idle'
        self.geom_open[i] = False
        self.seq[i] = []

        def register_incoming(rays):
            self.step(i, 'register')
            self.mon.check(self.state[i] == 'idle', 'surface %d is given new rays while in state %s', i, self.state[i])
            p = reg(rays)
            self.mon.check(np.shape(p) == (rays.get_num_rays(),), 'surface %d got %d rays and gave distances of shape %s', i, rays.get_num_rays(), np.shape(p))
            self.given[i] = np.array(p, dtype=float)
            self.state[i] = 'registered'
            self.late()
            return p

        def select_rays(idxs):
            self.step(i, 'select')
            self.mon.check(self.state[i] in ('registered', 'selected'), 'surface %d is told of chosen rays in state %s', i, self.state[i])
            k = np.array(idxs)
            r = sel(idxs)
            self.sel[i] = k
            self.state[i] = 'selected'
            self.late()
            return r

        def get_outgoing():
            self.step(i, 'outgoing')
            self.mon.check(self.state[i] == 'selected', 'surface %d is asked for outgoing rays in state %s', i, self.state[i])
            k = self.sel[i]
            k = k.nonzero()[0] if k.dtype == bool else k
            self.mon.check(len(set(k.tolist())) == len(k), 'a ray is chosen twice')
            p = self.given[i][k]
            self.mon.check(np.isfinite(p).all() and (p > 0).all(), 'surface %d is asked for rays that did not meet it (distances %s)', i, p)
            r = outg()
            self.state[i] = 'asked'
            self.late()
            return r

        def done_():
            self.step(i, 'done')
            r = done()
            self.state[i] = 'idle'
            self.late()
            return r

        def find_intersections(frame, rays):
            self.geom_open[i] = True
            return find(frame, rays)

        def geom_done():
            self.geom_open[i] = False
            return gdone()
        s.register_incoming, s.select_rays, s.get_outgoing, s.done = register_incoming, select_rays, get_outgoing, done_
        g.find_intersections, g.done = find_intersections, geom_done

    def step(self, i, what):
        self.steps += 1
        self.seq[i].append(what[0])
        self.mon.event('protocol_steps')
        if self.fail_at is not None and self.steps == self.fail_at and not self.fail_late:
            self.fail_at = None
            raise Fault()

    def late(self):
        if self.fail_at is not None and self.steps >= self.fail_at:
            self.fail_at = None
            raise Fault()

    def begin(self):
        """A new trace: whatever an aborted one left is forgotten."""
        self.steps = 0
        for i in self.state:
            self.state[i] = 'idle'
            self.geom_open[i] = False
            self.seq[i] = []

    def end(self):
        for i, st in self.state.items():
            self.mon.check(st == 'idle', 'after the trace surface %d is still in state %s', i, st)
            self.mon.check(not self.geom_open[i], 'after the trace the geometry of surface %d still holds its rays', i)
            s = ''.join(self.seq[i])
            for w in set(s.split('d')):
                self.mon.state(w)


class Run(object):
    pass


def snap_bundle(b):
    out = {}
    for name in ('vertices', 'directions', 'energy', 'ref_index', 'parents', 'uid', 'tag'):
        try:
            x = getattr(b, 'get_' + name)()
        except (AttributeError, KeyError, TypeError):
            continue
        if x is not None:
            x = np.array(x)
            out[name] = (x.shape, x.dtype.kind, x.tolist())
    return out


def snap_scene(nodes):
    return [np.array(r.get_transform()).tolist() for r, _ in nodes]


def snap_tree(tree):
    return [snap_bundle(tree[k]) for k in range(tree.num_bunds())]


def unchanged(mon, before, after, what):
    mon.check(len(before) == len(after), '%s changed', what)
    if isinstance(before, dict):
        for k in before:
            mon.check(before[k] == after.get(k), '%s: %s changed', what, k)
        mon.check(set(after) == set(before), '%s gained %s', what, sorted(set(after) - set(before)))
    else:
        mon.check(before == after, '%s changed', what)


def go(mon, eng, auto, bundle, reps, me, state, tree=True):
    if state is not None:
        np.random.set_state(state)
    if auto is not None:
        auto.begin()
    src = snap_bundle(bundle)
    ret = eng.ray_tracer(bundle, reps, me, tree=tree)
    if auto is not None:
        auto.end()
    unchanged(mon, src, snap_bundle(bundle), 'the source rays')
    mon.event('inputs_unchanged')
    r = Run()
    r.ret = [np.array(x).tolist() for x in ret]
    r.tree = eng.tree
    r.snap = snap_tree(eng.tree)
    return r


def same(mon, a, b, what):
    mon.check(len(a.snap) == len(b.snap), '%s: %d levels against %d', what, len(a.snap), len(b.snap))
    for k, (x, y) in enumerate(zip(a.snap, b.snap)):
        for p in x:
            if k == 0 and p == 'uid':
                continue
            mon.check(x[p] == y.get(p), '%s: %s of level %d differ', what, p, k)
        mon.check(set(x) == set(y), '%s: level %d has other properties', what, k)
    mon.check(a.ret == b.ret, '%s: other rays were returned', what)
    mon.event('repeats')


def setup(rng, **kw):
    spec = rscene(rng, G.FLAT + G.CURVED, MENU, kw.pop('nsurf', (1, 7)), 1., 3, .5, .3, 2.5)
    sc = build(spec)
    n = rng.randint(*kw.pop('nrays', (1, 40)))
    r = gen.rays(rng, sc.surfs, n, 1.3)
    r['n'] = start_indices(rng, sc.surfs, n)
    b = gen.bundle(r, tag=np.arange(n)*3 + 7)
    reps = rng.randint(1, 8)
    me = rthreshold(rng)
    if any(s.optics[0] == 'refr' for s in sc.surfs) and me < 1e-3:
        reps = min(reps, 5)
    return spec, sc, r, b, reps, me


def repeat(rng, mon, tier):
    spec, sc, r, b, reps, me = setup(rng)
    mon.input('repeat', spec_digest(spec, r, reps, me))
    state = np.random.get_state()
    auto = Automaton(mon, sc.real)
    eng = TracerEngine(sc.root)
    scene = snap_scene(sc.nodes)
    first = go(mon, eng, auto, b, reps, me, state)
    kept = [first]
    other = gen.bundle(gen.rays(rng, sc.surfs, rng.randint(1, 30), 1.3), tag=np.zeros(1))
    diffuse = any(s.optics[0] in ('lamb', 'lrecv') for s in sc.surfs)
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < .25:
            eng = TracerEngine(sc.root)
        if k < .5:
            o = gen.rays(rng, sc.surfs, rng.randint(1, 30), 1.3)
            kept.append(go(mon, eng, auto, gen.bundle(o, tag=np.zeros(len(o['v']))), rng.randint(0, 5), rng.choice([0.01, .1]), None, tree=rng.random() < .7))
        bb = b if rng.random() < .7 else gen.bundle(r, tag=np.arange(len(r['v']))*3 + 7)
        x = go(mon, eng, auto, bb, reps, me, state if diffuse else None)
        same(mon, first, x, 'tracing again')
        kept.append(x)
        unchanged(mon, scene, snap_scene(sc.nodes), 'the scene')
        for y in kept:
            mon.check(y.snap == snap_tree(y.tree), 'a later trace changed the record of an earlier one')
            mon.event('records_unchanged')
    # the same scene built anew
    sc2 = build(spec)
    same(mon, first, go(mon, TracerEngine(sc2.root), None, gen.bundle(r, tag=np.arange(len(r['v']))*3 + 7), reps, me, state), 'the same scene built anew')


def fault(rng, mon, tier):
    spec, sc, r, b, reps, me = setup(rng)
    mon.input('fault', spec_digest(spec, r, reps, me))
    state = np.random.get_state()
    auto = Automaton(mon, sc.real)
    eng = TracerEngine(sc.root)
    first = go(mon, eng, auto, b, reps, me, state)
    total = auto.steps
    for _ in range(rng.randint(1, 3)):
        auto.begin()
        auto.fail_at = rng.randint(1, total)
        auto.fail_late = rng.random() < .5
        tree = eng.tree
        src, scene = snap_bundle(b), snap_scene(sc.nodes)
        try:
            np.random.set_state(state)
            eng.ray_tracer(b, reps, me, tree=rng.random() < .8)
        except Fault:
            mon.count('faults')
        auto.fail_at = None
        unchanged(mon, src, snap_bundle(b), 'the source rays of an aborted trace')
        unchanged(mon, scene, snap_scene(sc.nodes), 'the scene of an aborted trace')
        mon.check(first.snap == snap_tree(first.tree), 'an aborted trace changed the record of an earlier one')
        if rng.random() < .5:
            eng = TracerEngine(sc.root)
        x = go(mon, eng, auto, b, reps, me, state)
        same(mon, first, x, 'tracing again after an aborted trace')
        mon.event('faults_recovered')


def new_object(rng, L=1.):
    o = dict(place=rplace(rng, L), surfs=[dict(place=rplace(rng, L), geom=rgeom(rng, G.FLAT + G.CURVED, L), opt=roptics(rng, MENU)) for _ in range(rng.randint(1, 2))])
    surfs = [Surface(real_geom(s['geom']), real_optics(s['opt']), location=np.array(s['place'][1]), rotation=np.array(s['place'][0])) for s in o['surfs']]
    return o, surfs


def edited(rng, mon, tier):
    """Members moved, added or replaced between traces with the same engine: the trace goes by the scene as it stands."""
    spec, sc, r, b, reps, me = setup(rng, nsurf=(1, 5), nrays=(1, 25))
    mon.input('edited', spec_digest(spec, r, reps, me))
    spec = copy.deepcopy(spec)
    sc = build(spec)
    auto = Automaton(mon, sc.real)
    eng = TracerEngine(sc.root)
    spec_of = dict((id(x), s) for x, s in zip(sc.real, [s for s, _, _ in walk(spec['asm'])]))
    go(mon, eng, auto, b, reps, me, None)
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 2)):
            k = rng.random()
            if k < .15:
                # another size
                done = False
                for x in sc.root.get_surfaces():
                    g = x.get_geometry_manager()
                    sp = spec_of.get(id(x))
                    if sp is None or rng.random() < .3:
                        continue
                    q = sp['geom']
                    if q[0] in ('sphere', 'hemi', 'cut'):
                        sp['geom'] = (q[0], q[1]*lin(rng, .7, 1.6)) + tuple(q[2:])
                        g.set_radius(sp['geom'][1])
                        done = True
                    elif q[0] == 'tri':
                        sp['geom'] = q = rgeom(rng, ('tri',), 1.)
                        g.set_vertices(np.array([[q[1], q[3]], [q[2], q[4]], [0., 0.]]))
                        done = True
                if done:
                    mon.count('resized')
            elif k < .45:
                # another surface for an object there is, perhaps in exchange for one of its own
                obj, s = rng.choice([(x, s) for x, s in sc.nodes if 'surfs' in s])
                o, surfs = new_object(rng)
                for x, y in zip(surfs, o['surfs']):
                    if s['surfs'] and rng.random() < .5:
                        j = rng.randrange(len(s['surfs']))
                        old = obj.surfaces[j]
                        obj.surfaces[j] = x
                        s['surfs'][j] = y
                        sc.nodes[:] = [(a, b) for a, b in sc.nodes if a is not old]
                        mon.count('exchanged')
                    else:
                        obj.add_surface(x)
                        s['surfs'].append(y)
                        mon.count('surfaces_added')
                    spec_of[id(x)] = y
                    sc.nodes.append((x, y))
                    auto.watch(x)
                sc.root.transform_children()
            elif k < .6:
                o, surfs = new_object(rng)
                obj = AssembledObject(surfs=surfs)
                asms = [(x, s) for x, s in sc.nodes if 'subs' in s]
                asm, s = rng.choice(asms)
                asm.add_object(obj, npmat(o['place']))
                spec_of.update((id(x), y) for x, y in zip(surfs, o['surfs']))
                s['objs'].append(o)
                sc.nodes.append((obj, o))
                for x in surfs:
                    auto.watch(x)
                sc.root.transform_children()
            else:
                x, s = rng.choice(sc.nodes)
                s['place'] = rplace(rng, 1.)
                j = rng.randrange(2)
                if j:
                    x.set_transform(npmat(s['place']))
                else:
                    x.set_location(np.array(s['place'][1]))
                    x.set_rotation(np.array(s['place'][0]))
                if x is not sc.root or rng.random() < .5:
                    sc.root.transform_children()
            mon.count('edits')
        refs = build(spec).surfs
        rr = gen.rays(rng, refs, rng.randint(1, 25), 1.3)
        rr['n'] = start_indices(rng, refs, len(rr['v']))
        reps2 = min(reps, 5)
        go(mon, eng, auto, gen.bundle(rr, tag=np.zeros(len(rr['v']))), reps2, me, None)
        verify_trace(mon, refs, levels(eng.tree), reps2, me, ALL, prefix='after an edit: ')
        mon.event('edited_traces')


def part(rng, mon, tier):
    """An assembly that is part of a larger scene, traced on its own where it stands there, between traces of the whole."""
    spec, sc, r, b, reps, me = setup(rng, nsurf=(2, 7))
    asms = [x for x, s in sc.nodes if 'subs' in s and x is not sc.root and len(x.get_objects()) and len(x.get_surfaces())]
    if not asms:
        return
    mon.input('part', spec_digest(spec, r, reps, me))
    state = np.random.get_state()
    whole = TracerEngine(sc.root)
    if rng.random() < .5:
        first = go(mon, whole, None, b, reps, me, state)
    else:
        first = None
    asm = rng.choice(asms)
    own = set(id(x) for x in asm.get_surfaces())
    refs = [s for x, s in zip(sc.real, sc.surfs) if id(x) in own]
    rr = gen.rays(rng, refs, rng.randint(1, 25), 1.3)
    rr['n'] = start_indices(rng, refs, len(rr['v']))
    reps2 = min(reps, 5)
    eng = TracerEngine(asm)
    go(mon, eng, None, gen.bundle(rr, tag=np.zeros(len(rr['v']))), reps2, me, None)
    verify_trace(mon, refs, levels(eng.tree), reps2, me, ALL, prefix='tracing a part of a scene on its own: ')
    x = go(mon, whole, None, b, reps, me, state)
    if first is None:
        sc2 = build(spec)
        first = go(mon, TracerEngine(sc2.root), None, b, reps, me, state)
    same(mon, first, x, 'tracing the whole scene after a part of it')
    mon.event('parts')


def interleaved(rng, mon, tier):
    """Another scene is traced in the middle of a trace."""
    spec, sc, r, b, reps, me = setup(rng)
    mon.input('interleaved', spec_digest(spec, r, reps, me))
    if any(s.optics[0] in ('lamb', 'lrecv') for s in sc.surfs):
        for s, _, _ in walk(spec['asm']):
            if s['opt'][0] in ('lamb', 'lrecv'):
                s['opt'] = ('refl', s['opt'][1])
        sc = build(spec)
    first = go(mon, TracerEngine(sc.root), None, b, reps, me, None)
    spec2, sc2, r2, b2, reps2, me2 = setup(rng)
    box = []
    def wrap(opt, surf):
        def call(geometry, rays, selector):
            if rng.random() < .3 and len(box) < 6:
                e2 = TracerEngine(sc2.root)
                st = np.random.get_state()
                np.random.seed(5)
                e2.ray_tracer(b2, reps2, me2)
                np.random.set_state(st)
                x = Run()
                x.ret, x.tree, x.snap = None, e2.tree, snap_tree(e2.tree)
                box.append(x)
            return opt(geometry, rays, selector)
        return call
    sc3 = build(spec, wrap=wrap)
    x = go(mon, TracerEngine(sc3.root), None, b, reps, me, None)
    same(mon, first, x, 'with another scene traced in the middle')
    for y in box[1:]:
        same(mon, box[0], y, 'a trace made in the middle of another')
    for y in box:
        mon.check(y.snap == snap_tree(y.tree), 'a later trace changed the record of an earlier one')
    mon.count('interleaved', len(box))


def models(rng, mon, tier):
    """Ready-made models traced repeatedly."""
    k = rng.randrange(4)
    L = 1.
    if k == 0:
        asm = tau_minidish.standard_minidish(rng.uniform(.5, 3.), rng.uniform(200., 2000.), rng.choice([0, 1, 2]))[0]
        def rays():
            return (G.mul(rvec(rng, 1.), .8)[:2] + (rng.uniform(2., 4.),), (0., 0., -1.) if rng.random() < .5 else G.unit((rng.gauss(0, .05), rng.gauss(0, .05), -1.)))
    elif k == 1:
        pos = np.array([[rng.uniform(-20, 20), rng.uniform(-20, 20), 0.] for _ in range(rng.randint(2, 12))])
        asm = HeliostatField(pos, rng.uniform(1, 3), rng.uniform(1, 3), rng.random()*.3, rng.uniform(10, 40))
        az, el = rng.uniform(-pi, pi), rng.uniform(0, 1.2)
        asm.aim_to_sun(az, el)
        from tracer.models.heliostat_field import solar_vector
        sun = tuple(np.array(solar_vector(az, el)).reshape(-1).tolist())
        def rays():
            p = tuple(pos[rng.randrange(len(pos))].tolist())
            return (G.add(G.add(p, G.mul(sun, 30.)), G.mul(rvec(rng, 1.), .7)), G.mul(sun, -1.))
    elif k == 2:
        R = rng.uniform(2., 5.)
        asm = Assembly(objects=[SphericalLens(1., .1 + rng.random()*.1, R, rng.choice([-R, -R*2]), rng.uniform(1.3, 1.8))])
        def rays():
            return ((rng.uniform(-.4, .4), rng.uniform(-.4, .4), rng.choice([-2., 2.])), None)
    else:
        asm = rect_homogenizer(rng.uniform(.5, 2.), rng.uniform(.5, 2.), rng.uniform(.5, 4.), rng.uniform(.5, 1.))
        def rays():
            return ((rng.uniform(-.3, .3), rng.uniform(-.3, .3), rng.choice([-1., 5.])), None)
    if rng.random() < .5:
        asm.set_transform(npmat(rplace(rng, 2.)))
    T = np.array(asm.get_transform())
    place = (tuple(map(tuple, T[:3, :3].tolist())), tuple(T[:3, 3].tolist()))
    n = rng.randint(3, 40)
    V, D = [], []
    for _ in range(n):
        v, d = rays()
        if d is None:
            d = G.unit((rng.gauss(0, .2), rng.gauss(0, .2), -1. if v[2] > 0 else 1.))
        V.append(G.apply(place, v))
        D.append(G.unit(G.mv(place[0], d)))
    b = gen.bundle(dict(v=V, d=D, e=[1.]*n))
    mon.input('models', [k, V[:3], D[:3], place])
    auto = Automaton(mon, asm.get_surfaces())
    eng = TracerEngine(asm)
    reps, me = rng.randint(1, 8), rng.choice([0.01, .05])
    first = go(mon, eng, auto, b, reps, me, None)
    for _ in range(rng.randint(1, 2)):
        if rng.random() < .5:
            auto.begin()
            auto.fail_at = rng.randint(1, max(1, auto.steps or 20))
            try:
                eng.ray_tracer(b, reps, me)
            except Fault:
                mon.count('faults')
            auto.fail_at = None
        same(mon, first, go(mon, eng, auto, b, reps, me, None), 'tracing a model again')
        mon.check(first.snap == snap_tree(first.tree), 'a later trace changed the record of an earlier one')


def bare(rng, mon, tier):
    """A surface on its own, or a lone object, asked, moved in place and asked again: every answer goes by where it is now."""
    g, L = shapes.wide_geom(rng, G.FLAT + G.CURVED)
    place = rplace(rng, L)
    s = G.Surf(g, ('refl', 0.), place)
    real = Surface(real_geom(g), oc.Reflective(0.), location=np.array(place[1]), rotation=np.array(place[0]))
    obj = AssembledObject(surfs=[real]) if rng.random() < .4 else None
    own, outer = place, G.EYE
    mon.input('bare', [g, place])
    last = None
    for k in range(rng.randint(2, 5)):
        n = rng.randint(1, 20)
        if last is not None and rng.random() < .4:
            r = last                                      # the very same rays
        else:
            r = shapes.hostile_rays(rng, s, n, L)
        last = r
        b, ts, hits = shapes.ask(mon, s, real, r)
        if hits and rng.random() < .7:
            idx = [i for i, _ in hits]
            real.select_rays(np.array(idx))
            o = real.get_outgoing()
            base = scale_of([s])
            for j, (i, a) in enumerate(hits):
                x = G.add(r['v'][i], G.mul(r['d'][i], a[1]))
                mon.check(G.dist(tuple(o.get_vertices()[:, j].tolist()), x) <= 50*a[2] + 1e-9*max(base, G.norm(r['v'][i])),
                    'after it was moved, a %s sends a ray off from %s instead of %s', g[0], o.get_vertices()[:, j].tolist(), x)
        if rng.random() < .8:
            real.done()
        # move it
        how = rng.randrange(4)
        q = rplace(rng, L)
        if obj is not None:
            if how % 2:
                outer = q
                obj.set_transform(npmat(q))
            else:
                own = q
                real.set_location(np.array(q[1]))
                real.set_rotation(np.array(q[0]))
            obj.transform_children()
            place = G.compose(outer, own)
        elif how == 0:
            real.set_location(np.array(q[1]))
            place = (place[0], q[1])
        elif how == 1:
            real.set_rotation(np.array(q[0]))
            place = (q[0], place[1])
        elif how == 2:
            real.set_location(np.array(q[1]))
            real.set_rotation(np.array(q[0]))
            place = q
        else:
            real.set_transform(npmat(q))
            real.transform_frame(np.eye(4))
            place = q
            # from here on its own placement is no longer the frame it is traced in
            s = G.Surf(g, ('refl', 0.), place)
            shapes.ask(mon, s, real, shapes.hostile_rays(rng, s, n, L))
            mon.event('bare_moves')
            return
        s = G.Surf(g, ('refl', 0.), place)
        mon.event('bare_moves')


def deep(rng, mon, tier):
    """Long traces and crowded scenes under the protocol automaton, repeated."""
    a = extreme(rng, rng.choice(['deep', 'many']))
    spec = rscene(rng, G.FLAT + G.CURVED, a.get('menu', ('refl', 'absrefl', 'rrecv', 'refr')), a['nsurf'], 1., a.get('depth', 3), a.get('enclose', .4), .3, a['spread'])
    sc = build(spec)
    n = rng.randint(2, 12)
    r = gen.rays(rng, sc.surfs, n, 1.3)
    r['n'] = start_indices(rng, sc.surfs, n)
    reps = rng.randint(*a['reps'])
    mon.input('deep', spec_digest(spec, r, reps))
    auto = Automaton(mon, sc.real)
    eng = TracerEngine(sc.root)
    b = gen.bundle(r, tag=np.arange(n)*3 + 7)
    first = go(mon, eng, auto, b, reps, 0., None)
    same(mon, first, go(mon, eng, auto, b, reps, 0., None), 'tracing again')
    mon.check(first.snap == snap_tree(first.tree), 'a later trace changed the record of an earlier one')


QUICK = 1.3
KINDS = dict(part=(part, 60, 2000), bare=(bare, 200, 8000), deep=(deep, 8, 200), repeat=(repeat, 140, 5000), fault=(fault, 120, 4000), edited=(edited, 110, 3500), interleaved=(interleaved, 60, 1500), models=(models, 60, 2000))
