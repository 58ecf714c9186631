import os, sys, threading, random
from common import *
import tracer
from tracer.ray_bundle import concatenate_rays
from tracer.models import tau_minidish
from tracer.models.heliostat_field import HeliostatField, radial_stagger, solar_vector
from tracer import spatial_geometry as sp, optics
from tracer.models.spherical_lens import SphericalLens
from tracer.models.homogenizer import rect_homogenizer
from tracer.models.triangulated_surface import TriangulatedSurface
from tracer.models.one_sided_mirror import rect_one_sided_mirror

RULE = ("a case is two to four jobs on scenes that share no part, each run alone and then all of them under a chosen interleaving, line by line of the package's code or call by call; "
    "non-trivial if a job that was interrupted gave its results")
ASSUMPTIONS = ["random draws (sources, diffuse surfaces) come from one shared generator, so jobs that draw are left out",
    "interleaving is between lines of Python, as the interpreter's threads do it"]
MINIMUM = dict(jobs=600, switches=20000, interrupted=500, compared=600, inside=100)

HOME = os.path.dirname(os.path.abspath(tracer.__file__)) + os.sep


class Sched(object):
    """Runs jobs in threads of which exactly one moves at a time; who goes on is decided at every line of the package."""
    def __init__(self, rng, jobs, p):
        self.rng, self.p = rng, p
        self.jobs = jobs
        self.n = len(jobs)
        self.gates = [threading.Semaphore(0) for _ in jobs]
        self.alive = list(range(self.n))
        self.result = [None]*self.n
        self.error = [None]*self.n
        self.switched = [0]*self.n
        self.trail = []
        self.over = threading.Event()
        self.burst = 0
        self.ticks = 0

    def tick(self, me):
        self.ticks += 1
        if self.burst > 0:                # let one go on for a while
            self.burst -= 1
            return
        if self.rng.random() < self.p and len(self.alive) > 1:
            to = self.rng.choice([k for k in self.alive if k != me])
            self.burst = self.rng.choice([0, 0, 1, 3, 10, 40])
            self.switched[me] += 1
            self.trail.append(to)
            self.gates[to].release()
            self.gates[me].acquire()

    def body(self, k):
        self.gates[k].acquire()
        def line(frame, event, arg):
            if event == 'line':
                self.tick(k)
            return line
        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(HOME) else None
        sys.settrace(call)
        try:
            self.result[k] = self.jobs[k]()
        except BaseException as e:
            self.error[k] = e
        finally:
            sys.settrace(None)
            self.alive.remove(k)
            if self.alive:
                self.gates[self.rng.choice(self.alive)].release()
            else:
                self.over.set()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(k,)) for k in range(self.n)]
        for t in ts:
            t.daemon = True
            t.start()
        self.gates[self.rng.randrange(self.n)].release()
        last, quiet = -1, 0
        while not self.over.wait(1.):
            # a job waiting for something another one holds: let others go on
            quiet = quiet + 1 if self.ticks == last else 0
            last = self.ticks
            if quiet and self.alive:
                self.gates[self.rng.choice(self.alive)].release()
            if quiet > 60:
                raise RuntimeError('the jobs do not come to an end')
        for t in ts:
            t.join()


# ------------------------------------------------------------------ jobs: everything from one key, everything said in plain data
def plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def say(root, b, reps, me, n=1):
    e = TracerEngine(root)
    ret = e.ray_tracer(b, reps, me)
    out = [[lv['v'], lv['d'], lv['e'], lv['r'], lv['p'], lv['bund'].get_mark().tolist()] for lv in levels(e.tree)]
    last = e.tree.num_bunds() - 1
    hist = [plain(e.tree.ray_history(k, last)) for k in range(min(3, e.tree[last].get_num_rays()))] if last else []
    return [plain(ret), out, hist]


def some_rays(rng, surfs, n=(1, 8)):
    n = rng.randint(*n)
    r = gen.rays(rng, surfs, n, 1.2)
    r['n'] = start_indices(rng, surfs, n)
    return gen.bundle(r, mark=np.arange(n)*7)


def job_scene(rng):
    spec = rscene(rng, menu=('refl', 'absrefl', 'refr', 'rrecv'), nsurf=(1, 4), depth=1, enclose=.4)
    sc = build(spec)
    b = some_rays(rng, sc.surfs)
    out = [say(sc.root, b, rng.randint(1, 3), .01)]
    for _ in range(rng.randint(0, 2)):
        node, sp = rng.choice(sc.nodes)
        pl = rplace(rng, 1.)
        j = rng.randrange(3)
        if j == 0:
            node.set_location(np.array(pl[1]))
        elif j == 1:
            node.set_rotation(np.array(pl[0]))
        else:
            node.set_transform(npmat(pl))
        sc.root.transform_children()
        out.append(say(sc.root, b, rng.randint(1, 3), .01))
    for s in sc.surfs:
        if s.optics[0] == 'rrecv':
            out.append(plain(s.real_opt.get_all_hits()))
    return out


def job_model(rng):
    k = rng.randrange(6)
    out = []
    if k == 0:
        asm = tau_minidish.standard_minidish(rng.uniform(.5, 3.), rng.uniform(200., 2000.), rng.choice([0, 1]))[0]
        mk = lambda: (tuple(rvec(rng, .8)[:2]) + (3.,), (0., 0., -1.))
    elif k == 1:
        pos = np.array([[rng.uniform(-20, 20), rng.uniform(-20, 20), 0.] for _ in range(rng.randint(2, 4))])
        asm = HeliostatField(pos, rng.uniform(1, 3), rng.uniform(1, 3), .1, rng.uniform(10, 40))
        asm.aim_to_sun(rng.uniform(-pi, pi), rng.uniform(0, 1.2))
        out.append(plain(radial_stagger(-.3, .3, .2, 5., 12., 3.)))
        mk = lambda: (G.add(tuple(pos[rng.randrange(len(pos))].tolist()), (0., 0., 30.)), (0., 0., -1.))
    elif k == 2:
        R = rng.uniform(2., 5.)
        asm = Assembly(objects=[SphericalLens(1., .1 + rng.random()*.1, R, rng.choice([-R, -R*2]), rng.uniform(1.3, 1.8))])
        out.append(float(asm.get_objects()[0].focal_length()))
        mk = lambda: ((rng.uniform(-.4, .4), rng.uniform(-.4, .4), 2.), (0., 0., -1.))
    elif k == 3:
        asm = rect_homogenizer(rng.uniform(.5, 2.), rng.uniform(.5, 2.), rng.uniform(.5, 4.), .9)
        mk = lambda: ((rng.uniform(-.3, .3), rng.uniform(-.3, .3), 5.), G.unit((rng.gauss(0, .3), rng.gauss(0, .3), -1.)))
    elif k == 4:
        verts = np.array([[0., 0., 0.], [1., 0., .2], [0., 1., .1], [1., 1., .3]])*rng.uniform(.5, 2.)
        asm = Assembly(objects=[TriangulatedSurface(verts, np.array([[0, 1, 2], [1, 3, 2]]), oc.Reflective(.1))])
        mk = lambda: ((rng.uniform(0, 1.5), rng.uniform(0, 1.5), 3.), (0., 0., -1.))
    else:
        asm = Assembly(objects=[rect_one_sided_mirror(rng.uniform(.5, 2.), rng.uniform(.5, 2.), .2)])
        mk = lambda: ((rng.uniform(-1, 1), rng.uniform(-1, 1), rng.choice([-3., 3.])), None)
    V, D = [], []
    for _ in range(rng.randint(1, 6)):
        v, d = mk()
        V.append(v)
        D.append(d or (0., 0., -1. if v[2] > 0 else 1.))
    b = gen.bundle(dict(v=V, d=D, e=[1.]*len(V)), mark=np.arange(len(V)))
    out.append(say(asm, b, rng.randint(1, 4), .05))
    return out


def job_shapes(rng):
    """Single surfaces through their protocol, volumes, meshes."""
    out = []
    for _ in range(rng.randint(1, 3)):
        g = rgeom(rng, G.FLAT + G.CURVED)
        p = rplace(rng, 2.)
        rs = G.Surf(g, ('refl', 0.), p)
        s = Surface(real_geom(g), oc.Reflective(0.), location=np.array(p[1]), rotation=np.array(p[0]))
        b = some_rays(rng, [rs])
        t = s.register_incoming(b)
        out.append(plain(t))
        k = np.isfinite(t).nonzero()[0]
        if len(k):
            s.select_rays(k)
            gm = s.get_geometry_manager()
            out += [plain(gm.get_normals()), plain(gm.get_intersection_points_global()), plain(s.get_outgoing().get_directions())]
        s.done()
        if g[0] in ('rect', 'round', 'sphere', 'hemi', 'fcyl', 'dish'):
            out.append(plain(s.mesh(2./G.size(g))))
    for _ in range(rng.randint(0, 2)):
        p = rplace(rng, 1.)
        bd = real_bound(rng.choice([('bplane', p), ('bsphere', (G.I3, p[1]), 1.), ('bcyl', p, 2.)]))
        bd.transform_frame(npmat(rplace(rng, 1.)))
        out.append(plain(bd.in_bounds(np.array([rvec(rng, 2.) for _ in range(5)]))))
    return out


def job_bundles(rng):
    out = []
    n = rng.randint(2, 8)
    b = gen.bundle(gen.rays(rng, [G.Surf(('rect', 1., 1.), ('refl', 0.), G.EYE)], n), mark=np.arange(n), col=np.array([[rng.random() for _ in range(n)] for _ in range(2)]))
    for _ in range(rng.randint(2, 6)):
        k = rng.randrange(4)
        m = b.get_num_rays()
        if k == 0:
            b = b + b.inherit(np.array([rng.randrange(m)]), energy=np.array([rng.random()]))
        elif k == 1 and m > 1:
            b = b.delete_rays(np.array([rng.randrange(m)]))
        elif k == 2:
            b = b.inherit(np.array([rng.randrange(m) for _ in range(rng.randint(1, m))]))
        elif m < 40:
            b = concatenate_rays([b, b])
        b.set_energy(b.get_energy()*.5)
        out.append([plain(f()) for f in (b.get_vertices, b.get_directions, b.get_energy, b.get_mark, b.get_col)])
    for _ in range(3):
        d, e = np.array(rdir(rng)), np.array(rdir(rng))
        out += [plain(sp.general_axis_rotation(d, rng.uniform(-3, 3))), plain(sp.rotation_to_z(d)), plain(sp.rotx(rng.random()))]
        out.append(plain(optics.reflections(np.array([d, e]).T, np.array([e, d]).T)))
    return out


def tools(rng):
    """Small pieces of work, each a function of a random generator."""
    kind = rng.choice(G.FLAT + G.CURVED)
    ops = rng.choice([('refl', .3), ('absrefl', .3), ('refr', 1., 1.5), ('rrecv', .4)])
    def facing(n, r):
        nr = np.array([rdir(r) for _ in range(n)]).T
        d = np.array([rdir(r) for _ in range(n)]).T
        return d, nr*np.where((d*nr).sum(axis=0) > 0, -1., 1.)
    def snell(r):
        d, nr = facing(r.randint(1, 4), r)
        return plain(optics.refractions(1., r.uniform(1.1, 2.), d, nr))
    def split(r):
        d, nr = facing(r.randint(1, 4), r)
        return plain(optics.fresnel(d, nr, 1., r.uniform(1.1, 2.)))
    def mirror(r):
        return plain(optics.reflections(*facing(r.randint(1, 4), r)))
    def surface(r):
        g, p = rgeom(r, (kind,)), rplace(r, 2.)
        opt = real_optics(ops)
        s = Surface(real_geom(g), opt, location=np.array(p[1]), rotation=np.array(p[0]))
        b = some_rays(r, [G.Surf(g, ops, p)])
        out = []
        for _ in range(2):
            t = s.register_incoming(b)
            k = np.isfinite(t).nonzero()[0]
            out.append(plain(t))
            if len(k):
                s.select_rays(k)
                o = s.get_outgoing()
                out += [plain(f()) for f in (o.get_vertices, o.get_directions, o.get_energy, o.get_ref_index, o.get_parents, o.get_mark)]
            s.done()
        return out
    def volume(r):
        p = rplace(r, 1.)
        bd = real_bound(r.choice([('bplane', p), ('bsphere', (G.I3, p[1]), 1.), ('bcyl', p, 2.)]))
        bd.transform_frame(npmat(rplace(r, 1.)))
        return [plain(bd.in_bounds(np.array([rvec(r, 2.) for _ in range(5)]))), plain(bd.bounding_rect_for_plane(np.eye(4))) if isinstance(bd, BoundarySphere) else None]
    def nest(r):
        s = Surface(RectPlateGM(1., 1.), oc.Reflective(0.), location=np.array(rvec(r)))
        a = Assembly(objects=[AssembledObject(surfs=[s], transform=npmat(rplace(r)))], location=np.array(rvec(r)))
        b = Assembly(subassemblies=[a], rotation=np.array(rrot(r)))
        b.transform_children()
        out = [plain(s.mesh(3.))]
        a.set_transform(npmat(rplace(r)))
        b.transform_children()
        return out + [plain(s.mesh(3.)), plain(s.global_to_local(np.array([rvec(r)]).T))]
    def drawn(r):
        g = rgeom(r, ('rect', 'round', 'sphere', 'hemi', 'fcyl', 'dish'))
        return plain(real_geom(g).mesh(r.uniform(2., 4.)/G.size(g)))
    def rays(r):
        n = r.randint(2, 6)
        b = gen.bundle(gen.rays(r, [G.Surf(('rect', 1., 1.), ('refl', 0.), G.EYE)], n), mark=np.arange(n)*r.randint(1, 9))
        c = b.inherit(np.array([0, n - 1]), energy=np.array([r.random(), r.random()])) + b.delete_rays([0])
        c = concatenate_rays([c, b])
        return [plain(f()) for f in (c.get_vertices, c.get_directions, c.get_energy, c.get_mark, c.get_ref_index)]
    return rng.choice([
        lambda r: plain(sp.general_axis_rotation(np.array(rdir(r)), r.uniform(-3, 3))),
        lambda r: plain(sp.rotation_to_z(np.array([rdir(r) for _ in range(r.randint(1, 3))]))),
        lambda r: plain(sp.generate_transform(np.array(rdir(r)), r.uniform(-3, 3), np.array([rvec(r)]).T)),
        lambda r: [plain(f(r.uniform(-3, 3))) for f in (sp.rotx, sp.roty, sp.rotz)] + [plain(sp.translate(*rvec(r)))],
        lambda r: [plain(solar_vector(r.uniform(-3, 3), r.random())), plain(radial_stagger(-.3, .3, r.uniform(.1, .3), 5., 12., 3.))],
        snell, split, mirror, surface, surface, surface, volume, nest, drawn, rays])


def pairs(rng, mon, tier):
    """The same small piece of work in two threads, with other numbers."""
    key = rng.random()
    mk = lambda: tools(random.Random(key))
    f = mk()
    def job(k):
        def pieces(r):
            return [f(r) for _ in range(6)]
        pieces.__name__ = 'a small piece of work'
        return pieces, k, lambda: pieces(random.Random(k))
    lines(rng, mon, tier, rng.choice([.2, .5]), [job(rng.random()) for _ in range(2)], key)


JOBS = [job_scene, job_scene, job_scene, job_model, job_model, job_shapes, job_bundles]


def pick(rng):
    f, key = rng.choice(JOBS), rng.random()
    return f, key, (lambda: f(random.Random(key)))


def judge(mon, jobs, alone, got, what):
    for (f, key, _), a, g in zip(jobs, alone, got):
        mon.check(repr(a) == repr(g), '%s gives another result %s', f.__name__, what)
        mon.event('compared')


def lines(rng, mon, tier, p=None, jobs=None, *more):
    alike = jobs is None and rng.random() < .4
    if jobs is None:
        jobs = [pick(rng) for _ in range(rng.choice([2, 2, 3, 4]))]
    if alike:                        # alike: the same kind of work on other numbers
        jobs = [jobs[0]]
        for _ in range(rng.choice([1, 2])):
            f, key = jobs[0][0], rng.random()
            jobs.append((f, key, lambda f=f, key=key: f(random.Random(key))))
    alone = [j[2]() for j in jobs]
    mon.input('lines', [[j[0].__name__, j[1]] for j in jobs] + list(more))
    sch = Sched(rng, [j[2] for j in jobs], p or rng.choice([.02, .1, .3]))
    sch.run()
    for k, e in enumerate(sch.error):
        if e is not None:
            mon.fail('%s failed when interleaved with others: %s: %s' % (jobs[k][0].__name__, type(e).__name__, e))
    judge(mon, jobs, alone, sch.result, 'when interleaved with others')
    mon.event('jobs', len(jobs))
    mon.count('switches', sum(sch.switched))
    mon.event('interrupted', sum(1 for x in sch.switched if x))
    mon.state('lines', len(jobs), hash(tuple(sch.trail)) & 0xffffffff)


def nested(rng, mon, tier):
    """Whole jobs run inside a step of a trace."""
    spec = rscene(rng, menu=('refl', 'absrefl', 'refr', 'rrecv'), nsurf=(1, 5), enclose=.5)
    base = build(spec)
    b = some_rays(rng, base.surfs)
    reps = rng.randint(1, 4)
    mon.input('nested', spec_digest(spec, dict(v=b.get_vertices().tolist(), d=b.get_directions().tolist()), reps))
    alone = say(base.root, b, reps, .01)
    inner = [pick(rng) for _ in range(2)]
    inner_alone = [j[2]() for j in inner]
    sc = build(spec)
    done = [0]
    def hook(x, name):
        f = getattr(x, name)
        def g(*a, **k):
            early = rng.random() < .5
            r = None if early else f(*a, **k)
            if done[0] < 5 and rng.random() < .15:
                done[0] += 1
                i = rng.randrange(2)
                judge(mon, inner[i:i + 1], inner_alone[i:i + 1], [inner[i][2]()], 'when run within a step of a trace')
                mon.event('inside')
            return f(*a, **k) if early else r
        setattr(x, name, g)
    for s in sc.real:
        for nm in ('register_incoming', 'select_rays', 'get_outgoing', 'done'):
            hook(s, nm)
        gm = s.get_geometry_manager()
        for nm in ('find_intersections', 'get_normals', 'get_intersection_points_global'):
            hook(gm, nm)
    for o in sc.objects:
        hook(o, 'own_rays')
        hook(o, 'surfaces_for_next_iteration')
    x = say(sc.root, b, reps, .01)
    mon.check(repr(x) == repr(alone), 'a trace gives another result when other work is done between its steps')
    mon.event('compared')
    mon.state('nested', done[0], len(sc.real))


KINDS = dict(pairs=(pairs, 160, 5000), lines=(lines, 160, 4000), nested=(nested, 60, 1500))

QUICK = 2.5
