from common import *
from tracer.geometry_manager import GeometryManager
from tracer.boundary_shape import BoundaryShape
from tracer.models.one_sided_mirror import rect_one_sided_mirror
from tracer.models.heliostat_field import HeliostatField

RULE = ("a case gives surfaces, containers, boundaries or shapes sizes and placements that are impossible or misshapen, in between proper ones, or has a surface "
    "report negative distances; non-trivial if a refusal, or the acceptance of something proper, was observed")
ASSUMPTIONS = ["undefined sizes (NaN) are left open"]
MINIMUM = dict(refused_places=3000, refused_sizes=1500, unchanged=3000, accepted=2000, negative_distances=150, clean_distances=50, abstract=100, coarse_meshes=300)

LOCS = [(1,), (2,), (4,), (0,), (), (3, 1), (1, 3), (3, 3), (1, 1), (3, 2), (1, 1, 3)]
ROTS = [(3,), (9,), (1,), (), (4, 4), (2, 2), (1, 1), (3, 1), (1, 3), (3, 4), (4, 3), (3, 3, 1), (1, 3, 3)]


def refuses(mon, kind, err, what, f, *a, **k):
    """f has to raise err."""
    try:
        f(*a, **k)
    except err:
        mon.event(kind)
        return
    except Exception as e:
        mon.fail('%s was met by %s: %s' % (what, type(e).__name__, e))
    mon.fail('%s was accepted' % what)


def rval(rng, shape):
    n = 1
    for x in shape:
        n *= x
    return np.array([rng.choice([0., 1., rng.uniform(-3, 3)]) for _ in range(n)]).reshape(shape)


def thing(rng):
    """(real, its placement, a function giving what the world sees of it)"""
    p = rplace(rng, 2.)
    loc, rt = np.array(p[1]), np.array(p[0])
    k = rng.choice(['surf', 'obj', 'asm', 'bplane', 'bcyl'])
    def hit(root):
        def see():
            e = TracerEngine(root)
            r = gen.bundle(probe_rays)
            e.ray_tracer(r, 1, -1.)
            return [(lv['v'], lv['d'], lv['p']) for lv in levels(e.tree)]
        return see
    w = G.mv(p[0], (0., 0., 1.))
    probe_rays = dict(v=[G.add(p[1], G.add(w, G.mul(rdir(rng), .3))) for _ in range(3)], d=[G.mul(w, -1.)]*3, e=[1.]*3)
    if k == 'surf':
        s = Surface(FlatGeometryManager(), oc.Reflective(0.), location=loc, rotation=rt)
        o = AssembledObject(surfs=[s])
        root = Assembly(objects=[o])
        root.transform_children()
        def see():
            root.transform_children()
            return hit(root)()
        return k, s, p, see
    if k == 'obj':
        s = Surface(FlatGeometryManager(), oc.Reflective(0.))
        o = AssembledObject(surfs=[s], transform=npmat(p))
        root = Assembly(objects=[o])
        return k, o, p, hit(root)
    if k == 'asm':
        s = Surface(FlatGeometryManager(), oc.Reflective(0.))
        root = Assembly(objects=[AssembledObject(surfs=[s])], location=loc, rotation=rt)
        root.transform_children()
        return k, root, p, hit(root)
    b = BoundaryPlane(location=loc, rotation=rt) if k == 'bplane' else BoundaryCylinder(1., location=loc, rotation=rt)
    pts = np.array([G.apply(p, rvec(rng, 1.)) for _ in range(9)])
    o = AssembledObject(bounds=[b])
    def see():
        o.transform_children()
        return b.in_bounds(pts).tolist()
    return k, b, p, see


def same(mon, k, x, p):
    loc, rt, T = [np.asarray(a).tolist() for a in (x.get_location(), x.get_rotation(), x.get_transform())]
    mon.check(loc == list(p[1]), 'a %s placed at %s is at %s after another location was refused', k, p[1], loc)
    mon.check(rt == [list(r) for r in p[0]], 'a %s lost its rotation when another was refused', k)
    mon.check(T == G.matrix(p) or T == [list(r) for r in G.matrix(p)], 'a %s lost its placement when another was refused: %s', k, T)


def placing(rng, mon, tier):
    k, x, p, see = thing(rng)
    mon.input('placing', [k, p])
    seen = see()
    for _ in range(rng.randint(2, 6)):
        j = rng.random()
        if j < .4:
            sh = rng.choice(LOCS)
            refuses(mon, 'refused_places', ValueError, 'a location of shape %s for a %s' % (sh, k), x.set_location, rval(rng, sh))
        elif j < .8:
            sh = rng.choice(ROTS)
            refuses(mon, 'refused_places', ValueError, 'a rotation of shape %s for a %s' % (sh, k), x.set_rotation, rval(rng, sh))
        else:
            # a proper one is taken
            q = rplace(rng, 2.)
            loc, rt = np.array(q[1]), np.array(q[0])
            if rng.random() < .5:
                x.set_location(loc)
                p = (p[0], q[1])
            else:
                x.set_rotation(rt)
                p = (q[0], p[1])
            mon.event('accepted')
            if k == 'obj':
                x.transform_children()
            seen = see()
        same(mon, k, x, p)
        mon.check(see() == seen, 'a %s looks different from outside after a placement was refused', k)
        mon.event('unchanged')
    # building with one
    sh, rh = rng.choice(LOCS), rng.choice(ROTS)
    good = np.array(rdir(rng)), np.array(rrot(rng))
    gm, op = FlatGeometryManager(), oc.Reflective(0.)
    for nm, f in (('surface', lambda l, r: Surface(gm, op, l, r)), ('assembly', lambda l, r: Assembly(location=l, rotation=r)),
            ('boundary plane', lambda l, r: BoundaryPlane(l, r)), ('boundary cylinder', lambda l, r: BoundaryCylinder(1., l, r))):
        refuses(mon, 'refused_places', ValueError, 'building a %s with a location of shape %s' % (nm, sh), f, rval(rng, sh), good[1])
        refuses(mon, 'refused_places', ValueError, 'building a %s with a rotation of shape %s' % (nm, rh), f, good[0], rval(rng, rh))
    refuses(mon, 'refused_places', ValueError, 'building a boundary sphere with a location of shape %s' % (sh,), BoundarySphere, rval(rng, sh), 1.)
    mon.state('placing', k)


def bad_size(rng):
    x = rng.choice([0, 0., -0., -1, -1., -1e-300, -inf, -lin(rng, 1e-12, 1e6), -rng.randint(1, 9)])
    return np.float64(x) if rng.random() < .2 else x


def good_size(rng):
    x = rng.choice([1, 1., 1e-12, 1e12, 1e-200, 1e200, 1e-300, lin(rng, 1e-6, 1e6), rng.randint(1, 9)])
    return np.float64(x) if rng.random() < .2 else x


def sizing(rng, mon, tier):
    b, g = bad_size(rng), good_size(rng)
    mon.input('sizing', [repr(b), repr(g), rng.random()])
    makers = [('rectangle of width', lambda x: RectPlateGM(x, g)), ('rectangle of height', lambda x: RectPlateGM(g, x)), ('disk of radius', RoundPlateGM),
        ('sphere of radius', SphericalGM), ('hemisphere of radius', HemisphereGM), ('cut sphere of radius', lambda x: CutSphereGM(x, BoundaryPlane())),
        ('one-sided mirror of width', lambda x: rect_one_sided_mirror(x, g, .1)), ('one-sided mirror of height', lambda x: rect_one_sided_mirror(g, x, .1)),
        ('heliostat field of width', lambda x: HeliostatField(np.array([[5., 0., 0.]]), x, g, .1, 9.))]
    for nm, f in makers:
        refuses(mon, 'refused_sizes', ValueError, 'a %s %r' % (nm, b), f, b)
        try:
            f(g)
        except Exception as e:
            mon.fail('a %s %r was refused: %s' % (nm, g, e))
        mon.event('accepted')
    # resizing a sphere in use
    R = lin(rng, .5, 2.)
    gm = rng.choice([SphericalGM, HemisphereGM, CutSphereGM])(R)
    s = Surface(gm, oc.Reflective(0.))
    root = Assembly(objects=[AssembledObject(surfs=[s])])
    def look():
        e = TracerEngine(root)
        e.ray_tracer(gen.bundle(dict(v=[(0., 0., -9.)], d=[(0., 0., 1.)], e=[1.])), 1, 0.)
        return e.tree.num_bunds() == 2 and float(e.tree[1].get_vertices()[2, 0])
    for _ in range(rng.randint(2, 5)):
        if rng.random() < .7:
            b = bad_size(rng)
            refuses(mon, 'refused_sizes', ValueError, 'changing a radius to %r' % b, gm.set_radius, b)
        else:
            R = lin(rng, .5, 2.)
            gm.set_radius(R)
            mon.event('accepted')
        mon.check(gm.get_radius() == R, 'a sphere of radius %r has radius %r after a refusal', R, gm.get_radius())
        z = look()
        mon.check(z is not False and abs(z + R) < 1e-9, 'a sphere of radius %r is met at %r from its centre after a refusal', R, z)
        mon.event('unchanged')
    # a mesh needs its corners
    tri = real_geom(rgeom(rng, ('tri',)))
    r = rng.choice([1, 0, -1, -7])
    refuses(mon, 'coarse_meshes', ValueError, 'a triangle drawn with %r points per edge' % r, tri.mesh, r)
    r = rng.choice([2, 3, 10])
    x = tri.mesh(r)
    mon.check(np.shape(x[0]) == (r, r), 'a triangle drawn with %d points per edge has a mesh of shape %s', r, np.shape(x[0]))
    refuses(mon, 'abstract', TypeError, 'asking a bare geometry about rays', GeometryManager().find_intersections, np.eye(4),
        gen.bundle(dict(v=[(0., 0., 1.)], d=[(0., 0., -1.)], e=[1.])))
    refuses(mon, 'abstract', TypeError, 'asking a bare boundary about points', BoundaryShape().in_bounds, np.zeros((2, 3)))
    refuses(mon, 'abstract', TypeError, 'asking a bare boundary for its rectangle', BoundaryShape().bounding_rect_for_plane, np.eye(4))
    mon.state('sizing', repr(b)[:3])


class Liar(FlatGeometryManager):
    """A plane that reports some distances of its own."""
    say = None

    def find_intersections(self, frame, ray_bundle):
        t = FlatGeometryManager.find_intersections(self, frame, ray_bundle)
        if self.say is not None and len(t):
            i, x = self.say
            t[i % len(t)] = x
        return t


def distances(rng, mon, tier):
    """A negative distance stops the trace; the scene is good again once the surface is."""
    spec = rscene(rng, menu=('refl', 'absrefl'), nsurf=(1, 4))
    sc = build(spec)
    gm = Liar()
    p = rplace(rng, 3.)
    o = AssembledObject(surfs=[Surface(gm, oc.Reflective(.3), location=np.array(p[1]), rotation=np.array(p[0]))])
    sc.root.add_object(o)
    n = rng.randint(1, 20)
    r = gen.rays(rng, sc.surfs, n, 2.)
    reps = rng.randint(1, 4)
    mon.input('distances', [spec, p, r['v'][:2], reps])
    def run():
        e = TracerEngine(sc.root)
        e.ray_tracer(gen.bundle(r), reps, 0.)
        return [(lv['v'], lv['d'], lv['e'], lv['p']) for lv in levels(e.tree)]
    first = run()
    for _ in range(rng.randint(1, 3)):
        gm.say = rng.randrange(n), -lin(rng, 1e-9, 1e3)
        refuses(mon, 'negative_distances', ValueError, 'a distance of %r reported by a surface' % gm.say[1], run)
        gm.say = rng.randrange(n), rng.choice([inf, 0., 1e-9])      # a miss, or leaving the surface
        run()
        gm.say = None
        mon.check(run() == first, 'after a refused trace the same rays go another way')
        mon.event('clean_distances')
    mon.state('distances', n == 1, reps)


QUICK = 2
KINDS = dict(placing=(placing, 300, 12000), sizing=(sizing, 150, 6000), distances=(distances, 100, 4000))
