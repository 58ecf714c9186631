from common import *

RULE = ("a case is a random history of building, nesting, moving and re-reading surfaces, boundaries, objects and assemblies, with the caller's "
    "arrays overwritten after use; non-trivial if world placements were compared with a shadow model")
ASSUMPTIONS = ["world placements are read only after propagation from the outermost container"]
MINIMUM = dict(world_checks=2000, own_checks=10000, bound_checks=500, moves=1000, traced_checks=500, list_checks=300, fresh_checks=500)


class Node(object):
    def __init__(self, kind, real, place, **kw):
        self.kind, self.real, self.place = kind, real, place
        self.kids_o, self.kids_a, self.surfs, self.bounds = [], [], [], []
        self.parent = None
        self.fresh = True           # for an outermost container: nothing below it was touched since it last propagated
        self.__dict__.update(kw)

    def touched(self):
        """Its placement or members were set: an outermost container passes that on by itself."""
        n = self
        while n.parent is not None:
            n = n.parent
        n.fresh = n is self and n.kind in ('obj', 'asm')


def sloppy(rng, a):
    """The same numbers in another guise; returns (array, later mess)."""
    if (a == np.round(a)).all() and abs(a).max() < 1e6 and rng.random() < .5:
        a = a.astype(int)
    k = rng.random()
    if k < .3:
        a = np.asfortranarray(a)
    elif k < .5:
        big = np.zeros((a.shape[0]*2,) + a.shape[1:], dtype=a.dtype)
        big[::2] = a
        a = big[::2]
    else:
        a = a.copy()
    def mess():
        a[...] = rng.uniform(-5, 5)
    return a, mess


def int_place(rng, L):
    return (G.rot(rng.choice(AXES), rng.choice([0., pi/2, pi])), tuple(float(rng.randint(-3, 3)) for _ in range(3)))


class Machine(object):
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.nodes = []
        self.trace = []

    def place(self):
        if self.rng.random() < .1:      # whole numbers throughout
            p = int_place(self.rng, 1.)
            return (tuple(tuple(float(round(x)) for x in row) for row in p[0]), p[1])
        return rplace(self.rng, self.rng.choice([1., 1., 1., 10., 1e-4, 1e-9]))

    def by(self, *kinds):
        return [n for n in self.nodes if n.kind in kinds]

    def put(self, n):
        self.nodes.append(n)
        return n

    # -- building
    def new_surface(self):
        rng = self.rng
        g = ('plane',)
        p = self.place()
        how = rng.randrange(4)
        loc, m1 = sloppy(rng, np.array(p[1]))
        rt, m2 = sloppy(rng, np.array(p[0]))
        gm, op = real_geom(g), oc.Reflective(0.)
        if how == 0:
            s = Surface(gm, op, location=loc, rotation=rt)
        elif how == 1:
            s = Surface(gm, op, loc)
            p = (G.I3, p[1])
        elif how == 2:
            s = Surface(gm, op, rotation=rt)
            p = (p[0], (0., 0., 0.))
        else:
            s = Surface(gm, op)
            p = G.EYE
        m1(); m2()
        return self.put(Node('surf', s, p))

    def new_bound(self):
        rng = self.rng
        p = self.place()
        loc, m1 = sloppy(rng, np.array(p[1]))
        rt, m2 = sloppy(rng, np.array(p[0]))
        k = rng.choice(['bsphere', 'bcyl', 'bplane'])
        size = rng.uniform(.5, 2.)
        if k == 'bsphere':
            b = BoundarySphere(location=loc, radius=size)
            p = (G.I3, p[1])
        elif k == 'bcyl':
            b = BoundaryCylinder(diameter=size, location=loc, rotation=rt)
        else:
            b = BoundaryPlane(location=loc, rotation=rt)
        m1(); m2()
        return self.put(Node('bound', b, p, shape=k, size=size))

    def free(self, kind):
        return [n for n in self.by(kind) if n.parent is None]

    def new_object(self):
        rng = self.rng
        p = self.place()
        T, mess = sloppy(rng, npmat(p))
        surfs = [s for s in self.free('surf') if rng.random() < .5]
        bounds = [b for b in self.free('bound') if rng.random() < .5]
        how = rng.randrange(3)
        if how == 0:
            o = AssembledObject(surfs=[s.real for s in surfs], bounds=[b.real for b in bounds], transform=T)
        elif how == 1:
            o = AssembledObject(transform=T)
            surfs, bounds = [], []
        else:
            o = AssembledObject(surfs=[s.real for s in surfs])
            bounds = []
            p = G.EYE
        mess()
        n = self.put(Node('obj', o, p))
        n.surfs, n.bounds = list(surfs), list(bounds)
        for x in surfs + bounds:
            x.parent = n

    def new_assembly(self):
        rng = self.rng
        p = self.place()
        loc, m1 = sloppy(rng, np.array(p[1]))
        rt, m2 = sloppy(rng, np.array(p[0]))
        objs = [o for o in self.free('obj') if rng.random() < .5]
        asms = [a for a in self.free('asm') if rng.random() < .4]
        how = rng.randrange(3)
        if how == 0:
            a = Assembly([o.real for o in objs], [x.real for x in asms], loc, rt)
        elif how == 1:
            a = Assembly(location=loc, rotation=rt)
            objs, asms = [], []
        else:
            a = Assembly(objects=[o.real for o in objs])
            asms = []
            p = G.EYE
        m1(); m2()
        n = self.put(Node('asm', a, p))
        n.kids_o, n.kids_a = objs, asms
        for x in objs + asms:
            x.parent = n

    def descends(self, n, anc):
        while n is not None:
            if n is anc:
                return True
            n = n.parent
        return False

    def add(self):
        rng = self.rng
        k = rng.randrange(4)
        if k == 0 and self.by('obj') and self.free('surf'):
            o, s = rng.choice(self.by('obj')), rng.choice(self.free('surf'))
            o.real.add_surface(s.real)
            o.surfs.append(s)
            s.parent = o
            o.touched()
        elif k == 1 and self.by('obj') and self.free('bound'):
            o, b = rng.choice(self.by('obj')), rng.choice(self.free('bound'))
            o.real.add_boundary(b.real)
            o.bounds.append(b)
            b.parent = o
            o.touched()
        elif k == 2 and self.by('asm') and self.free('obj'):
            a, o = rng.choice(self.by('asm')), rng.choice(self.free('obj'))
            if rng.random() < .3:
                a.real.add_object(o.real)
                o.place = G.EYE
            else:
                o.place = self.place()
                T, mess = sloppy(rng, npmat(o.place))
                a.real.add_object(o.real, T)
                mess()
            a.kids_o.append(o)
            o.parent = a
            a.touched()
        elif k == 3 and len(self.by('asm')) > 1 and self.free('asm'):
            b = rng.choice(self.free('asm'))
            cands = [a for a in self.by('asm') if not self.descends(a, b)]
            if not cands:
                return
            a = rng.choice(cands)
            if rng.random() < .3:
                a.real.add_assembly(b.real)
                b.place = G.EYE
            else:
                b.place = self.place()
                T, mess = sloppy(rng, npmat(b.place))
                a.real.add_assembly(b.real, T)
                mess()
            a.kids_a.append(b)
            b.parent = a
            a.touched()

    # -- moving
    def move(self):
        rng = self.rng
        n = rng.choice(self.nodes)
        p = self.place() if rng.random() < .85 else int_place(rng, 3.)
        k = rng.randrange(4)
        if n.kind == 'bound' and n.shape == 'bsphere':
            p = (G.I3, p[1])
        if k == 0:
            loc, mess = sloppy(rng, np.array(p[1]))
            n.real.set_location(loc)
            n.place = (n.place[0], p[1])
        elif k == 1:
            rt, mess = sloppy(rng, np.array(p[0]))
            n.real.set_rotation(rt)
            n.place = (p[0], n.place[1])
        elif k == 2:
            T, mess = sloppy(rng, npmat(p))
            n.real.set_transform(T)
            n.place = p
        else:
            # take over another one's placement
            m = rng.choice(self.nodes)
            mess = lambda: None
            if rng.random() < .5:
                n.real.set_transform(m.real.get_transform())
                n.place = m.place
            else:
                n.real.set_location(m.real.get_location())
                n.place = (n.place[0], m.place[1])
                if not (n.kind == 'bound' and n.shape == 'bsphere'):
                    n.real.set_rotation(m.real.get_rotation())
                    n.place = m.place
        mess()
        n.touched()
        self.mon.count('moves')

    # -- checks
    def own(self, n):
        mon = self.mon
        T, R, x = n.real.get_transform(), n.real.get_rotation(), n.real.get_location()
        W = npmat(n.place)
        mon.check(T.shape == (4, 4) and np.abs(T - W).max() < 1e-14 and np.abs(T[:3, 3] - W[:3, 3]).max() <= 1e-14*np.abs(W[:3, 3]).max(), 'a %s was given placement %s, its transform reads %s', n.kind, W.tolist(), T.tolist())
        mon.check(R.shape == (3, 3) and np.abs(R - W[:3, :3]).max() < 1e-14, 'a %s was given rotation %s, it reads %s', n.kind, W[:3, :3].tolist(), R.tolist())
        mon.check(x.shape == (3,) and np.abs(x - W[:3, 3]).max() <= 1e-14*np.abs(W[:3, 3]).max(), 'a %s was given location %s, it reads %s', n.kind, W[:3, 3].tolist(), x.tolist())
        mon.event('own_checks')

    def lists(self, n):
        same = lambda a, b: len(a) == len(b) and all(x is y.real for x, y in zip(a, b))
        mon = self.mon
        if n.kind == 'obj':
            mon.check(same(n.real.get_surfaces(), n.surfs), 'an object lists other surfaces than it was given')
            mon.check(same(n.real.get_boundaries(), n.bounds), 'an object lists other boundaries than it was given')
        elif n.kind == 'asm':
            mon.check(same(n.real.get_local_objects(), n.kids_o), 'an assembly lists other objects than it was given')
            mon.check(same(n.real.get_assemblies(), n.kids_a), 'an assembly lists other subassemblies than it was given')
            objs = n.real.get_objects()
            want = self.all_objects(n)
            mon.check(len(objs) == len(want) and set(map(id, objs)) == set(id(x.real) for x in want), 'an assembly lists other nested objects than it has')
            if want:
                surfs = n.real.get_surfaces()
                ws = [s for o in objs for s in o.get_surfaces()]
                mon.check(len(surfs) == len(ws) and all(a is b for a, b in zip(surfs, ws)), "an assembly's surfaces are not in the order of its objects")
        mon.count('list_checks')

    def all_objects(self, n):
        return [o for a in n.kids_a for o in self.all_objects(a)] + list(n.kids_o)

    def settle(self):
        """Propagate from an outermost container and compare all world placements below it."""
        rng, mon = self.rng, self.mon
        roots = [n for n in self.by('asm', 'obj') if n.parent is None]
        for r in roots:
            if rng.random() < .5:
                r.real.transform_children()
            else:
                k = rng.randrange(3)
                p = r.place = self.place()
                if k == 0:
                    r.real.set_transform(npmat(p))
                elif k == 1:
                    r.real.set_location(np.array(p[1]))
                    r.real.set_rotation(np.array(p[0]))
                else:
                    r.real.set_rotation(np.array(p[0]))
                    r.real.set_location(np.array(p[1]))
        for r in roots:
            r.fresh = True
            self.below(r, G.EYE, 0)

    def fresh_roots(self):
        """Setting, building or adding to an outermost container needs no further propagation."""
        for r in [n for n in self.by('asm', 'obj') if n.parent is None and n.fresh]:
            if r.surfs or r.bounds or r.kids_o or r.kids_a:
                self.below(r, G.EYE, 0)
                self.mon.count('fresh_checks')

    def below(self, n, w, depth):
        w = G.compose(w, n.place)
        for a in n.kids_a + n.kids_o:
            self.below(a, w, depth + 1)
        for s in n.surfs:
            self.world(s, G.compose(w, s.place), depth)
        for b in n.bounds:
            self.bworld(b, G.compose(w, b.place), depth)

    def world(self, s, W, depth):
        mon, rng = self.mon, self.rng
        scale = 1. + G.norm(W[1])
        loc = [rvec(rng, 2.) for _ in range(3)]
        pts = np.array([G.apply(W, x) for x in loc]).T
        got = s.real.global_to_local(pts)[:3].T
        mon.check(np.abs(got - np.array(loc)).max() < 1e-9*scale, 'a surface %d containers deep is placed wrongly: the points %s read %s in its frame', depth, loc, got.tolist())
        mon.event('world_checks')
        mon.state('surf', depth)
        # and as rays see it
        h = rng.uniform(.5, 2.)
        up = rng.choice([1., -1.])
        o = G.apply(W, (loc[0][0], loc[0][1], h*up))
        d = G.mv(W[0], (0., 0., -up))
        t = s.real.register_incoming(RayBundle(vertices=np.array(o)[:, None], directions=np.array(d)[:, None], energy=np.ones(1), ref_index=np.ones(1)))
        mon.check(abs(t[0] - h) < 1e-9*scale, 'a surface %d containers deep is met at %r instead of %r', depth, t[0], h)
        s.real.done()
        mon.event('traced_checks')

    def bworld(self, b, W, depth):
        mon, rng = self.mon, self.rng
        bd = (b.shape, W, b.size)
        pts = [G.apply(W, rvec(rng, 2.*b.size)) for _ in range(6)]
        got = b.real.in_bounds(np.array(pts))
        for x, y in zip(pts, got):
            m = G.bound_margin(bd, x) if b.shape != 'bcyl' else G.bound_margin((b.shape, W, b.size), x)
            if abs(m) > 1e-7*(1 + G.norm(W[1])):
                mon.check(bool(y) == (m > 0), 'a %s %d containers deep reports the point %s %s, but it is %g inside', b.shape, depth, x, 'inside' if y else 'outside', m)
                mon.event('bound_checks')
        mon.state(b.shape, depth)


def history(rng, mon, tier, steps=(10, 45)):
    m = Machine(rng, mon)
    n = rng.randint(*steps)
    log = []
    for k in range(n):
        x = rng.random()
        op = ('new_surface' if x < .17 else 'new_bound' if x < .25 else 'new_object' if x < .38 else 'new_assembly' if x < .48 else
            'add' if x < .65 else 'move' if x < .9 else 'settle')
        if op == 'move' and not m.nodes:
            op = 'new_surface'
        log.append(op)
        getattr(m, op)()
        if rng.random() < .25:
            m.fresh_roots()
        for node in (m.nodes if len(m.nodes) < 12 else rng.sample(m.nodes, 10)):
            m.own(node)
    m.settle()
    for node in m.nodes:
        m.own(node)
        m.lists(node)
    mon.input('history', [log, [nd.place[1] for nd in m.nodes]])


def deep(rng, mon, tier):
    history(rng, mon, tier, (60, 150))

QUICK = 2.5
KINDS = dict(history=(history, 300, 12000), deep=(deep, 60, 2500))
