from common import *

RULE = ("a case places one boundary volume by its own and its containers' random placements, moves it about, and asks it about points near and far "
    "from its border; or compares a sphere's rectangle on a random plane with the true circle; non-trivial if points or a rectangle were decided")
ASSUMPTIONS = ["placements are propagated from the outermost container before asking", "points closer to the border than rounding (some 1e-12 of the scene) are left open"]
MINIMUM = dict(points_in=2500, points_out=2500, rectangles=300, no_points=20, one_point=50, moved=100, many_points=10)


def rbound(rng, L):
    k = rng.choice(['bsphere', 'bcyl', 'bplane'])
    p = rplace(rng, L)
    if k == 'bsphere':
        return (k, (G.I3, p[1]), L*lin(rng, .05, 20.))
    if k == 'bcyl':
        return (k, p, L*lin(rng, .05, 20.))
    return (k, p)


def points(rng, b, world, L, n):
    """Points in the world, many close to the border."""
    out = []
    full = G.compose(world, b[1])
    for _ in range(n):
        e = rng.choice([1, -1])*L*10**rng.uniform(-12, .5)
        j = rng.random()
        if j < .15:
            out.append(G.add(full[1], rvec(rng, L*lin(rng, .1, 30.))))
            continue
        if b[0] == 'bsphere':
            x = G.mul(rdir(rng), max(b[2] + e, 0.))
        elif b[0] == 'bcyl':
            a, r = rng.uniform(0, 2*pi), max(b[2]/2 + e, 0.)
            x = (r*cos(a), r*sin(a), rng.uniform(-1, 1)*L*lin(rng, .1, 30.))
        else:
            x = (rng.uniform(-1, 1)*L*10, rng.uniform(-1, 1)*L*10, e)
        out.append(G.apply(full, x))
    return out


def ask(mon, rng, b, real, world, L):
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, rng.randint(6, 80)])
    if n == 0:
        mon.count('no_points')
    if n == 1:
        mon.count('one_point')
    if rng.random() < .04:
        n = rng.choice([crowd(rng, 1, 1.), rng.choice([1, 2, 3, 4])*rng.choice([256, 512, 1000, 1024]) + rng.choice([-1, 0, 1, 1]), rng.randint(100, 5000)])
        mon.count('many_points')
    P = points(rng, b, world, L, n)
    arr = np.array(P).reshape(n, 3)
    if rng.random() < .1:
        arr = np.round(arr).astype(int)
        P = [tuple(float(c) for c in x) for x in arr.tolist()]
    if rng.random() < .3:
        arr = np.asfortranarray(arr)
    keep = arr.copy()
    got = np.asarray(real.in_bounds(arr))
    mon.check((arr == keep).all(), 'in_bounds changed the points')
    mon.check(got.shape == (n,) and got.dtype == np.bool_, 'in_bounds answered %d points with shape %s of %s', n, got.shape, got.dtype)
    for x, g in zip(P, got.tolist()):
        y = G.unapply(world, x)
        m = G.bound_margin(b, y)
        far = max(L, G.norm(x), b[2] if len(b) > 2 else 0., G.norm(world[1]))
        if abs(m) < 1e-12*far + (1e-14*far**2/b[2] if len(b) > 2 else 0.):
            mon.count('left_open')
            continue
        mon.check(g == (m > 0), 'the point %s lies %r %s a boundary %s in a frame at %s, in_bounds says %s', x, abs(m), 'inside' if m > 0 else 'outside', b, world, g)
        mon.event('points_in' if m > 0 else 'points_out')
    mon.state(b[0], n if n < 4 else 4)


def inside(rng, mon, tier):
    L = 1. if rng.random() < .5 else lin(rng, 1e-2, 1e3)
    b = rbound(rng, L)
    real = real_bound(b)
    mon.input('bound', [b, L])
    how = rng.randrange(5)
    if how == 0:
        ask(mon, rng, b, real, G.EYE, L)
        for _ in range(rng.randint(1, 3)):
            w = rplace(rng, L)
            real.transform_frame(npmat(w))
            ask(mon, rng, b, real, w, L)
        return
    w1 = rplace(rng, L)
    if how == 1:
        obj = AssembledObject(bounds=[real], transform=npmat(w1))
    elif how == 2:
        obj = AssembledObject(transform=npmat(w1))
        obj.add_boundary(real)
    else:
        obj = AssembledObject(surfs=[Surface(FlatGeometryManager(), oc.Reflective(0.))], bounds=[real])
        obj.set_transform(npmat(w1))
    ask(mon, rng, b, real, w1, L)
    chain = [w1]
    nodes = [obj]
    for _ in range(rng.randint(0, 3)):
        w = rplace(rng, L)
        a = Assembly(objects=[nodes[0]] if len(nodes) == 1 else [], subassemblies=[] if len(nodes) == 1 else [nodes[0]])
        a.set_transform(npmat(w))
        nodes.insert(0, a)
        chain.insert(0, w)
    def world():
        w = G.EYE
        for x in chain:
            w = G.compose(w, x)
        return w
    nodes[0].transform_children()
    ask(mon, rng, b, real, world(), L)
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(len(nodes) + 1)
        w = rplace(rng, L)
        if k == len(nodes):
            b = (b[0], (w[0] if b[0] != 'bsphere' else G.I3, w[1])) + tuple(b[2:])
            if rng.random() < .5:
                real.set_transform(npmat(b[1]))
            else:
                real.set_location(np.array(b[1][1]))
                real.set_rotation(np.array(b[1][0]))
        else:
            chain[k] = w
            j = rng.randrange(2)
            if j:
                nodes[k].set_transform(npmat(w))
            else:
                nodes[k].set_location(np.array(w[1]))
                nodes[k].set_rotation(np.array(w[0]))
        nodes[0].transform_children()
        mon.count('moved')
        ask(mon, rng, b, real, world(), L)


def rect(rng, mon, tier):
    L = 1. if rng.random() < .5 else lin(rng, 1e-2, 1e3)
    R = L*lin(rng, .1, 10.)
    c0 = rvec(rng, 2*L) if rng.random() < .8 else (0., 0., 0.)
    w = rplace(rng, 2*L)
    real = BoundarySphere(location=np.array(c0), radius=R)
    moved = rng.random() < .75
    if moved:
        if rng.random() < .5:
            real.transform_frame(npmat(w))
        else:
            AssembledObject(bounds=[real], transform=npmat(w))
        c = G.apply(w, c0)
    else:
        c = c0
    # a plane that cuts it: frame whose local z of the centre is within R
    rt = rrot(rng)
    h = R*rng.choice([0., rng.uniform(-.999, .999), rng.uniform(-.99, .99)])
    off = G.mv(rt, (rng.uniform(-3, 3)*L, rng.uniform(-3, 3)*L, h))
    plane = (rt, G.sub(c, off))
    mon.input('rect', [R, c, plane])
    T = npmat(plane)
    keep = T.copy()
    got = [float(x) for x in real.bounding_rect_for_plane(T)]
    mon.check((T == keep).all(), 'bounding_rect_for_plane changed the transform')
    q = G.unapply(plane, c)
    r = sqrt(max(R*R - q[2]**2, 0.))
    tol = 1e-7*max(L, R, G.norm(c), G.norm(plane[1]))
    want = (q[0] - r, q[0] + r, q[1] - r, q[1] + r)
    for g, x, nm in zip(got, want, ('xmin', 'xmax', 'ymin', 'ymax')):
        mon.check(abs(g - x) < tol, 'a sphere of radius %r at %s meets the plane of %s with %s %r, reported is %r', R, c, plane, nm, x, g)
    mon.event('rectangles')
    mon.state('rect', moved, h == 0)


QUICK = 6
KINDS = dict(inside=(inside, 400, 30000), rect=(rect, 500, 30000))
