"""Direct checks of one surface through the protocol the engine uses: register, select, outgoing, done."""
from common import *

def wide_geom(rng, kinds):
    """Shapes over a wide range of sizes and aspects."""
    L = 10**rng.uniform(-2, 2) if rng.random() < .5 else 1.
    k = rng.choice(kinds)
    if rng.random() < .5:
        return rgeom(rng, (k,), L), L
    e = lambda a=.02, b=50.: L*lin(rng, a, b)
    if k == 'rect':
        a = e()
        return (k, a, a if rng.random() < .2 else e()), L
    if k in ('round', 'sphere', 'hemi'):
        return (k, e()), L
    if k == 'fcyl':
        return (k, e(.05, 5.), e(.05, 20.)), L
    if k in ('dish', 'hexdish'):
        return (k, e(.1, 5.), e(.1, 20.)), L
    if k == 'parab':
        return (k, e(.2, 5.), e(.2, 5.)), L
    return rgeom(rng, (k,), L), L

def decide(s, v, d, scale):
    """('miss',), ('open',) or ('hit', t, terr, cosine) for one surface, with tight edges."""
    o, dl = G.unapply(s.place, v), G.mtv(s.place[0], d)
    firm, opens = [], []
    for t, terr, mg, c in G.crossings(s.geom, o, dl, scale):
        if terr == inf:
            if t > -1e-2*scale:
                opens.append(t)
            continue
        if t + terr < G.SELF_LO:
            continue
        tol = 1e-10*scale + 30*terr
        if s.geom[0] in ('dish', 'hexdish'):
            tol *= max(1., 4*s.geom[2]/s.geom[1])
        if mg < -tol:
            continue
        if t - terr < G.SELF_HI or mg < tol:
            opens.append(t)
        else:
            firm.append((t, terr, c))
    if not firm:
        return ('open',) if opens else ('miss',)
    t, terr, c = min(firm)
    if any(x <= t + terr + 1e-6*scale for x in opens):
        return ('open',)
    if len(firm) > 1 and max(firm)[0] - t < 10*(terr + max(firm)[1]) + 1e-12*scale:
        return ('open',)
    return ('hit', t, terr, c)

def near_edge(rng, g, L):
    """A local point just inside or outside the outline."""
    e = L*10**rng.uniform(-8, -2)*rng.choice([1, -1])
    k = g[0]
    a = rng.uniform(0, 2*pi)
    if k == 'rect':
        x, y = rng.uniform(-.5, .5)*g[1], rng.uniform(-.5, .5)*g[2]
        if rng.random() < .5:
            x = rng.choice([1, -1])*(g[1]/2 + e)
        else:
            y = rng.choice([1, -1])*(g[2]/2 + e)
        return (x, y, 0.)
    if k == 'round':
        return ((g[1] + e)*cos(a), (g[1] + e)*sin(a), 0.)
    if k == 'tri':
        P = [(0., 0.), (g[1], g[2]), (g[3], g[4])]
        i = rng.randrange(3)
        p, q, r = P[i], P[(i + 1) % 3], P[(i + 2) % 3]
        u = rng.uniform(-.05, 1.05)
        x = (p[0] + u*(q[0] - p[0]), p[1] + u*(q[1] - p[1]))
        n = (q[1] - p[1], p[0] - q[0])
        m = sqrt(n[0]**2 + n[1]**2)
        return (x[0] + e*n[0]/m, x[1] + e*n[1]/m, 0.)
    if k == 'hemi':
        z = e
        r = sqrt(max(g[1]**2 - z*z, 0.))
        return (r*cos(a), r*sin(a), z)
    if k == 'fcyl':
        return (g[1]/2*cos(a), g[1]/2*sin(a), rng.choice([1, -1])*(g[2]/2 + e))
    if k == 'dish':
        r = g[1]/2 + e
        p, q = G.parab_ab(g)
        return (r*cos(a), r*sin(a), p*r*r)
    if k == 'hexdish':
        R = g[1]/2
        i = rng.randrange(6)
        c = [(R*cos(pi/2 + j*pi/3), R*sin(pi/2 + j*pi/3)) for j in (i, i + 1)]
        u = rng.uniform(-.05, 1.05)
        x = c[0][0] + u*(c[1][0] - c[0][0])
        y = c[0][1] + u*(c[1][1] - c[0][1])
        f = 1 + e/R
        p, q = G.parab_ab(g)
        x, y = x*f, y*f
        return (x, y, p*(x*x + y*y))
    return sample_point(rng, g)

def hostile_rays(rng, s, n, L):
    V, D = [], []
    axial = rng.random() < .05      # all along the world's axes
    for _ in range(n):
        j = rng.random()
        if axial:
            d = rng.choice(AXES)
            o = G.sub(G.apply(s.place, sample_point(rng, s.geom)), G.mul(d, L*lin(rng, .1, 10.)))
        elif .3 < j < .34:              # from very far
            x = G.apply(s.place, sample_point(rng, s.geom))
            d = rdir(rng)
            o = G.sub(x, G.mul(d, L*10**rng.uniform(2, 6)))
        elif .34 < j < .38:             # from very near
            d = rdir(rng)
            o = G.sub(G.apply(s.place, sample_point(rng, s.geom)), G.mul(d, 10**rng.uniform(-5.5, -2)))
        elif s.geom[0] in G.CURVED and j > .9:      # just touching, from near or far
            x = sample_point(rng, s.geom, 1.)
            nr = G.unit(G.gradient(s.geom, x))
            tg = G.unit(G.cross(nr, rdir(rng)))
            th = 10**rng.uniform(-6, -1.5)*rng.choice([1, -1])
            d = G.mv(s.place[0], G.unit(G.add(tg, G.mul(nr, th))))
            o = G.sub(G.apply(s.place, x), G.mul(d, L*lin(rng, .1, 100.)*rng.choice([1, 1, 1, -1])))
        elif j < .3:
            x = G.apply(s.place, near_edge(rng, s.geom, L))
            d = rdir(rng)
            if rng.random() < .4:
                d = G.mul(G.col(s.place[0], rng.choice([2, 2, 0, 1])), rng.choice([1., -1.]))
            o = G.sub(x, G.mul(d, L*lin(rng, .1, 10.)*rng.choice([1, 1, 1, -1])))
        else:
            o, d = aimed_ray(rng, [s], L)
            if rng.random() < .1:
                d = G.mul(d, -1.)
        V.append(o)
        D.append(d)
    return dict(v=V, d=D, e=[1.]*n)

def make(rng, kinds):
    g, L = wide_geom(rng, kinds)
    place = rplace(rng, L*(rng.choice([1., 1., 10.]) if rng.random() < .94 else 10**rng.uniform(2, 4.5)))
    s = G.Surf(g, ('refl', 0.), place)
    s.outer = s.outer_place = None
    s.own = place
    how = rng.randrange(3)
    if how == 0:
        real = Surface(real_geom(g), oc.Reflective(0.), location=np.array(place[1]), rotation=np.array(place[0]))
    else:
        w = rplace(rng, L)
        inn = G.compose(G.inverse(w), place)
        real = Surface(real_geom(g), oc.Reflective(0.), location=np.array(inn[1]), rotation=np.array(inn[0]))
        obj = AssembledObject(surfs=[real], transform=npmat(w))
        if how == 2:
            u = rplace(rng, L)
            asm = Assembly(objects=[obj])
            obj.set_transform(npmat(G.compose(G.inverse(u), w)))
            asm.set_transform(npmat(u))
            s.outer, s.outer_place = asm, u
        else:
            s.outer, s.outer_place = obj, w
    return s, real, L

def change(rng, s, real, L):
    """Something the user may do to a surface between two questions: move it, or give it another size."""
    gm = real.get_geometry_manager()
    k = s.geom[0]
    if rng.random() < .5:
        if k in ('sphere', 'hemi', 'cut'):
            R = s.geom[1]*lin(rng, .7, 1.6)
            gm.set_radius(R)
            s.geom = (k, R) + tuple(s.geom[2:])
        elif k == 'tri':
            s.geom = rgeom(rng, ('tri',), L)
            g = s.geom
            gm.set_vertices(np.array([[g[1], g[3]], [g[2], g[4]], [0., 0.]]))
        return
    rest = s.own if s.outer is None else G.compose(G.inverse(s.outer_place), s.place)
    w = rplace(rng, L)
    j = rng.random()
    if s.outer is not None and j < .4:      # turn on the spot
        w = G.compose(G.compose(s.place, (rrot(rng), (0., 0., 0.))), G.inverse(rest))
    elif s.outer is not None and j < .7:    # shift only
        w = (s.outer_place[0], w[1])
    if s.outer is None:
        real.transform_frame(npmat(w))
        s.place = G.compose(w, rest)
        return
    if j < .5:
        s.outer.set_transform(npmat(w))
    else:
        s.outer.set_location(np.array(w[1]))
        s.outer.set_rotation(np.array(w[0]))
    s.outer_place = w
    s.place = G.compose(w, rest)

def ask(mon, s, real, r, where=True, rng=None):
    """Registers the rays and checks distance and point of each against the reference."""
    n = len(r['v'])
    base = scale_of([s])
    b = gen.bundle(r)
    keep = (b.get_vertices().copy(), b.get_directions().copy())
    ts = real.register_incoming(b)
    mon.check(ts.shape == (n,), 'a surface asked about %d rays gave an answer of shape %s', n, ts.shape)
    ts = ts.tolist()
    hits = []
    for i in range(n):
        scale = max(base, G.norm(r['v'][i]))
        a = decide(s, r['v'][i], r['d'][i], scale)
        t = ts[i]
        mon.check(t == t and t >= 0, 'a %s %s reports distance %r', s.geom[0], s.geom, t)
        if a[0] == 'open':
            mon.count('left_open')
            continue
        if a[0] == 'miss' and s.geom[0] in ('parab', 'icyl') and 1e6*scale < t < inf:
            mon.count('left_open')      # along the axis of an infinite shape: rounding makes it meet it very far away
            continue
        if a[0] == 'miss':
            mon.check(t == inf or t <= 1e-6, 'the ray from %s along %s passes a %s without a forward crossing inside its outline, a hit is reported at %r',
                r['v'][i], r['d'][i], s.geom, t)
            mon.event('misses')
            mon.state(s.geom[0], 'miss')
            continue
        tol = 20*a[2] + 1e-11*scale
        mon.check(abs(t - a[1]) <= tol, 'the ray from %s along %s meets a %s at distance %r, reported is %r', r['v'][i], r['d'][i], s.geom, a[1], t)
        mon.event('hits')
        dz = G.mtv(s.place[0], r['d'][i])[2]
        mon.state(s.geom[0], 'hit', dz > 0, a[3] < .1, G.dist(r['v'][i], s.place[1]) < G.size(s.geom))
        hits.append((i, a))
    mon.check((b.get_vertices() == keep[0]).all() and (b.get_directions() == keep[1]).all(), 'asking a %s about rays changed them', s.geom[0])
    return b, ts, hits
