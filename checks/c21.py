from common import *
from tracer.models import heliostat_field as HF

RULE = ("a case is a history of aiming a random heliostat field at sun positions, changing the aim height and moving the whole field, with every heliostat probed "
    "by light from the sun's centre after each aiming, or a layout compared with its rings; non-trivial if a heliostat or layout was probed")
ASSUMPTIONS = ["the sun's position is the vector solar_vector() gives; its azimuth is only required to turn with the azimuth given, starting from east",
    "heliostats at the aim point, or with the sun exactly behind the tower, have no defined aim and are not built", "placements are propagated from the field after aiming"]
MINIMUM = dict(aimed=2000, kept=2000, reflected=2000, backs=500, outlines=2000, facing_down=300, sun_vectors=300, layouts=150, layout_points=2000)


def rsun(rng):
    az = rng.choice([0., pi/2, pi, -pi/2, 3*pi/2]) if rng.random() < .3 else rng.uniform(-2*pi, 2*pi)
    el = rng.choice([0., pi/2, pi/4, 1e-6]) if rng.random() < .3 else rng.uniform(0, pi/2)
    return az, el


def sun_vec(mon, az, el):
    s = tuple(float(x) for x in np.asarray(HF.solar_vector(az, el)).tolist())
    mon.check(len(s) == 3 and abs(G.norm(s) - 1) < 1e-9, 'the sun vector %s is not a unit vector', s)
    mon.check(abs(s[2] - cos(el)) < 1e-12, 'the sun vector %s is not %r from the zenith', s, el)
    h = sin(el)
    mon.check(abs(-s[1] - h*cos(az)) < 1e-7 and abs(abs(s[0]) - h*abs(sin(az))) < 1e-7, 'the sun vector %s is not at azimuth %r from east', s, az)
    mon.event('sun_vectors')
    return s


def probe(mon, surf, v, d):
    """One ray on one surface, through the engine's protocol: (distance, outgoing) or None."""
    b = gen.bundle(dict(v=[v], d=[d], e=[1.]))
    t = float(surf.register_incoming(b)[0])
    if not (1e-9 < t < inf):
        surf.done()
        return None
    surf.select_rays(np.array([0]))
    o = surf.get_outgoing()
    surf.done()
    return t, tuple(o.get_vertices()[:, 0].tolist()), tuple(o.get_directions()[:, 0].tolist()), float(o.get_energy()[0])


def field(rng, mon, tier):
    n = rng.randint(1, 12) if rng.random() < .96 else rng.randint(60, 300)
    L = rng.choice([1., 100., lin(rng, .1, 1e3)])
    pos = []
    aims = [L*rng.uniform(.5, 3.) for _ in range(4)]
    if rng.random() < .25:
        aims[rng.randrange(4)] = L*rng.uniform(-2., .5)      # on or below the ground
    ints = rng.random() < .25
    hill = 3. if rng.random() < .2 else .3       # heliostats above the aim point, too
    for _ in range(n):
        while True:
            p = tuple(rng.uniform(-3, 3)*L if k < 2 else rng.choice([0., 0., rng.uniform(-.3, hill)*L]) for k in range(3))
            if ints:
                p = tuple(float(round(x)) for x in p)
            if all(G.dist(p, (0., 0., h)) > .05*L for h in aims):
                break
        pos.append(p)
    W, H, ab = L*lin(rng, .02, .5), L*lin(rng, .02, .5), rabs(rng)
    arr = np.array(pos)
    if ints:
        arr = arr.astype(int)
    mon.input('field', [pos, W, H, ab, aims])
    keep = arr.copy()
    h = aims[0]
    f = HF.HeliostatField(arr, W, H, ab, h)
    hs = f.get_heliostats()
    mon.check(len(hs) == n and len(f.get_surfaces()) >= n, 'a field of %d heliostats holds %d', n, len(hs))
    place = G.EYE
    if rng.random() < .4:
        place = rplace(rng, L)
        f.set_transform(npmat(place))
    if rng.random() < .5:       # the caller goes on using the array
        arr[...] = rng.randint(-9, 9)
        keep = arr.copy()
    down = (0., 0., -1.)
    for p, o in zip(pos, hs):
        check_one(rng, mon, place, p, o, down, W, H, ab, L, None)
        mon.event('facing_down')
    for k in range(rng.randint(1, 5) if n < 20 else 1):
        if rng.random() < .4:
            h = rng.choice(aims)
            f.set_aim_height(h)
        if rng.random() < .2:
            place = rplace(rng, L)
            f.set_transform(npmat(place))
        if not k or rng.random() < .7:      # else at the same sun again
            az, el = rsun(rng)
        s = sun_vec(mon, az, el)
        f.aim_to_sun(az, el)
        f.transform_children()
        for p, o in zip(pos, hs):
            aim = (0., 0., h)
            t = G.unit(G.sub(aim, p))
            b = G.add(s, t)
            if G.norm(b) < 1e-3:
                continue
            check_one(rng, mon, place, p, o, G.unit(b), W, H, ab, L, (s, aim))
            mon.event('aimed')
        mon.check((arr == keep).all(), 'aiming changed the positions given')
        mon.state('field', n == 1, ints, place == G.EYE, k)


def check_one(rng, mon, place, p, obj, want, W, H, ab, L, aiming):
    surfs = obj.get_surfaces()
    loc = tuple(float(x) for x in np.asarray(obj.get_location()).tolist())
    mon.check(G.dist(loc, p) < 1e-9*L, 'a heliostat placed at %s is at %s', p, loc)
    mon.event('kept')
    R = np.asarray(obj.get_rotation()).tolist()
    nrm = G.col(R, 2)
    mon.check(G.dist(nrm, want) < 1e-6, 'a heliostat at %s faces %s instead of %s', p, nrm, want)
    surf = surfs[0]
    wp = G.apply(place, p)
    scale = L + G.norm(wp)
    # Light from the sun's centre on the mirror's centre
    s = aiming[0] if aiming else G.unit(G.add(want, G.mul(rdir(rng), .5)))
    sw = G.mv(place[0], s)
    r = probe(mon, surf, G.add(wp, G.mul(sw, 2*L)), G.mul(sw, -1.))
    cosi = G.dot(s, want)
    if cosi < 1e-2:
        return
    mon.check(r is not None and G.dist(r[1], wp) < 1e-7*scale, 'light on the centre of a heliostat at %s does not meet it there', wp)
    mon.check(abs(r[3] - (1 - ab)) < 1e-12, 'a heliostat of absorptivity %r leaves energy %r', ab, r[3])
    if aiming:
        aw = G.apply(place, aiming[1])
        mon.check(G.dist(r[2], G.unit(G.sub(aw, wp))) < 3e-6, 'light from the sun %s on a heliostat at %s goes along %s, not to the aim point %s', s, wp, r[2], aw)
        mon.event('reflected')
    # From behind: opaque
    if rng.random() < .3:
        d = G.mv(place[0], want)
        r = probe(mon, surf, G.sub(wp, G.mul(d, L)), d)
        mon.check(r is not None and r[3] == 0., 'light passes or leaves the back of a heliostat: %s', r)
        mon.event('backs')
    # Outline
    e = rng.choice([1e-5, 1e-3, .1])
    a, b = rng.uniform(-.5, .5), rng.uniform(-.5, .5)
    if rng.random() < .5:
        a = rng.choice([-1, 1])*(.5 + rng.choice([e, -e]))
    else:
        b = rng.choice([-1, 1])*(.5 + rng.choice([e, -e]))
    x = G.apply(place, G.add(p, G.add(G.mul(G.col(R, 0), a*W), G.mul(G.col(R, 1), b*H))))
    d = G.mv(place[0], want)
    r = probe(mon, surf, G.add(x, G.mul(d, L)), G.mul(d, -1.))
    if min(abs(abs(a) - .5)*W, abs(abs(b) - .5)*H) > 1e-5*min(W, H) + 1e-8*scale:
        mon.check((r is not None) == (abs(a) < .5 and abs(b) < .5), 'a heliostat of %r by %r is %s at %r, %r', W, H, 'met' if r else 'missed', a*W, b*H)
        mon.event('outlines')


def sun(rng, mon, tier):
    az, el = rsun(rng)
    mon.input('sun', [az, el])
    s = sun_vec(mon, az, el)
    # turning the azimuth turns the sun about the vertical, always in the same sense
    q = rng.uniform(-pi, pi)
    s2 = sun_vec(mon, az + q, el)
    turn = G.mv(G.rot((0., 0., 1.), -q), s)
    mon.check(G.dist(s2, turn) < 1e-7, 'turning the azimuth by %r turns the sun from %s to %s', q, s, s2)


def layout(rng, mon, tier):
    a0 = rng.choice([0., -pi/2, rng.uniform(-pi, pi)])
    a1 = a0 + rng.uniform(.1, 2*pi)
    sp = rng.uniform(.02, .7) if rng.random() < .95 else rng.uniform(.002, .02)
    rmin = lin(rng, .1, 100.)
    rs = rmin*lin(rng, .02, 2.)
    rmax = rmin + rs*rng.uniform(.1, 12)
    if rng.random() < .2:
        rmin, rmax, rs = float(rng.randint(1, 5)), float(rng.randint(6, 12)), float(rng.randint(1, 3))
    mon.input('layout', [a0, a1, sp, rmin, rmax, rs])
    P = np.asarray(HF.radial_stagger(a0, a1, sp, rmin, rmax, rs))
    mon.check(P.ndim == 2 and P.shape[1] == 2, 'a layout of shape %s', P.shape)
    def steps(lo, hi, st):
        sure, k = [], 0
        while lo + k*st < hi - 1e-9*(abs(hi) + st):
            k += 1
        return k, (lo + k*st < hi + 1e-9*(abs(hi) + st))
    nr, mr = steps(rmin, rmax, rs)
    na, ma = steps(a0, a1, sp/2)
    want = {}
    for i in range(nr + mr):
        for j in range(na + ma):
            if i % 2 == j % 2:
                r, a = rmin + i*rs, a0 + j*sp/2
                want[(i, j)] = ((r*cos(a), r*sin(a)), i < nr and j < na)
    grid = {}
    for k, (x, sure) in want.items():
        i = k[0]
        grid.setdefault(i, []).append((k, x, sure))
    hit = set()
    for x in P.tolist():
        i = int(round((sqrt(x[0]**2 + x[1]**2) - rmin)/rs))
        best = None
        for k, y, sure in grid.get(i, []):
            if k in hit:
                continue
            d = sqrt((x[0] - y[0])**2 + (x[1] - y[1])**2)
            if best is None or d < best[0]:
                best = (d, k)
        mon.check(best is not None and best[0] < 1e-8*rmax, 'a layout of rings %r..%r by %r and angles %r..%r by %r has a heliostat at %s', rmin, rmax, rs, a0, a1, sp, x)
        hit.add(best[1])
        mon.event('layout_points')
    for k, (x, sure) in want.items():
        mon.check(k in hit or not sure, 'a layout lacks the heliostat at %s, step %d of ring %d', x, k[1], k[0])
    mon.event('layouts')
    mon.state('layout', nr if nr < 5 else 5, na % 2)


QUICK = 2.5
KINDS = dict(field=(field, 250, 15000), sun=(sun, 200, 10000), layout=(layout, 250, 15000))
