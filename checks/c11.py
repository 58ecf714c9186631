from common import *
import shapes
from tracer.models.one_sided_mirror import rect_one_sided_mirror, one_sided_receiver

RULE = ("a case places one mirror, one-sided mirror or receiver of any shape anywhere and sends it a hostile bundle with extra properties; "
    "non-trivial if at least one outgoing ray was compared with the law of reflection")
ASSUMPTIONS = ["which side a ray arrives from is left open within 1e-9 of running along the surface"]
MINIMUM = dict(reflections=8000, front=2000, back=2000, model_front=500, model_back=500, receiver_hits=300)


def check_ray(mon, s, r, i, a, o, k, side=None):
    v, d = r['v'][i], r['d'][i]
    scale = max(scale_of([s]), G.norm(v))
    x = G.add(v, G.mul(d, a[1]))
    w = tuple(o.get_vertices()[:, k].tolist())
    mon.check(G.dist(w, x) <= 50*a[2] + 1e-9*scale, 'a ray meets a %s mirror at %s but goes on from %s', s.geom, x, w)
    n = G.normal_at(s, x, d)
    out = tuple(o.get_directions()[:, k].tolist())
    mon.check(abs(G.norm(out) - 1) < 1e-9, 'a ray leaves a %s mirror with a direction of length %r', s.geom, G.norm(out))
    want = G.reflect(d, n)
    R = G.radius(s.geom)
    tol = 1e-9 + (1e-11*scale + 50*a[2])/R
    mon.check(G.dist(out, want) < tol, 'a ray along %s leaves a %s mirror of normal %s along %s instead of %s', d, s.geom, n, out, want)
    e, ab = r['e'][i], s.optics[1]
    up = G.dot(G.col(s.place[0], 2), d)
    we = e*(1 - ab)
    if s.optics[0] == 'absrefl':
        if abs(up) < 1e-9:
            we = None
        elif up > 0:
            we = 0.
            mon.count('back')
        else:
            mon.count('front')
    if we is not None:
        got = float(o.get_energy()[k])
        mon.check(abs(got - we) <= 1e-12*e, 'a ray of energy %r met a %s of absorptivity %r %s and left with %r instead of %r', e, s.optics[0], ab,
            'from behind' if up > 0 else 'in front', got, we)
    mon.check(float(o.get_ref_index()[k]) == r['n'][i], 'a mirror changed the refractive index of a ray')
    mon.event('reflections')
    mon.state(s.geom[0], s.optics[0], up > 0, ab in (0., 1.))


def direct(rng, mon, tier):
    kinds = G.FLAT + G.CURVED
    s, real, L = shapes.make(rng, kinds)
    s.optics = (rng.choice(['refl', 'absrefl', 'absrefl', 'rrecv']), rabs(rng))
    opt = real_optics(s.optics)
    keep = getattr(real, '_keep', None)
    # same geometry and frame, the wanted optics
    real2 = Surface(real.get_geometry_manager(), opt, location=np.array(s.place[1]), rotation=np.array(s.place[0]))
    for rep in range(rng.randint(1, 3)):
        n = crowd(rng, rng.randint(1, 80))
        r = shapes.hostile_rays(rng, s, n, L)
        r['e'] = [rng.choice([1., 0., lin(rng, 1e-6, 1e6)]) for _ in range(n)]
        if rng.random() < .15:
            r['e'] = [float(rng.randint(0, 40)) for _ in range(n)]
        r['n'] = [rng.choice([1., 1.5, rng.uniform(1, 3)]) for _ in range(n)]
        mon.input('mirror', [s.geom, s.optics, s.place, r['v'][:2], n])
        tag, vec = np.arange(n)*7 + 3, np.array([[rng.random() for _ in range(n)] for _ in range(2)])
        b = gen.bundle(r, tag=tag.copy(), vec=vec.copy())
        real2.register_incoming(b)
        base = scale_of([s])
        hits = []
        for i in range(n):
            a = shapes.decide(s, r['v'][i], r['d'][i], max(base, G.norm(r['v'][i])))
            if a[0] == 'hit':
                hits.append((i, a))
        if rng.random() < .5:
            rng.shuffle(hits)
            hits = hits[:rng.randint(0, len(hits))]
        if hits:
            idx = np.array([i for i, _ in hits])
            real2.select_rays(idx)
            o = real2.get_outgoing()
            mon.check(o.get_num_rays() == len(hits), '%d rays met a mirror, %d left it', len(hits), o.get_num_rays())
            mon.check([int(p) for p in o.get_parents()] == idx.tolist(), 'the rays leaving a mirror name other parents than those that met it')
            mon.check((np.array(o.get_tag()) == tag[idx]).all() and (np.array(o.get_vec()) == vec[:, idx]).all(), 'extra properties changed at a mirror')
            for k, (i, a) in enumerate(hits):
                check_ray(mon, s, r, i, a, o, k)
        real2.done()
        mon.check((b.get_energy() == np.array(r['e'])).all(), 'a mirror changed the energy of the arriving rays')


def models(rng, mon, tier):
    """The one-sided mirror and receiver objects."""
    L = 1.
    w, h, ab = lin(rng, .2, 5.), lin(rng, .2, 5.), rabs(rng)
    recv = rng.random() < .5
    if recv:
        if rng.random() < .3:
            front, obj = one_sided_receiver(w, h)
            ab = 1.
        else:
            front, obj = one_sided_receiver(w, h, ab)
    else:
        if rng.random() < .3:
            obj = rect_one_sided_mirror(w, h)
            ab = 0.
        else:
            obj = rect_one_sided_mirror(w, h, ab)
    p1, p2 = rplace(rng, 3.), rplace(rng, 3.)
    obj.set_transform(npmat(p2))
    root = Assembly(objects=[obj], location=np.array(p1[1]), rotation=np.array(p1[0]))
    place = G.compose(p1, p2)
    s = G.Surf(('rect', w, h), ('absrefl', ab), place)
    n = rng.randint(1, 80)
    r = shapes.hostile_rays(rng, s, n, max(w, h))
    r['e'] = [rng.choice([1., lin(rng, 1e-6, 1e6)]) for _ in range(n)]
    r['n'] = [1.]*n
    mon.input('model', [w, h, ab, recv, place, r['v'][:2], n])
    eng = TracerEngine(root)
    eng.ray_tracer(gen.bundle(r), rng.choice([1, 1, 2, 5]), -1.)
    lv = levels(eng.tree)
    kids = kids_of(lv, 0)
    base = scale_of([s])
    total = 0
    sure = True
    expect = []
    for i in range(n):
        v, d = r['v'][i], r['d'][i]
        a = shapes.decide(s, v, d, max(base, G.norm(v)))
        mine = kids.get(i, [])
        if a[0] == 'open' or abs(a[1]) < 1e-3 if a[0] == 'hit' else a[0] == 'open':
            sure = False
            continue
        up = G.dot(G.col(place[0], 2), d)
        if abs(up) < 1e-4:
            # the opaque plate lies 1e-10 behind the other: a ray skimming along meets it elsewhere
            sure = False
            continue
        if G.dist(v, place[1]) > 1e4:
            # from so far away the two plates lie within rounding of each other: which is met first is open
            sure = False
            continue
        if recv:
            z = G.unapply(place, v)
            dl = G.mtv(place[0], d)
            x, y = (z[k] - dl[k]*z[2]/dl[2] for k in (0, 1))
            if min(abs(abs(x) - w/2), abs(abs(y) - h/2)) < 1e-9/abs(up):
                sure = False                # passes the edge between the two plates
                continue
        if a[0] == 'miss':
            # starting on the plate itself, the other plate lies 1e-10 away and does not count either
            mon.check(not mine, 'a ray passing a one-sided plate leaves a ray there')
            continue
        mon.check(len(mine) == 1, 'a ray meeting a one-sided plate leaves %d rays', len(mine))
        j = mine[0]
        x = G.add(v, G.mul(d, a[1]))
        mon.check(G.dist(x, lv[1]['v'][j]) < 1e-8*max(base, G.norm(v)) + 1e-9/abs(up), 'a ray meets a one-sided plate at %s but goes on from %s', x, lv[1]['v'][j])
        e = r['e'][i]
        if up > 0:
            mon.check(lv[1]['e'][j] == 0., 'a ray from behind a one-sided plate goes on with energy %r of %r', lv[1]['e'][j], e)
            mon.event('model_back')
        else:
            mon.check(abs(lv[1]['e'][j] - e*(1 - ab)) <= 1e-12*e, 'a ray of energy %r leaves a one-sided plate of absorptivity %r with %r', e, ab, lv[1]['e'][j])
            nrm = G.normal_at(s, x, d)
            mon.check(G.dist(lv[1]['d'][j], G.reflect(d, nrm)) < 1e-9, 'a one-sided plate reflects wrongly')
            expect.append((x, e*ab))
            mon.event('model_front')
        # the plate is alone: whatever leaves it, leaves for good
        if len(lv) > 2:
            mon.check(j not in lv[2]['p'], 'a ray that left a single flat plate met it again')
    if recv:
        en, pts = front.get_optics_manager().get_all_hits()
        got = sorted((tuple(round(c, 6) for c in pts[:, k]), float(en[k])) for k in range(len(en)))
        left = [(tuple(pts[:, k].tolist()), float(en[k])) for k in range(len(en))]
        for x, e in expect:
            m = [q for q in left if G.dist(q[0], x) < 1e-6*max(base, 1.) and abs(q[1] - e) <= 1e-9*e + 1e-300]
            mon.check(bool(m), 'a front hit of %r at %s is missing from the receiver', e, x)
            left.remove(m[0])
            mon.event('receiver_hits')
        if sure:
            mon.check(not left, 'the receiver counts %d hits that did not arrive in front: %s', len(left), left[:2])

QUICK = 4
KINDS = dict(direct=(direct, 350, 12000), models=(models, 150, 6000))
