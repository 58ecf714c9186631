from common import *
from c22 import walls
from tracer.models import tau_minidish, PETAL_dish
from tracer.models.homogenized_local_receiver import HomogenizedLocalReceiver

RULE = ("a case builds a dish concentrator of random or standard dimensions and placement, traces sunlight and stray light through it in one or several traces, "
    "compares every bounce with the reference and the receiver's energy map with the reference's arrivals; non-trivial if light was compared")
ASSUMPTIONS = ["the receiver's opaque back lies a hair behind it, the order of the two is that of the side of arrival",
    "with an aspect other than 1 the second side is scaled, as the code does (the documentation of PETAL names the other)"]
MINIMUM = dict(hits=3000, focused=1000, maps=100, map_energy=500, measures=150, received=500, mirrored=20)


def place_of(rng, L, root):
    place = rplace(rng, L*rng.choice([1., 5.]))
    if rng.random() < .5:
        root.set_transform(npmat(place))
        return place, root
    w = rplace(rng, L)
    top = Assembly(subassemblies=[root])
    root.set_transform(npmat(G.compose(G.inverse(w), place)))
    top.set_transform(npmat(w))
    return place, top


def reference(kind, D, f, eff, pos, sides, depth, heff, place):
    flip = (G.rot((1., 0., 0.), pi), (0., 0., pos))
    rec = G.compose(place, flip)
    S = []
    front = G.Surf(('rect',) + tuple(sides), ('rrecv', 1.), rec, obj=0, group=('rec', 0.))
    back = G.Surf(('rect',) + tuple(sides), ('refl', 1.), G.compose(rec, (G.I3, (0., 0., -1e-10))), obj=0, group=('rec', -1e-10))
    S += [front, back, G.Surf((kind, D, f), ('refl', 1 - eff), place, obj=1)]
    for s in walls(sides[0], sides[1], depth, heff, rec):
        s.obj += 2
        S.append(s)
    return S


def expect_map(lv, log, surfs, sides):
    """Arrivals at the receiver by the record: local point and energy; None if some are undecided."""
    out, sure = [], True
    rec = surfs[0].place
    for l in range(len(lv)):
        kids = kids_of(lv, l)
        for i in range(lv[l]['n']):
            o = log[l][i]
            if o[0] == 'open' and i in kids:
                x = G.unapply(rec, lv[l + 1]['v'][kids[i][0]])
                if abs(x[2]) < 1e-6 and abs(x[0]) < sides[0]/2 + 1e-5 and abs(x[1]) < sides[1]/2 + 1e-5:
                    sure = False
            if o[0] == 'hit' and o[1] == 0:
                out.append((G.unapply(rec, lv[l + 1]['v'][kids[i][0]]), lv[l]['e'][i]))
    return out, sure


def dish(rng, mon, tier):
    L = rng.choice([1., lin(rng, .1, 20.)])
    k = rng.randrange(4)
    if k == 0:
        D, C, vs = L*lin(rng, .5, 5.), lin(rng, 100., 3000.), rng.choice([0, 1, 2, rng.uniform(0, 3)])
        kw = {}
        eff, heff = .9, .9
        if rng.random() < .6:
            eff, heff = rng.uniform(.3, 1.), rng.uniform(.3, 1.)
            kw = dict(dish_opt_eff=eff, homog_opt_eff=heff)
        obj, f, W, H = tau_minidish.standard_minidish(D, C, vs, **kw)
        check_measures(mon, D, C, vs, f, W, H)
        pos, sides, depth, kind = f + H, (W, W), H, 'dish'
        mon.check(tuple(obj.get_external_dimensions()) == (D, f + H), 'external dimensions of a standard dish are %s', obj.get_external_dimensions())
    else:
        D = L*lin(rng, .5, 5.)
        f = D*lin(rng, .3, 1.5)
        eff, heff = rng.choice([1., rng.uniform(.3, 1.)]), rng.choice([1., rng.uniform(.3, 1.)])
        W = D*lin(rng, .02, .2)
        depth = D*lin(rng, .02, .3)
        pos = f + rng.choice([0., depth, depth*rng.uniform(-.5, 1.)])
        if pos - depth < .3*f + D*D/16/f:
            return
        asp = 1. if rng.random() < .4 else rng.choice([.5, 2., lin(rng, .04, 12.)])
        sides = (W, W*asp)
        kw = {} if asp == 1. else dict(receiver_aspect=asp)
        if k == 1:
            kind = 'dish'
            obj = tau_minidish.MiniDish(D, f, eff, pos, W, depth, heff, **kw)
        elif k == 2:
            kind = 'hexdish'
            obj = PETAL_dish.PETAL(D, f, eff, pos, W, depth, heff, **kw)
        else:
            kind = rng.choice(['dish', 'hexdish'])
            surf = Surface(real_geom((kind, D, f)), oc.Reflective(1 - eff))
            obj = HomogenizedLocalReceiver(surf, pos, sides if asp != 1. or rng.random() < .5 else W, depth, heff)
            mon.check(obj.get_main_reflector() is surf, 'the main reflector is not the one given')
        if k < 3:
            mon.check(tuple(obj.get_external_dimensions()) == (D, pos), 'external dimensions of a dish are %s', obj.get_external_dimensions())
    mon.input('dish', [k, D, f, eff, pos, sides, depth, heff])
    place, root = place_of(rng, L, obj)
    surfs = reference(kind, D, f, eff, pos, sides, depth, heff, place)
    eng = TracerEngine(root)
    want, sure = [], True
    foc = G.apply(place, (0., 0., f))
    axis = G.mv(place[0], (0., 0., -1.))
    scale = max(L, D, f, G.norm(place[1]))
    bins = rng.choice([None, 'any', 50, 4, rng.randint(1, 20)])
    mirrored = None
    for _ in range(rng.randint(1, 4)):
        n = rng.choice([1, rng.randint(10, 80), rng.randint(10, 80)])
        V, Dr = [], []
        mode = rng.random()
        if mirrored:
            V, Dr, E, reps, me, mode = mirrored
            n = len(V)
            mon.count('mirrored')
        for _ in range(n if not mirrored else 0):
            if mode < .5:
                r, a = D/2*sqrt(rng.random())*1.05, rng.uniform(0, 2*pi)
                d = (0., 0., -1.)
                if mode > .2:
                    d = G.unit((rng.uniform(-1, 1)*5e-3, rng.uniform(-1, 1)*5e-3, -1.))
                x = (r*cos(a), r*sin(a), pos + .5*D)
                V.append(G.apply(place, x))
                Dr.append(G.mv(place[0], d))
            elif mode < .8:
                # from about the focus towards the receiver
                d = G.unit((rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(.2, 1.)))
                x = (sides[0]*rng.uniform(-.4, .4), sides[1]*rng.uniform(-.4, .4), pos - depth)
                V.append(G.apply(place, G.sub(x, G.mul(d, rng.choice([0., .1*depth])))))
                Dr.append(G.mv(place[0], d))
            else:
                v, d = aimed_ray(rng, surfs, L)
                V.append(v)
                Dr.append(d)
        if not mirrored:
            E = [lin(rng, .1, 10.) for _ in range(n)]
            reps = rng.randint(3, 25)
            me = rng.choice([0., 0., 1e-3])
        mirrored = None
        eng.ray_tracer(gen.bundle(dict(v=V, d=Dr, e=E)), reps, me)
        lv = levels(eng.tree)
        log = verify_trace(mon, surfs, lv, reps, me, ALL)
        w, s = expect_map(lv, log, surfs, sides)
        want += w
        sure = sure and s
        mon.count('received', len(w))
        # The dish focuses
        kids = kids_of(lv, 0)
        for i in range(n):
            if log[0][i] == ('hit', 2) and mode <= .2:
                x, d = lv[1]['v'][kids[i][0]], lv[1]['d'][kids[i][0]]
                m = G.sub(foc, x)
                off = G.norm(G.sub(m, G.mul(d, G.dot(m, d))))
                mon.check(off < 1e-7*scale and (G.dot(m, d) > 0), 'light parallel to the axis passes the focus of a dish at distance %r', off)
                mon.check(abs(lv[1]['e'][kids[i][0]] - eff*E[i]) < 1e-9*E[i], 'a dish of efficiency %r leaves energy %r of %r', eff, lv[1]['e'][kids[i][0]], E[i])
                mon.event('focused')
        if rng.random() < .7:
            energy_map(rng, mon, obj, want, sure, sides, scale, bins)
        if rng.random() < .3:
            # a fresh account, perhaps of the mirror image of the same light
            obj.get_receiver_surf().get_optics_manager().reset()
            want, sure = [], True
            mon.count('fresh_accounts')
            if rng.random() < .7:
                m = rng.choice([(-1., 1., 1.), (1., -1., 1.), (-1., -1., 1.)])
                flip = lambda x: (m[0]*x[0], m[1]*x[1], x[2])
                mirrored = [[G.apply(place, flip(G.unapply(place, x))) for x in V], [G.mv(place[0], flip(G.mtv(place[0], d))) for d in Dr], E, reps, me, mode]
    energy_map(rng, mon, obj, want, sure, sides, scale, bins)
    mon.state('dish', k, kind, sides[0] == sides[1], place == G.EYE)


def energy_map(rng, mon, obj, want, sure, sides, scale, bins='any'):
    if bins == 'any':
        bins = rng.choice([None, 50, 1, 2, 5, rng.randint(1, 20)])
    H, xb, yb = obj.histogram_hits() if bins is None else obj.histogram_hits(bins)
    nb = 50 if bins is None else bins
    H, xb, yb = np.asarray(H), np.asarray(xb), np.asarray(yb)
    mon.check(H.shape == (nb, nb) and xb.shape == (nb + 1,) and yb.shape == (nb + 1,), 'an energy map of %s bins has shapes %s, %s, %s', bins, H.shape, xb.shape, yb.shape)
    for e, s in ((xb, sides[0]), (yb, sides[1])):
        mon.check(abs(e - np.linspace(-s/2, s/2, nb + 1)).max() < 1e-9*s, 'the bins of a map span %r..%r on a side of %r', e[0], e[-1], s)
    if not sure:
        mon.count('maps_left_open')
        return
    total = sum(e for _, e in want)
    mon.check(abs(H.sum() - total) <= 1e-9*total + 1e-300, 'the energy map adds up to %r, %r arrived', H.sum(), total)
    sums = {}
    loose = set()
    for x, e in want:
        u, v = (x[0] + sides[0]/2)/sides[0]*nb, (x[1] + sides[1]/2)/sides[1]*nb
        tol = 1e-8*scale/min(sides)*nb
        i, j = int(min(max(floor(u), 0), nb - 1)), int(min(max(floor(v), 0), nb - 1))
        if abs(u - round(u)) < tol or abs(v - round(v)) < tol:
            for a in (-1, 0, 1):
                for b in (-1, 0, 1):
                    loose.add((i + a, j + b))
        sums[(i, j)] = sums.get((i, j), 0.) + e
    Hl = H.tolist()
    for i in range(nb):
        for j in range(nb):
            if (i, j) in loose:
                continue
            w = sums.get((i, j), 0.)
            mon.check(abs(Hl[i][j] - w) <= 1e-9*total + 1e-300, 'the energy map has %r in bin %d, %d, %r arrived there', Hl[i][j], i, j, w)
    mon.event('maps')
    mon.count('map_energy', len(want))


def check_measures(mon, D, C, vs, f, W, H):
    # 45 degrees between the axis and the light from the rim
    r = D/2
    z = r*r/(4*f)
    mon.check(abs((f - z) - r) < 1e-9*D, 'a standard dish of diameter %r and focal length %r does not have a rim angle of 45 degrees', D, f)
    mon.check(abs(pi*r*r/(W*W) - C) < 1e-9*C, 'a standard dish of diameter %r with receiver side %r does not concentrate by %r', D, W, C)
    n = vs + 1.
    # similar triangles: n receiver widths at distance H beyond the focus plus f subtend the dish: n*W/H = (D - n*W)/f
    mon.check(abs(n*W/H - (D - n*W)/f) < 1e-9*abs(n*W/H), 'a standard dish has its receiver %r behind the focus, for %r virtual sources', H, vs)
    mon.event('measures')


def measures(rng, mon, tier):
    D, C, vs = lin(rng, .01, 100.), lin(rng, 20., 1e4), rng.choice([0, 1, 2, 3, rng.uniform(0, 4)])
    W = D/2*sqrt(pi/C)
    if (vs + 1)*W > .9*D:
        return
    mon.input('measures', [D, C, vs])
    f, W, H = tau_minidish.standard_minidish_measures(D, C, vs)
    check_measures(mon, D, C, vs, f, W, H)


QUICK = 4
KINDS = dict(dish=(dish, 170, 6000), measures=(measures, 150, 3000))
