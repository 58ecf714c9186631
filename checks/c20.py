from common import *
from tracer.models.spherical_lens import SphericalLens

RULE = ("a case builds a lens of random valid dimensions, either-sign or planar radii and index, places it anywhere, measures its faces along the axis and "
    "traces rays from outside, inside, along the axis and past the rim through it, compared with the reference body; non-trivial if a ray met the lens")
ASSUMPTIONS = ["lenses whose faces would cross inside the rim, of zero power, or planar on both sides are not built",
    "known findings (KNOWN_FINDINGS.txt) shift the lens along its axis and change the thickness of planar-backed lenses; the body is otherwise compared in full"]
MINIMUM = dict(measures=200, lenses=100, hits=3000, inside_segments=1500, slopes=80, measured=100, axial=80)

KNOWN_SHIFT = "SphericalLens puts the back vertex at +pd instead of -pd, so the focus of a lens with curved front and back faces is at 2*pd - f instead of -f (tests/models/test_spherical_lens.py test_cylinder relies on it)"
KNOWN_THICK = "SphericalLens leaves a planar back face at Z=0 under a curved front, so the lens is depth*(1 + 1/n) thick instead of depth (tests/models/test_spherical_lens.py PlanoConvex.test_cylinder relies on it)"


def sag(R, D):
    """How far the rim of a face of radius R (positive: centre below) lies below its vertex."""
    if R == inf:
        return 0.
    s = abs(R) - sqrt(R*R - D*D/4)
    return s if R > 0 else -s


def rlens(rng):
    while True:
        D = lin(rng, .05, 20.)
        n = rng.choice([1.5, 1.33, rng.uniform(1.1, 2.5)])
        Rs = []
        for _ in range(2):
            k = rng.random()
            Rs.append(inf if k < .18 else rng.choice([1, -1])*D*(lin(rng, .53, 30.) if rng.random() < .8 else lin(rng, 30., 1e4 if rng.random() < .8 else 1e6)))
        R1, R2 = Rs
        if R1 == inf and R2 == inf:
            continue
        edge = D*(lin(rng, .02, 1.) if rng.random() < .7 else lin(rng, 2e-4, .02))
        depth = edge + sag(R1, D) - sag(R2, D)
        if depth < .02*D:
            continue
        P = (n - 1)*(1/R1 - 1/R2 + depth*(n - 1)/R1/R2/n)
        if abs(P)*D < 1e-2:
            continue
        return D, depth, R1, R2, n, 1/P


def body(D, zf, zb, R1, R2, n, place):
    """Reference surfaces."""
    out = []
    for z, R in ((zf, R1), (zb, R2)):
        if R == inf:
            out.append(G.Surf(('round', D/2), ('refr', 1., n), G.compose(place, (G.I3, (0., 0., z))), obj=0))
            continue
        c = sqrt(R*R - D*D/4)
        cut = (G.I3, (0., 0., c)) if R > 0 else (G.rot((1., 0., 0.), pi), (0., 0., -c))
        out.append(G.Surf(('cut', abs(R), ('bplane', cut)), ('refr', 1., n), G.compose(place, (G.I3, (0., 0., z - R))), obj=0))
    lo, hi = zb - sag(R2, D), zf - sag(R1, D)
    out.append(G.Surf(('fcyl', D, hi - lo), ('refr', n, 1.), G.compose(place, (G.I3, (0., 0., (lo + hi)/2))), obj=0))
    return out


def face_z(z, R, D, r2):
    if R == inf:
        return z
    s = abs(R) - sqrt(max(R*R - r2, 0.))
    return z - (s if R > 0 else -s)


def inside(x, D, zf, zb, R1, R2, tol):
    """True, False or None near the surface, for a local point."""
    r2 = x[0]**2 + x[1]**2
    m = min(D/2 - sqrt(r2), face_z(zf, R1, D, min(r2, D*D/4)) - x[2], x[2] - face_z(zb, R2, D, min(r2, D*D/4)))
    if abs(m) < tol:
        return None
    return m > 0


def trace(root, v, d, e, n, reps, mine):
    b = gen.bundle(dict(v=v, d=d, e=e, n=n))
    eng = TracerEngine(root)
    eng.ray_tracer(b, reps, mine)
    return levels(eng.tree)


def lens(rng, mon, tier):
    D, depth, R1, R2, n, f = rlens(rng)
    arg = lambda R: rng.choice([0, None, inf, -inf]) if R == inf else R
    place = rplace(rng, D*rng.choice([1., 5., 30.]))
    how = rng.randrange(4)
    a = (D, depth, arg(R1), arg(R2), n)
    mon.input('lens', [str(a), place, how])
    if how == 0:
        L = SphericalLens(*a, transform=npmat(place))
        root = Assembly(objects=[L])
    elif how == 1:
        L = SphericalLens(*a)
        L.set_transform(npmat(place))
        root = Assembly(objects=[L])
    elif how == 2:
        L = SphericalLens(*a)
        root = Assembly(objects=[L])
        root.set_transform(npmat(place))
    else:
        L = SphericalLens(*a)
        w = rplace(rng, D)
        root = Assembly(objects=[], subassemblies=[])
        root.add_object(L, npmat(G.compose(G.inverse(w), place)))
        root.set_transform(npmat(w))
    mon.event('lenses')
    mon.check(abs(L.focal_length() - f) < 1e-9*abs(f), 'a lens of %s reports focal length %r, the thick-lens equation gives %r', a, L.focal_length(), f)
    scale = max(D, depth, G.norm(place[1]), *[abs(R) for R in (R1, R2) if R != inf])

    # Along the axis: where are the faces?
    far = 3*max(D, depth)
    up, down = [], []
    z0 = (f*depth*(n - 1)/n/R1)
    pts = []
    for sgn in (1, -1):
        v = G.apply(place, (0., 0., sgn*(abs(z0) + depth + far)))
        lv = trace(root, [v], [G.mul(G.col(place[0], 2), -float(sgn))], [1.], [1.], 1, 0.)
        mon.check(len(lv) == 2 and lv[1]['n'] >= 1, 'a ray along the axis of a lens %s does not meet it', a)
        pts.append(G.unapply(place, lv[1]['v'][0])[2])
    zf, zb = pts
    pd = f*depth*(n - 1)/n/R1
    tol = 1e-9*scale + 1e-9*abs(f)
    near = lambda x, y: abs(zf - x) < tol and abs(zb - y) < tol
    if near(depth - pd, -pd):
        zf, zb = depth - pd, -pd
    elif R1 != inf and R2 != inf and near(depth + pd, pd):
        zf, zb = depth + pd, pd
        mon.known(KNOWN_SHIFT)
    elif R1 != inf and R2 == inf and near(depth + pd, 0.):
        zf, zb = depth + pd, 0.
        mon.known(KNOWN_THICK)
    else:
        mon.fail('a lens of %s has its faces at Z = %r and %r, should be %r and %r' % (a, zf, zb, depth - pd, -pd))
    mon.event('measured')
    mon.state('lens', R1 > 0, R1 == inf, R2 > 0, R2 == inf, how)

    surfs = body(D, zf, zb, R1, R2, n, place)
    # Effective focal length: a ray close to the axis leaves with the slope of its height over f
    for sgn in (1, -1):
        h = D*1e-5
        az = rng.uniform(0, 2*pi)
        v = G.apply(place, (h*cos(az), h*sin(az), sgn*(abs(z0) + depth + far)))
        lv = trace(root, [v], [G.mul(G.col(place[0], 2), -float(sgn))], [1.], [1.], 2, 0.)
        i = [i for i in range(lv[1]['n']) if lv[1]['r'][i] == n] if len(lv) > 1 else []
        mon.check(len(lv) == 3 and len(i) == 1, 'a ray along the axis of a lens does not go through')
        j = [j for j in range(lv[2]['n']) if lv[2]['p'][j] == i[0] and lv[2]['r'][j] == 1.]
        mon.check(len(j) == 1, 'a ray along the axis of a lens does not go through')
        d = G.mtv(place[0], lv[2]['d'][j[0]])
        x = G.unapply(place, lv[2]['v'][j[0]])
        out = d[0]*cos(az) + d[1]*sin(az)
        mon.check(abs(out + h/f) < 1e-4*abs(h/f) + 1e-6*h/D + 1e-11*scale/min(abs(R1), abs(R2)), 'a ray %r off the axis of a lens leaves with slope %r, the focal length %r asks for %r', h, out, f, -h/f)
        if sgn == 1:
            # and crosses the axis where the measured body says
            zc = x[2] - (x[0]*cos(az) + x[1]*sin(az))/out*d[2]
            want = zb - (f - pd) if R2 != inf or R1 == inf else zb - (f - f*(zf - zb)*(n - 1)/n/R1)
            err = 1e-3*abs(f) + 1e-9*scale*abs(f)/h
            if err < .05*abs(f):
                mon.check(abs(zc - want) < err, 'parallel light crosses the axis of a lens at Z = %r, should be %r', zc, want)
        mon.event('slopes')

    if max(abs(R) for R in (R1, R2) if R != inf) > 1e4*D:
        mon.count('nearly_flat')         # rounding of the far centre is too coarse for the rest
        return

    # All kinds of rays
    N = rng.randint(5, 40)
    V, Dr, ri = [], [], []
    for _ in range(N):
        k = rng.random()
        if k < .45:
            v, d = aimed_ray(rng, surfs, D)
        elif k < .8:                    # from within
            for _ in range(50):
                r, az = D/2*sqrt(rng.random()), rng.uniform(0, 2*pi)
                z = rng.uniform(min(zb, zb - sag(R2, D)), max(zf, zf - sag(R1, D)))
                if inside((r*cos(az), r*sin(az), z), D, zf, zb, R1, R2, 1e-4*D):
                    break
            v = G.apply(place, (r*cos(az), r*sin(az), z))
            d = rdir(rng)
        else:                           # parallel to the axis
            r, az = D/2*sqrt(rng.random())*1.1, rng.uniform(0, 2*pi)
            sgn = rng.choice([1, -1])
            v = G.apply(place, (r*cos(az), r*sin(az), sgn*(abs(z0) + depth + far)))
            d = G.mul(G.col(place[0], 2), -float(sgn))
            mon.count('axial')
        w = inside(G.unapply(place, v), D, zf, zb, R1, R2, 1e-6*scale)
        if w is None:
            continue
        V.append(v)
        Dr.append(d)
        ri.append(n if w else 1.)
    if not V:
        return
    reps = rng.randint(2, 7)
    me = rng.choice([0., 1e-3, .02])
    lv = trace(root, V, Dr, [1.]*len(V), ri, reps, me)
    log = verify_trace(mon, surfs, lv, reps, me, ALL)
    # Light between two meetings with the lens is inside or outside as its index says
    sure = [True]*lv[0]['n']
    for l in range(len(lv)):
        kids = kids_of(lv, l)
        nsure = [False]*(lv[l + 1]['n'] if l + 1 < len(lv) else 0)
        for i in range(lv[l]['n']):
            o = log[l][i][0]
            for k in kids.get(i, []):
                nsure[k] = sure[i] and o == 'hit'
            if not sure[i]:
                continue
            if o == 'miss':
                mon.check(lv[l]['r'][i] == 1., 'light that leaves the lens for good travels in index %r', lv[l]['r'][i])
                mon.event('outside_segments')
            if o != 'hit' or i not in kids:
                continue
            x, y = lv[l]['v'][i], lv[l + 1]['v'][kids[i][0]]
            q = G.unapply(place, G.mul(G.add(x, y), .5))
            w = inside(q, D, zf, zb, R1, R2, 1e-7*scale)
            if w is None:
                continue
            mon.check(lv[l]['r'][i] == (n if w else 1.), 'light %s the lens (at local %s) travels in index %r', 'inside' if w else 'outside', q, lv[l]['r'][i])
            mon.event('inside_segments' if w else 'outside_segments')
        sure = nsure


def measures(rng, mon, tier):
    """Focal lengths of lenses thin and thick, weak and strong."""
    for _ in range(10):
        D, n = lin(rng, .01, 100.), rng.choice([1.5, rng.uniform(1.01, 4.)])
        R1, R2 = (rng.choice([1, -1])*D*lin(rng, .51, 1e5) if rng.random() < .85 else inf for _ in range(2))
        edge = D*lin(rng, 1e-5, 3.)
        depth = edge + sag(R1, D) - sag(R2, D)
        P = (n - 1)*(1/R1 - 1/R2 + depth*(n - 1)/R1/R2/n)
        if depth < 1e-6*D or abs(P) < 1e-6*(n - 1)*(1/abs(R1) + 1/abs(R2)) or R1 == inf and R2 == inf:
            continue
        mon.input('measures', [D, depth, R1, R2, n])
        f = SphericalLens(D, depth, R1, R2, n).focal_length()
        mon.check(abs(f*P - 1) < 1e-7, 'a lens of %s reports focal length %r, the thick-lens equation gives %r', (D, depth, R1, R2, n), f, 1/P)
        mon.event('measures')


QUICK = 3
KINDS = dict(measures=(measures, 60, 3000), lens=(lens, 250, 12000))
