from common import *
from tracer import spatial_geometry as SG

RULE = ("a case builds rotations, transforms and direction frames for random and special axes, angles and directions, and tests them and their action on "
    "random points; non-trivial if a matrix was tested")
ASSUMPTIONS = ["axes and directions are unit vectors, as documented"]
MINIMUM = dict(rotations=1000, transforms=500, frames=3000, many=200, along_z=100, axis_helpers=500, translations=200)

ANGLES = [0., pi/2, pi, -pi/2, -pi, 2*pi, pi/4, 1e-9, -1e-9, pi - 1e-9, 3*pi/2]

def rang(rng):
    k = rng.random()
    if k < .3:
        return rng.choice(ANGLES)
    if k < .55:                         # just off a special angle
        return rng.choice([0., 0., pi/2, pi, -pi/2, -pi, 2*pi, -2*pi]) + rng.choice([1, -1])*10**rng.uniform(-12, -.5)
    if k < .6:
        return rng.choice([1, -1])*10**rng.uniform(1, 4)
    return rng.uniform(-4*pi, 4*pi)

def raxis(rng):
    k = rng.random()
    if k < .35:
        return rng.choice(AXES)
    if k < .5:
        return G.unit(G.add(rng.choice(AXES), G.mul(rdir(rng), 10**rng.uniform(-10, -2))))
    if k < .6:
        a = rng.uniform(0, 2*pi)
        return rng.choice([(cos(a), sin(a), 0.), (0., cos(a), sin(a)), (cos(a), 0., sin(a))])
    return rdir(rng)

def proper(mon, R, what, tol=1e-12):
    R = [list(map(float, r)) for r in np.asarray(R).tolist()]
    for i in range(3):
        for j in range(3):
            x = sum(R[k][i]*R[k][j] for k in range(3))
            mon.check(abs(x - (i == j)) < tol, '%s is not orthonormal: columns %d and %d give %r', what, i, j, x)
    mon.check(abs(G.det(R) - 1) < tol, '%s has determinant %r', what, G.det(R))
    return R

def rodrigues(a, t, p):
    """Independent of matrices: turn p about a by t, right-handed."""
    par = G.mul(a, G.dot(a, p))
    per = G.sub(p, par)
    return G.add(par, G.add(G.mul(per, cos(t)), G.mul(G.cross(a, per), sin(t))))

def turns(mon, rng, R, a, t, what):
    for _ in range(3):
        p = rvec(rng, 2.)
        q = rodrigues(a, t, p)
        g = tuple(sum(R[i][k]*p[k] for k in range(3)) for i in range(3))
        mon.check(G.dist(g, q) < 1e-11, '%s takes %s to %s, not to %s', what, p, g, q)

def axis(rng, mon, tier):
    a, t = raxis(rng), rang(rng)
    mon.input('axis', [a, t])
    an = np.array(a)
    R = SG.general_axis_rotation(an, t)
    mon.check(tuple(an.tolist()) == tuple(a), 'general_axis_rotation changed its axis')
    mon.check(np.shape(R) == (3, 3), 'a rotation of shape %s', np.shape(R))
    what = 'the rotation about %s by %r' % (a, t)
    turns(mon, rng, proper(mon, R, what), a, t, what)
    mon.event('rotations')
    if rng.random() < .5:
        tr = rvec(rng, lin(rng, .1, 1e3))
        col = np.array(tr)[:, None]
        T = np.asarray(SG.generate_transform(an, t, col))
        mon.check(T.shape == (4, 4), 'a transform of shape %s', T.shape)
        what = 'the transform about %s by %r' % (a, t)
        turns(mon, rng, proper(mon, T[:3, :3], what), a, t, what)
        mon.check(T[:3, 3].tolist() == list(tr) and T[3].tolist() == [0, 0, 0, 1], '%s with translation %s is %s', what, tr, T.tolist())
        mon.event('transforms')
    for nm, ax in (('rotx', (1., 0., 0.)), ('roty', (0., 1., 0.)), ('rotz', (0., 0., 1.))):
        T = np.asarray(getattr(SG, nm)(t))
        what = '%s(%r)' % (nm, t)
        mon.check(T.shape == (4, 4) and T[3].tolist() == [0, 0, 0, 1] and T[:, 3].tolist() == [0, 0, 0, 1], '%s is %s', what, T.tolist())
        turns(mon, rng, proper(mon, T[:3, :3], what), ax, t, what)
        mon.event('axis_helpers')
    x = rvec(rng, 100.) if rng.random() < .7 else tuple(rng.randint(-5, 5) for _ in range(3))
    T = np.asarray(SG.translate(*x))
    mon.check(T.shape == (4, 4) and T[:3, :3].tolist() == np.eye(3).tolist() and T[:3, 3].tolist() == list(x) and T[3].tolist() == [0, 0, 0, 1], 'translate%s is %s', x, T.tolist())
    mon.event('translations')
    # composition as homogenous matrices
    P = np.dot(SG.translate(*x), SG.rotz(t))
    p = rvec(rng)
    q = np.dot(P, np.append(np.array(p), 1))[:3]
    w = G.add(rodrigues((0., 0., 1.), t, p), x)
    mon.check(G.dist(tuple(q.tolist()), w) < 1e-9, 'translate and rotz compose to %s of %s, not %s', q, p, w)
    mon.state('axis', a in AXES, t in ANGLES)

def one_frame(mon, R, d, what):
    R = proper(mon, R, what, 1e-11)
    mon.check(G.dist(G.col(R, 2), d) < 1e-12, '%s has Z axis %s', what, G.col(R, 2))
    mon.check(abs(R[2][0]) < 1e-12, '%s has an X axis %s out of the XY plane', what, G.col(R, 0))
    mon.event('frames')
    if d[0] == 0 and d[1] == 0:
        mon.count('along_z')
        if d[2] > 0:
            mon.check(all(abs(R[i][j] - (i == j)) < 1e-12 for i in range(3) for j in range(3)), '%s is not the original frame', what)

def frame(rng, mon, tier):
    ds = []
    n = crowd(rng, rng.choice([1, 1, 2, 3, 4, rng.randint(5, 30)]), .01)
    for _ in range(n):
        k = rng.random()
        if k < .25:
            ds.append((0., 0., rng.choice([1., -1.])))
        elif k < .4:
            e = 10**rng.uniform(-12, -1)
            a = rng.uniform(0, 2*pi)
            ds.append((e*cos(a), e*sin(a), sqrt(1 - e*e)*rng.choice([1, -1])))
        else:
            ds.append(raxis(rng))
    if n > 1 and rng.random() < .3:
        ds[1] = ds[0]
    if n > 1 and rng.random() < .3:
        ds[1] = G.mul(ds[0], -1.)
    mon.input('frame', ds)
    if n == 1 and rng.random() < .7:
        a = np.array(ds[0])
        R = np.asarray(SG.rotation_to_z(a))
        mon.check(R.shape == (3, 3) and tuple(a.tolist()) == tuple(ds[0]), 'rotation_to_z of one direction has shape %s or changed its argument', R.shape)
        one_frame(mon, R, ds[0], 'the frame for %s' % (ds[0],))
        return
    if n == 1:
        return
    a = np.array(ds)
    R = np.asarray(SG.rotation_to_z(a))
    mon.check(R.shape == (n, 3, 3), 'rotation_to_z of %d directions has shape %s', n, R.shape)
    mon.check([tuple(x) for x in a.tolist()] == [tuple(x) for x in ds], 'rotation_to_z changed its argument')
    for k in range(n):
        one_frame(mon, R[k], ds[k], 'the frame for %s, %d of %d' % (ds[k], k, n))
        S = np.asarray(SG.rotation_to_z(np.array(ds[k])))
        mon.check(abs(S - R[k]).max() < 1e-12, 'the frame for %s differs with and without company', ds[k])
    mon.event('many')
    mon.state('frame', n if n < 5 else 5, sum(abs(d[2]) == 1 for d in ds))

QUICK = 2
KINDS = dict(axis=(axis, 1200, 60000), frame=(frame, 800, 40000))
