"""Random scenes and rays: plain-data specs, their real counterparts and reference models."""
import numpy as np
import zlib
from math import sqrt, sin, cos, pi, inf
import ref as G

from tracer.surface import Surface
from tracer.object import AssembledObject
from tracer.assembly import Assembly
from tracer.ray_bundle import RayBundle
from tracer import optics_callables as oc
from tracer.flat_surface import FlatGeometryManager, RectPlateGM, RoundPlateGM
from tracer.triangular_face import TriangularFace
from tracer.sphere_surface import SphericalGM, HemisphereGM, CutSphereGM
from tracer.paraboloid import Paraboloid, ParabolicDishGM, HexagonalParabolicDishGM
from tracer.cylinder import InfiniteCylinder, FiniteCylinder
from tracer.boundary_shape import BoundarySphere, BoundaryCylinder, BoundaryPlane

# ------------------------------------------------------------------ primitives
def rvec(rng, L=1.):
    return tuple(rng.uniform(-L, L) for _ in range(3))

def rdir(rng):
    while True:
        v = tuple(rng.gauss(0, 1) for _ in range(3))
        n = G.norm(v)
        if n > 1e-3:
            return G.mul(v, 1./n)

AXES = [(1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (-1., 0., 0.), (0., -1., 0.), (0., 0., -1.)]

def rrot(rng):
    k = rng.random()
    if k < 0.2:
        return G.I3
    if k < 0.45:
        return G.rot(rng.choice(AXES), rng.choice([pi/2, pi, -pi/2, pi/4]))
    if k < 0.5:
        return G.rot(rng.choice(AXES), rng.choice([1e-9, 1e-7, pi - 1e-8, pi/2 + 1e-9, 10**rng.uniform(-6, -3), rng.choice([pi/2, pi]) + 10**rng.uniform(-6, -3)]))
    return G.rot(rdir(rng), rng.uniform(-pi, pi))

def rplace(rng, L=1.):
    k = rng.random()
    if k < 0.15:
        p = (0., 0., 0.)
    elif k < 0.35:
        p = tuple(float(round(c)) for c in rvec(rng, max(L, 1.)))
    else:
        p = rvec(rng, L)
    return (rrot(rng), p)

def lin(rng, a, b):
    """Log-uniform."""
    return a*(b/a)**rng.random()

def rgeom(rng, kinds, L=1.):
    k = rng.choice(kinds)
    s = lambda a=0.3, b=1.5: L*lin(rng, a, b)
    if k == 'plane':
        return ('plane',)
    if k == 'rect':
        return ('rect', s(), s())
    if k == 'round':
        return ('round', s())
    if k == 'tri':
        while True:
            a, b = (rng.uniform(-L, L)*1.5, rng.uniform(-L, L)*1.5), (rng.uniform(-L, L)*1.5, rng.uniform(-L, L)*1.5)
            if a[0]*b[1] - a[1]*b[0] > 0.1*L*L:
                return ('tri', a[0], a[1], b[0], b[1])
    if k in ('sphere', 'hemi'):
        return (k, s())
    if k == 'cut':
        R = s()
        j = rng.random()
        if j < 0.1:
            return ('cut', R, None)
        if j < 0.5:
            return ('cut', R, ('bplane', (rrot(rng), G.mul(rdir(rng), R*rng.uniform(0, .9)))))
        if j < 0.8:
            return ('cut', R, ('bsphere', (G.I3, G.mul(rdir(rng), R*rng.uniform(0.3, 1.4))), R*rng.uniform(.5, 1.2)))
        return ('cut', R, ('bcyl', (rrot(rng), G.mul(rdir(rng), R*rng.uniform(0, .6))), 2*R*rng.uniform(.4, .95)))
    if k == 'parab':
        a = s(.5, 2.)
        return ('parab', a, rng.choice([a, a*(1 + 10**rng.uniform(-6, -1)), s(.5, 2.), s(.5, 2.)]))
    if k in ('dish', 'hexdish'):
        return (k, 2*s(), s(.3, 3.))
    if k == 'icyl':
        return (k, 2*s())
    if k == 'fcyl':
        return (k, 2*s(.2, 1.2), 2*s())
    raise ValueError(k)

def rabs(rng):
    return rng.choice([0., 0., 1., .5, rng.random(), rng.random(), rng.random(), 0, 1])

def roptics(rng, menu):
    k = rng.choice(menu)
    if k == 'refr':
        n = rng.choice([1.5, 1.33, rng.uniform(1.05, 2.6), rng.uniform(1.05, 2.6)])
        m = 1. if rng.random() < .8 else rng.uniform(1.1, 2.)
        return ('refr', 1., n) if rng.random() < .6 else (('refr', n, 1.) if rng.random() < .7 else ('refr', m, n))
    if k in ('refl', 'lamb') and rng.random() < .5:
        return (k, rng.choice([0., .1]))
    return (k, rabs(rng))

# ------------------------------------------------------------------ the real things
def npmat(place):
    return np.array(G.matrix(place))

def real_bound(b):
    loc = np.array(b[1][1])
    if b[0] == 'bsphere':
        return BoundarySphere(location=loc, radius=b[2])
    if b[0] == 'bcyl':
        return BoundaryCylinder(diameter=b[2], location=loc, rotation=np.array(b[1][0]))
    return BoundaryPlane(location=loc, rotation=np.array(b[1][0]))

def real_geom(g, bounds=None):
    """bounds: those already built for the same scene, to be used again where the same one is asked for."""
    k = g[0]
    if k == 'plane': return FlatGeometryManager()
    if k == 'rect': return RectPlateGM(g[1], g[2])
    if k == 'round': return RoundPlateGM(g[1])
    if k == 'tri': return TriangularFace(np.array([[g[1], g[3]], [g[2], g[4]], [0., 0.]]))
    if k == 'sphere': return SphericalGM(g[1])
    if k == 'hemi': return HemisphereGM(g[1])
    if k == 'cut':
        if g[2] is None:
            return CutSphereGM(g[1])
        if bounds is None:
            return CutSphereGM(g[1], real_bound(g[2]))
        if g[2] not in bounds:
            bounds[g[2]] = real_bound(g[2])
        return CutSphereGM(g[1], bounds[g[2]])
    if k == 'parab': return Paraboloid(g[1], g[2])
    if k == 'dish': return ParabolicDishGM(g[1], g[2])
    if k == 'hexdish': return HexagonalParabolicDishGM(g[1], g[2])
    if k == 'icyl': return InfiniteCylinder(g[1])
    if k == 'fcyl': return FiniteCylinder(g[1], g[2])
    raise ValueError(k)

def real_optics(o):
    k = o[0]
    if k == 'refl': return oc.Reflective(o[1])
    if k == 'absrefl': return oc.AbsorberReflector(o[1])
    if k == 'refr': return oc.RefractiveHomogenous(o[1], o[2])
    if k == 'lamb': return oc.LambertianReflector(o[1])
    if k == 'rrecv': return oc.ReflectiveReceiver(o[1])
    if k == 'lrecv': return oc.LambertianReceiver(o[1])
    raise ValueError(k)

# ------------------------------------------------------------------ scene specs
def rscene(rng, kinds=G.FLAT + G.CURVED, menu=('refl',), nsurf=(1, 6), L=1., depth=2, enclose=.4,
        stacks=.3, spread=3.):
    """A spec: nested dicts of plain data."""
    n = rng.randint(*nsurf)
    surfs = []
    while n > 0:
        if 'cut' in kinds and n >= 2 and rng.random() < .05:
            # one volume cutting several spheres
            g = ('cut', 0., None)
            while g[2] is None:
                g = rgeom(rng, ('cut',), L)
            for _ in range(2):
                surfs.append(dict(place=rplace(rng, L*spread), geom=('cut', g[1]*rng.choice([1., rng.uniform(.8, 1.2)]), g[2]), opt=roptics(rng, menu)))
            n -= 2
        elif rng.random() < stacks and n >= 2:
            # two like shapes a small gap apart
            pl = rplace(rng, L*spread)
            g = rgeom(rng, [k for k in kinds if k in ('rect', 'round', 'plane', 'tri', 'sphere')] or kinds, L)
            gap = lin(rng, 1e-5, 3e-2)*(1 if rng.random() < .5 else -1)
            surfs.append(dict(place=pl, geom=g, opt=roptics(rng, menu)))
            if g[0] == 'sphere':
                surfs.append(dict(place=pl, geom=('sphere', g[1] + gap*L*.3), opt=roptics(rng, menu)))
            else:
                surfs.append(dict(place=G.compose(pl, (G.I3, (0., 0., gap))), geom=g, opt=roptics(rng, menu)))
            n -= 2
        else:
            surfs.append(dict(place=rplace(rng, L*spread), geom=rgeom(rng, kinds, L), opt=roptics(rng, menu)))
            n -= 1
    if rng.random() < enclose:
        surfs.append(dict(place=(rrot(rng), rvec(rng, .3*L)), geom=('sphere', L*spread*rng.uniform(2.5, 4.)),
            opt=('refl', rng.choice([0., .1, .3]))))
    rng.shuffle(surfs)
    # Group into objects, objects into nested assemblies. World placement = product on the way.
    def asm(level):
        return dict(place=rplace(rng, L) if level else (rplace(rng, L) if rng.random() < .6 else G.EYE), objs=[], subs=[])
    root = asm(0)
    nodes = [(root, [])]
    for _ in range(rng.randint(0, depth)):
        parent, path = rng.choice(nodes)
        a = asm(1)
        parent['subs'].append(a)
        nodes.append((a, path + [parent]))
    while surfs:
        k = rng.randint(1, min(3, len(surfs)))
        mine, surfs = surfs[:k], surfs[k:]
        node, path = rng.choice(nodes)
        op = rplace(rng, L) if rng.random() < .6 else G.EYE
        # choose the surfaces' own placement so that the world placement is the wanted one
        w = G.EYE
        for a in path + [node]:
            w = G.compose(w, a['place'])
        w = G.compose(w, op)
        inv = G.inverse(w)
        for s in mine:
            s['place'] = G.compose(inv, s['place'])
        node['objs'].append(dict(place=op, surfs=mine))
    def prune(a):
        a['subs'] = [x for x in a['subs'] if prune(x)]
        return a['objs'] or a['subs']
    prune(root)
    # containers with nothing in them
    for _ in range(rng.choice([0, 0, 0, 0, 1, 3])):
        node = rng.choice(nodes)[0]
        if rng.random() < .7:
            node['objs'].insert(rng.randint(0, len(node['objs'])), dict(place=rplace(rng, L), surfs=[]))
        else:
            node['subs'].insert(rng.randint(0, len(node['subs'])), asm(1))
    return dict(asm=root, style=rng.randint(0, 3))

class Scene(object):
    pass

def walk(a, w=G.EYE):
    """Surfaces with their world placement, in any order: yields (surf, world, obj)."""
    w = G.compose(w, a['place'])
    for b in a['subs']:
        for x in walk(b, w):
            yield x
    for o in a['objs']:
        ow = G.compose(w, o['place'])
        for s in o['surfs']:
            yield s, G.compose(ow, s['place']), o

def build(spec, wrap=None, obj_hook=None):
    """
    Build the real assembly and the reference surfaces of a spec. wrap(optics, ref_surf) may replace a
    surface's optics; obj_hook(obj, objspec) may alter each real object.
    """
    sc = Scene()
    sc.spec = spec
    sc.surfs, sc.real, sc.objects, sc.nodes = [], [], [], []     # nodes: (real thing, its spec)
    style = spec.get('style', 0)
    objidx = [0]
    bounds = {}

    def mk_obj(o, w):
        ow = G.compose(w, o['place'])
        reals = []
        oi = objidx[0]
        objidx[0] += 1
        for s in o['surfs']:
            rs = G.Surf(s['geom'], s['opt'], G.compose(ow, s['place']), obj=oi, group=s.get('group'))
            opt = s.get('shared_opt') or real_optics(s['opt'])
            rs.real_opt = opt
            if wrap is not None:
                opt = wrap(opt, rs)
            loc, rt = np.array(s['place'][1]), np.array(s['place'][0])
            gm = s['gm'](s['geom']) if s.get('gm') else real_geom(s['geom'], bounds)
            if style == 1:
                real = Surface(gm, opt)
                real.set_transform(npmat(s['place']))
            elif style == 2:
                real = Surface(gm, opt, rotation=rt)
                real.set_location(loc)
            else:
                real = Surface(gm, opt, location=loc, rotation=rt)
            rs.index = len(sc.surfs)
            rs.real = real
            sc.surfs.append(rs)
            sc.real.append(real)
            sc.nodes.append((real, s))
            reals.append(real)
        T = npmat(o['place'])
        if style == 0:
            obj = AssembledObject(surfs=reals, transform=T)
        elif style == 1:
            obj = AssembledObject(transform=T)
            for r in reals:
                obj.add_surface(r)
        else:
            obj = AssembledObject(surfs=reals)
            obj.set_transform(T)
        if obj_hook is not None:
            obj_hook(obj, o, oi)
        sc.objects.append(obj)
        sc.nodes.append((obj, o))
        return obj

    def mk_asm(a, w):
        w = G.compose(w, a['place'])
        subs = [mk_asm(b, w) for b in a['subs']]
        objs = [mk_obj(o, w) for o in a['objs']]
        T = npmat(a['place'])
        if style in (0, 3):
            asm = Assembly(objects=objs, subassemblies=subs, location=T[:3, 3].copy(), rotation=T[:3, :3].copy())
        elif style == 1:
            asm = Assembly()
            for b, bs in zip(subs, a['subs']):
                asm.add_assembly(b, npmat(bs['place']))
            for o, os_ in zip(objs, a['objs']):
                asm.add_object(o, npmat(os_['place']))
            asm.set_transform(T)
        else:
            asm = Assembly(objs, subs)
            asm.set_rotation(T[:3, :3])
            asm.set_location(T[:3, 3])
        sc.nodes.append((asm, a))
        return asm

    sc.root = mk_asm(spec['asm'], G.EYE)
    return sc

# ------------------------------------------------------------------ rays
def sample_point(rng, g, over=1.15):
    """A local point on (or just off the outline of) the shape."""
    k = g[0]
    u = lambda: rng.uniform(-1, 1)*over
    if k == 'plane':
        return (u()*1.5, u()*1.5, 0.)
    if k == 'rect':
        return (u()*g[1]/2, u()*g[2]/2, 0.)
    if k == 'round':
        r, a = g[1]*sqrt(rng.random())*over, rng.uniform(0, 2*pi)
        return (r*cos(a), r*sin(a), 0.)
    if k == 'tri':
        a, b = rng.random(), rng.random()
        if a + b > 1 and rng.random() < .8:
            a, b = 1 - a, 1 - b
        return (a*g[1] + b*g[3], a*g[2] + b*g[4], 0.)
    if k in ('sphere', 'hemi', 'cut'):
        x = G.mul(rdir(rng), g[1])
        if k == 'hemi' and x[2] > 0 and rng.random() < .7:
            x = (x[0], x[1], -x[2])
        return x
    if k in ('icyl', 'fcyl'):
        a = rng.uniform(0, 2*pi)
        return (g[1]/2*cos(a), g[1]/2*sin(a), u()*(g[2]/2 if k == 'fcyl' else g[1]))
    a, b = G.parab_ab(g)
    R = g[1]/2 if k != 'parab' else min(g[1], g[2])
    r, th = R*sqrt(rng.random())*over, rng.uniform(0, 2*pi)
    x, y = r*cos(th), r*sin(th)
    return (x, y, a*x*x + b*y*y)

def aimed_ray(rng, surfs, L):
    """(origin, direction) of one ray aimed at the scene in some hostile manner."""
    s = rng.choice(surfs)
    x = G.apply(s.place, sample_point(rng, s.geom))
    k = rng.random()
    if k < .35:                       # from anywhere
        o = G.add(x, G.mul(rdir(rng), L*lin(rng, .05, 6.)))
    elif k < .5:                      # from a point of another surface
        s2 = rng.choice(surfs)
        o = G.apply(s2.place, sample_point(rng, s2.geom, 1.))
    elif k < .6:                      # from this surface outwards
        return x, rdir(rng)
    elif k < .75:                     # parallel to one of the surface's axes
        d = G.col(s.place[0], rng.choice([2, 2, 0, 1]))
        if rng.random() < .5:
            d = G.mul(d, -1.)
        return G.sub(x, G.mul(d, L*rng.uniform(-1, 4))), d
    elif k < .82:                     # parallel to a world axis
        d = rng.choice(AXES)
        return G.sub(x, G.mul(d, L*rng.uniform(-1, 4))), d
    elif k < .88:                     # nearly parallel to an axis of the surface
        d = G.unit(G.add(G.col(s.place[0], rng.choice([2, 2, 0, 1])), G.mul(rdir(rng), 10**rng.uniform(-9, -2))))
        return G.sub(x, G.mul(d, L*rng.uniform(-1, 4))), d
    elif k < .95:                     # through two points of the scene's region
        o = G.apply(s.place, G.mul(rdir(rng), G.size(s.geom)*rng.random()))
    else:                             # far away
        o = G.add(x, G.mul(rdir(rng), L*lin(rng, 10., 60.)))
    d = G.sub(x, o)
    if G.norm(d) < 1e-6:
        return o, rdir(rng)
    return o, G.unit(d)

def rays(rng, surfs, n, L=1., energy='mixed'):
    V, D = [], []
    whole = rng.random() < .04
    again = rng.random() < .04
    beam = 10**rng.uniform(-8, -4) if not whole and rng.random() < .07 else None
    for _ in range(n):
        if again and V and rng.random() < .5:       # the same ray once more
            k = rng.choice([len(V) - 1, rng.randrange(len(V))])
            V.append(V[k])
            D.append(D[k])
            continue
        if beam and V:                # light that is parallel, but not quite
            D.append(G.unit(G.add(D[0], rvec(rng, beam))))
            V.append(G.add(V[0], rvec(rng, rng.choice([0., beam, .3, 1.])*L)))
            continue
        o, d = aimed_ray(rng, surfs, L)
        if whole:                     # whole numbers throughout
            d = rng.choice(AXES)
            o = tuple(float(round(c)) for c in G.sub(o, G.mul(d, rng.randint(0, 3))))
        V.append(o)
        D.append(d)
    if energy == 'mixed':
        j = rng.random()
        if j < .4:
            E = [1.]*n
        elif j < .8:
            E = [lin(rng, 1e-3, 1e3) for _ in range(n)]
        else:
            E = [rng.choice([0., 1., 1e-9 if j < .93 else 2., 5.]) for _ in range(n)]
    else:
        E = [float(energy)]*n
    return dict(v=V, d=D, e=E)

def _lay(a, how):
    """The same numbers in another memory layout."""
    if how == 1:
        return np.asfortranarray(a)
    if how == 2:                      # a view with gaps
        w = np.empty(a.shape[:-1] + (2*a.shape[-1] + 1,), dtype=a.dtype)
        w[...] = 9
        w[..., 1::2] = a
        return w[..., 1::2]
    if how == 3:                      # a view running backwards
        return a[..., ::-1].copy()[..., ::-1]
    return a

def bundle(r, ref=None, **kw):
    """The real bundle of the rays; its arrays come in all layouts a caller may have, whole energies also as integers."""
    n = len(r['v'])
    h = zlib.crc32(repr((n, r['v'][:1], r['e'][:1])).encode())
    e = np.array(r['e'], dtype=float)
    if n and h % 5 < 2 and all(x == int(x) and x < 1e9 for x in r['e']):
        e = e.astype(int)
    h //= 5
    v, d = [np.array(r[k], dtype=float).T.reshape(3, n).copy() for k in 'vd']
    m = np.array(ref if ref is not None else r.get('n', [1.]*n), dtype=float)
    v, d, m = [a.astype(int) if n and h >> k & 1 and (a == np.round(a)).all() and abs(a).max() < 1e9 else a for k, a in ((6, v), (7, d), (8, m))]
    return RayBundle(vertices=_lay(v, h % 4), directions=_lay(d, h//4 % 4), energy=_lay(e, h//16 % 4), ref_index=m, **kw)

def scale_of(surfs, r=None):
    m = 1e-3
    for s in surfs:
        m = max(m, G.norm(s.place[1]) + (G.size(s.geom) if s.geom[0] != 'plane' else 0.))
    if r is not None:
        for v in r['v']:
            m = max(m, G.norm(v))
    return m

def levels(tree):
    """The recorded levels as plain lists of rays."""
    out = []
    for k in range(tree.num_bunds()):
        b = tree[k]
        n = b.get_num_rays()
        lv = dict(n=n, v=[tuple(x) for x in b.get_vertices().T.tolist()], d=[tuple(x) for x in b.get_directions().T.tolist()],
            e=b.get_energy().tolist(), r=b.get_ref_index().tolist(),
            p=[int(x) for x in b.get_parents()] if k else None, bund=b)
        out.append(lv)
    return out
