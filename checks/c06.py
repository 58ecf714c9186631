from common import *
import copy

RULE = ("a case traces a scene, then the same scene with scene and rays moved together - the motion given to the outermost assembly, a new "
    "wrapping assembly, the objects, the surfaces, or a re-split chain of containers; non-trivial if descendants of a ray were compared")
ASSUMPTIONS = ["rays whose fate rounding decides (edges, ties, tangency) and what descends from them are skipped", "only surfaces without random draws"]
MINIMUM = dict(nodes_compared=5000, motions=150)
DET = ('refl', 'refl', 'absrefl', 'refr', 'rrecv')
MODES = ('root', 'wrap', 'objects', 'surfs', 'flat', 'surfflat', 'chain')


def moved(rng, spec, M, mode):
    sp = copy.deepcopy(spec)
    root = sp['asm']
    conj = lambda w, p: G.compose(G.compose(G.inverse(w), G.compose(M, w)), p)
    if mode == 'root':
        root['place'] = G.compose(M, root['place'])
    elif mode == 'wrap':
        sp['asm'] = dict(place=M, objs=[], subs=[root])
    elif mode in ('objects', 'surfs', 'chain'):
        def go(a, w):
            w = G.compose(w, a['place'])
            for b in a['subs']:
                go(b, w)
            for o in a['objs']:
                if mode == 'objects':
                    o['place'] = conj(w, o['place'])
                else:
                    ow = G.compose(w, o['place'])
                    for s in o['surfs']:
                        s['place'] = conj(ow, s['place'])
        def chain(a, w, nw):
            # new random placements of all containers, surfaces adapted
            w = G.compose(w, a['place'])
            a['place'] = rplace(rng)
            nw = G.compose(nw, a['place'])
            for b in a['subs']:
                chain(b, w, nw)
            for o in a['objs']:
                ow = G.compose(w, o['place'])
                o['place'] = rplace(rng)
                now = G.compose(nw, o['place'])
                for s in o['surfs']:
                    s['place'] = G.compose(G.inverse(now), G.compose(M, G.compose(ow, s['place'])))
        if mode == 'chain':
            chain(root, G.EYE, G.EYE)
        else:
            go(root, G.EYE)
    else:
        objs = {}
        order = []
        for s, w, o in walk(root):
            if id(o) not in objs:
                objs[id(o)] = dict(place=G.EYE, surfs=[])
                order.append(objs[id(o)])
            objs[id(o)]['surfs'].append(dict(s, place=G.compose(M, w)))
        if mode == 'surfflat':
            order = [dict(place=G.EYE, surfs=[s]) for o in order for s in o['surfs']]
        rng.shuffle(order)
        sp['asm'] = dict(place=G.EYE, objs=order, subs=[])
    sp['style'] = rng.randint(0, 3)
    return sp


def live(rng, t, M):
    """Move the already traced scene itself."""
    root = t.sc.root
    how = rng.choice(['transform', 'split', 'objects', 'surfaces'])
    T = npmat(M)
    if how == 'transform':
        root.set_transform(np.dot(T, root.get_transform()))
    elif how == 'split':
        nt = np.dot(T, root.get_transform())
        if rng.random() < .5:
            root.set_location(nt[:3, 3])
            root.set_rotation(nt[:3, :3])
        else:
            root.set_rotation(nt[:3, :3])
            root.set_location(nt[:3, 3])
    else:
        def go(a, w):
            w = np.dot(w, a.get_transform())
            for b in a.get_assemblies():
                go(b, w)
            for o in a.get_local_objects():
                if how == 'objects':
                    o.set_transform(np.dot(np.dot(np.linalg.inv(w), np.dot(T, w)), o.get_transform()))
                else:
                    ow = np.dot(w, o.get_transform())
                    for s in o.get_surfaces():
                        s.set_transform(np.dot(np.dot(np.linalg.inv(ow), np.dot(T, ow)), s.get_transform()))
        go(root, np.eye(4))
        root.transform_children()
    return how


def case(rng, mon, **kw):
    a = dict(menu=DET, reps=(1, 6), nrays=(2, 40))
    a.update(kw)
    far = 10**rng.uniform(-1, 1.2) if rng.random() < .8 else 10**rng.uniform(2, 4)
    if far > 100:
        a['scale_extra'] = far
        mon.count('far_away')
    t = run_trace(rng, mon, (), **a)
    n = t.lv[0]['n']
    for rep in range(2):
        M = rplace(rng, far)
        if rng.random() < .15:
            M = G.EYE
        if rep == 1 and rng.random() < .6:
            mode = 'live ' + live(rng, t, M)
            root = t.sc.root
        else:
            mode = rng.choice(MODES)
            root = build(moved(rng, t.spec, M, mode)).root
        r = dict(t.rays, v=[G.apply(M, x) for x in t.rays['v']], d=[G.mv(M[0], x) for x in t.rays['d']])
        b = gen.bundle(r, uid=np.arange(n))
        eng = TracerEngine(root)
        eng.ray_tracer(b, t.reps, t.min_energy)
        c = Comparison(mon, t.sc.surfs, t.lv, t.log, levels(eng.tree), move=M, what='the scene and the scene moved (%s)' % mode)
        for i in range(n):
            c.source(i, i)
        mon.event('motions')
        mon.state(mode, len(t.sc.surfs))


def general(rng, mon, tier):
    case(rng, mon)

def onesided(rng, mon, tier):
    """What depends on the surfaces' own axes."""
    case(rng, mon, menu=('absrefl', 'absrefl', 'refr'), kinds=('rect', 'hemi', 'cut', 'dish', 'hexdish', 'fcyl', 'tri', 'round'), nsurf=(2, 6))

def enclosed(rng, mon, tier):
    case(rng, mon, enclose=1., nsurf=(1, 5), depth=5)

QUICK = 3
KINDS = dict(general=(general, 110, 4000), onesided=(onesided, 80, 3000), enclosed=(enclosed, 60, 2000))
