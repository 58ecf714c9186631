from common import *
import fakes
fakes.install_mayavi()
from tracer.mayavi_ui import scene_view

RULE = ("a case draws a random trace (or a history of scene updates) on a recording stand-in of the plotting library and compares every drawn segment and mesh "
    "with the trace record and the surfaces; non-trivial if segments or meshes were compared")
ASSUMPTIONS = ["the plotting library draws the points, lines and meshes it is given; a stand-in records them",
    "until the rays are plotted again after a change of assembly, the rays in view are left open"]
MINIMUM = dict(segments=5000, escapes=800, hidden=800, branched=200, meshes=400, scene_plots=80, replaced=60, surfaces_changed=60, removed=8, first_plots=10)


def selector(rng):
    k = rng.randrange(6)
    if k == 0:
        return None
    if k == 1:
        return lambda b: np.ones(b.get_num_rays(), dtype=bool)
    if k == 2:
        return lambda b: np.zeros(b.get_num_rays(), dtype=bool)
    if k == 3:
        c = rng.uniform(.1, 1.)
        return lambda b: b.get_energy() > c
    if k == 4:
        n = np.array(rdir(rng))
        return lambda b: np.dot(n, b.get_directions()) > 0
    salt = rng.randint(1, 99)
    return lambda b: np.array([(salt*int(abs(x)*1e6)) % 3 != 0 for x in b.get_vertices()[0].tolist()], dtype=bool)


def expected(mon, lv, esc, sel):
    out = []
    for L in range(len(lv)):
        show = [True]*lv[L]['n'] if sel is None else [bool(x) for x in sel(lv[L]['bund'])]
        kids = kids_of(lv, L)
        for i in range(lv[L]['n']):
            if lv[L]['e'][i] == 0 or not show[i]:
                mon.count('hidden')
                continue
            v = lv[L]['v'][i]
            if i in kids:
                for j in kids[i]:
                    out.append((v, lv[L + 1]['v'][j]))
                if len(kids[i]) > 1:
                    mon.count('branched')
            else:
                out.append((v, G.add(v, G.mul(lv[L]['d'][i], esc))))
                mon.count('escapes')
    return out


def compare(mon, got, want, scale):
    mon.check(len(got) == len(want), '%d segments are drawn, the trace has %d', len(got), len(want))
    # same multiset up to rounding: bucket by start, then match
    from collections import defaultdict
    pool = defaultdict(list)
    for s in got:
        pool[s[0]].append(s[1])
    for a, b in want:
        cand = pool.get(a)
        if not cand:
            near = [x for x in pool if pool[x] and G.dist(x, a) <= 1e-9*scale]
            cand = pool[near[0]] if near else None
        mon.check(cand, 'no segment is drawn from the ray at %s to %s', a, b)
        e = min(cand, key=lambda e: G.dist(e, b))
        mon.check(G.dist(e, b) <= 1e-9*max(scale, G.norm(b)), 'the segment of the ray at %s ends at %s instead of %s', a, e, b)
        cand.remove(e)
        mon.event('segments')


def lines_of(mon, scene):
    return [a for a in scene.actors if a.kind == 'lines']


def rays(rng, mon, tier):
    kw = {}
    if rng.random() < .4:
        kw = dict(menu=('refr', 'refl', 'absrefl', 'refr'), enclose=.6)
    t = run_trace(rng, mon, (), reps=(0, 7), vcheck=False, **kw)
    scene = fakes.MlabSceneModel()
    sel = selector(rng)
    esc = rng.choice([1., .1, lin(rng, .01, 100.), 0.])
    before = [np.array(t.engine.tree[k].get_energy()).tolist() for k in range(t.engine.tree.num_bunds())]
    scene_view.show_rays(scene, t.engine.tree, esc, *([] if sel is None else [sel]))
    acts = lines_of(mon, scene)
    got = [s for a in acts for s in fakes.segments(a)]
    compare(mon, got, expected(mon, t.lv, esc, sel), max(scale_of(t.sc.surfs, t.rays), esc))
    for k in range(t.engine.tree.num_bunds()):
        mon.check(np.array(t.engine.tree[k].get_energy()).tolist() == before[k], 'drawing changed the record')


MESHABLE = ('rect', 'round', 'sphere', 'hemi', 'dish', 'fcyl', 'tri')


def mspec(rng):
    return rscene(rng, MESHABLE, rng.choice([('refl', 'absrefl', 'refr', 'rrecv'), ('refl', 'absrefl', 'rrecv')]), (1, 5), 1., 2, 0., .1, 2.)


def want_mesh(s, kw):
    res = getattr(s, 'resolution', kw['resolution'])
    return np.array(s.mesh(res), dtype=float), tuple(getattr(s, 'colour', kw['colour'])), getattr(s, 'opacity', kw['opacity'])


class Shown(object):
    """Shadow of what the scene should show."""
    def __init__(self):
        self.surf = {}        # id -> (surface, mesh, colour, opacity) as last drawn, or None

    def draw(self, surfs, kw):
        for s in surfs:
            self.surf[id(s)] = (s,) + want_mesh(s, kw)


DEF = dict(colour=(.5, .5, .5), resolution=10, opacity=1.)


def check_meshes(mon, scene, shown):
    acts = [a for a in scene.actors if a.kind == 'mesh']
    want = [w for w in shown.surf.values() if w[1] is not None]
    mon.check(len(acts) == len(want), '%d surfaces are in view instead of %d', len(acts), len(want))
    left = list(acts)
    for s, m, col, op in want:
        hit = [a for a in left if a.xyz.shape == m.shape and np.abs(a.xyz - m).max() < 1e-9 and tuple(a.kw.get('color', ())) == tuple(col) and a.kw.get('opacity', 1.) == op]
        mon.check(hit, 'a surface is not shown by its mesh, colour and opacity')
        left.remove(hit[0])
        mon.event('meshes')


def source(rng, surfs, n=None):
    n = n or crowd(rng, rng.randint(1, 15), .02)
    r = gen.rays(rng, surfs, n, 1.3)
    return r, gen.bundle(r)


def scene(rng, mon, tier):
    spec = mspec(rng)
    sc = build(spec)
    mon.input('scene', spec)
    esc = rng.choice([1., .2, 3.])
    sel = selector(rng)
    first = None
    if all(s.optics[0] in ('refl', 'absrefl', 'rrecv') and s.optics[1] > .05 for s in sc.surfs):
        # lossy everywhere, so that the first trace, of any number of steps, ends
        first = source(rng, sc.surfs)[1]
        if rng.random() < .4:
            view, esc, sel = scene_view.TracerScene(sc.root, first), 1., None
        else:
            view = scene_view.TracerScene(sc.root, first, esc, sel)
        mon.check(len(lines_of(mon, view._scene)) == 1, 'a new view of a source shows %d sets of rays', len(lines_of(mon, view._scene)))
        eng = TracerEngine(sc.root)
        eng.ray_tracer(first, 10**6, .05)
        compare(mon, fakes.segments(lines_of(mon, view._scene)[0]), expected(mon, levels(eng.tree), esc, sel), 30.)
        mon.count('first_plots')
    else:
        view = scene_view.TracerScene(sc.root, None, esc, sel)
    S = view._scene
    shown = Shown()
    shown.draw(sc.root.get_surfaces(), DEF)
    check_meshes(mon, S, shown)
    iters, me = view.trace_control()
    mon.check(me == .05 and iters > 1e6, 'the default trace control is %s', (iters, me))
    iters, me = rng.choice([0, 1, 2, 3, 4, 5]), rng.choice([.05, .01, .3, 0.])
    view.set_trace_control(max_iter=iters)
    mon.check(tuple(view.trace_control()) == (iters, .05), 'trace control is %s', view.trace_control())
    view.set_trace_control(min_energy=me)
    mon.check(tuple(view.trace_control()) == (iters, me), 'trace control is %s', view.trace_control())
    src, asm = first, sc.root
    lines = None                 # expected segments, or None if open
    again = first is not None and rng.random() < .5
    for _ in range(rng.randint(3, 9)):
        k = rng.randrange(8)
        if again:
            k, again = 1, False
        if k == 0:
            r, src = source(rng, sc.surfs)
            view.set_source(src)
            lines = 'plot'
        elif k == 1:
            if rng.random() < .5:
                iters, me = rng.choice([0, 1, 2, 3, 4, 5]), rng.choice([.05, .01, .3, 0.])
                view.set_trace_control(max_iter=iters, min_energy=me)
            view.plot_ray_trace()
            lines = 'plot' if src is not None else lines
        elif k == 2:
            clear = rng.random() < .5
            if clear:
                view.clear_scene()
                mon.check(not S.actors, 'a cleared scene still shows something')
            sc = build(mspec(rng))
            asm = sc.root
            view.set_assembly(asm)
            shown = Shown()
            shown.draw(asm.get_surfaces(), DEF)
            lines = [] if clear else None
            mon.count('replaced')
        elif k == 3:
            # annotate, move and redraw some
            some = [s for s in asm.get_surfaces() if rng.random() < .5]
            for s in some:
                if rng.random() < .5:
                    s.colour = (rng.random(), rng.random(), rng.random())
                if rng.random() < .5:
                    s.resolution = rng.randint(4, 15)
                if rng.random() < .5:
                    s.opacity = rng.random()
            kw = dict(DEF)
            call = {}
            if rng.random() < .4:
                kw['colour'] = call['colour'] = (rng.random(), .3, .1)
            if rng.random() < .4:
                kw['resolution'] = call['resolution'] = rng.randint(4, 20)
            if rng.random() < .4:
                kw['opacity'] = call['opacity'] = rng.random()
            if rng.random() < .5:
                call['update'] = [id(s) for s in some]
                redraw = some
            else:
                redraw = asm.get_surfaces()
            view.show_assembly(**call)
            shown.draw(redraw, kw)
            mon.count('surfaces_changed')
        elif k == 4:
            # a moved scene shows where it is once redrawn
            asm.set_transform(npmat(rplace(rng, 1.)))
            view.show_assembly()
            shown.draw(asm.get_surfaces(), DEF)
        elif k == 5:
            # add or remove objects
            objs = asm.get_local_objects()
            k = rng.randrange(len(objs)) if objs else 0
            if rng.random() < .5 and objs and len(objs[k].get_surfaces()) < len(asm.get_surfaces()):
                gone = objs.pop(k)
                for s in gone.get_surfaces():
                    shown.surf.pop(id(s), None)
                mon.count('removed')
            else:
                s = Surface(real_geom(rgeom(rng, MESHABLE)), real_optics(('refl', .2)))
                asm.add_object(AssembledObject(surfs=[s]), npmat(rplace(rng, 1.)))
                shown.draw([s], DEF)
            view.update_surfaces()
        elif k == 6 and rng.random() < .5:
            view.clear_scene()
            mon.check(not S.actors, 'a cleared scene still shows something')
            for i in list(shown.surf):
                shown.surf[i] = (shown.surf[i][0], None, None, None)
            lines = []
        else:
            bg = (rng.random(), 0., 1.)
            view.set_background(bg)
            mon.check(S.background == bg, 'the background is %s instead of %s', S.background, bg)
        check_meshes(mon, S, shown)
        if lines == 'plot':
            mon.check(not S.disable_render, 'rendering is left switched off')
            acts = lines_of(mon, S)
            mon.check(len(acts) == 1, '%d sets of rays are in view', len(acts))
            eng = TracerEngine(asm)
            eng.ray_tracer(src, iters, me)
            lines = expected(mon, levels(eng.tree), esc, sel)
            compare(mon, fakes.segments(acts[0]), lines, 30.)
            mon.event('scene_plots')
        elif lines is not None:
            got = [s for a in lines_of(mon, S) for s in fakes.segments(a)]
            compare(mon, got, lines, 30.)


QUICK = 3
KINDS = dict(rays=(rays, 500, 12000), scene=(scene, 250, 5000))
