from common import *
import shapes

RULE = ("a case places one curved shape anywhere, several containers deep, and asks it repeatedly about bundles from outside, inside and on it, "
    "along and across its axis, near its rim and far away; non-trivial if the reference decided at least one ray")
ASSUMPTIONS = ["crossings within rounding of the rim or of tangency, or within a millionth of the ray's start, are left open"]
MINIMUM = dict(changed=100, hits=8000, misses=4000, points=4000, second_roots=300, trace_hits=300)

def direct(rng, mon, tier, kinds=G.CURVED):
    s, real, L = shapes.make(rng, kinds)
    for rep in range(rng.randint(1, 3)):
        if rep and rng.random() < .6:
            shapes.change(rng, s, real, L)
            mon.count('changed')
        n = crowd(rng, rng.randint(1, 120))
        r = shapes.hostile_rays(rng, s, n, L)
        mon.input('curved', [s.geom, s.place, r['v'][:2], r['d'][:2], n])
        b, ts, hits = shapes.ask(mon, s, real, r)
        for i, a in hits:
            # hits on the far sheet although the near one is cut away or behind
            o, dl = G.unapply(s.place, r['v'][i]), G.mtv(s.place[0], r['d'][i])
            if any(c[0] < a[1] - 1e-6 for c in G.crossings(s.geom, o, dl, 1.)):
                mon.count('second_roots')
        sel = list(hits)
        rng.shuffle(sel)
        sel = sel[:rng.randint(0, len(sel))]
        if sel:
            real.select_rays(np.array([i for i, _ in sel]))
            x = real.get_geometry_manager().get_intersection_points_global()
            o = real.get_outgoing().get_vertices()
            for k, (i, a) in enumerate(sel):
                w = G.add(r['v'][i], G.mul(r['d'][i], a[1]))
                tol = 50*a[2] + 1e-11*max(scale_of([s]), G.norm(w), G.norm(r['v'][i]))
                for p in (x[:, k], o[:, k]):
                    mon.check(G.dist(tuple(p), w) <= tol, 'a %s is met at %s, reported is %s', s.geom, w, p.tolist())
                mon.event('points')
        real.done()

def traced(rng, mon, tier):
    t = run_trace(rng, mon, ('hit', 'ghost', 'lost'), kinds=G.CURVED, menu=('refl', 'lamb'), nsurf=(1, 3), reps=(2, 5), nrays=(10, 60))
    mon.count('trace_hits', sum(1 for L in t.log for o in L if o[0] == 'hit'))

QUICK = 4
KINDS = dict(direct=(direct, 400, 16000), traced=(traced, 40, 1500))
