from common import *
import shapes

RULE = ("a case places one shape of any kind anywhere, registers a hostile bundle, selects hits in any number and order, several times over, and "
    "compares each reported normal with the shape's gradient at the reported point; non-trivial if at least one normal was compared")
ASSUMPTIONS = ["the side is left open for rays within 1e-9 of running along the surface"]
MINIMUM = dict(changed=100, normals=15000, sides=15000, arranged=300)

def direct(rng, mon, tier):
    s, real, L = shapes.make(rng, G.FLAT + G.CURVED)
    gm = real.get_geometry_manager()
    for rep in range(rng.randint(1, 3)):
        if rep and rng.random() < .6:
            shapes.change(rng, s, real, L)
            mon.count('changed')
        base = scale_of([s])
        n = crowd(rng, rng.randint(1, 100))
        r = shapes.hostile_rays(rng, s, n, L)
        mon.input('normals', [s.geom, s.place, r['v'][:2], r['d'][:2], n])
        b = gen.bundle(r)
        ts = real.register_incoming(b).tolist()
        idx = [i for i in range(n) if ts[i] != inf]
        k = rng.random()
        if k < .4:
            rng.shuffle(idx)
        elif k < .6:
            idx.reverse()
        if rng.random() < .5:
            idx = idx[:rng.randint(0, len(idx))]
        if idx:
            if idx != sorted(idx):
                mon.count('arranged')
            real.select_rays(np.array(idx))
            nn = gm.get_normals()
            x = gm.get_intersection_points_global()
            mon.check(nn.shape == (3, len(idx)), '%d rays were selected, normals come as %s', len(idx), nn.shape)
            mon.check(x.shape == (3, len(idx)), '%d rays were selected, points come as %s', len(idx), x.shape)
            up = gm.up()
            mon.check(G.dist(tuple(up), G.col(s.place[0], 2)) < 1e-9, "the surface's up is %s instead of %s", up, G.col(s.place[0], 2))
            for k, i in enumerate(idx):
                scale = max(base, G.norm(r['v'][i]), G.norm(tuple(x[:, k])))
                if scale > 1e6*base:
                    continue
                m = tuple(nn[:, k].tolist())
                mon.check(abs(G.norm(m) - 1) < 1e-9, 'a %s reports a normal of length %r', s.geom, G.norm(m))
                # the point belongs to this ray
                w = G.add(r['v'][i], G.mul(r['d'][i], ts[i]))
                mon.check(G.dist(w, tuple(x[:, k])) <= 1e-10*scale + 1e-6, 'points of a %s are not in the order of the selected rays', s.geom)
                g = G.mv(s.place[0], G.unit(G.gradient(s.geom, G.unapply(s.place, tuple(x[:, k])))))
                tol = 1e-9 + 1e-12*scale/G.radius(s.geom)
                if ts[i] <= 1e-6:
                    tol += 3e-6/G.radius(s.geom)
                c = G.dot(g, m)
                off = G.norm(G.sub(m, G.mul(g, c)))
                mon.check(off < tol, 'at %s a %s reports the normal %s, perpendicular to it is %s', x[:, k].tolist(), s.geom, m, g)
                mon.event('normals')
                side = G.dot(m, r['d'][i])
                if abs(side) > 1e-9 + 10*tol:
                    mon.check(side < 0, 'a ray along %s meets a %s at %s, the reported normal %s points away from it', r['d'][i], s.geom, x[:, k].tolist(), m)
                    mon.event('sides')
                    mon.state(s.geom[0], G.mtv(s.place[0], m)[2] > 0, G.dot(g, m) > 0)
        real.done()

QUICK = 4
KINDS = dict(direct=(direct, 500, 20000))
