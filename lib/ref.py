"""Scalar reference models: placements, shapes, optics. Pure Python, no tracer code.

A placement is (R, p): R a 3x3 tuple of rows, p a 3-tuple; world = R.local + p.

Shapes (local coordinates):
 ('plane',)  ('rect', w, h)  ('round', R)  ('tri', x1, y1, x2, y2)
 ('sphere', R)  ('hemi', R)  ('cut', R, bound|None)  ('parab', a, b)
 ('dish', D, f)  ('hexdish', D, f)  ('icyl', D)  ('fcyl', D, h)
Bounds: ('bplane', placement) ('bsphere', placement, R) ('bcyl', placement, D)

Optics:
 ('refl', a) ('absrefl', a) ('refr', n1, n2) ('lamb', a) ('rrecv', a) ('lrecv', a)
"""
from math import sqrt, sin, cos, pi, tan, acos, inf, isnan, isinf

I3 = ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.))
EYE = (I3, (0., 0., 0.))

FLAT = ('plane', 'rect', 'round', 'tri')
CURVED = ('sphere', 'hemi', 'cut', 'parab', 'dish', 'hexdish', 'icyl', 'fcyl')

# ---------------------------------------------------------------- vectors
def dot(a, b):
    return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]

def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])

def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])

def mul(a, s):
    return (a[0]*s, a[1]*s, a[2]*s)

def cross(a, b):
    return (a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0])

def norm(a):
    return sqrt(a[0]*a[0] + a[1]*a[1] + a[2]*a[2])

def unit(a):
    n = norm(a)
    return (a[0]/n, a[1]/n, a[2]/n)

def dist(a, b):
    return norm(sub(a, b))

def mv(R, v):
    return (dot(R[0], v), dot(R[1], v), dot(R[2], v))

def mtv(R, v):
    return (R[0][0]*v[0] + R[1][0]*v[1] + R[2][0]*v[2],
            R[0][1]*v[0] + R[1][1]*v[1] + R[2][1]*v[2],
            R[0][2]*v[0] + R[1][2]*v[1] + R[2][2]*v[2])

def mm(A, B):
    return tuple(tuple(sum(A[i][k]*B[k][j] for k in range(3)) for j in range(3)) for i in range(3))

def transpose(A):
    return tuple(tuple(A[j][i] for j in range(3)) for i in range(3))

def col(R, j):
    return (R[0][j], R[1][j], R[2][j])

def det(R):
    return dot(R[0], cross(R[1], R[2]))

# ---------------------------------------------------------------- placements
def rot(axis, ang):
    """Rodrigues' rotation, right-handed."""
    x, y, z = unit(axis)
    s, c = sin(ang), cos(ang)
    v = 1 - c
    return ((c + x*x*v, x*y*v - z*s, x*z*v + y*s),
            (y*x*v + z*s, c + y*y*v, y*z*v - x*s),
            (z*x*v - y*s, z*y*v + x*s, c + z*z*v))

def compose(A, B):
    """Placement of B's content inside A's container: A * B."""
    return (mm(A[0], B[0]), add(mv(A[0], B[1]), A[1]))

def inverse(A):
    Rt = transpose(A[0])
    return (Rt, mul(mv(Rt, A[1]), -1.))

def apply(A, x):
    return add(mv(A[0], x), A[1])

def unapply(A, x):
    return mtv(A[0], sub(x, A[1]))

def matrix(A):
    return [[A[0][i][0], A[0][i][1], A[0][i][2], A[1][i]] for i in range(3)] + [[0., 0., 0., 1.]]

# ---------------------------------------------------------------- shapes
def bound_margin(bound, x):
    """Signed distance into the bound (positive inside), x in the frame holding the bound."""
    q = unapply(bound[1], x)
    if bound[0] == 'bplane':
        return q[2]
    if bound[0] == 'bsphere':
        return bound[2] - norm(q)
    return bound[2]/2. - sqrt(q[0]**2 + q[1]**2)

def outline_margin(g, x):
    """How far inside the outline the point x of the untrimmed shape is (negative: outside)."""
    k = g[0]
    if k == 'rect':
        return min(g[1]/2. - abs(x[0]), g[2]/2. - abs(x[1]))
    if k == 'round':
        return g[1] - sqrt(x[0]**2 + x[1]**2)
    if k == 'tri':
        a, b = (g[1], g[2]), (g[3], g[4])
        area = a[0]*b[1] - a[1]*b[0]
        sg = 1. if area > 0 else -1.
        m = inf
        for (p, q) in (((0., 0.), a), (a, b), (b, (0., 0.))):
            e = (q[0] - p[0], q[1] - p[1])
            m = min(m, sg*(e[0]*(x[1] - p[1]) - e[1]*(x[0] - p[0]))/sqrt(e[0]**2 + e[1]**2))
        return m
    if k == 'hemi':
        return -x[2]
    if k == 'cut':
        return inf if g[2] is None else bound_margin(g[2], x)
    if k == 'dish':
        return g[1]/2. - sqrt(x[0]**2 + x[1]**2)
    if k == 'hexdish':
        R = g[1]/2.
        ax, ay = abs(x[0]), abs(x[1])
        return min(sqrt(3)*R/2. - ax, (R - tan(pi/6)*ax - ay)*cos(pi/6))
    if k == 'fcyl':
        return g[2]/2. - abs(x[2])
    return inf

def quad_coeffs(g, o, d):
    k = g[0]
    if k in ('sphere', 'hemi', 'cut'):
        return dot(d, d), 2*dot(d, o), dot(o, o) - g[1]**2
    if k in ('icyl', 'fcyl'):
        return d[0]**2 + d[1]**2, 2*(d[0]*o[0] + d[1]*o[1]), o[0]**2 + o[1]**2 - (g[1]/2.)**2
    a, b = parab_ab(g)
    return (a*d[0]**2 + b*d[1]**2, 2*a*d[0]*o[0] + 2*b*d[1]*o[1] - d[2],
        a*o[0]**2 + b*o[1]**2 - o[2])

def parab_ab(g):
    if g[0] == 'parab':
        return 1./g[1]**2, 1./g[2]**2
    return 1./(4*g[2]), 1./(4*g[2])

def gradient(g, x):
    """Unnormalised outward/upward normal at the local point x."""
    k = g[0]
    if k in FLAT:
        return (0., 0., 1.)
    if k in ('sphere', 'hemi', 'cut'):
        return x
    if k in ('icyl', 'fcyl'):
        return (x[0], x[1], 0.)
    a, b = parab_ab(g)
    return (-2*a*x[0], -2*b*x[1], 1.)

def implicit(g, x):
    """Approximate signed distance of x from the untrimmed shape."""
    k = g[0]
    if k in FLAT:
        return x[2]
    if k in ('sphere', 'hemi', 'cut'):
        return norm(x) - g[1]
    if k in ('icyl', 'fcyl'):
        return sqrt(x[0]**2 + x[1]**2) - g[1]/2.
    a, b = parab_ab(g)
    return (x[2] - a*x[0]**2 - b*x[1]**2)/norm(gradient(g, x))

def radius(g):
    """The smallest radius of curvature of the shape."""
    k = g[0]
    if k in ('icyl', 'fcyl'):
        return g[1]/2.
    if k in ('parab', 'dish', 'hexdish'):
        return min(size(g), 1./(2*max(parab_ab(g))))
    return size(g)

def size(g):
    """A length typical of the shape."""
    k = g[0]
    if k == 'plane':
        return 1.
    if k == 'parab':
        return max(g[1], g[2])
    if k == 'tri':
        return max(abs(c) for c in g[1:5])
    if k in ('cut',):
        return g[1]
    return max(g[1:3]) if k in ('rect', 'fcyl', 'dish', 'hexdish') else g[1]

# A candidate crossing: (t, error of t, margin, cosine of incidence)
def crossings(g, o, d, scale):
    """
    All crossings of the (unit-direction) line o + t*d with the untrimmed shape, as
    (t, terr, margin, cosinc). `scale` is the size of the world coordinates involved.
    A tangent or otherwise ill-conditioned crossing has terr = inf.
    """
    eps = 4e-15*scale
    if g[0] in FLAT:
        if abs(d[2]) < 1e-12:
            if abs(o[2]) < 1e-9*scale:
                return [(0., inf, 0., 0.)]
            return []
        t = -o[2]/d[2]
        c = abs(d[2])
        if c < 1e-8:
            return [(t, inf, 0., c)]
        x = add(o, mul(d, t))
        return [(t, (eps + 4e-15*abs(t))/c, outline_margin(g, x), c)]
    A, B, C = quad_coeffs(g, o, d)
    big = max(abs(B*B), abs(4*A*C))
    # Absolute uncertainty of the coefficients, from coordinates known to `eps`:
    L = size(g)
    if g[0] in ('sphere', 'hemi', 'cut', 'icyl', 'fcyl'):
        e = 2*eps*(norm(o) + L)
        dlt = B*B - 4*A*C
        derr = 4*abs(B)*eps + 4*A*e + 1e-15*big
    else:
        a, b = parab_ab(g)
        m = max(a, b)
        e = eps*(2*m*norm(o) + 1)
        dlt = B*B - 4*A*C
        derr = 2*abs(B)*(2*m*eps + 1e-15*(1 + 2*m*norm(o))) + 4*A*e + 4*abs(C)*1e-15*m + 1e-15*big
    ext = norm(o) + L
    if g[0] in ('icyl', 'fcyl'):
        if abs(B) < 1e-9*ext and abs(C) < 1e-9*ext*ext:
            return [(0., inf, 0., 0.)]    # runs along the surface itself
    if dlt < -100*derr and dlt < -3e-12*big:
        return []
    if dlt <= 1000*derr or dlt < 3e-12*big:
        if A > 1e-300:
            t = -B/(2*A)
            if abs(t) > 1e12*scale:
                if g[0] in ('fcyl', 'dish', 'hexdish'):
                    return []
                return [(1e300, inf, 0., 0.)]
            w = sqrt(max(abs(dlt), 1000*derr))/A
            # worst case of margin over the uncertain stretch is unknown: leave it open
            return [(0. if t - w < 0 < t + w else t - w, inf, 0., 0.)]
        if g[0] in ('icyl', 'fcyl'):
            return []         # parallel to the axis
        return [(0., inf, 0., 0.)]
    s = sqrt(dlt)
    q = -0.5*(B + (s if B >= 0 else -s))
    roots = []
    if q != 0:
        roots.append(C/q)
        if A > 1e-300:
            roots.append(q/A)
    else:
        return [(0., inf, 0., 0.)]
    out = []
    for t in roots:
        if abs(t) > 1e7*max(scale, L):
            x = add(o, mul(d, t))
            mg = outline_margin(g, x)
            if mg < -1e3*max(scale, L):
                continue                  # surely outside
            if t > 0 and g[0] not in ('dish', 'hexdish', 'fcyl'):
                out.append((1e300, inf, 0., 0.))
            continue
        x = add(o, mul(d, t))
        gr = gradient(g, x)
        c = abs(dot(unit(gr), d)) if norm(gr) > 0 else 0.
        # close to tangency the first order does not tell the error any more
        terr = (10*eps + 4e-15*abs(t))/max(c, 1e-12) if c > max(1e-5, 30*sqrt(eps/radius(g))) else inf
        if dlt < 1e-6*big and A > 1e-300:
            terr += derr/(s*A)
        out.append((t, terr, outline_margin(g, x), c))
    return out

class Surf(object):
    """A placed surface of the reference scene."""
    def __init__(self, geom, optics, place, obj=None, group=None, tag=None):
        self.geom, self.optics, self.place = geom, optics, place
        self.obj = obj            # index/handle of the owning object
        self.group = group        # (group id, local z offset) of stacked parallel plates
        self.tag = tag

SELF_LO, SELF_HI = 5e-7, 2e-6     # the "one millionth" zone left open

def edge_tol(scale):
    return 1e-7*max(scale, 1e-3)

def candidates(s, v, d, scale):
    """Forward crossings of one surface: list of (t, terr, status) with status
    'in' (surely a hit) or 'open'. Sure misses are dropped."""
    o = unapply(s.place, v)
    dl = mtv(s.place[0], d)
    out = []
    for t, terr, mg, c in crossings(s.geom, o, dl, scale):
        if terr == inf or terr > max(1e-4, 1e-13*scale):
            if t > -1e-3*scale or terr == inf and t > -1e-2*scale:
                out.append((t, terr, 'open', c))
            continue
        if t + terr < SELF_LO:
            continue
        tol = edge_tol(scale)/max(c, 1e-3)
        if mg < -tol:
            continue
        if t - terr < SELF_HI or mg < tol:
            out.append((t, terr, 'open', c))
        else:
            out.append((t, terr, 'in', c))
    return out

def nearest(surfs, v, d, scale, allowed=None):
    """
    The first surface met: ('miss',), ('open', reason) or ('hit', index, t, terr, cosinc).
    """
    best = None
    cands = []
    for i, s in enumerate(surfs):
        if allowed is not None and not allowed(i):
            continue
        for c in candidates(s, v, d, scale):
            cands.append((c[0], c[1], c[2], c[3], i))
    if not cands:
        return ('miss',)
    firm = [c for c in cands if c[2] == 'in']
    opens = [c for c in cands if c[2] == 'open']
    if not firm:
        return ('open', 'edge')
    best = min(firm)
    t = best[0]
    tie = 1e-8*scale
    for c in opens:
        if c[1] == inf or c[0] <= t + tie + best[1] + c[1]:
            if c[1] == inf and c[0] > t + 1e-3*scale + abs(t)*1e-3:
                continue
            return ('open', 'edge')
    tied = [c for c in firm if c is not best and c[0] <= t + tie + best[1] + c[1]]
    if tied:
        gi = surfs[best[4]].group
        if gi is not None and all(surfs[c[4]].group is not None and surfs[c[4]].group[0] == gi[0] for c in tied):
            # Parallel plates a hair apart: the one on the side of arrival comes first.
            dz = mtv(surfs[best[4]].place[0], d)[2]
            if abs(dz) < 1e-3:
                return ('open', 'tie')
            allc = [best] + tied
            allc.sort(key=lambda c: surfs[c[4]].group[1]*(1 if dz > 0 else -1))
            best = allc[0]
            return ('hit', best[4], best[0], best[1], best[3])
        if all(c[4] == best[4] for c in tied):
            return ('open', 'tangent')
        return ('open', 'tie')
    return ('hit', best[4], t, best[1], best[3])

def normal_at(s, x, d):
    """Unit world normal at world point x, on the side a ray of direction d arrives from."""
    g = mv(s.place[0], unit(gradient(s.geom, unapply(s.place, x))))
    return mul(g, -1.) if dot(g, d) > 0 else g

# ---------------------------------------------------------------- optics
def reflect(d, n):
    return sub(d, mul(n, 2*dot(d, n)))

def refract(n1, n2, d, n):
    """Returns (transmitted direction or None, openness): n faces the arriving ray."""
    c1 = -dot(d, n)
    r = n1/n2
    k = 1 - r*r*(1 - c1*c1)
    if k < 0:
        return None, k
    return add(mul(d, r), mul(n, r*c1 - sqrt(k))), k

def fresnel(n1, n2, c1):
    s2 = (n1/n2)**2*(1 - c1*c1)
    if s2 >= 1:
        return 1.
    c2 = sqrt(1 - s2)
    rs = (n1*c1 - n2*c2)/(n1*c1 + n2*c2)
    rp = (n1*c2 - n2*c1)/(n1*c2 + n2*c1)
    return (rs*rs + rp*rp)/2

def toggle(n1, n2, cur):
    return n2 if cur == n1 else n1

def absorptivity(opt):
    return 0. if opt[0] == 'refr' else opt[1]

def children(s, x, d, energy, ref):
    """
    Expected rays leaving surface s at world point x: list of dicts with keys kind, dir (None: random in
    the hemisphere of n), energy, ref, n; or None when the outcome is left open by rounding.
    """
    n = normal_at(s, x, d)
    c1 = -dot(d, n)
    o = s.optics
    k = o[0]
    if k in ('refl', 'rrecv'):
        return [dict(kind='refl', dir=reflect(d, n), energy=energy*(1 - o[1]), ref=ref, n=n)]
    if k == 'absrefl':
        up = dot(col(s.place[0], 2), d)
        if abs(up) < 1e-9:
            return None
        return [dict(kind='refl', dir=reflect(d, n), energy=0. if up > 0 else energy*(1 - o[1]), ref=ref, n=n)]
    if k in ('lamb', 'lrecv'):
        return [dict(kind='lamb', dir=None, energy=energy*(1 - o[1]), ref=ref, n=n)]
    if k == 'refr':
        n2 = toggle(o[1], o[2], ref)
        t, kk = refract(ref, n2, d, n)
        if abs(kk) < 1e-7:
            return None
        if t is None:
            return [dict(kind='refl', dir=reflect(d, n), energy=energy, ref=ref, n=n)]
        R = fresnel(ref, n2, c1)
        return [dict(kind='refl', dir=reflect(d, n), energy=energy*R, ref=ref, n=n),
                dict(kind='refr', dir=t, energy=energy*(1 - R), ref=n2, n=n)]
    raise ValueError(k)
