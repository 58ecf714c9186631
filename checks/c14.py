from common import *
from tracer.ray_bundle import concatenate_rays

RULE = ("a case is a random history of creating, inheriting, deleting, adding, concatenating and changing ray bundles with properties of any "
    "type and dimension, each step compared with a per-ray list model; non-trivial if at least one result was compared")
ASSUMPTIONS = ["added or concatenated bundles share the same set of properties, as documented; otherwise only the common ones are compared",
    "arrays the caller hands over may be kept by the bundle"]
MINIMUM = dict(results=3000, values=50000, mutations=1000, isolation=5000)

EXTRA = [('tag', 'int', ()), ('wl', 'float', ()), ('pol', 'float', (2,)), ('jones', 'float', (2, 2)), ('flag', 'bool', ()), ('one', 'float', (1,)), ('phase', 'complex', ()),
    ('serial', 'long', ()), ('label', 'str', ())]
BASIC = ('vertices', 'directions', 'energy', 'parents', 'ref_index')


def rvals(rng, name, n):
    """Per-ray values of a property, as an array with rays along the last axis."""
    if name in ('vertices', 'directions'):
        return np.array([[rng.uniform(-9, 9) for _ in range(n)] for _ in range(3)]).reshape(3, n)
    if name == 'parents':
        return np.array([rng.randrange(rng.choice([100, 10**6])) for _ in range(n)], dtype=int)
    if name in ('energy', 'ref_index'):
        return np.array([rng.uniform(0, 9) for _ in range(n)])
    kind, shape = [(k, s) for (m, k, s) in EXTRA if m == name][0]
    size = int(np.prod(shape + (n,)))
    if kind == 'int':
        return np.array([rng.randrange(10**6) for _ in range(size)], dtype=int).reshape(shape + (n,))
    if kind == 'long':
        return np.array([rng.randrange(2**62) for _ in range(size)], dtype=np.int64).reshape(shape + (n,))
    if kind == 'str':
        return np.array([rng.choice(['a', 'bcd', 'ef']) for _ in range(size)], dtype='U3').reshape(shape + (n,))
    if kind == 'complex':
        return np.array([complex(rng.random(), rng.random()) for _ in range(size)], dtype=complex).reshape(shape + (n,))
    if kind == 'bool':
        return np.array([rng.random() < .5 for _ in range(size)], dtype=bool).reshape(shape + (n,))
    return np.array([rng.random() for _ in range(size)]).reshape(shape + (n,))


def split(a):
    return np.rollaxis(np.asarray(a), -1).tolist()


class Pair(object):
    """A real bundle with its model: property -> list of values per ray."""
    def __init__(self, real, model, n):
        self.real, self.model, self.n = real, model, n


def compare(mon, p, what, exact=True, only=None):
    b, m = p.real, p.model
    mon.check(b.get_num_rays() == p.n, '%s: %d rays instead of %d', what, b.get_num_rays(), p.n)
    for k, v in m.items():
        if only is not None and k not in only:
            continue
        mon.check(b.has_property(k), '%s: property %s is gone', what, k)
        try:
            a = np.array(getattr(b, 'get_' + k)())
        except (KeyError, AttributeError):
            mon.fail('%s: property %s is not set' % (what, k))
        mon.check(a.shape[-1:] == (p.n,), '%s: property %s has shape %s for %d rays', what, k, a.shape, p.n)
        got = split(a)
        if got != v:
            mon.fail('%s: property %s is %s instead of %s' % (what, k, str(got)[:200], str(v)[:200]))
        mon.event('values', p.n)
    if exact:
        for k in BASIC + tuple(e[0] for e in EXTRA):
            if k not in m and b.has_property(k):
                try:
                    a = getattr(b, 'get_' + k)()
                except (KeyError, AttributeError):
                    continue
                mon.check(a is None, '%s: property %s appeared from nowhere', what, k)


class Machine(object):
    def __init__(self, rng, mon, big=None):
        self.rng, self.mon, self.big = rng, mon, big
        self.pool = []
        self.names = ['vertices', 'directions'] + [x for x in ('energy', 'parents', 'ref_index') if rng.random() < .8] + \
            [e[0] for e in EXTRA if rng.random() < .35]

    def create(self):
        rng = self.rng
        n = self.big or rng.choice([1, 1, 2, 3, rng.randint(4, 30)])
        names = list(self.names)
        if rng.random() < .15:
            names = [x for x in names if x in ('vertices', 'directions') or rng.random() < .7]
        arr = dict((k, rvals(rng, k, n)) for k in names)
        for k in names:
            # whole numbers where others have fractions, longer words: bundles joined later differ in type
            if k in ('vertices', 'energy', 'ref_index', 'wl', 'pol') and rng.random() < .2:
                arr[k] = np.array(np.around(arr[k]*9), dtype=int)
            elif k == 'label' and rng.random() < .4:
                arr[k] = np.array([rng.choice(['a', 'longer', 'longest of all']) for _ in range(n)])
        if rng.random() < .7:
            b = RayBundle(**arr)
        else:
            b = RayBundle()
            late = {}
            for k, v in arr.items():
                if k in BASIC:
                    getattr(b, 'set_' + k)(v)
                else:
                    late[k] = v
            if late:
                b = RayBundle(**arr)
        return Pair(b, dict((k, split(v)) for k, v in arr.items()), n)

    def selector(self, n):
        rng = self.rng
        k = rng.random()
        if k < .25:
            idx = sorted(rng.sample(range(n), rng.randint(0, n)))
            return np.array(idx, dtype=int), idx
        if k < .5:
            idx = [rng.randrange(n) for _ in range(rng.randint(1, n + 2))]
            return np.array(idx), idx
        if k < .75:
            m = [rng.random() < .5 for _ in range(n)]
            return np.array(m, dtype=bool), [i for i in range(n) if m[i]]
        if k < .85:
            return None, list(range(n))
        a, b = sorted([rng.randint(0, n), rng.randint(0, n)])
        return np.s_[a:b], list(range(a, b))

    def inherit(self):
        rng = self.rng
        src = rng.choice([p for p in self.pool if p.n] or [self.put(self.create())])
        sel, idx = self.selector(src.n)
        model = dict((k, [v[i] for i in idx]) for k, v in src.model.items())
        over = {}
        for k in BASIC + tuple(e[0] for e in EXTRA):
            if rng.random() < .15:
                over[k] = rvals(rng, k, len(idx))
        if 'directions' in over:
            over['direction'] = over.pop('directions')
        if len(idx) == 0:
            over = {}
        for k, v in over.items():
            model['directions' if k == 'direction' else k] = split(v)
        b = src.real.inherit(**over) if sel is None else src.real.inherit(sel, **over)
        return Pair(b, model, len(idx)), [src]

    def delete(self):
        rng = self.rng
        src = rng.choice([p for p in self.pool if p.n] or [self.put(self.create())])
        gone = rng.sample(range(src.n), rng.randint(0, src.n))
        if gone and rng.random() < .2:         # an index may come more than once
            gone = gone + [rng.choice(gone) for _ in range(rng.randint(1, 2*src.n))]
            rng.shuffle(gone)
        arg = np.array(gone, dtype=int)
        if rng.random() < .1:
            arg = gone
        out = set(gone)
        keep = [i for i in range(src.n) if i not in out]
        return Pair(src.real.delete_rays(arg), dict((k, [v[i] for i in keep]) for k, v in src.model.items()), len(keep)), [src]

    def add(self):
        rng = self.rng
        a, b = rng.choice(self.pool), rng.choice(self.pool)
        common = [k for k in a.model if k in b.model]
        r = a.real + b.real
        return Pair(r, dict((k, a.model[k] + b.model[k]) for k in common), a.n + b.n), [a, b]

    def concat(self):
        rng = self.rng
        a = rng.choice(self.pool)
        same = [p for p in self.pool if set(p.model) == set(a.model)]
        parts = [a] + [rng.choice(same) for _ in range(rng.randint(0, 4) if self.big or rng.random() < .85 else rng.randint(5, 300))]
        r = concatenate_rays([p.real for p in parts])
        return Pair(r, dict((k, [x for p in parts for x in p.model[k]]) for k in a.model), sum(p.n for p in parts)), parts

    def empty(self):
        e = RayBundle.empty_bund() if self.rng.random() < .5 else concatenate_rays([])
        return Pair(e, dict((k, []) for k in BASIC), 0), []

    def put(self, p):
        self.pool.append(p)
        return p

    def mutate(self):
        """Change one bundle in place; nothing else may notice."""
        rng, mon = self.rng, self.mon
        cands = [p for p in self.pool if p.n]
        if not cands:
            return
        p = rng.choice(cands)
        k = rng.choice(sorted(p.model))
        how = rng.randrange(3)
        idx = sorted(rng.sample(range(p.n), rng.randint(1, p.n)))
        v = rvals(rng, k, len(idx))
        if v.dtype != getattr(p.real, 'get_' + k)().dtype:
            how = 2
        if how == 0:
            getattr(p.real, 'set_' + k)(v, np.array(idx))
            for q, i in enumerate(idx):
                p.model[k][i] = np.array(v[..., q]).tolist()
        elif how == 1:
            v = rvals(rng, k, p.n)
            getattr(p.real, 'get_' + k)()[...] = v
            if split(getattr(p.real, 'get_' + k)()) == p.model[k]:      # reading gives a copy
                getattr(p.real, 'set_' + k)(v)
            p.model[k] = split(v)
        else:
            v = rvals(rng, k, p.n)
            getattr(p.real, 'set_' + k)(v)
            p.model[k] = split(v)
        mon.event('mutations')
        for q in self.pool:
            compare(mon, q, 'after a change to property %s of another bundle' % k if q is not p else 'after setting property %s' % k)
            mon.event('isolation')


def history(rng, mon, tier, big=None):
    m = Machine(rng, mon, big)
    if big:
        m.names = m.names[:2] + rng.sample(m.names[2:], min(3, len(m.names) - 2))
    m.put(m.create())
    log = []
    for _ in range(rng.randint(4, 30) if big is None else 5):
        x = rng.random()
        op = ('create' if x < .12 else 'inherit' if x < .4 else 'delete' if x < .55 else 'add' if x < .7 else 'concat' if x < .82 else
            'empty' if x < .85 else 'mutate')
        log.append(op)
        if op == 'mutate':
            m.mutate()
            continue
        r = getattr(m, op)()
        p, ops = r if isinstance(r, tuple) else (r, [])
        compare(mon, p, op, exact=True)
        for q in ops:
            compare(mon, q, 'an operand after ' + op)
        mon.event('results')
        mon.state(op, min(p.n, 3), len(p.model))
        # selected reading
        if p.n:
            k = rng.choice(sorted(p.model))
            idx = rng.sample(range(p.n), rng.randint(1, p.n))
            got = getattr(p.real, 'get_' + k)(np.array(idx))
            mon.check(split(np.array(got)) == [p.model[k][i] for i in idx], 'reading property %s of rays %s gave others', k, idx)
        if p.n <= 200 or big and p.n < 150000:
            m.put(p)
        if len(m.pool) > (12 if big is None else 2):
            m.pool.pop(rng.randrange(len(m.pool)))
    mon.input('bundles', [log, m.names, m.pool[0].n])


def big(rng, mon, tier):
    history(rng, mon, tier, rng.choice([33000, 36000, 66000]))


QUICK = 1.2
KINDS = dict(big=(big, 3, 60), history=(history, 500, 15000))
