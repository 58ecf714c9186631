from common import *
import collections

RULE = ("a case is a random scene with random ownership/relevance policies, branching and energy thresholds, whose every optics "
    "call is logged with a unique identity per ray; non-trivial if at least one recorded parent was compared with that log")
ASSUMPTIONS = ["a ray duplicated by an exact tie in distance is accepted as two rays of the same parent"]
MINIMUM = dict(parents_checked=3000, weak_recorded=50, histories=300, on_path=3000)


def check_record(mon, t):
    led = t.led
    lv, uid = t.lv, t.uid
    mon.check(lv[0]['n'] == len(t.uid0) and uid[0] == [int(u) for u in t.uid0], 'the source rays are not the first level of the record')
    emitted = collections.defaultdict(list)
    for u, L in led.level_of.items():
        emitted[L].append(u)
    depth = max(emitted)
    mon.check(depth == len(lv) - 1, 'rays were produced down to level %d, the record has %d levels' % (depth, len(lv)))
    for L in range(1, len(lv)):
        mon.check(sorted(uid[L]) == sorted(emitted[L]), 'level %d of the record has %d rays, %d were produced; missing %d, twice or foreign %d',
            L, len(uid[L]), len(emitted[L]), len(set(emitted[L]) - set(uid[L])), len(uid[L]) - len(set(uid[L]) & set(emitted[L])))
        cur, prev = lv[L], lv[L - 1]
        for j in range(cur['n']):
            p = cur['p'][j]
            u = uid[L][j]
            mon.check(0 <= p < prev['n'], 'ray %d of level %d has parent %d, level %d has %d rays', j, L, p, L - 1, prev['n'])
            if uid[L - 1][p] != led.parent_of[u]:
                mon.fail('ray %d of level %d is attached to ray %d of level %d, but stems from another (%s)' % (
                    j, L, p, L - 1, uid[L - 1].index(led.parent_of[u]) if led.parent_of[u] in uid[L - 1] else 'not recorded'))
            mon.event('parents_checked')
            if cur['e'][j] <= t.min_energy:
                mon.count('weak_recorded')
            # and geometrically: it starts on the parent's path
            w = G.sub(cur['v'][j], prev['v'][p])
            s = G.dot(w, prev['d'][p])
            sc = max(G.norm(cur['v'][j]), G.norm(prev['v'][p]), 1.)
            off = G.norm(G.sub(w, G.mul(prev['d'][p], s)))
            mon.check(s > -1e-6*sc and off < 1e-6*sc + 1e-7*abs(s), 'ray %d of level %d does not start on the path of its parent (%g off)', j, L, off)
            mon.event('on_path')


def check_history(rng, mon, t):
    tree, lv = t.engine.tree, t.lv
    op = tree.ordered_parents()
    mon.check(len(op) == len(lv) - 1, 'ordered_parents lists %d levels of %d', len(op), len(lv) - 1)
    for L in range(1, len(lv)):
        mon.check([int(x) for x in op[L - 1]] == lv[L]['p'], 'ordered_parents is not in trace order')
    for _ in range(4 if lv[0]['n'] < 1000 else 40):
        L = rng.randrange(len(lv))
        if lv[L]['n'] == 0:
            continue
        i = rng.randrange(lv[L]['n'])
        want, j = [i], i
        for k in range(L, 0, -1):
            j = lv[k]['p'][j]
            want.append(j)
        if L == len(lv) - 1 and rng.random() < .5:
            got = tree.ray_history(i)
        else:
            got = tree.ray_history(i, L)
        mon.check([int(x) for x in got] == want, 'history of ray %d of level %d is %s, its parents say %s', i, L, list(got), want)
        # lands on the source ray it descends from
        u = t.uid[L][i]
        while t.led.parent_of[u] is not None:
            u = t.led.parent_of[u]
        mon.check(t.uid[0][int(got[-1])] == u, 'history of ray %d of level %d ends at source ray %d instead of %d', i, L, got[-1], t.uid[0].index(u))
        mon.event('histories')


def case(rng, mon, t):
    check_record(mon, t)
    check_history(rng, mon, t)


def plain(rng, mon, tier):
    case(rng, mon, run_trace(rng, mon, ('lineage',)))

def policies(rng, mon, tier):
    """Rays withheld from surfaces: parents must refer to the whole bundle."""
    case(rng, mon, run_trace(rng, mon, ('lineage',), policies=Policies(rng), nsurf=(2, 10), enclose=.6))

def thresholds(rng, mon, tier):
    """Weak rays everywhere among the strong ones."""
    case(rng, mon, run_trace(rng, mon, ('lineage',), nsurf=(2, 9), enclose=.7, menu=('refl', 'absrefl', 'refr', 'rrecv', 'lamb'),
        min_energy=rng.choice([1e-3, .02, .1, .5]), reps=(2, 10), policies=Policies(rng) if rng.random() < .4 else None))

def branching(rng, mon, tier):
    case(rng, mon, run_trace(rng, mon, ('lineage',), menu=('refr', 'refr', 'refl'), nsurf=(1, 6), spread=1.5, enclose=.5, reps=(2, 6), nrays=(1, 25)))

def big(rng, mon, tier):
    case(rng, mon, run_trace(rng, mon, ('lineage',), vcheck=False, **extreme(rng, 'big', nsurf=(2, 3), reps=(2, 3), enclose=.8)))

def sparse(rng, mon, tier):
    """Tens of thousands of rays of which a few meet something, far down the list."""
    n, few = rng.randint(33000, 70000), rng.randint(2, 60)
    kinds = [k for k in G.FLAT + G.CURVED if k not in ('plane', 'icyl', 'parab')]
    def rays(sc):
        v, d = [(1e4, float(i % 7), 0.) for i in range(n)], [(1., 0., 0.)]*n
        r = gen.rays(rng, sc.surfs, few, 1.)
        for k in range(few):
            i = rng.randrange(n) if rng.random() < .3 else n - 1 - rng.randrange(300)
            v[i], d[i] = r['v'][k], r['d'][k]
        return dict(v=v, d=d, e=[1.]*n)
    t = run_trace(rng, mon, ('lineage',), vcheck=False, kinds=kinds, menu=('refl', 'absrefl', 'lamb', 'rrecv', 'lrecv', 'refr'), nsurf=(1, 4), spread=1.5, enclose=.3, rays=rays, reps=(1, 2), min_energy=-1.)
    case(rng, mon, t)
    mon.count('sparse')

def deep(rng, mon, tier):
    case(rng, mon, run_trace(rng, mon, ('lineage',), **extreme(rng, 'deep')))

def many(rng, mon, tier):
    case(rng, mon, run_trace(rng, mon, ('lineage',), policies=Policies(rng) if rng.random() < .5 else None, **extreme(rng, 'many')))

QUICK = 1.5
KINDS = dict(sparse=(sparse, 6, 150), big=(big, 2, 40), deep=(deep, 8, 300), many=(many, 8, 200), plain=(plain, 140, 5000), policies=(policies, 100, 4000), thresholds=(thresholds, 120, 4000), branching=(branching, 80, 2500))
