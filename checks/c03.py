from common import *
from tracer import optics

RULE = ("a case is a random scene traced with every optics call logged, or a direct sweep of optics over angles and indices; "
    "non-trivial if at least one interaction's energy balance was closed")
ASSUMPTIONS = ["the whole-trace balance is skipped when a tie in distance made two surfaces take the same ray"]
MINIMUM = dict(interactions=5000, balances=150, receiver_totals=100, fresnel_sweeps=1000)


def absorbed(s, e, d):
    """What the surface takes of energy e arriving along d; None if on the verge between front and back."""
    k, a = s.optics[0], s.optics[1]
    if k == 'refr':
        return 0.
    if k == 'absrefl':
        up = G.dot(G.col(s.place[0], 2), tuple(d))
        if abs(up) < 1e-9:
            return None
        return e if up > 0 else e*a
    return e*a


def check_events(mon, events):
    """Balance of each interaction; returns the energy absorbed in all of them or None."""
    total = 0.
    for ev in events:
        out = {}
        for p, u, e in zip(ev.out_puids, ev.out_uids, ev.e_out):
            out.setdefault(p, []).append(e)
        for u, e, d in zip(ev.uids, ev.e_in, ev.dirs):
            a = absorbed(ev.surf, e, d)
            if a is None:
                total = None
                continue
            es = out.get(u, [])
            for x in es:
                mon.check(x == x and abs(x) != inf, 'a ray of energy %r left a %s surface with undefined energy', e, ev.surf.optics[0])
                mon.check(x >= 0., 'a ray of energy %r left a %s surface with negative energy %r', e, ev.surf.optics[0], x)
                mon.check(x <= e*(1 + 1e-12), 'a ray of energy %r left a %s surface with energy %r', e, ev.surf.optics[0], x)
            mon.check(abs(sum(es) + a - e) <= 1e-10*abs(e), 'at a %s surface %r arrived, %r was absorbed, but %r left', ev.surf.optics, e, a, es)
            mon.event('interactions')
            mon.state(ev.surf.geom[0], ev.surf.optics[0], len(es))
            if total is not None:
                total += a
    return total


def check_levels(mon, t):
    for L in range(1, len(t.lv)):
        cur, prev = t.lv[L], t.lv[L - 1]
        for j in range(cur['n']):
            e, pe = cur['e'][j], prev['e'][cur['p'][j]]
            mon.check(e == e and e >= 0. and e <= pe*(1 + 1e-12), 'ray %d of level %d has energy %r, its parent %r', j, L, e, pe)


def check_balance(mon, t, absorbed_total):
    used = set()
    for ev in t.led.events:
        for u in ev.uids:
            if u in used:
                mon.count('ties_seen')
                return
            used.add(u)
    lv = t.lv
    src = sum(lv[0]['e'])
    # Rays of the record that nothing descends from have escaped, been dropped or are still travelling
    loose = 0.
    for L in range(len(lv)):
        kids = set(lv[L + 1]['p']) if L + 1 < len(lv) else set()
        loose += sum(e for i, e in enumerate(lv[L]['e']) if i not in kids)
    mon.check(abs(absorbed_total + loose - src) <= 1e-9*src, 'source energy %r, but absorbed %r plus escaped, dropped and travelling %r',
        src, absorbed_total, loose)
    mon.event('balances')


def check_receivers(mon, t):
    byreal = {}
    for s in t.sc.surfs:
        if s.optics[0] in ('rrecv', 'lrecv'):
            byreal[id(s)] = (s, 0.)
    for ev in t.led.events:
        if id(ev.surf) in byreal:
            s, tot = byreal[id(ev.surf)]
            byreal[id(ev.surf)] = (s, tot + sum(ev.e_in)*s.optics[1])
    for s, tot in byreal.values():
        en, _ = s.real_opt.get_all_hits()
        mon.check(abs(float(np.sum(en)) - tot) <= 1e-9*tot + 1e-300, 'a receiver of absorptivity %r reports %r absorbed, it took %r', s.optics[1], float(np.sum(en)), tot)
        mon.event('receiver_totals')


def case(mon, t):
    tot = check_events(mon, t.led.events)
    check_levels(mon, t)
    if tot is not None:
        check_balance(mon, t, tot)
    check_receivers(mon, t)


def scenes(rng, mon, tier):
    case(mon, run_trace(rng, mon, ('energy',)))

def glass(rng, mon, tier):
    case(mon, run_trace(rng, mon, ('energy',), kinds=('sphere', 'fcyl', 'round', 'cut', 'plane', 'rect', 'dish'), menu=('refr', 'refr', 'refl', 'lrecv'), nsurf=(1, 6),
        spread=1.5, enclose=.6, reps=(3, 6), nrays=(1, 20)))

def furnace(rng, mon, tier):
    """Closed cavities with many bounces: almost everything must end up absorbed."""
    case(mon, run_trace(rng, mon, ('energy',), nsurf=(2, 10), enclose=1., menu=('refl', 'absrefl', 'lamb', 'rrecv', 'lrecv'), reps=(10, 25), min_energy=rng.choice([0., 1e-6, .01]),
        nrays=(5, 40), policies=Policies(rng) if rng.random() < .3 else None))


def sweep(rng, mon, tier):
    """One plane, angles at and around normal, Brewster, critical and grazing incidence."""
    place = rplace(rng)
    n1, n2 = rng.choice([(1., 1.5), (1.5, 1.), (1., lin(rng, 1., 4.)), (lin(rng, 1., 4.), 1.), (lin(rng, 1., 3.), lin(rng, 1., 3.)), (1.3, 1.3), (1., 1.)])
    if n1 == n2 == 1.3:
        o = ('refr', 1.3, 1.3)
    else:
        o = ('refr', n1, n2)
    if rng.random() < .3:
        o = (rng.choice(['refl', 'lamb', 'absrefl', 'rrecv', 'lrecv']), rabs(rng))
    spec = dict(asm=dict(place=G.EYE, objs=[dict(place=G.EYE, surfs=[dict(place=place, geom=('plane',), opt=o)])], subs=[]))
    angs = [0., 1e-9, 1e-8, 1e-6, pi/2 - 1e-3, pi/2 - 1e-6, atan(n2/n1)]
    if n2 < n1:
        c = asin(n2/n1)
        angs += [c, c - 1e-15, c + 1e-15, c - 1e-9, c + 1e-9, c - 1e-4, c + 1e-4]
    angs += [rng.uniform(0, pi/2 - 1e-4) for _ in range(10)]
    V, D, E = [], [], []
    for a in angs:
        for _ in range(2):
            ph = rng.choice([0., pi/2, rng.uniform(0, 2*pi)])
            up = rng.choice([1., -1.])
            d = (sin(a)*cos(ph), sin(a)*sin(ph), -up*cos(a))
            x = G.add(G.mul(d, -lin(rng, .1, 5.)), (rng.uniform(-1, 1), rng.uniform(-1, 1), 0.))
            V.append(G.apply(place, x))
            D.append(G.mv(place[0], d))
            E.append(rng.choice([0., 1., lin(rng, 1e-6, 1e6)]))
    n = len(V)
    r = dict(v=V, d=D, e=E, n=[n1]*n)
    t = run_trace(rng, mon, ('energy',), spec=spec, rays=r, reps=(1, 2), min_energy=0.)
    case(mon, t)
    if o[0] == 'refr':
        nz = sum(1 for e in E if e > 0)
        mon.event('fresnel_sweeps', n)

def big(rng, mon, tier):
    case(mon, run_trace(rng, mon, ('energy',), **extreme(rng, 'big')))

def deep(rng, mon, tier):
    case(mon, run_trace(rng, mon, ('energy',), **extreme(rng, 'deep', menu=('refl', 'refl', 'refl', 'lamb', 'rrecv'))))

def many(rng, mon, tier):
    case(mon, run_trace(rng, mon, ('energy',), **extreme(rng, 'many')))

QUICK = 2
KINDS = dict(big=(big, 2, 30), deep=(deep, 6, 200), many=(many, 6, 200), scenes=(scenes, 160, 5000), glass=(glass, 90, 2500), furnace=(furnace, 60, 1500), sweep=(sweep, 100, 4000))
