from common import *

RULE = ("a case is a random scene (1-9 surfaces of all shapes and optics, nested placements, small gaps, enclosing mirrors) "
    "and 1-60 rays traced up to 12 bounces; non-trivial if at least one followed ray's fate was decided by the reference")
ASSUMPTIONS = ["rays within rounding of an edge, a tangency, a tie or the one-millionth zone are skipped and counted as left open"]
MINIMUM = dict(hits=3000, misses=800, outgoing_checks=2000, single_handling=3000)
CATS = ('hit', 'lost', 'stop', 'ghost', 'number')

def general(rng, mon, tier):
    t = run_trace(rng, mon, CATS)
    once(mon, t)

def crowd(rng, mon, tier):
    """Many small surfaces close together."""
    t = run_trace(rng, mon, CATS, nsurf=(8, 24 if tier == 'quick' else 60), spread=1.2, stacks=.6, nrays=(20, 80))
    once(mon, t)

def gaps(rng, mon, tier):
    """Stacked plates with gaps down to 1e-5, rays bouncing in between."""
    t = run_trace(rng, mon, CATS, kinds=('rect', 'round', 'plane', 'sphere', 'tri'), nsurf=(2, 8), stacks=1., enclose=.3)
    once(mon, t)

def bodies(rng, mon, tier):
    """Refracting bodies: rays branch and travel inside."""
    t = run_trace(rng, mon, CATS, kinds=('sphere', 'fcyl', 'hemi', 'cut', 'round'), menu=('refr',), nsurf=(1, 5),
        spread=1.5, enclose=.5, reps=(3, 7), nrays=(1, 20))
    once(mon, t)

def far(rng, mon, tier):
    """Large and small length units."""
    t = run_trace(rng, mon, CATS, L=10**rng.uniform(-2, 2.5))
    once(mon, t)

def distant(rng, mon, tier):
    """Astronomical distances: from the source to the first surface."""
    T = 10**rng.uniform(4, 11)
    once(mon, run_trace(rng, mon, CATS, L=T, kinds=[k for k in G.FLAT + G.CURVED if k != 'parab'], nsurf=(1, 6), reps=(1, 1), scale_extra=T))

def big(rng, mon, tier):
    once(mon, run_trace(rng, mon, CATS, **extreme(rng, 'big')))

def dense(rng, mon, tier):
    """Tens of thousands of rays on plates close together."""
    once(mon, run_trace(rng, mon, CATS, kinds=('rect', 'round', 'tri'), menu=('refl', 'absrefl', 'rrecv'), nsurf=(2, 4), stacks=1., spread=1., enclose=0., nrays=(26000, 34000), reps=(1, 1)))

def deep(rng, mon, tier):
    once(mon, run_trace(rng, mon, CATS, **extreme(rng, 'deep')))

def many(rng, mon, tier):
    once(mon, run_trace(rng, mon, CATS, **extreme(rng, 'many')))

def once(mon, t):
    """No ray is handled by two surfaces, nor twice by one; ties excepted."""
    seen = {}
    for ev in t.led.events:
        mon.check(len(set(ev.selector)) == len(ev.selector), 'a surface was asked twice about the same ray')
        for u in ev.uids:
            if u in seen and not t.open_uid(u):
                mon.fail('ray handled by two surfaces (%s and %s) in one bounce' % (seen[u].geom[0], ev.surf.geom[0]))
            seen[u] = ev.surf
            mon.event('single_handling')

QUICK = 1.5
KINDS = dict(dense=(dense, 2, 30), distant=(distant, 40, 1500), big=(big, 2, 30), deep=(deep, 8, 300), many=(many, 8, 200), general=(general, 240, 6000), crowd=(crowd, 60, 1500), gaps=(gaps, 120, 3000), bodies=(bodies, 80, 2000), far=(far, 80, 2000))
