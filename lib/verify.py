"""Step-by-step verification of a recorded trace against the reference scene."""
from math import sqrt, inf, isnan, isinf
import ref as G
from mon import Violation

# hit: descendants start at the first surface met; lost: a ray that meets a surface leaves descendants;
# stop: the trace goes on while it should; ghost: rays that meet nothing leave nothing; number: how many
# rays leave a surface; lineage: recorded parents; follow: weak rays and the bounce limit
ALL = ('hit', 'lost', 'stop', 'ghost', 'number', 'lineage', 'energy', 'direction', 'index', 'follow')

def finite3(x):
    return not any(isnan(c) or isinf(c) for c in x)

def verify_trace(mon, surfs, lv, reps, min_energy, cats=ALL, policy=None, scale_extra=0., prefix='', src_origin=None, script=None):
    """
    lv: levels as from gen.levels(). policy(origin_surf, level_ray_index, level) -> allowed(surf_index) or None,
    evaluated for rays with a known origin surface. Every ray of every level is compared with the reference
    outcome computed from the recorded ray itself, so rounding does not accumulate.
    script(surf, level, ray, descendants) judges what a surface with scripted optics sent on, and returns how many.
    Returns per level the list of (outcome, surface index) observed.
    """
    cats = set(cats)
    def bad(cat, msg, *a):
        if cat in cats:
            raise Violation(prefix + (msg % a if a else msg))
    base = scale_extra or 1e-3
    for s in surfs:
        base = max(base, G.norm(s.place[1]) + (G.size(s.geom) if s.geom[0] != 'plane' else 0.))
    origin = [None]*lv[0]['n'] if src_origin is None else src_origin
    unknown = [False]*lv[0]['n']
    log = []
    if len(lv) > reps + 1:
        bad('follow', 'the trace recorded %d bounces, the limit was %d', len(lv) - 1, reps)
    for L in range(len(lv)):
        cur = lv[L]
        nxt = lv[L + 1] if L + 1 < len(lv) else None
        kids = {}
        if nxt is not None:
            if nxt['n'] == 0:
                bad('lineage', 'level %d of the record is empty', L + 1)
            for j in range(nxt['n']):
                p = nxt['p'][j]
                if not (0 <= p < cur['n']):
                    bad('lineage', 'ray %d of level %d has parent %d, but level %d has %d rays', j, L + 1, p, L, cur['n'])
                    continue
                kids.setdefault(p, []).append(j)
                if not finite3(nxt['v'][j]) or not finite3(nxt['d'][j]):
                    bad('hit', 'ray %d of level %d has an undefined position or direction', j, L + 1)
                if abs(G.norm(nxt['d'][j]) - 1) > 1e-6:
                    bad('direction', 'ray %d of level %d has a direction of length %r', j, L + 1, G.norm(nxt['d'][j]))
        n_origin = [None]*(nxt['n'] if nxt else 0)
        n_unknown = [True]*(nxt['n'] if nxt else 0)
        outcome = []
        any_hit = False
        any_open = False
        for i in range(cur['n']):
            mine = kids.get(i, [])
            e = cur['e'][i]
            weak = L > 0 and e <= min_energy
            if weak:
                if mine:
                    bad('follow', 'ray %d of level %d has energy %r, not above the minimum %r, but interacted again', i, L, e, min_energy)
                outcome.append(('weak', None))
                continue
            if L == reps:
                outcome.append(('cut', None))
                continue
            v, d = cur['v'][i], cur['d'][i]
            scale = max(base, G.norm(v))
            if scale > 1e4*base:
                # came from a hit on an infinite shape far outside the scene: rounding decides
                any_open = True
                outcome.append(('open', 'far'))
                mon.count('rays_left_open')
                continue
            allowed = None
            if policy is not None and L > 0:
                if unknown[i]:
                    any_open = True
                    outcome.append(('open', 'unknown origin'))
                    mon.count('rays_left_open')
                    check_on_path(bad, mon, v, d, scale, nxt, mine, i, L)
                    continue
                allowed = policy(origin[i], i, L)
            r = G.nearest(surfs, v, d, scale, allowed)
            if r[0] == 'open':
                any_open = True
                outcome.append(r)
                mon.count('rays_left_open')
                check_on_path(bad, mon, v, d, scale, nxt, mine, i, L)
                continue
            if r[0] == 'miss':
                mon.event('misses')
                outcome.append(r)
                if mine:
                    bad('ghost', 'ray %d of level %d meets no surface, yet %d rays at level %d descend from it', i, L, len(mine), L + 1)
                continue
            si, t, terr, c = r[1:]
            s = surfs[si]
            scripted = s.optics[0] == 'script'
            exp = script(s, L, i, mine) if scripted else None        # the number of rays the script sends on
            any_hit = any_hit or not scripted or exp > 0
            outcome.append(('hit', si))
            x = G.add(v, G.mul(d, t))
            mon.event('hits')
            mon.state(s.geom[0], s.optics[0], min(L, 6))
            if scripted and exp == 0:
                continue
            if not mine:
                bad('lost', 'ray %d of level %d (from %s along %s) meets a %s surface at distance %.9g but nothing descends from it',
                    i, L, v, d, s.geom[0], t)
                continue
            ptol = 1e-8*scale + 100*terr
            for j in mine:
                n_origin[j] = si
                n_unknown[j] = False
                w = nxt['v'][j]
                if G.dist(w, x) > ptol:
                    bad('hit', 'ray %d of level %d (from %s along %s) first meets a %s surface at %s (distance %.9g), but its descendant starts at %s',
                        i, L, v, d, s.geom[0], x, t, w)
            if scripted:
                continue
            exp = G.children(s, x, d, e, cur['r'][i])
            if exp is None:
                mon.count('rays_left_open')
                continue
            if len(exp) != len(mine):
                bad('number', 'ray %d of level %d should leave %d rays at a %s %s surface, %d are recorded', i, L, len(exp), s.geom[0], s.optics[0], len(mine))
                continue
            match(bad, mon, exp, mine, nxt, i, L, s, c, e, scale)
        if nxt is None:
            if L < reps and any_hit:
                bad('stop', 'the trace ended at level %d of at most %d although a followed ray still meets a surface', L, reps)
        log.append(outcome)
        origin, unknown = n_origin, n_unknown
    return log

def check_on_path(bad, mon, v, d, scale, nxt, mine, i, L):
    """Whatever an undecided ray leaves must at least start on its forward path."""
    for j in mine:
        w = G.sub(nxt['v'][j], v)
        t = G.dot(w, d)
        off = G.norm(G.sub(w, G.mul(d, t)))
        if t < -1e-6*scale or off > 1e-6*scale + 1e-8*abs(t):
            bad('lineage', 'ray %d of level %d does not start on the path of its recorded parent %d', j, L + 1, i)
        mon.count('on_path_checks')

def match(bad, mon, exp, mine, nxt, i, L, s, c, e, scale):
    dtol = (1e-6 + 1e-9*scale/G.radius(s.geom))/max(c, 1e-3)
    if dtol > 1e-3:
        return
    left = list(mine)
    for x in exp:
        if x['dir'] is None:
            j = left[0]
        else:
            j = min(left, key=lambda j: G.dist(nxt['d'][j], x['dir']))
        left.remove(j)
        d = nxt['d'][j]
        if x['dir'] is None:
            if G.dot(d, x['n']) < -1e-9:
                bad('direction', 'ray %d of level %d leaves a diffuse surface on the far side', j, L + 1)
        else:
            tol = dtol
            if x['kind'] == 'refr':
                tol = dtol*20/max(abs(G.dot(x['dir'], x['n'])), 1e-3)
            if G.dist(d, x['dir']) > tol:
                bad('direction', 'ray %d of level %d leaves a %s %s surface along %s instead of %s', j, L + 1, s.geom[0], s.optics[0], d, x['dir'])
        ee = nxt['e'][j]
        etol = 1e-9*abs(e) if s.optics[0] != 'refr' else 1e-6*abs(e)
        if not abs(ee - x['energy']) <= etol + 1e-300:
            bad('energy', 'ray %d of level %d leaves a %s %s surface with energy %r instead of %r (it arrived with %r)',
                j, L + 1, s.geom[0], s.optics, ee, x['energy'], e)
        if nxt['r'][j] != x['ref']:
            bad('index', 'ray %d of level %d travels in refractive index %r instead of %r', j, L + 1, nxt['r'][j], x['ref'])
        mon.event('outgoing_checks')
