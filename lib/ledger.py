"""An event log of all optics calls of a trace, with a unique identity for every ray.

The wrapped optics see what the real engine hands to the real optics. Each ray carries a 'uid'
property; the optics under test inherit it from the arriving ray, so that the log knows which ray
each outgoing ray stems from before it gives the outgoing ray a uid of its own.
"""
import numpy as np


class Event(object):
    __slots__ = ('surf', 'selector', 'uids', 'e_in', 'parents', 'out_uids', 'out_puids', 'e_out', 'order', 'n_in', 'dirs', 'out_dirs', 'out_verts')


class Ledger(object):
    def __init__(self):
        self.next_uid = 0
        self.events = []
        self.parent_of = {}        # uid -> uid of the ray it stems from
        self.surf_of = {}          # uid -> surface that emitted it
        self.energy_of = {}
        self.level_of = {}
        self.on_event = None
        self.fail_at = None        # raise at this event number (fault injection)

    def source_uids(self, n, energy=None):
        u = np.arange(self.next_uid, self.next_uid + n)
        self.next_uid += n
        for k, x in enumerate(u.tolist()):
            self.parent_of[x] = None
            self.level_of[x] = 0
            if energy is not None:
                self.energy_of[x] = float(energy[k])
        return u

    def wrap(self, optics, surf):
        return WatchedOptics(self, optics, surf)


class InjectedFault(Exception):
    pass


class WatchedOptics(object):
    """Duck-typed optics callable; delegates everything else to the real one."""
    def __init__(self, ledger, optics, surf):
        self.__dict__['ledger'] = ledger
        self.__dict__['real_optics'] = optics
        self.__dict__['ref_surf'] = surf

    def __getattr__(self, name):
        return getattr(self.__dict__['real_optics'], name)

    def __call__(self, geometry, rays, selector):
        led = self.ledger
        if led.fail_at is not None and len(led.events) == led.fail_at:
            led.fail_at = None
            raise InjectedFault()
        ev = Event()
        ev.order = len(led.events)
        ev.surf = self.ref_surf
        ev.selector = np.array(selector).tolist()
        ev.n_in = rays.get_num_rays()
        ev.uids = [int(u) for u in rays.get_uid()[selector]]
        ev.e_in = rays.get_energy()[selector].tolist()
        ev.dirs = rays.get_directions()[:, selector].T.tolist()
        outg = self.real_optics(geometry, rays, selector)
        ev.out_puids = [int(u) for u in outg.get_uid()]
        ev.parents = [int(p) for p in outg.get_parents()]
        ev.e_out = outg.get_energy().tolist()
        ev.out_dirs = outg.get_directions().T.tolist()
        ev.out_verts = outg.get_vertices().T.tolist()
        n = outg.get_num_rays()
        new = np.arange(led.next_uid, led.next_uid + n)
        led.next_uid += n
        ev.out_uids = new.tolist()
        for u, p, e in zip(ev.out_uids, ev.out_puids, ev.e_out):
            led.parent_of[u] = p
            led.surf_of[u] = self.ref_surf
            led.energy_of[u] = e
            led.level_of[u] = led.level_of.get(p, -100) + 1
        outg.set_uid(new)
        led.events.append(ev)
        if led.on_event is not None:
            led.on_event(ev)
        return outg
