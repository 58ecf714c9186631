from common import *
import fakes
fakes.install_qt()
from tracer.qt.assembly_tree import AssemblyTree
from tracer.models import tau_minidish
from tracer.models.homogenizer import rect_homogenizer

RULE = ("a case is a history of showing assemblies, editing captions in the view and tags in the model, and changing the assembly, on a stand-in of the "
    "toolkit's tree widget; non-trivial if a shown tree was compared with its assembly")
ASSUMPTIONS = ["the toolkit's tree widget behaves as documented; a stand-in records what is put into it and emits the change signal",
    "the outermost assembly's item has a fixed title until it is edited"]
MINIMUM = dict(trees=300, items=3000, edits=400, replacements=80, reshown=100, tagged=100)


class Model(object):
    """Shadow captions, by identity."""
    def __init__(self):
        self.cap = {}
        self.keep = []

    def get(self, x):
        return self.cap.get(id(x))

    def set(self, x, c):
        self.keep.append(x)
        self.cap[id(x)] = c

    def shown(self, x, default):
        if id(x) not in self.cap:
            self.set(x, default)
        return self.cap[id(x)]


def groups(mon, item):
    g = {}
    for k in range(item.childCount()):
        c = item.child(k)
        mon.check(c.text(0) not in g, 'two groups are called %s', c.text(0))
        g[c.text(0)] = [c.child(j) for j in range(c.childCount())]
    return g


def compare_assembly(mon, model, asm, item, out, path):
    mon.check(item.flags() & fakes.Qt.ItemIsEditable, 'the item of %s cannot be edited', path)
    out.append((item, asm))
    g = groups(mon, item)
    subs, objs = asm.get_assemblies(), asm.get_local_objects()
    names = (['Subassemblies'] if subs else []) + (['Optical objects'] if objs else [])
    mon.check(sorted(g) == sorted(names), '%s shows %s instead of %s', path, sorted(g), names)
    s = g.get('Subassemblies', [])
    mon.check(len(s) == len(subs), '%s shows %d subassemblies instead of %d', path, len(s), len(subs))
    for k, (it, a) in enumerate(zip(s, subs)):
        one(mon, model, it, a, 'Assembly %d' % k, path)
        compare_assembly(mon, model, a, it, out, path + '/%d' % k)
    o = g.get('Optical objects', [])
    mon.check(len(o) == len(objs), '%s shows %d objects instead of %d', path, len(o), len(objs))
    for k, (it, ob) in enumerate(zip(o, objs)):
        one(mon, model, it, ob, 'Object %d' % k, path)
        out.append((it, ob))
        surfs = ob.get_surfaces()
        mon.check(it.childCount() == len(surfs), 'object %d of %s shows %d surfaces instead of %d', k, path, it.childCount(), len(surfs))
        for j, sf in enumerate(surfs):
            one(mon, model, it.child(j), sf, 'Surface %d' % j, path + ' object %d' % k)
            mon.check(it.child(j).childCount() == 0, 'a surface has items below it')
            out.append((it.child(j), sf))


def one(mon, model, item, thing, default, path):
    want = model.shown(thing, default)
    mon.check(item.text(0) == want, 'below %s an item is called %r instead of %r', path, item.text(0), want)
    mon.check(item.flags() & fakes.Qt.ItemIsEditable, 'the item %r cannot be edited', want)
    mon.event('items')


def check_tree(mon, model, view, asm, things):
    mon.check(view.get_assembly() is asm, 'the view holds another assembly')
    mon.check(view.topLevelItemCount() == 1, '%d top items', view.topLevelItemCount())
    top = view.topLevelItem(0)
    out = []
    compare_assembly(mon, model, asm, top, out, 'the top assembly')
    mon.event('trees')
    check_tags(mon, model, view, things)
    return out


def check_tags(mon, model, view, things):
    for x in things:
        mon.check(view.get_tag(x, 'caption') == model.get(x), 'a caption is %r instead of %r', view.get_tag(x, 'caption'), model.get(x))


def members(asm):
    out = [asm]
    for a in asm.get_assemblies():
        out += members(a)
    for o in asm.get_local_objects():
        out.append(o)
        out += list(o.get_surfaces())
    return out


def make(rng, depth=3):
    k = rng.random()
    if k < .1:
        return tau_minidish.standard_minidish(1., 500, 1.)[0]
    if k < .2:
        return rect_homogenizer(1., 1., 2., .9)
    def surf():
        return Surface(real_geom(('rect', 1., 1.)), real_optics(('refl', 0.)))
    tower = k > .97
    def asm(d):
        a = Assembly()
        many = lambda m: rng.randint(10, 30) if m and rng.random() < .1 else rng.choice([0, 1, 1, 2, 3])
        for _ in range(many(True)):
            a.add_object(AssembledObject(surfs=[surf() for _ in range(many(rng.random() < .3))]))
        if d > 0:
            m = rng.choice([0, 0, 1, 2]) if rng.random() < .97 or d < 2 else rng.randint(10, 13)
            for _ in range(m):
                a.add_assembly(asm(d - 1 if m < 3 else 0))
        return a
    a = asm(depth)
    if tower:                   # one inside the other, over and over
        for _ in range(rng.randint(5, 20)):
            b = Assembly(subassemblies=[a] if rng.random() < .5 else [Assembly(), a])
            a = b
    return a


def history(rng, mon, tier):
    view = AssemblyTree()
    model = Model()
    asms = [make(rng)]
    mon.input('history', [len(members(asms[0])), rng.random()])
    things = members(asms[0])
    other = {}
    def new_name():
        return 'name %d' % rng.randint(0, 9) if rng.random() < .5 else rng.choice(['', 'Object 0', u'\u05de\u05e8\u05d0\u05d4', 'Assembly 1', 'a b'])
    # tags given before anything is shown
    for x in things[1:]:
        if rng.random() < .25:
            c = new_name()
            if rng.random() < .5:
                view.set_tag(x, 'caption', c)
            else:
                x._tree_tags = {'caption': c}
            model.set(x, c)
            mon.count('tagged')
    cur = asms[0]
    view.set_assembly(cur)
    items = check_tree(mon, model, view, cur, things)
    mon.check(view.topLevelItem(0).text(0) == 'Top assembly', 'the top item is called %r', view.topLevelItem(0).text(0))
    stale = []
    for _ in range(rng.randint(3, 14)):
        k = rng.random()
        if k < .45:
            it, x = rng.choice(items)
            c = new_name()
            if it.text(0) == c:
                continue
            it.setText(0, c)
            model.set(x, c)
            mon.event('edits')
            check_tags(mon, model, view, things)
        elif k < .6:
            a = make(rng)
            asms.append(a)
            things += members(a)
            cur = a
            stale = items
            view.set_assembly(cur)
            mon.count('replacements')
            items = check_tree(mon, model, view, cur, things)
        elif k < .8:
            cur = rng.choice(asms)
            view.set_assembly(cur)
            mon.count('reshown')
            items = check_tree(mon, model, view, cur, things)
        elif k < .9:
            # a tag set through the model, and another tag that must not matter
            x = rng.choice(things)
            view.set_tag(x, 'other', 'x%d' % len(other))
            other[id(x)] = 'x%d' % len(other)
            if rng.random() < .5 and x not in asms:
                c = new_name()
                view.set_tag(x, 'caption', c)
                model.set(x, c)
                mon.count('tagged')
            view.set_assembly(cur)
            items = check_tree(mon, model, view, cur, things)
        else:
            # the assembly grows; shown again, so does the tree
            new = [Surface(real_geom(('round', 1.)), real_optics(('refl', 0.)))]
            ob = AssembledObject(surfs=new)
            rng.choice([x for x in members(cur) if hasattr(x, 'get_local_objects') and not isinstance(x, AssembledObject)]).add_object(ob)
            things += [ob] + new
            view.set_assembly(cur)
            items = check_tree(mon, model, view, cur, things)
        for x in things:
            if id(x) in other:
                mon.check(view.get_tag(x, 'other') == other[id(x)], 'another tag changed')
            else:
                mon.check(view.get_tag(x, 'other') is None, 'a tag appeared on another item')


QUICK = 4
KINDS = dict(history=(history, 700, 15000))
