"""Recording stand-ins for the plotting library and the GUI toolkit, which are not installed here."""
import sys, types
import numpy as np


def module(name, **attrs):
    parts = name.split('.')
    for k in range(1, len(parts) + 1):
        n = '.'.join(parts[:k])
        if n not in sys.modules:
            m = types.ModuleType(n)
            m.__path__ = []
            sys.modules[n] = m
            if k > 1:
                setattr(sys.modules['.'.join(parts[:k - 1])], parts[k - 1], m)
    for k, v in attrs.items():
        setattr(sys.modules[name], k, v)


# ------------------------------------------------------------------ mayavi and its traits
class HasTraits(object):
    def __init__(self, **traits):
        for k, v in traits.items():
            setattr(self, k, v)


class Instance(object):
    def __init__(self, klass, args=None, kw=None, **meta):
        self.klass, self.args, self.kw = klass, args, kw or {}
        self.values = {}

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        d = obj.__dict__
        if self.name not in d:
            d[self.name] = None if self.args is None else self.klass(*self.args, **self.kw)
        return d[self.name]

    def __set__(self, obj, value):
        obj.__dict__[self.name] = value


class Thing(object):
    def __init__(self, *a, **k):
        self.args, self.kw = a, k


class Actor(object):
    def __init__(self, scene, kind, **data):
        self.scene, self.kind = scene, kind
        self.__dict__.update(data)
        scene.actors.append(self)

    def remove(self):
        if self in self.scene.actors:
            self.scene.actors.remove(self)


class Points(object):
    """What scalar_scatter returns: points, with lines attached later."""
    def __init__(self, x, y, z):
        self.points = np.array([x, y, z], dtype=float)
        self.mlab_source = types.SimpleNamespace(dataset=types.SimpleNamespace(lines=None))

    def remove(self):
        pass


class MlabSceneModel(object):
    def __init__(self, *a, **k):
        self.actors = []
        self.disable_render = False
        self.background = None
        scene = self

        class pipeline(object):
            @staticmethod
            def scalar_scatter(x, y, z, *more, **kw):
                return Points(x, y, z)

            @staticmethod
            def surface(src, **kw):
                return Actor(scene, 'lines', src=src, kw=kw)

        class mlab(object):
            @staticmethod
            def clf(*a, **k):
                del scene.actors[:]

            @staticmethod
            def mesh(x, y, z, **kw):
                return Actor(scene, 'mesh', xyz=np.array([x, y, z], dtype=float), kw=kw)
        mlab.pipeline = pipeline
        self.mlab = mlab


def segments(actor):
    """The drawn line segments as pairs of points."""
    pts = actor.src.points.T.tolist()
    out = []
    for line in np.array(actor.src.mlab_source.dataset.lines).tolist():
        for a, b in zip(line[:-1], line[1:]):
            if a < 0 or b < 0 or a >= len(pts) or b >= len(pts):
                raise IndexError('a drawn line refers to points %d and %d of %d' % (a, b, len(pts)))
            out.append((tuple(pts[a]), tuple(pts[b])))
    return out


def install_mayavi():
    module('traits.api', HasTraits=HasTraits, Instance=Instance, **{n: Thing for n in ('Range', 'Float', 'Int', 'Bool', 'Str', 'Button')})
    module('traitsui.api', View=Thing, Item=Thing, Group=Thing, HGroup=Thing, VGroup=Thing)
    module('mayavi.tools.mlab_scene_model', MlabSceneModel=MlabSceneModel)
    module('tvtk.pyface.scene_editor', SceneEditor=Thing)
    module('mayavi.core.ui.mayavi_scene', MayaviScene=Thing)


# ------------------------------------------------------------------ Qt tree widgets
class Signal(object):
    def __init__(self):
        self.slots = []

    def connect(self, f):
        self.slots.append(f)

    def disconnect(self, f=None):
        if f is None:
            self.slots = []
        else:
            self.slots.remove(f)

    def emit(self, *args):
        for f in list(self.slots):
            code = getattr(f, '__func__', f).__code__
            n = code.co_argcount - (1 if hasattr(f, '__func__') else 0)
            if code.co_flags & 4:
                n = len(args)
            f(*args[:n])          # Qt drops the arguments a slot does not take


class QTreeWidgetItem(object):
    def __init__(self, *args):
        self._texts = {}
        self._kids, self._parent, self._tree = [], None, None
        self._flags = 1 | 4 | 32
        for a in args:
            if isinstance(a, (list, tuple)):
                for k, t in enumerate(a):
                    self._texts[k] = str(t)
            elif isinstance(a, QTreeWidgetItem):
                a.addChild(self)
            elif isinstance(a, QTreeWidget):
                a.addTopLevelItem(self)

    def text(self, col):
        return self._texts.get(col, '')

    def setText(self, col, text):
        if self.text(col) == text:
            return
        self._texts[col] = text
        t = self.treeWidget()
        if t is not None:
            t.itemChanged.emit(self, col)

    def flags(self):
        return self._flags

    def setFlags(self, f):
        self._flags = f
        t = self.treeWidget()
        if t is not None:
            t.itemChanged.emit(self, 0)

    def addChild(self, kid):
        if kid._parent is not None or kid._tree is not None:
            return
        kid._parent = self
        self._kids.append(kid)

    def insertChild(self, k, kid):
        kid._parent = self
        self._kids.insert(k, kid)

    def addChildren(self, kids):
        for k in kids:
            self.addChild(k)

    def child(self, k):
        return self._kids[k] if 0 <= k < len(self._kids) else None

    def childCount(self):
        return len(self._kids)

    def parent(self):
        return self._parent

    def treeWidget(self):
        x = self
        while x._parent is not None:
            x = x._parent
        return x._tree


class QTreeWidget(object):
    def __init__(self, *args):
        self.itemChanged = Signal()
        self._top = []
        self.expanded = []

    def clear(self):
        for t in self._top:
            t._tree = None
        self._top = []

    def addTopLevelItem(self, item):
        item._tree = self
        self._top.append(item)

    def topLevelItem(self, k):
        return self._top[k] if 0 <= k < len(self._top) else None

    def topLevelItemCount(self):
        return len(self._top)

    def expandItem(self, item):
        self.expanded.append(item)

    def expandAll(self):
        pass

    def invisibleRootItem(self):
        raise NotImplementedError


class Qt(object):
    ItemIsSelectable, ItemIsEditable, ItemIsEnabled = 1, 2, 32


def install_qt():
    module('PyQt4.QtCore', Qt=Qt)
    module('PyQt4.QtGui', QTreeWidgetItem=QTreeWidgetItem, QTreeWidget=QTreeWidget)
