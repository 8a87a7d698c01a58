"""Abstract heap objects.  They are treated as immutable: a write stores a modified copy."""
from . import bdd


class DictO:
    kind = "dict"
    __slots__ = ("items", "base", "loops", "cls")

    def __init__(self, items=None, base=None, loops=(), cls=None):
        self.items = items if items is not None else {}   # key term -> (guard, value, site)
        self.base = base          # name of the symbolic mapping underneath, or None
        self.loops = loops        # loop records whose iterations stored one entry each
        self.cls = cls

    def copy(self):
        return DictO(dict(self.items), self.base, self.loops, self.cls)


class ListO:
    kind = "list"
    __slots__ = ("items", "pre", "unordered", "ty")

    def __init__(self, items=(), pre=None, unordered=False, ty="list"):
        self.items = tuple(items)     # (guard, value)
        self.pre = pre                # unknown prefix (a loop-carried symbol) or None
        self.unordered = unordered    # order depends on set iteration / insertion order
        self.ty = ty                  # "list" or "iter" (a one-shot iterator), "tuple"

    def copy(self):
        return ListO(self.items, self.pre, self.unordered, self.ty)


class SetO:
    kind = "set"
    __slots__ = ("items", "syms", "unknown", "frozen")

    def __init__(self, items=None, syms=(), unknown=None, frozen=False):
        self.items = items if items is not None else {}    # const term -> guard
        self.syms = syms                                   # ((guard, term), ...)
        self.unknown = unknown                             # reason when contents are lost
        self.frozen = frozen

    def copy(self):
        return SetO(dict(self.items), self.syms, self.unknown, self.frozen)


class BArrO:
    kind = "bytearray"
    __slots__ = ("content",)

    def __init__(self, content):
        self.content = content

    def copy(self):
        return BArrO(self.content)


class InstO:
    kind = "inst"
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def copy(self):
        return InstO(self.cls, dict(self.attrs))


class EnvO:
    kind = "env"
    __slots__ = ("vars", "parent", "owner")

    def __init__(self, vars, parent, owner):
        self.vars = vars
        self.parent = parent
        self.owner = owner

    def copy(self):
        return EnvO(dict(self.vars), self.parent, self.owner)


class GenO:
    """Suspended generator: the call that will be run when it is iterated."""
    kind = "gen"
    __slots__ = ("func", "args", "kwargs", "node")

    def __init__(self, func, args, kwargs, node):
        self.func, self.args, self.kwargs, self.node = func, args, kwargs, node

    def copy(self):
        return self


class CellO:
    """Attributes set on a function, class or module object."""
    kind = "attrs"
    __slots__ = ("attrs",)

    def __init__(self, attrs=None):
        self.attrs = attrs or {}

    def copy(self):
        return CellO(dict(self.attrs))
