"""C24: type dispatch picks the most specific handler (model: walk of the MRO)."""
import sys
import types

from hypothesis import strategies as st

from vf.core import Search, Skip, Violation
from xoscar.utils import NamedType, TypeDispatcher

RULE = ("a case is a random class hierarchy (multiple inheritance) with a history of register/unregister/look-up by "
        "class, tuple, dotted name and named variant; non-trivial = at least one look-up answered through inheritance")
ASSUMPTIONS = ["a class is registered either by itself or by dotted name, not both at a time; a name is unregistered "
               "together with its class once it may have been loaded"]

MOD = "vf_dispatch_classes"


def make_classes(parents):
    mod = types.ModuleType(MOD)
    sys.modules[MOD] = mod
    classes = []
    for i, ps in enumerate(parents):
        bases = []
        for p in ps:
            if not classes:
                break
            c = classes[-1 - p % len(classes)]
            if not any(issubclass(b, c) or issubclass(c, b) for b in bases):
                bases.append(c)
        try:
            cls = type(f"C{i}", tuple(bases) or (object,), {"__module__": MOD})
        except TypeError:
            cls = type(f"C{i}", (object,), {"__module__": MOD})
        setattr(mod, cls.__name__, cls)
        classes.append(cls)
    classes.append(object)
    return classes


def run(case):
    classes = make_classes(case["parents"])
    d = TypeDispatcher()
    model = {}      # class or NamedType -> handler
    how = {}
    inherited = lookups = missing = 0

    def key_of(cls, name):
        return cls if name is None else NamedType(name, cls)

    def expect(cls, name):
        for c in cls.__mro__:
            if name is not None and NamedType(name, c) in model:
                return model[NamedType(name, c)], c is not cls
            if c in model:
                return model[c], c is not cls
        return None, False

    for n, (op, k, name, extra) in enumerate(case["ops"]):
        cls = classes[k % len(classes)]
        key = key_of(cls, name)
        if op == "reg":
            h = lambda o, *a, _n=n, **kw: (_n, a, kw)  # noqa: E731
            if how.get(key) == "name":
                continue
            d.register(key, h)
            model[key], how[key] = h, "class"
        elif op == "regtuple":
            h = lambda o, *a, _n=n, **kw: (_n, a, kw)  # noqa: E731
            ks = tuple(dict.fromkeys([key, key_of(classes[extra % len(classes)], None)]))
            if any(how.get(x) == "name" for x in ks):
                continue
            d.register(ks, h)
            for x in ks:
                model[x], how[x] = h, "class"
        elif op == "regname":
            if cls is object or cls in how:
                continue
            h = lambda o, *a, _n=n, **kw: (_n, a, kw)  # noqa: E731
            d.register(f"{MOD}.{cls.__name__}", h)
            model[cls], how[cls] = h, "name"
        elif op == "unreg":
            if how.get(key) == "name":
                d.unregister(f"{MOD}.{cls.__name__}")
            d.unregister(key)
            model.pop(key, None)
            how.pop(key, None)
        elif op == "unregtuple":
            other = classes[extra % len(classes)]
            ks = tuple(dict.fromkeys([key, other]))
            if any(how.get(x) == "name" for x in ks):
                continue
            d.unregister(ks)
            for x in ks:
                model.pop(x, None)
                how.pop(x, None)
        elif op == "reload":
            TypeDispatcher.reload_all_lazy_handlers()
        else:
            want, inh = expect(cls, name)
            lookups += 1
            if op == "get" or name is not None:
                try:
                    got = d.get_handler(key)
                except KeyError:
                    got = None
                if got is not want:
                    raise Violation(f"look-up of {key} gave {got and got(0)}, want {want and want(0)}")
            else:
                try:
                    got = d(cls(), 1, 2, z=3)
                except KeyError:
                    got = None
                w = want and want(None, 1, 2, z=3)
                if got != w:
                    raise Violation(f"calling with a {cls.__name__} gave {got}, want {w}")
            inherited += inh
            missing += want is None
    return {"nontrivial": inherited > 0, "labels": [f"inherited{min(inherited, 3)}", f"missing{min(missing, 2)}"]}


def strat():
    op = st.tuples(st.sampled_from(["reg", "reg", "regtuple", "regname", "unreg", "unregtuple", "get", "get", "get", "call", "call", "reload"]),
                   st.integers(0, 7), st.sampled_from([None, None, None, "n1", "n2"]), st.integers(0, 7)).map(list)
    return st.fixed_dictionaries({
        "parents": st.lists(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=0, max_size=2), min_size=1, max_size=7),
        "ops": st.lists(op, min_size=2, max_size=25)})


SEARCHES = [Search("model", strat, run, quick=12000, thorough=400000, shards=4,
                   rule="history vs MRO model")]
