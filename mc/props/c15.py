"""C15: a structure behaves as a mapping of its assigned fields."""

import copy
import io

from mc.items import on
from mc.items import U8
from mc.lib import attempt
from mc.lib import fail
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.model import Arr
from mc.model import Bad
from mc.model import FS
from mc.model import Int
from mc.model import Nest
from mc.model import NOPE
from mc.model import plain
from mc.model import same_model
from mc.model import Spec
from mc.model import StrZ

BOUNDS = {
    "quick": "a structure with required, default, constant, computed, conditional, nullable,"
    " factory, nested and discarded fields, under plain names and under the names of mapping"
    " methods, with and without inheritance, by assignment and with annotations; from 4 starts"
    " (empty, partial, complete, loaded) all sequences of 2 of ~30 operations by attribute,"
    " key and proxy, and of 3 of the 17 that matter most, comparing every view at the end;"
    " every operation by every way; unknown names in dictionaries for nested structures in 8"
    " places by 4 operations; comparisons"
    " with structures of parent and unrelated classes; structures with discarded fields without default: 2 changes from 4"
    " starts; bytes given as a bytearray in 9 places",
    "thorough": "all sequences of 3 operations, and of 4 of the 17 that matter most",
}
ASSUMPTIONS = [
    "iteration order, and the names to_dict() shows for discarded fields, are unspecified",
    "only assigned values take part in equality, as documented",
]

PLAIN = dict(zip("rdcnfokytx", "rdcnfokytx"))
METHODS = dict(
    zip(
        "rdcnfokytx",
        ["keys", "items", "values", "get", "size", "name", "struct", "context", "index", "update"],
    )
)


def make_spec(names, style, split):
    g = names
    nest = Nest(Spec([FS("p", U8()), FS("q", U8(), default=5)], name="In"), [])
    fields = [
        FS(g["r"], U8()),
        FS(g["d"], Int(2, False, "big"), default=0x0102),
        FS(g["c"], U8(), const=7),
        FS(g["n"], U8(), computed=lambda e: (e[g["r"]] + 1) % 256),
        FS(g["f"], U8(), default=0),
        FS(g["o"], U8(), present=on(g["f"]), npv=None),
        FS(g["k"], StrZ(), null="-"),
        FS(g["y"], nest),
        FS(g["t"], Arr(U8(), 2), factory=lambda: [1, 2]),
        FS(g["x"], U8(), default=3, discard=True),
    ]
    if split:
        parent = Spec(fields[:split], name="P", style=style)
        return Spec(fields[split:], parent=parent, style=style)
    return Spec(fields, style=style)


RELATED = {}


def related(names, style, split):
    """Classes with these fields: a child, and a stranger."""
    from binobj import fields as F

    key = tuple(names.values()), style, split
    if key not in RELATED:
        cls = make_spec(names, style, split).build()
        more = type("More", (cls,), {"more": F.UInt8(default=1)})
        stranger = make_spec(names, "assign", 0).build()
        RELATED[key] = [more, stranger]
    return RELATED[key]


FULL = {"r": 3, "d": 9, "f": 1, "o": 4, "k": "ab", "y": {"p": 1, "q": 5}, "t": [8, 9]}
STARTS = {
    "empty": {},
    "partial": {"r": 3, "k": None},
    "complete": FULL,
    "loaded": FULL,
}

SETS = [
    ("r", 200),
    ("r", 0),
    ("d", 0x0102),
    ("d", 5),
    ("f", 0),
    ("f", 1),
    ("o", 6),
    ("o", None),
    ("k", None),
    ("k", ""),
    ("y", {"p": 2, "q": 6}),
    ("t", [1, 2]),
    ("x", 5),
]
REFUSED = [("c", 7), ("c", 8), ("n", 4)]


def ways_to_set():
    from binobj.structures import MutableStructMappingProxy as Proxy

    def by_attribute(inst, name, v):
        setattr(inst, name, v)

    def by_key(inst, name, v):
        inst[name] = v

    def by_proxy(inst, name, v):
        Proxy(inst)[name] = v

    def by_update(inst, name, v):
        Proxy(inst).update({name: v})

    def by_kwargs(inst, name, v):
        Proxy(inst).update([(name, v)])

    return [by_attribute, by_key, by_proxy, by_update, by_kwargs]


def ways_to_delete():
    from binobj.structures import MutableStructMappingProxy as Proxy

    def by_key(inst, name):
        del inst[name]

    def by_proxy(inst, name):
        del Proxy(inst)[name]

    def by_pop(inst, name):
        if name in Proxy(inst):
            Proxy(inst).pop(name)
        else:
            del inst[name]

    return [by_key, by_proxy, by_pop]


MORE = {"r": 3, "d": 9, "f": 1, "o": 4, "k": None, "t": [8, 9], "x": 3}

UNKNOWN = ["zz", "to_bytes", "__values__", "__class__", "", "R", 5, None, ("r",)]


class Machine:
    """A structure and the plain dictionary it has to agree with."""

    def __init__(self, names, style, split, start, rec):
        self.names, self.rec = names, rec
        self.spec = make_spec(names, style, split)
        self.shape = style, split
        self.cls = self.spec.build()
        self.log = [start]
        assigned = {names[n]: copy.deepcopy(v) for n, v in STARTS[start].items()}
        rec.case = lambda: f"{self.spec!r}\n{self.log}"
        if start == "loaded":
            self.inst = self.cls.from_bytes(self.spec.dump(assigned))
            assigned = self.spec.loaded(assigned)
        else:
            self.inst = self.cls(**self.real(assigned))
        self.assigned = assigned

    def real(self, assigned):
        return self.spec.real_values(copy.deepcopy(assigned), 0)

    def apply(self, op, way):
        kind, name, *value = op
        real_name = self.names.get(name, name) if isinstance(name, str) else name
        self.log.append((kind, name, *value, getattr(way, "__name__", "")))
        self.rec.step()
        if kind == "set":
            value = value[0]
            way(self.inst, real_name, copy.deepcopy(value))
            self.assigned[real_name] = copy.deepcopy(value)
        elif kind == "delete":
            way(self.inst, real_name)
            self.assigned.pop(real_name, None)
        elif kind == "refused":
            from binobj import errors

            how, got = attempt(way, self.inst, real_name, value[0])
            if how == "ok" or not isinstance(got, errors.ImmutableFieldError):
                fail(f"assigning to {real_name}: {how} {got!r}")
        elif kind == "unknown":
            self.unknown(name)
        elif kind == "setdefault":
            self.setdefault(real_name, value[0])
        elif kind == "look":
            self.judge()
        elif kind == "clear":
            from binobj.structures import MutableStructMappingProxy as Proxy

            while self.assigned:
                got = Proxy(self.inst).popitem()
                if got[0] not in self.assigned or not like(plain(got[1]), self.assigned[got[0]]):
                    fail(f"popitem() gives {got!r}, assigned: {self.assigned!r}")
                del self.assigned[got[0]]
            how, got = attempt(Proxy(self.inst).popitem)
            if how == "ok" or not isinstance(got, KeyError):
                fail(f"popitem() of an empty structure: {how} {got!r}")

    def expected(self, name):
        if name in self.assigned:
            return self.assigned[name]
        available, _env = self.spec.available(self.assigned)
        return next(v for f, v in available if f.name == name)

    def setdefault(self, name, value):
        from binobj.structures import MutableStructMappingProxy as Proxy

        before = self.expected(name)
        got = Proxy(self.inst).setdefault(name, copy.deepcopy(value))
        if before is NOPE:
            self.assigned[name] = copy.deepcopy(value)
            before = value
        if not like(plain(got), before):
            fail(f"setdefault({name!r}) gives {got!r}, expected {before!r}")

    def unknown(self, name):
        from binobj import errors
        from binobj.structures import MutableStructMappingProxy as Proxy

        inst, proxy = self.inst, Proxy(self.inst)
        tries = {
            "getting": lambda: inst[name],
            "setting": lambda: inst.__setitem__(name, 1),
            "deleting": lambda: inst.__delitem__(name),
            "getting from the proxy": lambda: proxy[name],
            "setting in the proxy": lambda: proxy.__setitem__(name, 1),
            "deleting from the proxy": lambda: proxy.__delitem__(name),
            "popping": lambda: proxy.pop(name),
            "updating": lambda: proxy.update({name: 1}),
        }
        for what, run in tries.items():
            how, got = attempt(run)
            if how == "ok" or not isinstance(got, KeyError):
                fail(f"{what} the unknown name {name!r}: {how} {got!r}")
        if name in proxy or name in inst:
            fail(f"{name!r} is said to be in the structure")
        if proxy.get(name) is not None or proxy.get(name, 5) != 5 or proxy.pop(name, 6) != 6:
            fail(f"get() or pop() of the unknown name {name!r} don't give the default")
        if isinstance(name, str):
            how, got = attempt(self.cls, **{name: 1})
            if how == "ok" or not isinstance(got, errors.UnexpectedValueError):
                fail(f"constructing with the unknown name {name!r}: {how} {got!r}")

    def judge(self):
        from binobj.structures import MutableStructMappingProxy
        from binobj.structures import StructMappingProxy

        inst, assigned, spec = self.inst, self.assigned, self.spec
        names = spec.names()
        listed = [n for n in inst]
        if sorted(listed) != sorted(assigned):
            fail(f"iteration gives {listed}, assigned: {sorted(assigned)}")
        values = {}
        for name in names:
            want = self.expected(name)
            for way, read in (
                ("attribute", lambda: getattr(inst, name)),
                ("key", lambda: inst[name]),
                ("proxy", lambda: StructMappingProxy(inst)[name]),
            ):
                how, got = attempt(read)
                if want is NOPE:
                    if how == "ok":
                        fail(f"{name} by {way} is {got!r} though there's no value")
                elif how != "ok":
                    fail(f"{name} by {way} raises {got!r}")
                elif not like(plain(got), want):
                    fail(f"{name} by {way} is {got!r}, expected {want!r}")
            values[name] = want
            if (name in inst) != (name in assigned):
                fail(f"{name!r} in the structure: {name in inst}")
        for cls in (StructMappingProxy, MutableStructMappingProxy):
            self.judge_proxy(cls(inst), values)
        self.judge_equal()
        self.judge_whole()
        if not isinstance(repr(inst), str) or not isinstance(str(inst), str):
            fail("no representation")
        self.rec.step(len(names) * 4 + 10)

    def judge_proxy(self, proxy, values):
        mutable = hasattr(proxy, "pop")
        assigned = self.assigned
        if len(proxy) != len(assigned) or bool(proxy) != bool(assigned):
            fail(f"the proxy's length is {len(proxy)}, assigned: {assigned!r}")
        if sorted(proxy) != sorted(assigned) or sorted(proxy.keys()) != sorted(assigned):
            fail(f"the proxy's keys are {sorted(proxy)}, assigned: {sorted(assigned)}")
        shown = {n: plain(v) for n, v in proxy.items()}
        if not like(shown, assigned):
            fail(f"the proxy's items are {shown!r}, assigned: {assigned!r}")
        if len(list(proxy.values())) != len(assigned):
            fail(f"the proxy's values are {list(proxy.values())!r}, assigned: {assigned!r}")
        if not like({n: plain(v) for n, v in dict(proxy).items()}, assigned):
            fail(f"dict(proxy) is {dict(proxy)!r}, assigned: {assigned!r}")
        if not like({n: plain(v) for n, v in dict(**proxy).items()}, assigned):
            fail("expanding the proxy gives something else")
        for name, want in values.items():
            if (name in proxy) != (name in assigned):
                fail(f"{name!r} in the proxy: {name in proxy}")
            missing = object()
            got = proxy.get(name, missing)
            if want is NOPE:
                if got is not missing:
                    fail(f"get({name!r}) gives {got!r} though there's no value")
                if mutable and proxy.pop(name, missing) is not missing:
                    fail(f"pop({name!r}) doesn't give the default though there's no value")
            elif not like(plain(got), want):
                fail(f"get({name!r}) gives {got!r}, expected {want!r}")
        if proxy != dict(proxy) or not (proxy == type(proxy)(self.inst)):
            fail("the proxy isn't equal to its contents")

    def judge_equal(self):
        inst, assigned = self.inst, self.assigned
        twin = self.cls(**self.real(assigned))
        for other in (inst, twin, self.real(assigned)):
            if not (inst == other) or inst != other or not (other == inst):
                fail(f"isn't equal to {other!r}")
        for name in assigned:
            less = {n: v for n, v in assigned.items() if n != name}
            for other in (self.cls(**self.real(less)), self.real(less)):
                if inst == other or not (inst != other):
                    fail(f"is equal to {other!r}, which lacks {name}")
        for name, v in MORE.items():
            name = self.names[name]
            if name in assigned:
                continue
            more = {**assigned, name: v}
            for other in (self.cls(**self.real(more)), self.real(more)):
                if inst == other or not (inst != other) or other == inst:
                    fail(f"is equal to {other!r}, which has {name} as well")
        if assigned.get(self.names["r"]) is not None:
            changed = {**assigned, self.names["r"]: 77}
            for other in (self.cls(**self.real(changed)), self.real(changed)):
                if inst == other or not (inst != other):
                    fail(f"is equal to {other!r}, which is different")
        others = related(self.names, *self.shape)
        self.turn = getattr(self, "turn", len(self.log)) + 1
        for cls in [type(inst).__mro__[1], others[self.turn % 2]]:
            if not hasattr(cls, "__binobj_struct__") or any(
                n not in cls.__binobj_struct__.components for n in assigned
            ):
                continue
            other = cls(**self.real(assigned))
            if not (inst == other) or inst != other or not (other == inst) or other != inst:
                fail(f"isn't equal to {other!r}, of another class with the same values")
            if assigned.get(self.names["r"]) is not None:
                other[self.names["r"]] = 77
                if inst == other or not (inst != other) or other == inst:
                    fail(f"is equal to {other!r}, of another class with different values")
        for other in (5, None, "x", [1], object()):
            if inst == other or not (inst != other):
                fail(f"is equal to {other!r}")

    def judge_whole(self):
        spec, inst = self.spec, self.inst
        try:
            resolved, _env = spec.resolve(self.assigned)
        except (Bad, KeyError):
            for op in (inst.to_dict, inst.to_bytes):
                how, got = attempt(op)
                if how == "ok":
                    fail(f"{op.__name__}() gives {got!r} though a value is missing")
            return
        try:
            raw = spec.dump(self.assigned)
        except Bad:
            how, got = attempt(inst.to_bytes)
            if how == "ok":
                fail(f"to_bytes() gives {short(got)} though a value can't be dumped")
            raw = None
        shown = plain(inst.to_dict())
        if set(shown) - {self.names["x"]} != set(spec.names()) - {self.names["x"]}:
            fail(f"to_dict() has the names {sorted(shown)}")
        for f, v in resolved:
            if v is not None and f.present is not None and not f.present(_env):
                continue
            if f.discard and f.name not in shown:
                continue
            if not like(shown[f.name], v):
                fail(f"to_dict()[{f.name!r}] is {shown[f.name]!r}, expected {v!r}")
        got = inst.to_bytes() if raw is not None else None
        if got != raw:
            fail(f"to_bytes() gives {short(got)}, expected {short(raw)}")


def like(got, want):
    """Equal, apart from defaults filled in in nested structures."""
    if isinstance(want, dict) and isinstance(got, dict):
        return set(got) == set(want) and all(like(got[n], want[n]) for n in want)
    return same_model(got, want)


def operations():
    ops = [("set", n, v) for n, v in SETS]
    ops += [("delete", n) for n in "rdcnfokytx"]
    ops += [("refused", n, v) for n, v in REFUSED[1:]]
    ops += [("unknown", "zz"), ("look", "r"), ("clear", "r")]
    ops += [("setdefault", "r", 44), ("setdefault", "d", 45), ("setdefault", "k", "s")]
    return ops


SHAPES = [
    (PLAIN, "assign", 0),
    (METHODS, "assign", 3),
    (PLAIN, "instance", 4),
]


def histories_body(depth, shapes, starts, ops):
    def histories(ch, rec):
        shape = ch.choose(shapes)
        start = ch.choose(starts)
        m = Machine(*shape, start, rec)
        setters, deleters = ways_to_set(), ways_to_delete()
        for step in range(depth):
            i = ch.pick(len(ops))
            op = ops[i]
            # The ways take turns; all combinations are covered by "ways".
            way = None
            if op[0] in ("set", "refused"):
                way = setters[(i + step) % len(setters)]
            elif op[0] == "delete":
                way = deleters[(i + step) % len(deleters)]
            m.apply(op, way)
        m.judge()
        rec.traced()
        rec.state(shape, start, m.log)
        rec.sample(m.log)

    return histories


def ways(ch, rec):
    names = ch.choose((PLAIN, METHODS))
    style = ch.choose(("assign", "instance", "annotated"))
    start = ch.choose(sorted(STARTS))
    m = Machine(names, style, ch.choose((0, 2)), start, rec)
    first = ch.choose(operations() + [("refused", *r) for r in REFUSED[:1]])
    if first[0] in ("set", "refused"):
        m.apply(first, ch.choose(ways_to_set()))
    elif first[0] == "delete":
        m.apply(first, ch.choose(ways_to_delete()))
    elif first[0] == "unknown":
        m.apply(("unknown", ch.choose(UNKNOWN)), None)
    else:
        m.apply(first, None)
    m.judge()
    m.judge()
    rec.traced()
    rec.state(names is METHODS, style, start, m.log)


CORE = [
    ("set", "r", 200),
    ("set", "d", 5),
    ("set", "f", 0),
    ("set", "f", 1),
    ("set", "o", 6),
    ("set", "k", None),
    ("set", "y", {"p": 2, "q": 6}),
    ("set", "t", [1, 2]),
    ("delete", "r"),
    ("delete", "d"),
    ("delete", "f"),
    ("delete", "o"),
    ("delete", "n"),
    ("delete", "t"),
    ("setdefault", "r", 44),
    ("look", "r"),
    ("clear", "r"),
]


# Unknown names in dictionaries given for nested structures.


def nested_unknown(ch, rec):
    """Names a nested structure doesn't have are refused wherever they are."""
    import binobj
    from binobj import errors
    from binobj import fields as F

    class In(binobj.Struct):
        p = F.UInt8()
        q = F.UInt8(default=5)

    class Mid(binobj.Struct):
        m = F.Nested(In)
        after = F.UInt8(default=1)

    given = {
        "right": {"p": 1},
        "both": {"p": 1, "q": 2},
        "extra": {"p": 1, "zz": 2},
        "extra-none": {"p": 1, "zz": None},
        "only-extra": {"zz": 2},
        "method": {"p": 1, "to_bytes": 2},
        "private": {"p": 1, "__values__": {}},
    }
    which = ch.choose(sorted(given))
    value = given[which]
    place = ch.choose(("field", "array", "last", "deep", "union", "default", "factory", "changed"))
    op = ch.choose(("to_bytes", "to_stream", "partial_dump", "field"))
    rec.case = lambda: f"{value!r} given for a nested structure ({place}), {op}"
    kw = {}
    if place == "default":
        kw["default"] = value
    elif place == "factory":
        kw["factory"] = lambda: value
    kind = {
        "array": lambda: F.Array(F.Nested(In), count=1),
        "last": lambda: F.Array(F.Nested(In), count=2),
        "deep": lambda: F.Nested(Mid),
        "union": lambda: F.Union(
            F.Nested(In),
            load_decider=lambda stream, classes, *_: classes[0],
            dump_decider=lambda data, classes, *_: classes[0],
        ),
    }.get(place, lambda: F.Nested(In, **kw))

    class S(binobj.Struct):
        a = F.UInt8(default=9)
        x = kind()

    whole = {
        "array": [value],
        "last": [{"p": 7}, value],
        "deep": {"m": value},
    }.get(place, value)
    if place in ("default", "factory"):
        inst = S()
    elif place == "changed":
        inst = S(x={"p": 1})
        inst.x = dict(whole)
    else:
        inst = S(x=whole)
    out = io.BytesIO()
    run = {
        "to_bytes": lambda: out.write(inst.to_bytes()),
        "to_stream": lambda: inst.to_stream(out),
        "partial_dump": lambda: inst.partial_dump(out, "x"),
        "field": lambda: S.x.to_stream(out, inst.x),
    }[op]
    before = copy.deepcopy(value)
    how, got = attempt(run)
    if which in ("right", "both"):
        if how != "ok":
            fail(f"the right names are refused: {got!r}")
    elif how == "ok":
        fail(f"unknown names are accepted, giving {short(out.getvalue())}")
    elif not isinstance(got, (errors.UnexpectedValueError, TypeError)):
        fail(f"unknown names raise {got!r}")
    if value != before:
        fail(f"the dictionary given became {value!r}")
    rec.step()
    rec.traced()
    rec.state(which, place, op)


# Fields that are discarded and have no default.


def discarded(ch, rec):
    """Exporting a structure with discarded fields, however it came to be."""
    import binobj
    from binobj import errors
    from binobj import fields as F
    from binobj.structures import StructMappingProxy

    where = ch.choose((0, 1, 2))
    kind = ch.choose(("int", "text", "array", "nested"))

    class In(binobj.Struct):
        p = F.UInt8()

    make = {
        "int": (lambda: F.UInt16(discard=True), 3, b"\3\0"),
        "text": (lambda: F.StringZ(discard=True), "ab", b"ab\0"),
        "array": (lambda: F.Array(F.UInt8(), count=2, discard=True), [1, 2], b"\1\2"),
        "nested": (lambda: F.Nested(In, discard=True), {"p": 4}, b"\4"),
    }[kind]
    members = [("a", F.UInt8(), 1, b"\1"), ("b", F.UInt8(), 2, b"\2")]
    members.insert(where, ("z", make[0](), make[1], make[2]))
    S = type("S", (binobj.Struct,), {n: f for n, f, _v, _r in members})
    raw = b"".join(r for _n, _f, _v, r in members)
    values = {n: v for n, _f, v, _r in members}
    start = ch.choose(("loaded", "partly", "constructed", "without"))
    log = [start]
    rec.case = lambda: f"a, b and a discarded {kind} at {where}: {log}"
    if start == "loaded":
        inst = S.from_bytes(raw)
    elif start == "partly":
        inst = S.partial_load(stream_at(raw))
    elif start == "constructed":
        inst = S(**values)
    else:
        inst = S(a=1, b=2)
    has = start == "constructed"
    for _ in range(2):
        step = ch.choose(("nothing", "set", "delete", "change"))
        log.append(step)
        if step == "set":
            inst.z = values["z"]
            has = True
        elif step == "delete" and has:
            del inst["z"]
            has = False
        elif step == "change":
            inst.a = 1
        shown = plain(inst.to_dict())
        if shown != {"a": 1, "b": 2}:
            fail(f"to_dict() gives {shown!r}")
        if sorted(n for n in inst) != ["a", "b"] + ["z"] * has:
            fail(f"iteration gives {[n for n in inst]}")
        if dict(StructMappingProxy(inst)).keys() != {"a", "b"} | ({"z"} if has else set()):
            fail("the proxy has other names")
        if ("z" in inst) != has:
            fail(f"z in the structure: {not has}")
        how, got = attempt(lambda: inst["z"])
        if has != (how == "ok") or (has and not like(plain(got), values["z"])):
            fail(f"z is {got!r}")
        how, got = attempt(inst.to_bytes)
        if has != (how == "ok") or (has and got != raw):
            fail(f"to_bytes() gives {got!r}, expected {raw!r}")
        if not has and not isinstance(got, errors.MissingRequiredValueError):
            fail(f"to_bytes() raises {got!r}")
        how, got = attempt(inst.to_dict, True)
        if has and (how != "ok" or not like(plain(got), values)):
            fail(f"to_dict(True) gives {got!r}")
        rec.step(5)
    rec.traced()
    rec.state(where, kind, log)


def buffers(ch, rec):
    """Bytes given as a bytearray: exported, compared, dumped like bytes, and not changed."""
    import binobj
    from binobj import fields as F

    class In(binobj.Struct):
        p = F.Bytes(size=2)

    class Sized(binobj.Struct):
        n = F.UInt8(default=2)
        p = F.Bytes(size=n)

    decide = {
        "load_decider": lambda s, c, *_: c[0],
        "dump_decider": lambda d, c, *_: c[0],
    }
    data = ch.choose((b"ab", b"\0\xff"))
    given = bytearray(data)
    place = ch.choose(
        ("plain", "array", "tuple", "nested", "instance", "nested array", "union", "sized", "const")
    )
    field, value, expected = {
        "plain": lambda: (F.Bytes(size=2), given, data),
        "const": lambda: (F.Bytes(const=bytes(data)), given, data),
        "array": lambda: (F.Array(F.Bytes(size=2)), [given, given], [data, data]),
        "tuple": lambda: (F.Array(F.Bytes(size=2)), (given, data), [data, data]),
        "nested": lambda: (F.Nested(In), {"p": given}, {"p": data}),
        "instance": lambda: (F.Nested(In), In(p=given), {"p": data}),
        "nested array": lambda: (
            F.Array(F.Nested(In)), [In(p=data), {"p": given}], [{"p": data}, {"p": data}]
        ),
        "union": lambda: (F.Union(F.Bytes(size=2), **decide), given, data),
        "sized": lambda: (F.Nested(Sized), {"n": 2, "p": given}, {"n": 2, "p": data}),
    }[place]()
    S = type("S", (binobj.Struct,), {"a": F.UInt8(default=1), "x": field})
    where = ch.choose(("constructor", "attribute", "key")) if place != "const" else "constructor"
    rec.case = lambda: f"a bytearray {data!r} as {place}, set by {where}"
    if where == "constructor":
        inst = S(x=value)
    else:
        inst = S()
        if where == "attribute":
            inst.x = value
        else:
            inst["x"] = value
    raw = b"\1" + data * (2 if place in ("array", "tuple", "nested array") else 1)
    if place == "sized":
        raw = b"\1\2" + data
    usual = S.from_bytes(raw)
    if place == "const":
        usual = S(x=data)
    for _ in range(2):
        for keep in (False, True):
            shown = inst.to_dict(keep)
            if shown != {"a": 1, "x": expected}:
                fail(f"to_dict({keep}) gives {shown!r}")
        if inst.to_bytes() != raw:
            fail(f"dumped as {short(inst.to_bytes())}, expected {short(raw)}")
        out = io.BytesIO()
        inst.partial_dump(out)
        if out.getvalue() != raw:
            fail(f"dumped in part as {short(out.getvalue())}, expected {short(raw)}")
        if len(inst) != len(raw):
            fail(f"the length is {len(inst)}, not {len(raw)}")
        if place not in ("array", "tuple", "nested array"):
            usual.a = 1
            other = S(a=1, x=value)
            if not (usual == other and other == usual):
                fail(f"{other!r} and {usual!r} aren't equal")
        if given != data:
            fail("the bytearray is changed")
        rec.step(5)
    rec.traced()
    rec.state(data, place, where)


def bodies(tier, seed):
    every, all_ops = sorted(STARTS), operations()
    out = {"ways": ways, "nested-unknown": nested_unknown, "discarded": discarded, "buffers": buffers, "all-2": histories_body(2, SHAPES, every, all_ops)}
    if tier == "thorough":
        out["all-3"] = histories_body(3, SHAPES, every, all_ops)
        out["core-4"] = histories_body(4, SHAPES[:2], ["complete", "partial"], CORE)
    else:
        out["core-3"] = histories_body(3, SHAPES[:1], ["complete", "empty"], CORE)
    return out
