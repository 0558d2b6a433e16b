"""C24: observing a structure never changes it."""

import copy
import io
import itertools
import re
import warnings

from mc.items import combine
from mc.items import ITEMS
from mc.items import KINDS
from mc.items import SMALL
from mc.items import WRAPPERS
from mc.lib import attempt
from mc.lib import fail
from mc.lib import has_structs

BOUNDS = {
    "quick": "34 operations that only observe (dumping, measuring, comparing, printing,"
    " iterating, exporting, partial dumps, validating, copying, reading through proxies,"
    " loading and reading single fields, dumps that fail part of the way); all ordered pairs of"
    " them on new instances of every item and of 9 structures with callbacks that fail, made in"
    " up to 14 ways (constructed, assigned, with dictionaries, instances and tuples, loaded,"
    " with each value missing or invalid); every kind in every position and all pairs of small"
    " items with one sequence of 68 operations",
    "thorough": "all sequences of 3 operations on every item, sequences with all ordered pairs"
    " on every kind in every position and on all pairs of items",
}
ASSUMPTIONS = [
    "callbacks, iterators and factories given by the user don't have side effects",
    "the results of each operation on a new instance are the reference",
]


class Broken(io.RawIOBase):
    """A stream that takes some bytes and fails."""

    def __init__(self, room):
        super().__init__()
        self.room = room
        self.taken = b""

    def writable(self):
        return True

    def write(self, data):
        data = bytes(data)
        if len(self.taken) + len(data) > self.room:
            raise OSError("no space left")
        self.taken += data
        return len(data)

    def tell(self):
        return len(self.taken)


def freeze(v):
    """Something that can be compared, telling everything about a value."""
    import binobj

    if isinstance(v, BaseException):
        return ("exception", type(v).__name__, getattr(getattr(v, "field", None), "name", None))
    if isinstance(v, binobj.Struct):
        out = []
        for n in [n for n in v]:
            how, value = attempt(getattr, v, n)
            out.append((n, freeze(value)))
        return ("struct", type(v).__name__, tuple(sorted(out)))
    if isinstance(v, dict):
        return (type(v).__name__, tuple(sorted((repr(k), freeze(e)) for k, e in v.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(e) for e in v))
    if isinstance(v, (bytes, bool, int, str)):
        return (type(v).__name__, v)
    return (type(v).__name__, re.sub(r"0x[0-9a-f]+", "0x", repr(v)))


class World:
    """An instance and everything around it."""

    def __init__(self, cls, names, make, raw, twin):
        self.cls, self.names, self.raw = cls, names, raw
        self.given = {}
        self.inst = make(self.given)
        self.twin = twin


def streamed(fn):
    s = io.BytesIO()
    s.write(b"ab")
    how, got = attempt(fn, s)
    return (how, freeze(got), s.getvalue())


def broken(room, fn):
    s = Broken(room)
    how, got = attempt(fn, s)
    return (how, freeze(got), s.taken)


def scribble(v):
    if isinstance(v, dict):
        for k in list(v):
            scribble(v[k])
        v.clear()
        v["scribbled"] = 1
    elif isinstance(v, list):
        for e in v:
            scribble(e)
        v[:] = ["scribbled"]


def exported(inst, keep):
    d = inst.to_dict(keep)
    out = freeze(d)
    scribble(d)
    return out


def shown(inst):
    return re.sub(r"0x[0-9a-f]+", "0x", repr(inst))


def proxies(inst):
    import binobj.structures as st

    out = []
    for cls in (st.StructMappingProxy, st.MutableStructMappingProxy):
        p = cls(inst)
        out.append(len(p))
        out.append(sorted(p))
        for n in type(inst).__binobj_struct__.components:
            out.append((n, n in p, attempt(lambda: freeze(p[n]))[1].__class__.__name__))
            out.append(freeze(p.get(n, "nothing")))
        out.append(attempt(lambda: freeze(dict(p)))[0])
    return out


def attributes(w):
    return [(n, freeze(attempt(getattr, w.inst, n)[1])) for n in w.names]


def items(w):
    return [(n, freeze(attempt(w.inst.__getitem__, n)[1])) for n in w.names]


def loads(w):
    data = bytearray(b"pre" + w.raw + b"post")
    s = io.BytesIO(data)
    s.seek(3)
    one = freeze(attempt(w.cls.from_stream, s)[1])
    two = freeze(attempt(w.cls.from_bytes, bytearray(w.raw))[1])
    three = freeze(attempt(w.cls.from_bytes, w.raw[:-1])[1])
    if s.getvalue() != b"pre" + w.raw + b"post" or data != b"pre" + w.raw + b"post":
        fail("the buffer was changed by loading")
    return one, two, three, s.tell()


def reads(w):
    data = b"pre" + w.raw + b"post"
    s = io.BytesIO(data)
    s.seek(3)
    out = []
    for n in w.names:
        out.append(freeze(attempt(w.cls.get_field, s, n)[1]))
        if s.tell() != 3:
            fail(f"reading {n} leaves the stream at {s.tell()}")
    for n in w.names:
        s.seek(3)
        out.append(freeze(attempt(w.cls.partial_load, s, n)[1]))
    if s.getvalue() != data:
        fail("the buffer was changed by reading")
    return out


def half(w):
    return w.names[(len(w.names) - 1) // 2]


OPS = {
    "to_bytes": lambda w: w.inst.to_bytes(),
    "to_bytes in context": lambda w: w.inst.to_bytes({"some": "context"}),
    "bytes": lambda w: bytes(w.inst),
    "to_stream": lambda w: streamed(w.inst.to_stream),
    "len": lambda w: len(w.inst),
    "to_dict": lambda w: exported(w.inst, False),
    "to_dict, all": lambda w: exported(w.inst, True),
    "== twin": lambda w: (w.inst == w.twin, w.twin == w.inst),
    "== dictionary": lambda w: (w.inst == dict(w.given), dict(w.given) == w.inst),
    "== itself": lambda w: (w.inst == w.inst, w.inst != w.inst),
    "== other things": lambda w: (w.inst == 5, w.inst == None, w.inst == {}),  # noqa: E711
    "== UNDEFINED": lambda w: w.inst == undefined(),
    "repr": lambda w: shown(w.inst),
    "str": lambda w: re.sub(r"0x[0-9a-f]+", "0x", f"{w.inst} {w.inst!s}"),
    "iterate": lambda w: sorted([n for n in w.inst]),
    "in": lambda w: [n in [m for m in w.inst] for n in w.names],
    "attributes": attributes,
    "items": items,
    "unknown names": lambda w: [
        freeze(attempt(getattr, w.inst, "nothing")[1]),
        freeze(attempt(w.inst.__getitem__, "nothing")[1]),
    ],
    "proxies": lambda w: proxies(w.inst),
    "validate": lambda w: w.inst.validate_contents(),
    "validate in context": lambda w: w.inst.validate_contents(7),
    "partial_dump": lambda w: streamed(lambda s: w.inst.partial_dump(s)),
    "partial_dump to the first": lambda w: streamed(lambda s: w.inst.partial_dump(s, w.names[0])),
    "partial_dump to the middle": lambda w: streamed(lambda s: w.inst.partial_dump(s, half(w))),
    "partial_dump to the last": lambda w: streamed(lambda s: w.inst.partial_dump(s, w.names[-1])),
    "full stream": lambda w: broken(0, w.inst.to_stream),
    "stream full after 1": lambda w: broken(1, w.inst.to_stream),
    "stream full after 3": lambda w: broken(3, w.inst.to_stream),
    "partial dump, stream full": lambda w: broken(2, w.inst.partial_dump),
    "get_size": lambda w: w.cls.get_size(),
    "load": loads,
    "read": reads,
    "copy": lambda w: (
        freeze(attempt(copy.deepcopy, w.inst)[1]),
        freeze(attempt(copy.copy, w.inst)[1]),
    ),
}


def undefined():
    from binobj import fields as F

    return F.UNDEFINED


class Boundary:
    """Applies operations to worlds made the same way and compares the results."""

    def __init__(self, make_world, rec, what):
        self.make_world, self.rec, self.what = make_world, rec, what
        self.reference = {}
        self.trace = []
        for op in OPS:
            self.reference[op] = self.result(make_world(), op)
        self.world = None

    def result(self, world, op):
        how, got = attempt(OPS[op], world)
        if how == "err" and type(got).__name__ == "Violation":
            raise got
        return how, freeze(got)

    def start(self):
        self.world = self.make_world()
        self.trace = []
        self.given = freeze(self.world.given)
        self.twin = freeze(self.world.twin)
        self.rec.case = lambda: f"{self.what()}; operations: {self.trace}"
        self.held = []
        for n in [n for n in self.world.inst]:
            how, v = attempt(getattr, self.world.inst, n)
            if how == "ok" and isinstance(v, (list, dict)):
                self.held.append((n, v, freeze(v)))

    def apply(self, op):
        self.trace.append(op)
        got = self.result(self.world, op)
        if got != self.reference[op]:
            fail(f"{op} gives {got!r}, on a new instance {self.reference[op]!r}")
        self.rec.step()

    def finish(self):
        if freeze(self.world.given) != self.given:
            fail(f"what the user gave was {self.given!r}, is {freeze(self.world.given)!r}")
        if freeze(self.world.twin) != self.twin:
            fail("the other operand has changed")
        for n, v, frozen in self.held:
            how, now = attempt(getattr, self.world.inst, n)
            if how != "ok" or now is not v:
                fail(f"{n} was {frozen!r}, and is another object now: {now!r}")
            if freeze(v) != frozen:
                fail(f"the value of {n} was {frozen!r}, is {freeze(v)!r}")

    def sequences(self, depth):
        for seq in itertools.product(OPS, repeat=depth):
            self.start()
            for op in seq:
                self.apply(op)
            self.apply("to_bytes")
            self.apply("attributes")
            self.finish()

    def one_sequence(self, names):
        self.start()
        for op in names:
            self.apply(op)
        self.finish()


def short_walk():
    names = list(OPS)
    return names + names[::-1]


def full_walk():
    """Every ordered pair of operations, one after the other."""
    names = list(OPS)
    out = []
    for i, a in enumerate(names):
        out.append(a)
        for b in names[i:]:
            out += [a, b]
        for b in names[:i]:
            out += [a, b, a]
    return out


def tuples(v):
    if isinstance(v, list):
        return tuple(tuples(e) for e in v)
    if isinstance(v, dict):
        return {k: tuples(e) for k, e in v.items()}
    return v


def ways(spec, cls, assign, raw):
    """{way: make(given) -> instance}; what's given to the library is put into ``given``."""
    structs = any(has_structs(f.kind) for f in spec.fields())
    out = {}

    def constructed(mode, change=None):
        def make(given):
            values = spec.real_values(assign, mode)
            if change:
                values = change(values)
            given.update(values)
            return cls(**given)

        return make

    def assigned(given):
        given.update(spec.real_values(assign, 0))
        inst = cls()
        for n, v in given.items():
            inst[n] = v
        return inst

    out["constructed"] = constructed(0)
    if structs:
        out["constructed with instances"] = constructed(1)
    out["assigned"] = assigned
    if any(isinstance(v, (list, dict)) for v in assign.values()):
        out["constructed with tuples"] = constructed(0, tuples)
    if raw is not None:
        out["loaded"] = lambda given: cls.from_bytes(raw)
        out["partly loaded"] = lambda given: cls.partial_load(io.BytesIO(raw), spec.names()[0])
    for n in list(assign)[:4]:
        out[f"without {n}"] = constructed(0, lambda v, n=n: {k: e for k, e in v.items() if k != n})
        out[f"with an invalid {n}"] = constructed(0, lambda v, n=n: {**v, n: Invalid()})
        if assign[n] is not None:
            out[f"with {n} None"] = constructed(0, lambda v, n=n: {**v, n: None})
    return out


class Invalid:
    """A value no field accepts."""

    def __repr__(self):
        return "Invalid()"

    def __deepcopy__(self, memo):
        return self


def judge(case, rec, run, most_assigns, only=None):
    spec = case.spec
    cls = spec.build()
    names = spec.names()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k, assign in enumerate(case.assigns[:most_assigns]):
            how, raw = attempt(spec.dump, assign)
            if how == "err":
                raw = None
            other = case.assigns[(k + 1) % len(case.assigns)]
            for way, make in ways(spec, cls, assign, raw).items():
                if only and way not in only:
                    continue

                def world():
                    twin = cls(**spec.real_values(other, 1))
                    return World(cls, names, make, raw or b"", twin)

                run(Boundary(world, rec, lambda: f"{spec!r}, {way}: {assign!r}"))
                rec.traced()
                rec.state(repr(spec), repr(assign), way)


def each_item(depth, most):
    def body(ch, rec):
        case = combine([ch.choose(ITEMS)], 0)
        which = ch.pick(most)
        if case is None or which >= len(case.assigns):
            return
        case.assigns = case.assigns[which:] + case.assigns[:which]
        part = ch.pick(4)

        def run(b):
            run.n += 1
            if run.n % 4 == part:
                b.sequences(depth)

        run.n = -1
        judge(case, rec, run, 1)

    return body


def wide(walk, most):
    def body(ch, rec):
        make = ch.choose(KINDS)
        case = ch.choose(WRAPPERS)(make())
        if case is None or not case.assigns:
            return
        only = None if most > 1 else ("constructed", "loaded", "without x", "with an invalid x")
        judge(case, rec, lambda b: b.one_sequence(walk), most, only)

    return body


def pairs(items_, walk):
    def body(ch, rec):
        case = combine([ch.choose(items_), ch.choose(items_)], ch.pick(2))
        if case is None or not case.assigns:
            return
        judge(case, rec, lambda b: b.one_sequence(walk), 1)

    return body


def with_callbacks(depth):
    """Structures whose callbacks look at everything, or fail."""

    def body(ch, rec):
        kind = ch.choose(list(CALLBACKS))
        broken_value = ch.flag()
        part = ch.pick(6)
        cls, good, bad = CALLBACKS[kind]()
        values = bad if broken_value else good
        names = list(cls.__binobj_struct__.components)
        how, raw = attempt(cls(**copy.deepcopy(good)).to_bytes)

        def constructed(given):
            given.update(copy.deepcopy(values))
            return cls(**given)

        def loaded(given):
            return cls.from_bytes(raw)

        def changed(given):
            inst = cls.from_bytes(raw)
            given.update(copy.deepcopy(values))
            for n, v in given.items():
                attempt(inst.__setitem__, n, v)
            return inst

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for way, make in (("made", constructed), ("loaded", loaded), ("changed", changed)):

                def world():
                    return World(cls, names, make, raw, cls(**copy.deepcopy(good)))

                b = Boundary(world, rec, lambda: f"{kind}, {way}, {values!r}")
                for i, seq in enumerate(itertools.product(OPS, repeat=depth)):
                    if i % 6 != part:
                        continue
                    b.start()
                    for op in seq:
                        b.apply(op)
                    b.apply("to_bytes")
                    b.apply("to_dict")
                    b.finish()
                rec.traced()
                rec.state(kind, broken_value, way, part)

    return body


def cb_validators():
    import binobj
    from binobj import decorators
    from binobj import errors
    from binobj import fields as F

    class S(binobj.Struct):
        a = F.UInt8()
        b = F.Array(F.UInt8(), count=a)
        c = F.StringZ(default="d")

        @decorators.validates("a", "c")
        def small(self, field, value):
            if value == 9:
                raise errors.ValidationError(field=field, value=value)

        @decorators.validates_struct
        def all_of_it(self, struct):
            if sum(struct["b"]) > 100:
                raise errors.ValidationError("too much", field=None, value=None)

    return S, {"a": 2, "b": [1, 2]}, {"a": 2, "b": [100, 2]}


def cb_field_validator():
    import binobj
    from binobj import errors
    from binobj import fields as F

    def even(field, value):
        if value % 2:
            raise errors.ValidationError(field=field, value=value)

    class S(binobj.Struct):
        a = F.UInt8(validate=even)
        b = F.UInt16(endian="big", default=4, validate=[even, even])

    return S, {"a": 2, "b": 6}, {"a": 2, "b": 5}


def cb_computed():
    import binobj
    from binobj import fields as F

    class S(binobj.Struct):
        n = F.UInt8()
        total = F.UInt16(endian="big")
        x = F.Array(F.UInt8(), count=n)

        @n.computes
        def _n(self, f):
            return len(f["x"])

        @total.computes
        def _total(self, f):
            if 13 in f["x"]:
                raise ZeroDivisionError
            return sum(f["x"]) + f["n"]

    return S, {"x": [1, 2, 3]}, {"x": [13]}


def cb_presence():
    import binobj
    from binobj import fields as F

    def when(values, context, stream):
        if values["flag"] == 7:
            raise ZeroDivisionError
        return bool(values["flag"])

    class S(binobj.Struct):
        flag = F.UInt8()
        x = F.UInt16(endian="big", present=when, default=3)
        y = F.Array(F.UInt8(), count=1, present=when, not_present_value=None)
        z = F.StringZ(discard=True, default="z")

    return S, {"flag": 1, "x": 5, "y": [1]}, {"flag": 7, "x": 5, "y": [1]}


def cb_union():
    import binobj
    from binobj import fields as F

    class A(binobj.Struct):
        p = F.UInt8()
        q = F.UInt8(default=4)

    class B(binobj.Struct):
        r = F.StringZ()

    class S(binobj.Struct):
        which = F.UInt8()
        x = F.Union(
            A,
            B,
            load_decider=lambda s, classes, c, f: classes[f["which"]],
            dump_decider=lambda d, classes, c, f: classes[f["which"]],
        )
        y = F.Array(F.Nested(A), count=2)

    good = {"which": 0, "x": {"p": 1}, "y": [{"p": 2}, A(p=3)]}
    return S, good, {"which": 1, "x": {"p": 1}, "y": [{"p": 2}, A()]}


def cb_nested():
    import binobj
    from binobj import fields as F

    class D(binobj.Struct):
        n = F.UInt8()
        v = F.Bytes(size=n)

        @n.computes
        def _n(self, f):
            return len(f["v"])

    class M(binobj.Struct):
        d = F.Nested(D)
        t = F.Array(F.Nested(D), count=1)

    class S(binobj.Struct):
        m = F.Nested(M)
        k = F.UInt8(default=1)

    good = {"m": {"d": D(v=b"ab"), "t": [{"v": b"c"}]}}
    return S, good, {"m": M(d={"v": b"ab"}, t=[D()])}


def cb_nullable():
    import binobj
    from binobj import fields as F

    class S(binobj.Struct):
        a = F.UInt16(endian="big", null_value=b"\xff\xff")
        b = F.UInt16(endian="big", null_value=F.DEFAULT, default=None)
        c = F.StringZ(null_value="NULL")
        d = F.UInt8()

    return S, {"a": None, "c": None, "d": 1}, {"a": None, "c": None, "d": None}


def cb_shared():
    """The same lists and dictionaries in several places."""
    import binobj
    from binobj import fields as F

    class I(binobj.Struct):  # noqa: E742
        v = F.UInt8()

    class S(binobj.Struct):
        x = F.Array(F.UInt8(), count=2)
        y = F.Array(F.UInt8(), count=2)
        p = F.Nested(I)
        q = F.Array(F.Nested(I), count=2)

    row = [1, 2]
    item = {"v": 5}
    inst = I(v=6)
    good = {"x": row, "y": row, "p": item, "q": [item, item]}
    return S, good, {"x": row, "y": [1, 300], "p": inst, "q": [inst, item]}


def cb_default_containers():
    import binobj
    from binobj import fields as F

    class I(binobj.Struct):  # noqa: E742
        v = F.UInt8(default=3)

    class S(binobj.Struct):
        x = F.Array(F.UInt8(), count=2, factory=lambda: [7, 8])
        p = F.Nested(I, factory=lambda: I(v=1))
        q = F.Nested(I, default={"v": 9})
        r = F.Array(F.Nested(I), count=1, factory=lambda: [{}])
        k = F.UInt8()

    return S, {"k": 1}, {"k": 256}


CALLBACKS = {
    "validators": cb_validators,
    "field validators": cb_field_validator,
    "computed": cb_computed,
    "presence": cb_presence,
    "union": cb_union,
    "nested": cb_nested,
    "nullable": cb_nullable,
    "shared": cb_shared,
    "containers as defaults": cb_default_containers,
}


def bodies(tier, seed):
    if tier == "thorough":
        return {
            "items": each_item(3, 1),
            "items, pairs of operations": each_item(2, 4),
            "callbacks": with_callbacks(3),
            "wide": wide(full_walk(), 3),
            "pairs": pairs(ITEMS, short_walk()),
        }
    return {
        "items": each_item(2, 1),
        "callbacks": with_callbacks(2),
        "wide": wide(short_walk(), 1),
        "pairs": pairs(SMALL, short_walk()),
    }
