"""C20: concurrent use of shared structure classes is independent."""

import datetime
import io
import uuid

from mc import sched
from mc.items import KINDS
from mc.lib import fail
from mc.model import plain
from mc.model import Spec
from mc.model import FS
from mc.model import StrZ

BOUNDS = {
    "quick": "two threads under a controlled scheduler that hands over at any line (or byte code"
    " instruction) of library code. Preemption bound 1: each of up to 8 operations of 4"
    " structures (references, context-dependent parts, unions, text, nesting, checks,"
    " inheritance, annotations) is stopped at every line, and another thread does all of them,"
    " with other contents and another context, on classes never used before; the reading ones"
    " also with one shared instance, on classes used before; load and dump of every type of"
    " field likewise; a small structure at every byte code instruction. Preemption bound 2: all"
    " pairs of stops of two loads, and of two len() of one instance",
    "thorough": "every operation (15), used before and not, in two orders; byte code instructions"
    " for all structures; preemption bound 2 for every pair of operations of the small"
    " structures; three threads; every kind of field",
}
ASSUMPTIONS = [
    "a switch between threads happens between byte code instructions of library code;"
    " C functions of the interpreter are atomic (as with the GIL)",
]


BLOCK = 40


class Context:
    def __init__(self, n):
        self.n = n


################################################################################
# Structures: each gives (class, [(assigned values, context)] for three threads)


def references():
    import binobj
    from binobj import fields as F

    class S(binobj.Struct):
        n = F.UInt8()
        data = F.Bytes(size=n)
        opt = F.UInt16(endian="big", present=lambda f, ctx, s: ctx is None or ctx.n % 2 == 1)
        items = F.Array(F.UInt8(), count="n")
        more = F.UInt8(null_value=b"\xfe", default=None)
        total = F.UInt8()

        @n.computes
        def _n(self, all_fields):
            return len(all_fields["data"])

        @total.computes
        def _total(self, all_fields):
            return sum(all_fields["items"]) % 256

    return S, [
        ({"data": b"abc", "opt": 513, "items": [1, 2, 3]}, Context(1)),
        ({"data": b"", "items": [], "more": 7}, Context(2)),
        ({"data": b"z", "opt": 5, "items": [200], "more": 9}, Context(3)),
    ]


def choices():
    import binobj
    from binobj import fields as F

    class One(binobj.Struct):
        a = F.UInt8()
        b = F.StringZ(default="b")

    class Two(binobj.Struct):
        c = F.UInt32(endian="big")

    class S(binobj.Struct):
        kind = F.UInt8(validate=lambda f, v: None)
        what = F.Union(
            One,
            Two,
            load_decider=lambda s, c, ctx, f: c[(f["kind"] + ctx.n) % 2],
            dump_decider=lambda d, c, ctx, f: c[(f["kind"] + ctx.n) % 2],
        )
        tail = F.Array(
            F.Nested(One),
            halt_check=lambda arr, s, v, ctx, f: len(v) >= ctx.n,
        )

    return S, [
        ({"kind": 1, "what": {"a": 1, "b": "x"}, "tail": [{"a": 5}]}, Context(1)),
        ({"kind": 1, "what": {"c": 70000}, "tail": [{"a": 1}, {"a": 2, "b": "q"}]}, Context(2)),
        ({"kind": 2, "what": {"c": 5}, "tail": [{"a": 7}] * 3}, Context(3)),
    ]


def texts():
    import binobj
    from binobj import fields as F
    from binobj.decorators import validates
    from binobj.decorators import validates_struct
    from binobj.varints import VarIntEncoding as V

    class P(binobj.Struct):
        class Meta:
            argument_defaults = {"endian": "big"}

        s = F.String(size=6, encoding="utf-8", pad_byte=b" ")
        z = F.StringZ(encoding="utf-16-le")
        v = F.VariableLengthInteger(vli_format=V.LEB128)
        f = F.Float32()

        @validates("v")
        def check(self, field, value):
            if value == 666:
                raise binobj.ValidationError(field=field, value=value)

    class S(P):
        t = F.Timestamp32(tz_aware=True)
        u = F.UUID4()
        x = F.StringZ(encoding="utf-8", size=8, default="x", pad_byte=b"\0")

        @validates_struct
        def whole(self, values):
            if values["v"] == 667:
                raise binobj.ValidationError(field=None, value=values["v"])

    utc = datetime.timezone.utc

    def make(s, z, v, f, t, u):
        when = datetime.datetime.fromtimestamp(t, utc)
        return {"s": s, "z": z, "v": v, "f": f, "t": when, "u": uuid.UUID(int=u)}

    return S, [
        (make("abc", "\u0416", -300, 1.5, 5, 1 << 80), None),
        (make("\u00e9", "", 7, -2.25, 1 << 30, 3), None),
        (make("", "zz", 1 << 40, 0.0, -9, 77), None),
    ]


def annotated():
    import typing

    import binobj
    from binobj import fields as F

    @binobj.dataclass
    class In(binobj.Struct):
        p: F.UInt8
        q: F.UInt8 = 4

    @binobj.dataclass
    class S(binobj.Struct):
        a: F.UInt8
        n: In
        z: typing.Optional[F.UInt16] = None
        t: F.StringZ = "dflt"

    return S, [
        ({"a": 1, "n": {"p": 1}, "z": 3}, None),
        ({"a": 2, "n": {"p": 9, "q": 8}, "t": ""}, None),
        ({"a": 3, "n": {"p": 5, "q": 5}, "z": None, "t": "three"}, None),
    ]


def small():
    import binobj
    from binobj import fields as F

    class S(binobj.Struct):
        n = F.UInt8()
        d = F.Bytes(size=n)

    return S, [({"n": 1, "d": b"a"}, None), ({"n": 3, "d": b"bcd"}, None), ({"n": 0, "d": b""}, None)]


STRUCTURES = {
    "references": references,
    "choices": choices,
    "texts": texts,
    "annotated": annotated,
}


FEW = ("load", "dump", "field", "first", "dict", "equal", "length", "size")


def operations(cls, values, ctx, raw, inst, twin):
    """{name: function} of one thread's own data."""
    names = list(cls.__binobj_struct__.components)

    def written(fn, *args):
        s = io.BytesIO()
        fn(s, *args)
        return s.getvalue()

    def edited():
        x = cls(**values)
        for n in names:
            if not getattr(cls, n).is_computed_field and n in values:
                setattr(x, n, values[n])
        x.validate_contents(ctx)
        return x.to_bytes(ctx)

    def rejected():
        try:
            cls.from_bytes(raw[:-1], ctx)
        except Exception as exc:  # noqa: BLE001
            return type(exc).__name__

    ops = {
        "load": lambda: plain(cls.from_bytes(raw, ctx)),
        "dump": lambda: inst.to_bytes(ctx),
        "field": lambda: plain(cls.get_field(io.BytesIO(raw), names[-1], ctx)),
        "first": lambda: plain(cls.get_field(io.BytesIO(raw), names[0], ctx)),
        "part": lambda: plain(cls.partial_load(io.BytesIO(raw), names[-2], ctx)),
        "part dump": lambda: written(inst.partial_dump, names[-2], ctx),
        "whole dump": lambda: written(inst.partial_dump, None, ctx),
        "dict": lambda: plain(inst.to_dict(context=ctx)),
        "edit": edited,
        "equal": lambda: (inst == twin, inst == values, inst != twin),
        "values": lambda: [plain(inst[n]) for n in inst],
        "print": lambda: repr(inst),
        "cut": rejected,
        "size": lambda: cls.get_size(),
    }
    if ctx is None:
        ops["length"] = lambda: len(inst)
    return ops


class Setup:
    """Classes and instances for up to three threads."""

    def __init__(self, make, warm, shared, only=None):
        self.cls, self.data = make()
        if shared:
            self.data = [self.data[0]] * 3
        raws = self.raws(make)
        self.ops = []
        first = None
        for i, (values, ctx) in enumerate(self.data):
            inst = self.cls(**values)
            if shared:
                first = inst if first is None else first
                inst = first
            ops = operations(self.cls, values, ctx, raws[i], inst, self.cls(**values))
            self.ops.append({k: v for k, v in ops.items() if not only or k in only})
        if warm:
            for ops in self.ops:
                for fn in ops.values():
                    fn()

    CACHE = {}

    def raws(self, make):
        """The dumps, made with other classes, so that these are still unused."""
        key = (make.__name__, len(self.data), id(self.data[0]) == id(self.data[-1]))
        if key not in self.CACHE:
            cls, data = make()
            if key[2]:
                data = [data[0]] * 3
            self.CACHE[key] = [cls(**v).to_bytes(ctx) for v, ctx in data]
        return self.CACHE[key]


def everything(ops, order):
    names = list(ops)
    if order:
        names.reverse()
    return lambda: [(n, ops[n]()) for n in names]


def alone(make, shared, thread, name):
    """The result of an operation without other threads."""
    setup = Setup(make, False, shared)
    if name is None:
        return setup.ops[thread]
    return setup.ops[thread][name]()


def expect(results, expected, where):
    if results is None:
        fail("the threads wait for each other")
    for i, ((how, got), want) in enumerate(zip(results, expected)):
        if how != "ok":
            fail(f"thread {i} raises {got!r}, {where}")
        if repr(got) != repr(want):
            fail(f"thread {i} gets {got!r}, not {want!r}, {where}")


def bound_1(structures, opcodes, shared, only=None, orders=None, warms=(False, True)):
    def body(ch, rec):
        name = ch.choose(list(structures))
        make = structures[name]
        probe = Setup(make, False, shared, only)
        op = ch.choose(list(probe.ops[0]))
        warm = ch.choose(warms)
        order = ch.choose(orders) if orders else int(warm)
        expected = [
            alone(make, shared, 0, op),
            everything(Setup(make, False, shared, only).ops[1], order)(),
        ]
        setup = Setup(make, warm, shared, only)
        _r, steps = sched.run([setup.ops[0][op]], [(0, None)], opcodes, True)
        rec.maximum("steps", steps[0])
        block = ch.pick(steps[0] // BLOCK + 1)
        for at in range(block * BLOCK, min((block + 1) * BLOCK, steps[0] + 1)):
            setup = Setup(make, warm, shared, only)
            tasks = [setup.ops[0][op], everything(setup.ops[1], order)]
            rec.case = lambda: (
                f"{name}: {op}, stopped before its step {at}"
                f" ({'opcodes' if opcodes else 'lines'}), another thread does everything"
                f" (order {order}), used before: {warm}, shared instance: {shared}"
            )
            results, _steps = sched.run(tasks, [(0, at), (1, None)], opcodes)
            expect(results, expected, f"stopped at {at}")
            rec.step()
            rec.traced()
            rec.state(name, op, warm, order, shared, opcodes, at)
        rec.sample(f"{name}: {op}, {steps[0]} stops")

    return body


def bound_2(structures, pairs, shared):
    def body(ch, rec):
        name = ch.choose(list(structures))
        make = structures[name]
        probe = Setup(make, False, shared)
        known = [op for op in probe.ops[0]]
        one, two = ch.choose(pairs or [(a, b) for a in known for b in known])
        if one not in known or two not in known:
            return
        expected = [alone(make, shared, 0, one), alone(make, shared, 1, two)]
        solo = Setup(make, False, shared)
        tasks = [solo.ops[0][one], solo.ops[1][two]]
        _r, (n, m) = sched.run(tasks, [(0, None), (1, None)], False, True)
        first = ch.pick(n + 1)
        for second in range(1, m + 1):
            setup = Setup(make, False, shared)
            tasks = [setup.ops[0][one], setup.ops[1][two]]
            rec.case = lambda: f"{name}: {one} for {first} lines, {two} for {second}, and so on"
            results, _steps = sched.run(tasks, [(0, first), (1, second), (0, None), (1, None)])
            expect(results, expected, f"stopped at {first} and {second}")
            rec.step()
            rec.traced()
            rec.state(name, one, two, shared, first, second)

    return body


def three(structures):
    """Three threads, each stopped once: 0 runs, 1 runs, 2 runs, then 0, 1, 2 to the end."""

    def body(ch, rec):
        name = ch.choose(list(structures))
        make = structures[name]
        op = ch.choose(("load", "dump"))
        expected = [alone(make, False, i, op) for i in range(3)]
        solo = Setup(make, False, False)
        _r, steps = sched.run([solo.ops[i][op] for i in range(3)], [(0, None), (1, None), (2, None)], False, True)
        first = ch.pick(steps[0] + 1)
        for second in range(1, steps[1] + 1):
            for last in ((0, 1), (1, 0)):
                setup = Setup(make, False, False)
                rec.case = lambda: f"{name}: three times {op}: {first}, {second}, all; {last}"
                results, _steps = sched.run(
                    [setup.ops[i][op] for i in range(3)],
                    [(0, first), (1, second), (2, None), *((i, None) for i in last)],
                )
                expect(results, expected, f"stopped at {first} and {second}")
                rec.step()
                rec.traced()
                rec.state(name, op, first, second, last)

    return body


def kinds_of(tier):
    """Field kinds; in the quick tier one of each type."""
    out = {}
    for make in KINDS:
        kind = make()
        out.setdefault(type(kind) if tier == "quick" else kind.name, make)
    return list(out.values())


def kinds(tier):
    makes = kinds_of(tier)
    return lambda ch, rec: _kinds(ch, rec, makes)


def _kinds(ch, rec, makes):
    kind = ch.choose(makes)()
    spec = Spec([FS("x", kind)])
    values = [{"x": kind.values[0]}, {"x": kind.values[-1]}]
    raws = [spec.dump(v) for v in values]

    def tasks(which):
        cls = spec.build()
        real = [cls(**spec.real_values(v, 0)) for v in values]
        if which == "dump":
            return [real[0].to_bytes, lambda: (real[1].to_bytes(), plain(cls.from_bytes(raws[1])))]
        return [
            lambda: plain(cls.from_bytes(raws[0])),
            lambda: (plain(cls.from_bytes(raws[1])), real[1].to_bytes()),
        ]

    which = ch.choose(("load", "dump"))
    expected = [t() for t in tasks(which)]
    _r, steps = sched.run(tasks(which)[:1], [(0, None)], False, True)
    block = ch.pick(steps[0] // BLOCK + 1)
    for at in range(block * BLOCK, min((block + 1) * BLOCK, steps[0] + 1)):
        rec.case = lambda: f"{kind}: {which} {values[0]!r}, stopped before line {at}"
        results, _steps = sched.run(tasks(which), [(0, at), (1, None)], False)
        expect(results, expected, f"stopped at {at}")
        rec.step()
        rec.traced()
        rec.state(kind.name, which, at)


def bodies(tier, seed):
    tiny = {"small": small}
    if tier == "thorough":
        every = {**STRUCTURES, **tiny}
        return {
            "lines": bound_1(STRUCTURES, False, False, None, (0, 1)),
            "lines-shared": bound_1(STRUCTURES, False, True, None, (0, 1)),
            "kinds": kinds(tier),
            "opcodes": bound_1(every, True, False),
            "opcodes-shared": bound_1(every, True, True),
            "bound-2": bound_2({**tiny, "annotated": annotated}, None, False),
            "bound-2-shared": bound_2(tiny, None, True),
            "three": three(tiny),
        }
    reading = ("dump", "dict", "equal", "length")
    return {
        "lines": bound_1(STRUCTURES, False, False, FEW, None, (False,)),
        "lines-shared": bound_1(STRUCTURES, False, True, reading, None, (True,)),
        "kinds": kinds(tier),
        "opcodes": bound_1(tiny, True, False, ("load", "dump", "field"), None, (False,)),
        "opcodes-shared": bound_1(tiny, True, True, reading, None, (False,)),
        "bound-2": bound_2(tiny, [("load", "load")], False),
        "bound-2-shared": bound_2(tiny, [("length", "length")], True),
    }
