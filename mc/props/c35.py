"""C35: what fails leaves nothing behind."""

import io
import typing

from mc.items import combine
from mc.items import ITEMS
from mc.items import KINDS
from mc.items import WRAPPERS
from mc.lib import attempt
from mc.lib import fail
from mc.lib import modes
from mc.lib import note
from mc.model import Bad
from mc.model import NOPE
from mc.props.c24 import freeze
from mc.props.c31 import inner_values
from mc.props.c31 import operations
from mc.props.c31 import outer_values
from mc.props.c31 import PLACES
from mc.props.c31 import SITES
from mc.props.c31 import world

BOUNDS = {
    "quick": "every kind of field in every position and all ordered pairs of items: all cuts, all"
    " single corrupted bytes, failing reads and writes at each call, missing, unfit and surplus"
    " values, iterables and mappings that fail at each step, forbidden assignments, unknown"
    " names, contradictory subclasses, done one after the other on the same class and instance,"
    " each followed by 3 observations and each dozen by ~12 of the class and its instances; 13 sorts of callbacks in 4 places x"
    " 14 operations x 6 sorts of exceptions, raised by each single call, followed by all"
    " operations; declarations of 0 to 3 fields in 2 styles below 5 sorts of parents, refused for"
    " 7 reasons",
    "thorough": "also two of them one after the other, all pairs of failing calls of callbacks, and all triples of small items",
}
ASSUMPTIONS = [
    "what works on a class that nothing has ever failed with is the reference",
]


# All observations are made after this many failures.
EVERY = 12


class Boom(Exception):
    pass


class HardBoom(BaseException):
    pass


class Faulty(io.BytesIO):
    """A stream that fails at one of its calls."""

    def __init__(self, data, left, names=("read", "write", "seek", "tell")):
        super().__init__(data)
        self.left, self.names = left, names

    def _tick(self, name):
        if name in self.names:
            self.left -= 1
            if self.left == 0:
                raise OSError("broken")

    def read(self, *a):
        self._tick("read")
        return super().read(*a)

    def write(self, *a):
        self._tick("write")
        return super().write(*a)

    def seek(self, *a):
        self._tick("seek")
        return super().seek(*a)

    def tell(self):
        self._tick("tell")
        return super().tell()


class Stops:
    """An iterable without a length that fails after some elements."""

    def __init__(self, elements, n, exc):
        self.elements, self.n, self.exc = elements, n, exc

    def __iter__(self):
        yield from self.elements[: self.n]
        raise self.exc


def streamed(op):
    out = io.BytesIO()
    how, got = attempt(op, out)
    return how, freeze(got), out.getvalue()


def look(cls, names, inst, raw):
    """What can be observed."""
    loaded = attempt(cls.from_bytes, raw)[1]
    stream = io.BytesIO(b"ab" + raw + b"~~")
    out = [
        freeze(attempt(inst.to_bytes)[1]),
        freeze(attempt(lambda: len(inst))[1]),
        freeze(attempt(inst.to_dict)[1]),
        freeze(attempt(lambda: inst.to_dict(True))[1]),
        [freeze(attempt(getattr, inst, n)[1]) for n in names],
        sorted(n for n in iter(inst)),
        streamed(inst.partial_dump),
        freeze(attempt(inst.validate_contents)[1]),
        freeze(loaded),
        freeze(attempt(lambda: loaded.to_bytes())[1]),
        freeze(attempt(cls.get_size)[1]),
    ]
    for n in names:
        stream.seek(2)
        out.append((freeze(attempt(cls.get_field, stream, n)[1]), stream.tell()))
        stream.seek(2)
        out.append((freeze(attempt(cls.partial_load, stream, n)[1]), stream.tell()))
    return out


def glance(cls, inst, raw):
    """The part of it that is observed after each single failure."""
    return [
        freeze(attempt(inst.to_bytes)[1]),
        freeze(attempt(inst.to_dict)[1]),
        freeze(attempt(cls.from_bytes, raw)[1]),
    ]


def failures(cls, spec, names, inst, real, raw):
    """(what, operation) for everything that could fail; each restores what it changed."""
    import binobj
    from binobj import fields as F
    from binobj import structures

    def restored(name, op):
        def do():
            had = name in set(iter(inst))
            before = inst.__values__[name] if had else None
            try:
                return op()
            finally:
                if had:
                    inst.__values__[name] = before
                else:
                    inst.__values__.pop(name, None)

        return do

    yield "unknown argument", lambda: cls(**real, unknown=1)
    yield "unknown override", lambda: cls.from_bytes(raw, init_kwargs={"unknown": [1]})
    yield "unknown key", lambda: inst["unknown"]
    yield "assigned unknown key", lambda: inst.__setitem__("unknown", 1)
    yield "deleted unknown key", lambda: inst.__delitem__("unknown")
    proxy = structures.MutableStructMappingProxy(inst)
    yield "popped unknown key", lambda: proxy.pop("unknown")
    yield "default for unknown key", lambda: proxy.setdefault("unknown", 1)
    yield "unknown field", lambda: cls.get_field(io.BytesIO(raw), "unknown")
    yield "load to unknown field", lambda: cls.partial_load(io.BytesIO(raw), "unknown")
    for cut in range(len(raw)) if len(raw) < 24 else (0, 1, len(raw) // 2, len(raw) - 1):
        part = raw[:cut]
        yield f"cut at {cut}", lambda: cls.from_bytes(part)
        yield f"cut at {cut}, stream", lambda: cls.from_stream(io.BytesIO(part))
        yield f"cut at {cut}, to the last", lambda: cls.partial_load(io.BytesIO(part), names[-1])
        yield f"cut at {cut}, the last", lambda: cls.get_field(io.BytesIO(part), names[-1])
    yield "surplus", lambda: cls.from_bytes(raw + b"~")
    for i in range(min(len(raw), 12)):
        for flip in (0xFF, 0x80):
            changed = raw[:i] + bytes([raw[i] ^ flip]) + raw[i + 1 :]
            yield f"byte {i} changed", lambda: cls.from_bytes(changed)
    for k in (1, 2, 3, 5, 8):
        yield f"fault {k} when loading", lambda: cls.from_stream(Faulty(raw, k))
        yield f"fault {k} in a partial load", lambda: cls.partial_load(Faulty(raw, k))
        yield f"fault {k} when dumping", lambda: inst.to_stream(Faulty(b"", k))
        yield f"fault {k} in a partial dump", lambda: inst.partial_dump(Faulty(b"", k))
        yield f"fault {k} for one", lambda: cls.get_field(Faulty(raw, k), names[-1])
    for f in spec.fields():
        n = f.name
        yield f"{n} assigned", restored(n, lambda: (setattr(inst, n, Boom), inst.to_bytes()))
        yield f"{n} missing", restored(n, lambda: (delitem(inst, n), inst.to_bytes()))
        yield f"{n} missing, partial", restored(
            n, lambda: (delitem(inst, n), inst.partial_dump(io.BytesIO(), names[-1]))
        )
        yield f"{n} missing, exported", restored(n, lambda: (delitem(inst, n), inst.to_dict()))
        for bad in [*f.kind.bad[:3], None, object()]:
            def unfit(op):
                def do():
                    inst.__values__[n] = bad
                    return op()

                return restored(n, do)

            yield f"{n} unfit", unfit(lambda: inst.to_bytes())
            yield f"{n} unfit, in a stream", unfit(lambda: inst.to_stream(io.BytesIO()))
            yield f"{n} unfit, partial", unfit(lambda: inst.partial_dump(io.BytesIO()))
            yield f"{n} unfit, measured", unfit(lambda: len(inst))
            yield f"{n} unfit, exported", unfit(inst.to_dict)
            yield f"{n} unfit, alone", lambda: getattr(cls, n).to_bytes(bad)
        v = real.get(n)
        if isinstance(v, (list, tuple)):
            for k in range(len(v) + 1):
                for exc in (Boom(), KeyError("k"), HardBoom()):
                    def breaking(op):
                        def do():
                            inst.__values__[n] = Stops(list(v), k, exc)
                            return op()

                        return restored(n, do)

                    yield f"{n} fails at {k}", breaking(inst.to_bytes)
                    yield f"{n} fails at {k}, partial", breaking(
                        lambda: inst.partial_dump(io.BytesIO())
                    )
        if f.computed or f.const is not NOPE:
            yield f"{n} computed twice", lambda: getattr(cls, n).computes(lambda *a: Boom)
        yield f"{n} redefined", lambda: type(binobj.Struct)("R", (cls,), {n: F.UInt8()})
        yield f"{n} annotated again", lambda: binobj.dataclass(
            type(binobj.Struct)("R", (cls,), {"__annotations__": {n: F.UInt8}})
        )
        yield f"{n} computed, constant", lambda: type(binobj.Struct)(
            "R", (cls,), {"zz": F.UInt8(const=1), "yy": F.UInt8(const=2).computes(len)}
        )
        yield f"{n} used twice", lambda: type(binobj.Struct)(
            "R", (binobj.Struct,), {"another": getattr(cls, n)}
        )
    yield "checks of unknown fields", lambda: type(binobj.Struct)(
        "R", (cls,), {"check": binobj.decorators.validates("unknown")(lambda *a: None)}
    )
    yield "two parents", lambda: type(binobj.Struct)(
        "R", (cls, type(binobj.Struct)("Q", (binobj.Struct,), {"qq": F.UInt8()})), {}
    )
    yield "mixed", lambda: binobj.dataclass(
        type(binobj.Struct)("R", (cls,), {"aa": F.UInt8(), "__annotations__": {"bb": F.UInt8}})
    )


def delitem(inst, n):
    if n not in inst.__values__:
        raise Boom
    del inst[n]


def tried(op):
    """Did it fail?"""
    try:
        op()
    except BaseException as exc:  # noqa: BLE001
        if type(exc).__name__ == "Violation":
            raise
        return exc
    return None


def judge(case, rec):
    spec = case.spec
    names = spec.names()
    for assign in case.assigns[:3]:
        try:
            raw = b"".join(p or b"" for _f, p in spec.pieces(assign))
        except Bad:
            continue
        for mode in modes(spec)[:1]:
            real = spec.real_values(assign, mode)
            pristine = spec.build()
            wanted = look(pristine, names, pristine(**real), raw)
            cls = spec.build()
            inst = cls(**real)
            other = cls.from_bytes(raw)
            other_wanted = look(cls, names, other, raw)
            shown = glance(pristine, pristine(**real), raw)
            count = 0
            trace = []
            note(rec, spec, values=assign, mode=mode, operations=trace)
            for what, op in failures(cls, spec, names, inst, real, raw):
                exc = tried(op)
                rec.step()
                if exc is None:
                    if "redefined" in what or "again" in what:
                        fail(f"{what} is accepted")
                    continue
                trace[:] = trace[-2:] + [f"{what}: {type(exc).__name__}"]
                count += 1
                got = glance(cls, inst, raw)
                if got != shown:
                    fail(f"after {what} ({exc!r}): {difference(got, shown)}")
                if count % EVERY:
                    continue
                got = look(cls, names, inst, raw)
                if got != wanted:
                    fail(f"after {what} ({exc!r}) or before: {difference(got, wanted)}")
            got = look(cls, names, inst, raw)
            if got != wanted:
                fail(f"in the end: {difference(got, wanted)}")
            if look(cls, names, other, raw) != other_wanted:
                fail("another instance has changed")
            got = look(cls, names, cls(**real), raw)
            if got != wanted:
                fail(f"a new instance: {difference(got, wanted)}")
            rec.traced()
            rec.state(repr(spec), repr(assign), mode)
    rec.sample(f"{spec!r}")


def difference(got, wanted):
    for g, w in zip(got, wanted):
        if g != w:
            return f"{g!r}, it should be {w!r}"
    return "another number of observations"


def wide(ch):
    make = ch.choose(KINDS)
    return ch.choose(WRAPPERS)(make())


def pairs(ch):
    first = ch.choose(ITEMS)
    second = ch.choose(ITEMS)
    return combine([first, second], 0)


################################################################################
# Callbacks that fail

EXCEPTIONS = (
    lambda: Boom("boom"),
    lambda: HardBoom("boom"),
    lambda: LookupError("boom"),
    lambda: StopIteration(5),
    lambda: AttributeError("boom"),
    lambda: OSError(5, "boom"),
)


def see(op):
    how, got = attempt(op)
    return how, freeze(got)


def broken(count):
    def body(ch, rec):
        site = ch.choose(SITES)
        place = ch.choose(PLACES)
        make = ch.choose(EXCEPTIONS)
        state = {"calls": 0, "at": None, "exc": None}

        def hook():
            state["calls"] += 1
            if state["calls"] == state["at"]:
                raise state["exc"]

        outer, Inner, Parent, Other = world(site, place, hook)
        values = outer_values(place, 0)
        raw = outer(**values).to_bytes()
        last = "own" if place == "top" else "part"
        # One instance that everything is done with, and new ones for each operation.
        kept = outer(**values)
        ops = operations(outer, values, raw, last)
        ops["kept, dumped"] = kept.to_bytes
        ops["kept, measured"] = lambda: len(kept)
        ops["kept, exported"] = lambda: kept.to_dict(keep_discardable=True)
        ops["kept, partial"] = lambda: streamed(kept.partial_dump)
        ops["kept, checked"] = kept.validate_contents
        changing = Inner(**inner_values(0))
        ops["assigned"] = lambda: assigned(changing)
        given = inner_values(0)
        ops["values for dump"] = lambda: [
            see(lambda: f.compute_value_for_dump(given))
            for f in Inner.__binobj_struct__.components.values()
        ]
        ops["one value for dump"] = lambda: Inner.total.compute_value_for_dump(given)
        ops["inner"] = lambda: Inner(**inner_values(2)).to_bytes()
        ops["inner, loaded"] = lambda: Inner.from_bytes(Inner(**inner_values(2)).to_bytes())
        ops["child"] = lambda: type("Child", (Inner,), {}).from_bytes(
            Inner(**inner_values(1)).to_bytes()
        )
        reference = {k: see(op) for k, op in ops.items()}
        calls = {}
        for k, op in ops.items():
            state["calls"] = 0
            see(op)
            calls[k] = min(state["calls"], 6)
        names = [k for k in ops if calls[k]]
        done = []
        rec.case = lambda: f"{site} in {place} raises {make()!r} in {done[-3:]}"
        first = ch.choose(names) if count > 1 and names else None
        for k in [first] if first else names:
            for at in range(1, calls[k] + 1):
                fault(k, ops[k], at, state, make, done, site)
                for k2 in names if count > 1 else ():
                    for at2 in (1, calls[k2]):
                        fault(k2, ops[k2], at2, state, make, done, site)
                        rec.step()
                for k2, op in [(k, ops[k]), *ops.items()]:
                    got = see(op)
                    rec.step()
                    if got != reference[k2]:
                        fail(f"{k2} gives {got!r} afterwards, it should be {reference[k2]!r}")
                rec.state(site, place, k, at, repr(make()))
        rec.traced()

    return body


def assigned(inst):
    """Assign other values; one that's refused leaves the previous one."""
    out = []
    for name, value in inner_values(1).items():
        before = getattr(inst, name)
        size = len(inst.__values__)
        try:
            setattr(inst, name, value)
        except BaseException:
            if getattr(inst, name) is not before or len(inst.__values__) != size:
                fail(f"{name} is {getattr(inst, name)!r} after its assignment has failed")
            raise
        out.append(getattr(inst, name) is value)
        inst.__values__[name] = before
    return out


def fault(k, op, at, state, make, done, site):
    done.append((k, at))
    exc = make()
    state.update(calls=0, at=at, exc=exc)
    try:
        got = op()
    except BaseException as raised:  # noqa: BLE001
        reached = state["calls"] >= at
        if type(raised).__name__ == "Violation":
            raise
        if reached and raised is not exc and not (
            isinstance(exc, StopIteration) and isinstance(raised, RuntimeError)
        ):
            if k not in ("unfit", "cut"):
                fail(f"{k} raises {raised!r}, the callback raised {exc!r}")
    else:
        if isinstance(got, tuple) and got and got[0] == "err":
            pass
        elif state["calls"] >= at and k not in ("attributes", "values for dump"):
            fail(f"{k} gives {got!r} although a callback raised {exc!r}")
    finally:
        state.update(calls=0, at=None, exc=None)


################################################################################
# Declarations that fail


def family(binobj, F, sort):
    """Classes that a declaration could damage, from the root to the parent."""
    meta = type(binobj.Struct)
    if sort == "none":
        return [binobj.Struct]
    root = meta("Root", (binobj.Struct,), {})
    if sort == "empty":
        return [root]
    one = meta("One", (root,), {"r": F.UInt8(default=3)})
    if sort == "one":
        return [root, one]

    class Two(one):
        s = F.StringZ(encoding="ascii", default="s")
        n = F.UInt8()

        class Meta:
            argument_defaults = {"UInt16": {"endian": "big"}}

        @n.computes
        def _n(self, values):
            return len(values["s"])

        @binobj.decorators.validates("s")
        def _s(self, field, value):
            if value == "no":
                raise binobj.errors.ValidationError(field=field, value=value)

        @binobj.decorators.validates_struct
        def _all(self, values):
            if values["r"] == 99:
                raise binobj.errors.ValidationError(field=None, value=None)

    if sort == "two":
        return [root, one, Two]
    Two.__annotations__ = {}

    class Three(Two):
        t: F.UInt16
        u: F.UInt8 = 7

    return [root, one, Two, binobj.dataclass(Three)]


def shown(cls):
    """What there's to see about a class."""
    meta = vars(cls).get("__binobj_struct__")
    if meta is None:
        return sorted(vars(cls))
    out = [
        meta.name,
        meta.num_own_fields,
        [(n, f.index, f.offset, repr(f)) for n, f in meta.components.items()],
        attempt(cls.get_size)[0],
    ]
    for changes in ({}, {"r": 99}, {"s": "no"}, {"r": 4, "s": "xyz"}):
        values = {k: v for k, v in {"r": 1, "t": 258, **changes}.items() if k in meta.components}
        inst = cls(**values)
        for op in (inst.validate_contents, inst.to_bytes, inst.to_dict, lambda: len(inst)):
            how, got = attempt(op)
            out.append((how, type(got).__name__ if how == "err" else freeze(got)))
        how, got = attempt(inst.to_bytes)
        if how == "ok":
            out.append(freeze(attempt(lambda: cls.from_bytes(got).to_dict())[1]))
            out.append(freeze(attempt(cls.partial_load, io.BytesIO(got[:-1]))[1]))
    return out


def contradictory(binobj, F, sort, parent, good, annotated):
    """Names and types of a declaration that's refused."""
    meta = type(binobj.Struct)
    known = getattr(parent, "__binobj_struct__", None)
    taken = list(known.components) if known else []
    extra = {}
    if sort == "defined before":
        if not taken:
            return None
        bad = {taken[0]: F.UInt8 if annotated else F.UInt8()}
    elif sort == "mixed":
        if not annotated:
            return None
        bad, extra = {"w": F.UInt8}, {"x": F.UInt16()}
    elif sort == "two types":
        if not annotated:
            return None
        bad = {"w": typing.Union[F.UInt8, F.UInt16]}
    elif sort == "default refused":
        if not annotated:
            return None
        bad, extra = {"w": F.Float32(const=3.0).__class__}, {"w": F.UInt8}
    elif sort == "check of an unknown field":
        bad = {}
        extra = {"_check": binobj.decorators.validates("nope")(lambda *a: None)}
    elif sort == "two parents":
        bad = {}
        other = meta("Other", (binobj.Struct,), {"o": F.UInt8()})
        return lambda: declare(binobj, annotated, (parent, other), good, {}, {})
    elif sort == "nothing":
        if not annotated:
            return None
        return lambda: declare(binobj, annotated, (parent,), {}, {}, {})
    else:
        raise AssertionError(sort)
    return lambda: declare(binobj, annotated, (parent,), good, bad, extra)


def declare(binobj, annotated, parents, good, bad, extra):
    meta = type(binobj.Struct)
    if annotated:
        return binobj.dataclass(
            meta("Child", parents, {"__annotations__": {**good, **bad}, **extra})
        )
    return meta("Child", parents, {**good, **bad, **extra})


def declarations(times):
    def body(ch, rec):
        import binobj
        from binobj import fields as F

        family_sort = ch.choose(("none", "empty", "one", "two", "three"))
        annotated = ch.flag()
        n = ch.pick(4)
        sorts = [
            ch.choose(("defined before", "mixed", "two types", "default refused",
                       "check of an unknown field", "two parents", "nothing"))
            for _ in range(times)
        ]
        rec.case = lambda: f"{family_sort}, annotated: {annotated}, {n} good ones, {sorts}"

        def good():
            types = {"a": F.UInt8, "b": F.UInt16, "c": F.Float32}
            return {
                k: t if annotated else t(default=i)
                for i, (k, t) in enumerate(list(types.items())[:n])
            }

        classes = family(binobj, F, family_sort)
        pristine = family(binobj, F, family_sort)
        siblings = [type(binobj.Struct)("Sibling", (c,), {"z": F.UInt8(default=1)})
                    for c in (classes[-1], pristine[-1])]
        wanted = [shown(c) for c in pristine]
        for sort in sorts:
            op = contradictory(binobj, F, sort, classes[-1], good(), annotated)
            if op is None:
                return
            exc = tried(op)
            if exc is None:
                if sort in ("defined before", "mixed", "two types", "two parents"):
                    fail(f"{sort} is accepted")
                return
            got = [shown(c) for c in classes]
            if got != wanted:
                fail(f"after {exc!r}: {difference(got, wanted)}")
            rec.step()
        if shown(siblings[0]) != shown(siblings[1]):
            fail("a sibling has changed")
        if n:
            made, should = (
                declare(binobj, annotated, (c[-1],), good(), {}, {}) for c in (classes, pristine)
            )
            if shown(made) != shown(should):
                fail(f"declared properly: {difference(shown(made), shown(should))}")
            if [shown(c) for c in classes] != wanted:
                fail("a proper declaration changes its parent")
        rec.traced()
        rec.state(family_sort, annotated, n, *sorts)

    return body


def bodies(tier, seed):
    def each(make):
        def body(ch, rec):
            case = make(ch)
            if case is not None:
                judge(case, rec)

        return body

    out = {"wide": each(wide), "pairs": each(pairs), "callbacks": broken(1),
           "declarations": declarations(2 if tier == "thorough" else 1)}
    if tier == "thorough":
        from mc.universe import triple_case

        out["triples"] = each(triple_case)
        out["two callbacks"] = broken(2)
    return out
