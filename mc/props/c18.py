"""C18: contradictory declarations are rejected when declared."""

import io
import itertools
import typing

from mc.items import KINDS
from mc.lib import attempt
from mc.lib import fail
from mc.model import plain

BOUNDS = {
    "quick": "each of ~50 contradictions, declared by assignment, annotation and typing.Annotated,"
    " as the 1st, 2nd or 3rd of three fields, in a new class, a child, a grandchild and a child"
    " declared in the other style, with harmless neighbours of 7 kinds; all ordered pairs of"
    " contradictions in one class; afterwards the existing classes (parent, child, sibling,"
    " nesting one) are compared with what they were, and the corrected declaration works;"
    " default and factory, compute functions on constants, second compute functions and unknown"
    " names for every field kind",
    "thorough": "the same with all pairs of neighbours of the 7 kinds",
}
ASSUMPTIONS = [
    "which of several contradictions in one declaration is reported is unspecified",
]

STYLES = ("assign", "annotated", "instance")


def struct(name, bases, fields, style, extra=None):
    """Declare a class.  ``fields``: {name: function making the field}"""
    import binobj

    ns = {"__module__": __name__, "__qualname__": name, **(extra or {})}
    made = {n: make() for n, make in fields.items()}
    if style == "assign":
        ns.update(made)
        return type(binobj.Struct)(name, bases, ns)
    notes = dict(ns.pop("__annotations__", {}))
    for n, f in made.items():
        notes[n] = typing.Annotated[typing.Any, f] if style == "annotated" else f
    ns["__annotations__"] = notes
    return binobj.dataclass(type(binobj.Struct)(name, bases, ns))


class World:
    """The classes that exist already."""

    def __init__(self, style):
        import binobj
        from binobj import decorators
        from binobj import fields as F

        self.style = style
        self.base = (binobj.Struct,)

        def check(self_, field, value):
            if value == 9:
                raise binobj.ValidationError(field=field, value=value)

        s = F.UInt8()
        s.computes(lambda f, v: (v["p"] + 1) % 256)
        self.computed = s
        self.In = struct("In", self.base, {"i": F.UInt8}, style)
        self.P = struct(
            "P",
            self.base,
            {
                "p": lambda: F.UInt8(default=4),
                "q": lambda: F.UInt16(const=0x0102, endian="big"),
                "s": lambda: s,
                "z": F.StringZ,
            },
            style,
            {"check": decorators.validates("p")(check)},
        )
        self.C = struct("C", (self.P,), {"c": lambda: F.UInt8(default=1)}, style)
        self.G = struct("G", (self.C,), {"g": lambda: F.UInt8(default=2)}, style)
        self.Other = struct("Other", self.base, {"o": F.UInt8}, style)
        meta = type(binobj.Struct)
        self.Bare = meta("Bare", (self.Other,), {"__module__": __name__})
        self.Empty = meta("Empty", self.base, {"__module__": __name__})
        self.Nesting = struct(
            "Nesting",
            self.base,
            {"n": lambda: F.Nested(self.P), "t": lambda: F.Array(F.Nested(self.In), count=1)},
            style,
        )

    def see(self):
        """What the existing classes do."""
        out = []
        samples = {
            "In": [bytes([5])],
            "P": [bytes([4, 1, 2, 5]) + b"x\0", bytes([9, 1, 2, 5]) + b"x\0", bytes([4, 1, 3, 5, 0])],
            "C": [bytes([4, 1, 2, 5]) + b"x\0\7", bytes([9, 1, 2, 5]) + b"x\0\7"],
            "G": [bytes([4, 1, 2, 5]) + b"x\0\7\x08", b"\4\1\2"],
            "Other": [b"\1", b""],
            "Nesting": [bytes([4, 1, 2, 5]) + b"x\0\6"],
        }
        values = {
            "In": [{"i": 1}, {}],
            "P": [{"z": "a"}, {"z": "a", "p": 9}, {"z": "b", "p": 7}],
            "C": [{"z": "a"}, {"z": "a", "p": 9, "c": 3}],
            "G": [{"z": "a", "g": 4}],
            "Other": [{"o": 255}, {"o": 256}],
            "Nesting": [{"n": {"z": "q"}, "t": [{"i": 3}]}],
        }
        for name in samples:
            cls = getattr(self, name)
            out.append((name, cls.__name__, cls.get_size()))
            for n in cls.__binobj_struct__.components:
                f = getattr(cls, n)
                out.append((n, f.name, f.index, f.offset, f.is_computed_field, f.required))
            for raw in samples[name]:
                how, got = attempt(cls.from_bytes, raw)
                out.append(plain(got) if how == "ok" else type(got).__name__)
            for v in values[name]:
                inst = cls(**v)
                how, got = attempt(inst.to_bytes)
                out.append(got if how == "ok" else type(got).__name__)
                how, got = attempt(inst.to_dict)
                out.append(plain(got) if how == "ok" else type(got).__name__)
        return out


def contradictions():
    """{name: (error, how)}; how(world) gives a function making a field, or a dictionary
    of what's special about the declaration."""
    import binobj
    from binobj import decorators
    from binobj import errors
    from binobj import fields as F

    E = errors
    bad = E.ConfigurationError
    out = {}

    def field(name, error, make):
        out[name] = (error, "field", make)

    field("default and factory", bad, lambda w: F.UInt8(default=1, factory=lambda: 2))
    field("default None and factory", bad, lambda w: F.UInt8(default=None, factory=lambda: 2))
    field("default 0 and factory", bad, lambda w: F.StringZ(default="", factory=str))
    for n, pad in enumerate((b"", b"ab", "x", 32, [32], bytearray())):
        field(f"pad {pad!r}", bad, lambda w, p=pad: F.String(size=4, pad_byte=p))
        field(f"terminated pad {pad!r}", bad, lambda w, p=pad: F.StringZ(size=4, pad_byte=p))
    for end in ("middle", "BIG", b"big", 1, "<"):
        field(f"float endian {end!r}", bad, lambda w, e=end: F.Float32(endian=e))
        field(f"integer endian {end!r}", bad, lambda w, e=end: F.UInt16(endian=e))
        field(f"time endian {end!r}", bad, lambda w, e=end: F.Timestamp32(endian=e))
    for res in ("m", "", None, 1, "S"):
        field(f"resolution {res!r}", bad, lambda w, r=res: F.Timestamp(size=4, resolution=r))
    for count in (1.0, True, False, b"2", [2]):
        field(f"count {count!r}", TypeError, lambda w, c=count: F.Array(F.UInt8(), count=c))
    for fmt in ("vlq", None, 0, 77):
        field(f"format {fmt!r}", bad, lambda w, f=fmt: F.VariableLengthInteger(vli_format=f))

    def deciders():
        return {"load_decider": lambda *a: a[1][0], "dump_decider": lambda *a: a[1][0]}

    field("union of class", bad, lambda w: F.Union(F.UInt8, **deciders()))
    field("union with class", bad, lambda w: F.Union(F.UInt8(), w.In, F.UInt16, **deciders()))

    def computed_const(w):
        f = F.UInt8(const=3)
        f.computes(lambda f_, v: 4)
        return f

    def computed_twice(w):
        f = F.UInt8()
        f.computes(lambda f_, v: 4)
        f.computes(lambda f_, v: 5)
        return f

    def computed_again(w):
        w.computed.computes(lambda f_, v: 77)
        return F.UInt8()

    def computed_const_again(w):
        w.P.q.computes(lambda f_, v: 77)
        return F.UInt8()

    def unhashed_falsy(w):
        class Quiet:
            def __call__(self, f, v):
                return 4

        f = F.UInt8(const=0)
        f.computes(Quiet())
        return f

    field("computed constant", bad, computed_const)
    field("computed constant 0", bad, unhashed_falsy)
    field("computed twice", bad, computed_twice)
    field("existing field computed again", bad, computed_again)
    field("existing constant computed", bad, computed_const_again)

    def whole(name, error, **what):
        out[name] = (error, "class", what)

    whole("redefined", E.FieldRedefinedError, child=True, names={"p": F.UInt8})
    whole("redefined const", E.FieldRedefinedError, child=True, names={"q": F.StringZ})
    whole("redefined by grandchild", E.FieldRedefinedError, grandchild=True, names={"c": F.UInt8})
    whole("redefined far", E.FieldRedefinedError, grandchild=True, names={"z": F.StringZ})
    whole("redefined by itself", E.FieldRedefinedError, child=True, own={"p": "P"})
    whole("redefined by itself 2", E.FieldRedefinedError, child=True, own={"q": "P"})
    whole("redefined by itself 3", E.FieldRedefinedError, grandchild=True, own={"c": "C"})
    whole("two parents", E.MultipleInheritanceError, bases=("P", "Other"))
    whole("two parents 2", E.MultipleInheritanceError, bases=("Other", "C"))
    whole("three parents", E.MultipleInheritanceError, bases=("G", "In", "Other"))
    whole("two parents, one bare", E.MultipleInheritanceError, bases=("Bare", "P"))
    whole("two parents, one bare 2", E.MultipleInheritanceError, bases=("G", "Bare"))
    whole("two parents, one empty", E.MultipleInheritanceError, bases=("Empty", "P"))
    whole("two parents, one empty 2", E.MultipleInheritanceError, bases=("C", "Empty"))
    whole("two empty parents", E.MultipleInheritanceError, bases=("Empty", "Bare"))
    whole("mixed", E.MixedDeclarationsError, mixed=True)
    whole("two fields", bad, annotated=(F.UInt8, F.UInt16))
    whole("two instances", bad, annotated=(F.UInt8(), F.UInt8()))
    whole("field and struct", bad, annotated=(F.UInt8, "In"))
    whole("three fields", bad, annotated=("x", F.UInt8, 5, F.StringZ(), F.UInt8))
    whole("typing union", E.InvalidTypeAnnotationError, note=typing.Union[F.UInt8, F.UInt16])
    whole(
        "typing union null",
        E.InvalidTypeAnnotationError,
        note=typing.Union[F.UInt8, None, F.UInt16],
    )
    whole("typing union |", E.InvalidTypeAnnotationError, note=F.UInt8 | F.StringZ)
    whole("validates()", TypeError, deco=lambda: decorators.validates())
    whole("validates", TypeError, deco=lambda: decorators.validates(lambda s, f, v: None))
    whole("validates field", TypeError, deco=lambda: decorators.validates(F.UInt8(name="a")))
    whole("validates field 2", TypeError, deco=lambda: decorators.validates("a", F.UInt8()))
    return out


def neighbours():
    from binobj import fields as F

    return [
        F.UInt8,
        lambda: F.StringZ(default="d"),
        lambda: F.Bytes(const=b"k"),
        lambda: F.UInt8(default=0, present=lambda *a: False),
        lambda: F.Array(F.UInt8(), count=2, factory=lambda: [1, 2]),
        lambda: F.UInt16(null_value=F.DEFAULT, default=None),
        lambda: F.UInt8(discard=True, default=1),
    ]


def declare(w, style, bases, position, others, kinds, error_of):
    """Declare a class with the contradictions (or without, if there are none)."""
    import binobj
    from binobj import fields as F

    fields, extra, names = {}, {}, {}
    specials, annotated, mixed = [], {}, False
    for kind in kinds:
        _error, what, how = error_of[kind]
        if what == "field":
            specials.append((f"x{len(specials)}", lambda how=how: how(w)))
            continue
        names.update(how.get("names", {}))
        for n, cls in how.get("own", {}).items():
            names[n] = lambda n=n, cls=cls: getattr(getattr(w, cls), n)
        if how.get("bases"):
            bases = tuple(getattr(w, b) for b in how["bases"])
        elif how.get("grandchild"):
            bases = (w.C,)
        elif how.get("child") and bases in (w.base, (w.Other,)):
            bases = (w.P,)
        if how.get("mixed"):
            mixed = True
        if how.get("annotated"):
            parts = tuple(w.In if a == "In" else a for a in how["annotated"])
            annotated[f"m{len(annotated)}"] = typing.Annotated[(typing.Any, *parts)]
        if how.get("note"):
            annotated[f"m{len(annotated)}"] = how["note"]
        if how.get("deco"):
            extra[f"check{len(extra)}"] = how["deco"]()(lambda s, f, v: None)
    if annotated and style == "assign":
        style = "annotated"
    specials += [(n, c) for n, c in names.items()]
    if not kinds:
        specials = [("x0", F.UInt8)]
    order = [(f"a{i}", make) for i, make in enumerate(others)]
    order[position:position] = specials
    for name, make in order:
        fields[name] = make
    if annotated:
        extra["__annotations__"] = annotated
    if mixed:
        # One of the fields is declared in the other style.
        extra["mix"] = F.UInt8()
        if style == "assign":
            style = "annotated"
    return struct("New", bases, fields, style, extra)


def contradict(pairs, all_neighbours):
    def body(ch, rec):
        error_of = contradictions()
        kinds = [ch.choose(sorted(error_of))]
        if pairs:
            kinds.append(ch.choose(sorted(error_of)))
            styles = [STYLES[len(kinds[0] + kinds[1]) % 3]]
            places = ["new", "child"]
        else:
            styles = [ch.choose(STYLES)]
            places = [ch.choose(("new", "child", "grandchild", "other style"))]
        for style in styles:
            for place in places:
                w = World(style)
                before = w.see()
                near = neighbours()
                for position in range(3) if not pairs else (1,):
                    combos = list(itertools.product(range(7), repeat=2))
                    if not all_neighbours or pairs:
                        start = (position * 11 + len(kinds[0]) * 3 + len(place)) % 49
                        combos = [combos[start], combos[(start + 25) % 49]]
                    if pairs:
                        combos = combos[:1]
                    for combo in combos:
                        others = [near[i] for i in combo]
                        judge(w, style, place, position, others, kinds, error_of, rec, before)
                        rec.state(kinds, style, place, position, combo)

    return body


def judge(w, style, place, position, others, kinds, error_of, rec, before):
    rec.case = lambda: (kinds, style, place, position, [type(o()).__name__ for o in others])
    own = style
    bases = {"new": w.base, "child": (w.P,), "grandchild": (w.C,), "other style": (w.P,)}[place]
    if place == "other style":
        own = "assign" if style == "annotated" else "annotated"
    how, got = attempt(declare, w, own, bases, position, others, kinds, error_of)
    errors = tuple(error_of[k][0] for k in kinds)
    if how == "ok":
        fail("the declaration isn't rejected")
    if not isinstance(got, errors):
        fail(f"rejected with {got!r}, not with {errors}")
    if len(kinds) == 1:
        culprit(got, error_of[kinds[0]], style)
    after = w.see()
    if after != before:
        diff = [(a, b) for a, b in zip(after, before) if a != b]
        fail(f"an existing class is different afterwards: {diff[:3]}")
    # Without the contradiction, it's a proper class.
    fine = declare(w, own, bases, position, others, [], error_of)
    inst = fine(x0=7, **{n: 5 for n in fields_required(fine) if n != "x0"}, **parents(fine))
    raw = inst.to_bytes()
    again = fine.from_bytes(raw)
    if again.x0 != 7 or again != fine.from_bytes(again.to_bytes()):
        fail(f"the corrected declaration loads {again!r} from {raw.hex()}")
    if fine.get_field(io.BytesIO(raw), "x0") != 7:
        fail("get_field() of the corrected declaration")
    rec.step(3)
    rec.traced()
    rec.sample((kinds, style, place, position))


def culprit(exc, contradiction, style):
    """An error about a class as a whole says which class, and which of its fields."""
    from binobj import errors

    _error, what, how = contradiction
    if what != "class" or not isinstance(exc, errors.ConfigurationError):
        return
    said = getattr(exc.struct, "__name__", exc.struct)
    if said != "New" and not (how.get("note") and said is None):
        fail(f"{exc!r} is about {said!r}, not about New")
    named = {**how.get("names", {}), **how.get("own", {})}
    if named or how.get("annotated") or how.get("note"):
        wanted = next(iter(named or {"m0": 0}))
        if exc.field is None or getattr(exc.field, "name", exc.field) not in (wanted, None):
            fail(f"{exc!r} is about the field {exc.field!r}, not about {wanted}")
    elif exc.field is not None:
        fail(f"{exc!r} is about the field {exc.field!r}")
    str(exc)


def fields_required(cls):
    return [n for n in ("a0", "a1") if getattr(cls, n).required]


def parents(cls):
    return {"z": "zz"} if "z" in cls.__binobj_struct__.components else {}


def constructing(ch, rec):
    """Unknown names are refused by every constructor, whatever comes with them."""
    from binobj import errors

    style = ch.choose(STYLES)
    w = World(style)
    name = ch.choose(("In", "P", "C", "G", "Other", "Nesting"))
    cls = getattr(w, name)
    before = w.see()
    known = {
        "In": {"i": 1},
        "P": {"z": "a", "p": 1},
        "C": {"z": "a", "c": 1},
        "G": {"z": "a", "g": 5, "p": 1},
        "Other": {"o": 1},
        "Nesting": {"n": {"z": ""}, "t": [{"i": 1}]},
    }[name]
    wrong = ("zz", "P", "to_bytes", "__values__", "check", "a b", "", "I", "_")
    for n in range(3):
        for extra in itertools.combinations(wrong, n):
            for m in range(len(known) + 1):
                given = dict(list(known.items())[:m])
                values = {**given, **{k: 1 for k in extra}}
                rec.case = lambda v=values: (style, name, v)
                how, got = attempt(cls, **values)
                if extra:
                    if how == "ok" or not isinstance(got, errors.UnexpectedValueError):
                        fail(f"constructing gives {got!r}")
                    if set(got.names) != set(extra):
                        fail(f"the error names {got.names}")
                elif how != "ok" or {k: got[k] for k in [x for x in got]} != given:
                    fail(f"constructing gives {got!r}")
                rec.step()
    # The same by way of a load's overrides.
    raw = cls(**known).to_bytes()
    for bad in wrong:
        how, got = attempt(cls.from_bytes, raw, init_kwargs={bad: 1})
        if how == "ok" or not isinstance(got, errors.UnexpectedValueError):
            fail(f"loading with the override {bad!r} gives {got!r}")
    if w.see() != before:
        fail("an existing class is different afterwards")
    rec.traced()
    rec.state(style, name)


def empty(ch, rec):
    """Annotated declarations have to declare something, and only by annotation."""
    import binobj
    from binobj import errors
    from binobj import fields as F

    w = World("annotated")
    before = w.see()
    what = ch.choose(
        ("nothing", "methods", "other annotations", "fields only", "child fields", "both child")
    )
    base = {"child fields": w.P, "both child": w.P}.get(what, binobj.Struct)
    parent = ch.flag()
    if parent and base is binobj.Struct:
        base = w.Other if what != "nothing" else w.base[0]
    ns = {"__module__": __name__}
    error = errors.NoDefinedFieldsError
    if what == "methods":
        ns["method"] = lambda self: 5
    elif what == "other annotations":
        ns["__annotations__"] = {"a": int, "b": typing.ClassVar[int], "c": typing.Optional[str]}
        ns["a"] = 5
    elif what in ("fields only", "child fields"):
        ns["n"] = F.UInt8()
        error = errors.MixedDeclarationsError
    elif what == "both child":
        ns["n"] = F.UInt8()
        ns["__annotations__"] = {"m": F.UInt8}
        error = errors.MixedDeclarationsError
    rec.case = lambda: (what, base)
    cls = type(binobj.Struct)("New", (base,), ns)
    how, got = attempt(binobj.dataclass, cls)
    if how == "ok" or not isinstance(got, error):
        fail(f"gives {got!r}, not {error}")
    if w.see() != before:
        fail("an existing class is different afterwards")
    rec.step()
    rec.traced()
    rec.state(what, base.__name__)


def every_kind(ch, rec):
    """The contradictions any field can have."""
    import binobj
    from binobj import errors
    from binobj import fields as F

    kind = ch.choose(KINDS)()
    value = next((v for v in kind.values if v is not None), None)
    if value is None:
        return
    kind.make(F)
    real = kind.real(value, 0)
    rec.case = lambda: (kind, real)

    def expect(label, fn, error=errors.ConfigurationError):
        how, got = attempt(fn)
        if how == "ok" or not isinstance(got, error):
            fail(f"{label}: {how} {got!r}")
        rec.step()

    expect("default and factory", lambda: kind.make(F, default=real, factory=lambda: real))
    expect("None and factory", lambda: kind.make(F, default=None, factory=lambda: real))
    const = kind.make(F, const=real)
    expect("computed constant", lambda: const.computes(lambda f, v: real))
    if const.is_computed_field:
        fail("the rejected function is used")
    twice = kind.make(F)
    twice.computes(lambda f, v: real)
    expect("computed twice", lambda: twice.computes(lambda f, v: None))
    cls = type(binobj.Struct)("S", (binobj.Struct,), {"x": twice, "c": const})
    if cls().x != real or cls().c != real:
        fail(f"the values are {cls().x!r} and {cls().c!r} afterwards")
    expect("computed again", lambda: cls.x.computes(lambda f, v: None))
    expect("computed constant again", lambda: cls.c.computes(lambda f, v: None))
    if cls().x != real or cls().c != real:
        fail(f"the values are {cls().x!r} and {cls().c!r} in the end")
    expect(
        "redefined",
        lambda: type(cls)("T", (cls,), {"x": kind.make(F)}),
        errors.FieldRedefinedError,
    )
    expect("unknown name", lambda: cls(y=real), errors.UnexpectedValueError)
    rec.traced()
    rec.state(kind.name)


def bodies(tier, seed):
    return {
        "one": contradict(False, tier == "thorough"),
        "two": contradict(True, False),
        "constructing": constructing,
        "empty": empty,
        "kinds": every_kind,
    }
