"""C29: field types defined by the user are treated like the library's own."""

import io

from mc.lib import attempt
from mc.lib import fail
from mc.lib import short
from mc.model import ABSENT
from mc.model import same_model
from mc.props.c26 import Case
from mc.props.c26 import CONTEXTS
from mc.props.c26 import declare
from mc.props.c26 import flat
from mc.props.c26 import Frame
from mc.props.c26 import Made
from mc.props.c26 import scope_env
from mc.props.c26 import scope_frames
from mc.props.c26 import Slot
from mc.props.c26 import s_computed
from mc.props.c26 import s_default
from mc.props.c26 import s_discard
from mc.props.c26 import s_plain
from mc.props.c26 import s_present
from mc.props.c26 import s_text

BOUNDS = {
    "quick": "a user-defined field type that records how its methods are called, in 22 places"
    " and with all options, all ordered pairs of these and of 6 ordinary fields, with and"
    " without inheritance, all triples of 9; 24 operations with 4 context objects; every"
    " method failing with 10 sorts of exceptions before, between and after reading or writing;"
    " types that say how much room their values take, from none at all, given in 5 ways",
    "thorough": "also all triples of everything, with inheritance",
}
ASSUMPTIONS = [
    "user-defined types read and write what they say, and don't call into their structure",
    "how often a method is called isn't specified, except that it's called",
]


class Armed:
    """Makes a method of a field fail."""

    def __init__(self):
        self.label = self.phase = self.when = self.exc = None
        self.countdown = 0

    def hit(self, label, phase, when):
        if (label, phase, when) == (self.label, self.phase, self.when):
            if self.countdown:
                self.countdown -= 1
                return
            raise self.exc


def own_type(R):
    """The field type; one per recorder."""
    import binobj

    if getattr(R, "own_type", None) is not None:
        return R.own_type

    class Own(binobj.Field):
        width = 2
        is_self_contained = False  # it looks at the fields before it

        def __init__(self, *, label, **kwargs):
            super().__init__(**kwargs)
            self.label = label

        def _do_load(self, stream, context, loaded_fields):
            R.record(self.label, "load", loaded_fields, context, stream, field=(self,))
            R.armed.hit(self.label, "load", "before")
            raw = stream.read(1)
            R.armed.hit(self.label, "load", "between")
            raw += stream.read(self.width - 1)
            R.armed.hit(self.label, "load", "after")
            return raw.decode("latin-1")

        def _do_dump(self, stream, data, context, all_fields):
            R.record(self.label, "dump", all_fields, context, data=data, field=(self,))
            R.armed.hit(self.label, "dump", "before")
            raw = data.encode("latin-1")
            stream.write(raw[:1])
            R.armed.hit(self.label, "dump", "between")
            stream.write(raw[1:])
            R.armed.hit(self.label, "dump", "after")

        def _size_for_value(self, value):
            return self.width

    R.own_type = Own
    R.armed = Armed()
    return Own


def calls(label, s, field, values=None, dumped=True, loaded=True, offset=0):
    """The legitimate calls for a field whose values lie one after the other."""

    def frames(names, slots, i, ahead, later):
        at = offset
        for v in [s.value] if values is None else values:
            if loaded:
                env = scope_env(slots, names, i, "load")
                yield Frame(label, "load", env, ahead[at:], later, field=(field,))
            if dumped:
                env = scope_env(slots, names, i, "dump")
                yield Frame(label, "dump", env, data=v, field=(field,))
            at += field.width

    s.frames.append(frames)
    s.armed_label = label
    s.armed_uses = len([s.value] if values is None else values)
    return s


def simple(value, **options):
    def maker(R, label):
        given = options.pop("given", True) if "given" in options else True
        field = own_type(R)(label=label, **options)
        s = Slot(field, value, value.encode("latin-1"), False, given=given)
        return calls(label, s, field)

    return maker


def o_plain(R, label):
    return simple("ab")(R, label)


def o_sized(R, label):
    return simple("c\xff", size=2)(R, label)


def o_nullable(R, label):
    """Not None, though it might be."""
    return simple("d\0", size=2, null_value=b"\xee\xee")(R, label)


def o_default(R, label):
    f = own_type(R)(label=label, default="ef")
    return calls(label, Slot(f, "ef", b"ef", False, given=None), f)


def o_factory(R, label):
    f = own_type(R)(label=label, factory=lambda: "gh")
    return calls(label, Slot(f, "gh", b"gh", False, given=None), f)


def o_const(R, label):
    f = own_type(R)(label=label, const="ij")
    return calls(label, Slot(f, "ij", b"ij", False, given=None), f)


def o_computed(R, label):
    f = own_type(R)(label=label)
    f.computes(lambda _f, values: "kl")
    return calls(label, Slot(f, "kl", b"kl", True, given=None), f)


def o_null(R, label):
    f = own_type(R)(label=label, null_value=b"\xef\xef\xef")
    return calls(label, Slot(f, None, b"\xef" * 3, False), f, [])


def o_null_default(R, label):
    import binobj
    from binobj import fields as F

    f = own_type(R)(label=label, size=2, null_value=F.DEFAULT, default=None)
    return calls(label, Slot(f, None, b"\0\0", False, given=None), f, [])


def o_present(R, label):
    f = own_type(R)(label=label, present=lambda v, c, s: True)
    return calls(label, Slot(f, "mn", b"mn", True), f)


def o_absent(R, label):
    f = own_type(R)(label=label, present=lambda v, c, s: False)
    return calls(label, Slot(f, ABSENT, b"", True, given=None), f, [])


def o_discarded(R, label):
    f = own_type(R)(label=label, discard=True)
    s = calls(label, Slot(f, "op", b"op", False), f)
    s.discard = True
    return s


def o_validated(R, label):
    seen = []
    f = own_type(R)(label=label, validate=lambda field, v: seen.append(v))
    s = calls(label, Slot(f, "qr", b"qr", False), f)
    s.seen = seen
    return s


def o_array(R, label):
    from binobj import fields as F

    f = own_type(R)(label=label)
    s = Slot(F.Array(f, count=3), ["a1", "b2", "c3"], b"a1b2c3", False)
    return calls(label, s, f, s.value)


def o_array_stop(R, label):
    from binobj import fields as F

    f = own_type(R)(label=label)
    halt = lambda seq, stream, values, context, loaded: len(values) > 1  # noqa: E731
    s = Slot(F.Array(f, halt_check=halt), ["a1", "b2"], b"a1b2", False)
    return calls(label, s, f, s.value)


def o_rows(R, label):
    from binobj import fields as F

    f = own_type(R)(label=label)
    s = Slot(F.Array(F.Array(f, count=1), count=2), [["r1"], ["r2"]], b"r1r2", False)
    return calls(label, s, f, ["r1", "r2"])


def chosen(index, value, piece):
    def maker(R, label):
        from binobj import fields as F

        f = own_type(R)(label=label)
        other = F.UInt16(endian="big")
        s = Slot(
            F.Union(
                f,
                other,
                load_decider=lambda stream, choices, context, loaded: choices[index],
                dump_decider=lambda data, choices, context, every: choices[index],
            ),
            value,
            piece,
            False,
        )
        return calls(label, s, f, [] if index else None)

    return maker


def o_union(R, label):
    return chosen(0, "st", b"st")(R, label)


def o_union_other(R, label):
    return chosen(1, 0x0102, b"\1\2")(R, label)


def o_delegating(R, label):
    """A type made of other such types."""
    import binobj

    first = own_type(R)(label=label + ".first")
    second = own_type(R)(label=label + ".second")

    class Both(binobj.Field):
        width = 4
        is_self_contained = False

        def _do_load(self, stream, context, loaded_fields):
            a = first.from_stream(stream, context, loaded_fields)
            return [a, second.from_stream(stream, context, loaded_fields)]

        def _do_dump(self, stream, data, context, all_fields):
            first.to_stream(stream, data[0], context, all_fields)
            second.to_stream(stream, data[1], context, all_fields)

    s = Slot(Both(size=4), ["uv", "wx"], b"uvwx", False)
    calls(label + ".first", s, first, ["uv"])
    calls(label + ".second", s, second, ["wx"], offset=2)
    return s


def o_subclass(R, label):
    """A library field whose value is something else."""
    from binobj import fields as F

    own_type(R)

    class Text(F.UInt16):
        width = 2
        is_self_contained = False

        def _do_load(self, stream, context, loaded_fields):
            R.record(label, "load", loaded_fields, context, stream, field=(self,))
            R.armed.hit(label, "load", "before")
            n = super()._do_load(stream, context, loaded_fields)
            R.armed.hit(label, "load", "after")
            return str(n)

        def _do_dump(self, stream, data, context, all_fields):
            R.record(label, "dump", all_fields, context, data=data, field=(self,))
            R.armed.hit(label, "dump", "before")
            super()._do_dump(stream, int(data), context, all_fields)
            R.armed.hit(label, "dump", "after")

    f = Text(endian="big")
    return calls(label, Slot(f, "258", b"\1\2", False), f)


def inner(R, label):
    makers = [s_plain, o_plain, o_null, o_absent, o_array, s_default, o_default]
    slots = [m(R, f"{label}.{k}{m.__name__[2:]}") for k, m in enumerate(makers)]
    names = [f"i{k}" for k in range(len(slots))]
    cls = declare("I", names, slots, R)
    value = {n: s.value for n, s in zip(names, slots) if s.value is not ABSENT}
    # (What's given as a dictionary is seen as given, so give everything.)
    return slots, names, cls, value, dict(value)


def with_inner(s, slots, names, starts):
    def frames(_names, _slots, _i, ahead, _later):
        for at in starts:
            yield from scope_frames(names, slots, ahead[at:])

    s.frames.append(frames)
    s.armed_label = slots[1].armed_label
    s.armed_uses = len(starts)
    return s


def o_nested(R, label):
    from binobj import fields as F

    slots, names, cls, value, given = inner(R, label)
    s = Slot(F.Nested(cls), value, b"".join(x.piece for x in slots), True, given=given)
    return with_inner(s, slots, names, [0])


def o_records(R, label):
    from binobj import fields as F

    slots, names, cls, value, given = inner(R, label)
    piece = b"".join(x.piece for x in slots)
    s = Slot(F.Array(F.Nested(cls), count=2), [value, value], piece * 2, True)
    s.given = Made(lambda: [given, cls(**given)])
    return with_inner(s, slots, names, [0, len(piece)])


def o_alternative(R, label):
    from binobj import fields as F

    slots, names, cls, value, given = inner(R, label)
    f = F.Union(
        cls,
        F.UInt8(),
        load_decider=lambda stream, choices, context, loaded: choices[0],
        dump_decider=lambda data, choices, context, every: choices[0],
    )
    s = Slot(f, value, b"".join(x.piece for x in slots), True, given=given)
    return with_inner(s, slots, names, [0])


OWN = (
    o_plain,
    o_sized,
    o_nullable,
    o_default,
    o_factory,
    o_const,
    o_computed,
    o_null,
    o_null_default,
    o_present,
    o_absent,
    o_discarded,
    o_validated,
    o_array,
    o_array_stop,
    o_rows,
    o_union,
    o_union_other,
    o_delegating,
    o_subclass,
    o_nested,
    o_records,
    o_alternative,
)
ORDINARY = (s_plain, s_text, s_default, s_discard, s_present, s_computed)
FEW = (o_plain, o_default, o_null, o_array, o_computed, o_nested, s_text, s_discard, s_present)


class OwnCase(Case):
    def __init__(self, makers, parent, rec):
        super().__init__(makers, parent, rec)
        if getattr(self.R, "own_type", None) is None:
            own_type(self.R)


def judge(makers, parent, contexts, rec):
    case = OwnCase(makers, parent, rec)
    for context in contexts:
        case.all_operations(context)
        rec.traced()
        rec.state(*[m.__name__ for m in makers], parent, repr(context))
    for s in case.slots:
        if getattr(s, "seen", None) is not None and set(s.seen) != {s.value}:
            fail(f"the validator got {s.seen!r}, the value is {s.value!r}")
    rec.sample(f"{[m.__name__ for m in makers]}: {short(case.raw)}")


def pairs(ch, rec):
    both = OWN + ORDINARY
    makers = [ch.choose(both) for _ in range(2)]
    if not any(m in OWN for m in makers):
        return
    judge(makers, ch.pick(2), CONTEXTS, rec)


def triples(which, parents):
    def body(ch, rec):
        makers = [ch.choose(which) for _ in range(3)]
        if any(m in OWN for m in makers):
            judge(makers, ch.choose(parents), CONTEXTS[1:2], rec)

    return body


class Boom(Exception):
    pass


def exceptions():
    from binobj import errors

    return (
        lambda f: Boom("boom"),
        lambda f: KeyError("x"),
        lambda f: AttributeError("x"),
        lambda f: TypeError("x"),
        lambda f: ValueError("x"),
        lambda f: IndexError("x"),
        lambda f: OSError("x"),
        lambda f: EOFError("x"),
        lambda f: errors.UndefinedSizeError(field=f),
        lambda f: errors.UnserializableValueError(field=f, value=1),
        lambda f: errors.DeserializationError("x", field=f),
        lambda f: errors.ValidationError("x", field=f, value=1),
    )


def failures(ch, rec):
    """What a method raises reaches the caller, and leaves nothing behind."""
    own = ch.choose(OWN)
    other = ch.choose((None, s_text, s_discard, o_null, o_nested))
    makers = [own] if other is None else [other, own, s_plain]
    exc_of = ch.choose(range(len(exceptions())))
    when = ch.choose(("before", "between", "after"))
    parent = ch.pick(2) if other is not None else 0
    case = OwnCase(makers, parent, rec)
    at = makers.index(own)
    s = case.slots[at]
    label = getattr(s, "armed_label", None)
    if not getattr(s, "armed_uses", 0) or (own is o_subclass and when == "between"):
        return
    cls, raw, name = case.cls, case.raw, case.names[at]
    start = len(b"".join(x.piece for x in case.slots[:at]))
    armed = case.R.armed
    given = case.given
    operations = [
        ("load", "from_bytes", lambda st, inst: cls.from_bytes(raw)),
        ("load", "from_stream", lambda st, inst: cls.from_stream(st)),
        ("load", "partial_load", lambda st, inst: cls.partial_load(st)),
        ("load", "partial_load to it", lambda st, inst: cls.partial_load(st, name)),
        ("load", "get_field", lambda st, inst: cls.get_field(st, name)),
        ("dump", "to_bytes", lambda st, inst: inst.to_bytes()),
        ("dump", "to_stream", lambda st, inst: inst.to_stream(st)),
        ("dump", "partial_dump", lambda st, inst: inst.partial_dump(st)),
        ("dump", "partial_dump to it", lambda st, inst: inst.partial_dump(st, name)),
    ]
    for countdown in range(s.armed_uses):
        for phase, what, op in operations:
            rec.case = lambda: (
                f"{[m.__name__ for m in makers]} inherited {parent}: {what}, {label} fails"
                f" {when} {phase}ing with {armed.exc!r}, the {countdown + 1}. time"
            )
            inst = cls(**given())
            stream = io.BytesIO(raw) if phase == "load" else io.BytesIO()
            exc = exceptions()[exc_of](s.field)
            armed.label, armed.phase, armed.when, armed.exc = label, phase, when, exc
            armed.countdown = countdown
            if what == "get_field" and (other is not None):
                stream = io.BytesIO(b"..." + raw)
                stream.seek(3)
            here = stream.tell()
            how, got = attempt(op, stream, inst)
            armed.label = None
            rec.step()
            if how == "ok":
                fail(f"{what} returns {got!r}")
            if got is not exc:
                fail(f"{what} raises {got!r}")
            if what == "get_field" and stream.tell() != here:
                fail(f"get_field leaves the stream at {stream.tell()}, it was at {here}")
            if phase == "dump" and not raw[:start].startswith(stream.getvalue()):
                fail(f"{what} has written {short(stream.getvalue())}; it's at {start}")
            # Everything's as before.
            if inst.to_bytes() != raw:
                fail(f"afterwards it's dumped as {short(inst.to_bytes())}, not {short(raw)}")
            again = cls.from_bytes(raw)
            for n, x in zip(case.names, case.slots):
                if not x.discard and not same_model(flat(getattr(again, n)), flat(x.value)):
                    fail(f"afterwards {n} is loaded as {getattr(again, n)!r}")
            rec.step(2)
    rec.traced()
    rec.state("failure", *[m.__name__ for m in makers], exc_of, when, parent)


def aliases(ch, rec):
    """Several representations of one value, as null and as a constant."""
    import binobj
    from binobj import errors
    from binobj import fields as F
    import fractions

    class Ratio(F.Field):
        def _do_load(self, stream, context, loaded_fields):
            raw = self._read_exact_size(stream, loaded_fields)
            return fractions.Fraction(raw[0], raw[1] or 1)

        def _do_dump(self, stream, data, context, all_fields):
            stream.write(bytes([data.numerator, data.denominator]))

    class Word(F.Field):
        """Text that's loaded in lower case, and stored in upper case."""

        def _do_load(self, stream, context, loaded_fields):
            return self._read_exact_size(stream, loaded_fields).decode("latin-1").lower()

        def _do_dump(self, stream, data, context, all_fields):
            stream.write(data.upper().encode("latin-1"))

    make, values, letters = ch.choose((
        (Ratio, (fractions.Fraction(1, 2), fractions.Fraction(0), fractions.Fraction(3)), b"\0\1\2\3\4\6"),
        (Word, ("ab", "ba", "aa"), b"aAbB"),
    ))
    value = ch.choose(values)
    use = ch.choose(("null", "const", "default"))
    where = ch.choose(("alone", "structure", "array", "inherited"))
    raw = bytes([ch.choose(letters), ch.choose(letters)])
    option = {"null": "null_value"}.get(use, use)
    field = make(size=2, **{option: value})
    rec.case = lambda: f"{make.__name__}, {use} {value!r}, {where}, data {raw!r}"
    if where == "alone":
        how, got = attempt(field.from_bytes, raw)
    else:
        class S(binobj.Struct):
            a = F.UInt8()
            x = F.Array(field, count=2) if where == "array" else field

        class T(S):
            b = F.UInt8()

        cls, end = (T, b"\2") if where == "inherited" else (S, b"")
        body = raw + raw if where == "array" else raw
        how, got = attempt(lambda: cls.from_bytes(b"\1" + body + end).x)
        if how == "ok" and where == "array":
            if len(got) != 2 or got[0] != got[1]:
                fail(f"loaded {got!r}")
            got = got[0]
    loaded = make(size=2).from_bytes(raw)
    rec.step()
    if use == "const" and loaded != value:
        if how == "ok" or not isinstance(got, errors.ValidationError):
            fail(f"not the constant: {how} {got!r}")
    elif how == "err":
        fail(f"{got!r}")
    elif use == "null" and loaded == value:
        if got is not None:
            fail(f"loaded as {got!r}, it's equal to the null value")
    elif got != loaded:
        fail(f"loaded as {got!r}, expected {loaded!r}")
    rec.traced()
    rec.state(make.__name__, repr(value), use, where, raw)


SIZED_VALUES = ("", "a", "bc", "def", None)


def sizes(ch, rec):
    """A type that says how much room its values take, between 0 and 3 bytes or unknown."""
    import binobj
    from binobj import errors
    from binobj import fields as F

    knows = ch.choose((True, False))
    label = ch.choose(("own", "Bytes", "StringZ", "subclass"))
    encode = (lambda v: v.encode()) if label != "Bytes" else (lambda v: v)

    class Own(binobj.Field):
        def _do_load(self, stream, context, loaded_fields):
            return self._read_exact_size(stream, loaded_fields).decode()

        def _do_dump(self, stream, data, context, all_fields):
            stream.write(data.encode())

        if knows:

            def _size_for_value(self, value):
                return len(value)

    class Marked(F.StringZ):
        """Something after the text."""

        def _do_load(self, stream, context, loaded_fields):
            value = super()._do_load(stream, context, loaded_fields)
            return value

    value = ch.choose(SIZED_VALUES)
    if label == "Bytes" and value is not None:
        value = value.encode()
    make = {"own": Own, "Bytes": F.Bytes, "StringZ": F.StringZ, "subclass": Marked}[label]
    if label in ("StringZ", "subclass"):
        room = lambda v: len(v) + 1
    else:
        room = len
    sure = label != "own" or knows
    given = ch.choose(("given", "default", "const", "null", "factory"))
    where = ch.choose(("alone", "structure", "inherited", "sibling"))
    null = ch.choose((b"", b"\xff", b"\xff\xfe"))
    options = {}
    if value is None and given not in ("given", "null"):
        return
    if given == "default":
        options["default"] = value
    elif given == "const":
        options["const"] = value
    elif given == "factory":
        options["factory"] = lambda: value
    if given == "null" or value is None:
        if given == "given":
            return
        options["null_value"] = null
    field = make(name="x", **options)
    if where != "alone":

        class P(binobj.Struct):
            a = F.UInt8(default=1)
            x = field

        class C(P):
            z = F.UInt8(default=9)

    rec.case = lambda: (
        f"{label} ({'knows' if knows else 'doesnt know'} its size), {given} {value!r},"
        f" null {null!r}, {where}"
    )

    # What's known about the others doesn't matter.
    env = {"a": 1} if where == "sibling" else {}
    if given in ("given", "null"):
        env["x"] = value
    if value is None:
        expected = len(null)
    elif sure:
        expected = room(value)
    else:
        expected = None
    how, got = attempt(field.get_expected_size, env)
    if expected is None:
        if how == "ok" or not isinstance(got, errors.UndefinedSizeError):
            fail(f"a size that can't be known: {how} {got!r}")
    elif how == "err" or got != expected:
        fail(f"get_expected_size() gives {got!r}, expected {expected!r}")
    rec.step()
    fixed = given == "const" and sure
    if field.has_fixed_size != fixed or (fixed and field.size != expected):
        fail(f"fixed size: {field.has_fixed_size}, size: {field.size!r}, expected {expected!r}")
    if given == "given" or where == "alone" and given == "null":
        how, got = attempt(field.get_expected_size, {})
        if how == "ok" or not isinstance(got, errors.UndefinedSizeError):
            fail(f"no value and no default, get_expected_size(): {how} {got!r}")
        rec.step()
    if where == "alone":
        rec.traced()
        rec.state(label, knows, repr(value), given, repr(null))
        return
    cls = C if where == "inherited" else P
    z = b"\t" if cls is C else b""
    inst = cls() if given not in ("given", "null") else cls(x=value)
    piece = null if value is None else encode(value) + (b"\0" if room is not len else b"")
    raw = b"\1" + piece + z
    if inst.to_bytes() != raw:
        fail(f"dumps {inst.to_bytes()!r}, expected {raw!r}")
    how, got = attempt(len, inst)
    if (how, got) != ("ok", len(raw)):
        fail(f"len() gives {got!r}, it's {len(raw)}")
    want = len(raw) if fixed else None
    if cls.get_size() != want:
        fail(f"the size of the structure is {cls.get_size()!r}, expected {want!r}")
    if cls is C:
        offset = C.__binobj_struct__.components["z"].offset
        if offset != (1 + len(piece) if fixed else None):
            fail(f"what follows is said to be at {offset!r}")
    if fixed:
        for data in {raw, b"\1" + piece + z}:
            back = cls.from_bytes(data)
            if back.x != value:
                fail(f"loads {back.x!r}")
            if cls is C and cls.get_field(io.BytesIO(data), "z") != 9:
                fail("what follows can't be loaded by itself")
    rec.step(4)
    rec.traced()
    rec.state(label, knows, repr(value), given, where, repr(null))


def bodies(tier, seed):
    big = tier == "thorough"
    out = {
        "pairs": pairs,
        "triples": triples(OWN + ORDINARY if big else FEW, (0, 1, 2) if big else (0,)),
        "failures": failures,
        "aliases": aliases,
        "sizes": sizes,
    }
    return out
