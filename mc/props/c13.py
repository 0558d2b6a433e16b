"""C13: None is stored, recognised and refused consistently."""

import io
import uuid

from mc.history import history_body
from mc.history import nullable
from mc.history import see_bytes
from mc.history import see_loaded
from mc.history import see_single
from mc.history import see_size
from mc.items import KINDS
from mc.items import on
from mc.items import U8
from mc.lib import attempt
from mc.lib import byte_strings
from mc.lib import fail
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.lib import values_of
from mc.model import Arr
from mc.model import Bad
from mc.model import BadData
from mc.model import DEFAULT
from mc.model import Eof
from mc.model import EPOCH
from mc.model import Float
from mc.model import FS
from mc.model import Int
from mc.model import Kind
from mc.model import Nest
from mc.model import NOPE
from mc.model import plain
from mc.model import Raw
from mc.model import same_model
from mc.model import Spec
from mc.model import Stamp
from mc.model import Str
from mc.model import StrZ
from mc.model import Uni
from mc.model import Uuid
from mc.model import VarInt

BOUNDS = {
    "quick": "all byte strings of up to 3 bytes over 6 byte values against every kind of field"
    " and every null value (of up to 4 bytes against arrays, structures and unions); all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; 32 kinds of nullable fields with null representations of all three sorts (bytes,"
    " values, zero bytes) in 13 places (alone to last, conditional, parent, child, nested,"
    " array elements of all array sorts, union alternative, annotated); the null"
    " representation and the other values, every cut, every byte of them replaced by 9 other"
    " values (all 255 for up to 2 bytes); None in every non-nullable kind",
    "thorough": "histories of 4 moves; all 255 replacements of every byte",
}
ASSUMPTIONS = [
    "null bytes have the size of the field, where it has one",
    "null bytes of fields without a size are recognised wherever the data starts with them",
    "a value equal to a null value is null, however it's encoded",
]


class Nullable(Kind):
    """A nullable element of something."""

    canonical = False

    def __init__(self, kind, null, **options):
        super().__init__(f"{kind}?{null!r}{options or ''}")
        self.kind, self.null, self.options = kind, null, options
        self.fixed = kind.fixed
        self.spec = Spec([FS("_", kind, null=null)])
        self.values = [None, *kind.values]

    def make(self, F, **kw):
        null = F.DEFAULT if self.null is DEFAULT else self.null
        return self.kind.make(F, null_value=null, **kw, **self.options)

    def enc(self, v, env):
        return self.spec.fields()[0].enc(v, env)

    def dec(self, data, pos, env):
        out, pos = self.spec.load(data, pos)
        return out["_"], pos

    def loaded(self, v, env):
        return self.spec.loaded({"_": v})["_"]

    def real(self, v, mode=0):
        return None if v is None else self.kind.real(v, mode)


def fixed_nest():
    return Nest(Spec([FS("p", U8()), FS("q", Int(2, False, "big"))], name="In"), [{"p": 1, "q": 2}])


NULLABLE = [
    (lambda: Int(1, False, "big"), b"\xff"),
    (lambda: Int(1, True, "big"), -1),
    (lambda: Int(2, False, "big"), b"\x80\x01"),
    (lambda: Int(2, True, "little"), -2),
    (lambda: Int(4, False, "little"), DEFAULT),
    (lambda: Int(4, True, "big"), 0),
    (lambda: Int(3, False, "little"), b"abc"),
    (lambda: Float(4, "big"), b"\xff\xff\xff\xff"),
    (lambda: Float(8, "little"), -1.5),
    (lambda: VarInt("vlq"), 300),
    (lambda: VarInt("leb"), -65),
    (lambda: VarInt("uleb"), b"\xff\x7f"),
    (lambda: VarInt("compact", 2), 0),
    (lambda: Raw(3), b"\0\xff\0"),
    (lambda: Raw(3), DEFAULT),
    (lambda: Raw(1), b"n"),
    (lambda: Str(4, "utf-8", b" "), "N/A"),
    (lambda: Str(4, "utf-8", b" "), b"\xc3\xa9\xc3\xa9"),
    (lambda: Str(4, "utf-16-le"), DEFAULT),
    (lambda: Str(3, "iso-8859-1", b"\0"), ""),
    (lambda: StrZ("utf-8"), "\\N"),
    (lambda: StrZ("utf-8"), ""),
    (lambda: StrZ("utf-16-le"), "\u0416"),
    (lambda: StrZ("iso-8859-1"), b"\xff\xfe"),
    (lambda: StrZ("utf-8", 6, b"\0"), "nil"),
    (lambda: StrZ("utf-8", 6, b"\0"), DEFAULT),
    (lambda: Uuid("bin1"), DEFAULT),
    (lambda: Uuid("bin2"), uuid.UUID("00112233-4455-6677-8899-aabbccddeeff")),
    (lambda: Uuid("hex"), b"0" * 31 + b"x"),
    (lambda: Stamp(4), b"\xff\xff\xff\xff"),
    (lambda: Stamp(8, "us"), EPOCH),
    (lambda: Arr(Int(2, False, "big"), 2), DEFAULT),
    (lambda: Arr(Int(2, False, "big"), 2), b"\xff\xff\xff\xff"),
    (lambda: Arr(U8(), 3), [1, 2, 3]),
    (fixed_nest, DEFAULT),
    (fixed_nest, b"\xff\0\xff"),
]


def q_alone(k, null):
    return Spec([FS("x", k, null=null)]), lambda v: {"x": v}


def q_middle(k, null):
    s = Spec([FS("a", U8()), FS("x", k, null=null), FS("b", U8())])
    return s, lambda v: {"a": 1, "x": v, "b": 2}


def q_after_var(k, null):
    s = Spec([FS("z", StrZ("utf-8")), FS("x", k, null=null), FS("b", U8())])
    return s, lambda v: {"z": "\u00e9", "x": v, "b": 2}


def q_default(k, null):
    s = Spec([FS("a", U8()), FS("x", k, null=null, default=None)])
    return s, lambda v: {"a": 1} if v is None else {"a": 1, "x": v}


def q_conditional(k, null):
    s = Spec([FS("f", U8()), FS("x", k, null=null, present=on("f")), FS("b", U8())])
    return s, lambda v: {"f": 1, "x": v, "b": 2}


def q_parent(k, null):
    s = Spec([FS("b", U8())], parent=Spec([FS("a", U8()), FS("x", k, null=null)], name="P"))
    return s, lambda v: {"a": 1, "x": v, "b": 2}


def q_child(k, null):
    s = Spec([FS("x", k, null=null)], parent=Spec([FS("a", U8())], name="P"))
    return s, lambda v: {"a": 1, "x": v}


def q_annotated(k, null):
    s = Spec([FS("a", U8()), FS("x", k, null=null), FS("b", U8())], style="annotated")
    return s, lambda v: {"a": 1, "x": v, "b": 2}


def q_nested(k, null):
    inner = Spec([FS("x", k, null=null), FS("j", U8())], name="Y")
    s = Spec([FS("a", U8()), FS("y", Nest(inner, [])), FS("b", U8())])
    return s, lambda v: {"a": 1, "y": {"x": v, "j": 3}, "b": 2}


def q_array(k, null):
    s = Spec([FS("a", U8()), FS("y", Arr(Nullable(k, null), 2, values=[])), FS("b", U8())])
    return s, lambda v: {"a": 1, "y": [v, k.values[0]], "b": 2}


def q_array_ref(k, null):
    s = Spec([FS("n", U8()), FS("y", Arr(Nullable(k, null), "n", values=[])), FS("b", U8())])
    return s, lambda v: {"n": 3, "y": [v, None, v], "b": 2}


def q_array_eof(k, null):
    s = Spec([FS("a", U8()), FS("y", Arr(Nullable(k, null), None, values=[]))])
    return s, lambda v: {"a": 1, "y": [v, v]}


def q_array_discard(k, null):
    # Elements are no fields of a structure, they can't be discarded.
    y = Arr(Nullable(k, null, discard=True), 3, values=[])
    s = Spec([FS("a", U8()), FS("y", y), FS("b", U8())])
    return s, lambda v: {"a": 1, "y": [v, k.values[0], v], "b": 2}


def q_union(k, null):
    s = Spec([FS("t", U8()), FS("x", Uni([StrZ(), Nullable(k, null)], "t")), FS("b", U8())])
    return s, lambda v: {"t": 1, "x": v, "b": 2}


PLACES = [
    q_alone,
    q_middle,
    q_after_var,
    q_default,
    q_conditional,
    q_parent,
    q_child,
    q_annotated,
    q_nested,
    q_array,
    q_array_ref,
    q_array_eof,
    q_array_discard,
    q_union,
]


def nullable_body(everything):
    def nullable(ch, rec):
        make, null = ch.choose(NULLABLE)
        place = ch.choose(PLACES)
        kind = make()
        spec, assign_of = place(kind, null)
        values = [None, *list(kind.values)[:4]]
        if isinstance(kind, (Int, VarInt)) and isinstance(null, int):
            values += [v for v in (null + 1, null - 1, -null - 1) if fits(kind, v)]
        for v in values:
            assign = assign_of(v)
            if place is q_union and (v is None or spec.loaded(assign)["x"] is None):
                continue  # None is the union's, which isn't nullable
            if v is not None and not isinstance(v, (str, bytes)) and v != v:
                continue
            stored(spec, assign, v is None, rec)
            around(spec, assign, everything or (kind.fixed or 3) <= 2, rec)

    return nullable


def fits(kind, v):
    try:
        kind.enc(v, {})
    except Bad:
        return False
    return True


def stored(spec, assign, is_null, rec):
    cls = spec.build()
    note(rec, spec, values=assign)
    raw = spec.dump(assign)
    expected = spec.loaded(assign)
    for mode in (0, 1):
        inst = cls(**spec.real_values(assign, mode))
        got = inst.to_bytes()
        if got != raw:
            fail(f"dumped as {short(got)}, expected {short(raw)}")
        if len(inst) != len(raw):
            fail(f"len() is {len(inst)}, {len(raw)} bytes are dumped")
        out = io.BytesIO()
        inst.partial_dump(out)
        if out.getvalue() != raw:
            fail(f"partial_dump() writes {short(out.getvalue())}, expected {short(raw)}")
    inst = cls.from_bytes(raw)
    same(values_of(inst, spec), expected, "loaded")
    if inst.to_bytes() != raw and spec.canonical():
        fail(f"dumped again it's {short(inst.to_bytes())}, expected {short(raw)}")
    # Setting it later is the same as constructing with it.
    if "x" in assign:
        real = spec.real_values(assign)
        other = cls.from_bytes(raw)
        other.x = real["x"]
        if other.to_bytes() != raw:
            fail(f"after assigning it's dumped as {short(other.to_bytes())}")
        if is_null and other.x is not None:
            fail(f"None was assigned but reads as {other.x!r}")
    rec.step(6)
    rec.traced()
    rec.state(repr(spec), repr(assign))
    rec.sample(f"{spec!r} {assign!r} {short(raw)}")


def around(spec, assign, everything, rec):
    """Load data that is the dump, or close to it."""
    raw = spec.dump(assign)
    cls = spec.build()
    name = next(f.name for f in spec.fields() if f.name in ("x", "y"))
    datas = [raw[:n] for n in range(len(raw) + 1)]
    for i, b in enumerate(raw):
        if everything:
            others = range(256)
        else:
            others = {b ^ 1, b ^ 0x80, b ^ 0x20, (b + 1) % 256, (b - 1) % 256, 0, 0xFF, 0x41, 0x7F}
        datas += [raw[:i] + bytes([o]) + raw[i + 1 :] for o in others if o != b]
    for data in datas:
        note(rec, spec, data=data)
        try:
            expected, _pos = spec.load(data, keep_discard=True)
            failing = None
        except Eof:
            failing = "eof"
        except BadData:
            failing = "bad"
        except Bad:
            failing = "bad"
        ops = {
            "from_bytes": lambda: plain(cls.from_bytes(data, exact=False)),
            "get_field": lambda: plain(cls.get_field(stream_at(data, b"123"), name)),
            "partial_load": lambda: plain(cls.partial_load(stream_at(data, b"1"), name)),
        }
        for op, run in ops.items():
            judge_load(op, run, failing, expected if failing is None else None, name, rec)
        rec.state(repr(spec), data)


def judge_load(op, run, failing, expected, name, rec):
    from binobj import errors

    how, got = attempt(run)
    rec.step()
    rec.outcome(op, failing, how, type(got).__name__)
    if failing is None:
        if how != "ok":
            fail(f"{op} raises {got!r}, expected {expected!r}")
        if op == "get_field":
            same(got, expected[name], op)
        elif op == "partial_load":
            for n, v in got.items():
                same(v, expected[n], f"{op} {n}")
        else:
            same(got, expected, op)
    elif op == "from_bytes":
        if how == "ok":
            fail(f"{op} gives {got!r}, expected it to fail ({failing})")
        if failing == "eof" and not isinstance(got, (errors.UnexpectedEOFError, ValueError)):
            fail(f"{op} of cut data raises {got!r}")


def refused(ch, rec):
    """None for a field that isn't nullable."""
    from binobj import errors

    kind = ch.choose(KINDS)()
    place = ch.choose((q_alone, q_middle, q_after_var, q_conditional, q_parent, q_nested, q_annotated, q_array_bare, q_union_bare))
    spec, assign_of = place(kind, NOPE)
    if place is q_union_bare and isinstance(kind, Nest):
        return
    assign = assign_of(None)
    real = {}
    for n, v in assign.items():
        k = spec.field(n).kind
        real[n] = v if n == "x" or isinstance(v, Elements) else k.real(v)
    if place is q_nested:
        real["y"] = assign["y"]
    cls = spec.build()
    note(rec, spec, values=assign)
    before = b""
    for f in spec.fields():
        if f.name in ("x", "y"):
            break  # whatever it starts with isn't a complete value
        before += f.kind.enc(assign[f.name], assign)
    ways = {"constructed": lambda: cls(**real)}
    if "x" in assign:
        ways["assigned"] = lambda: assigned(cls, real)
    for way, make in ways.items():
        inst = make()
        out = io.BytesIO()
        how, got = attempt(inst.to_stream, out)
        if how == "ok":
            fail(f"None ({way}) is dumped as {short(out.getvalue())}")
        if not isinstance(got, errors.SerializationError):
            fail(f"None ({way}) raises {got!r}, which isn't a SerializationError")
        if not before.startswith(out.getvalue()):
            fail(f"None ({way}) is refused but {short(out.getvalue())} is written")
        rec.step()
    # Nothing is loaded as None either, whatever the data.
    size = kind.fixed if kind.fixed is not None else 12
    for fill in (0, 0xFF, 0x80, 0x41):
        for head in (b"", b"\0", b"\xff"):
            data = (head + bytes([fill]) * (size + 4))[: size + 4]
            how, got = attempt(kind_field(kind).from_bytes, data, None, False, {})
            if how == "ok" and got is None:
                fail(f"{short(data)} is loaded as None")
            rec.step()
    rec.traced()
    rec.state(repr(spec))


def kind_field(kind):
    from binobj import fields as F

    return kind.make(F)


def q_array_bare(k, null):
    s = Spec([FS("a", U8()), FS("y", Arr(k, 2, values=[])), FS("b", U8())])
    return s, lambda v: {"a": 1, "y": Elements(k, v), "b": 2}


class Elements(list):
    """Elements of an array, one of them None."""

    def __init__(self, kind, v):
        super().__init__([kind.real(kind.values[0]) if kind.values else b"", v])


def q_union_bare(k, null):
    s = Spec([FS("t", U8()), FS("x", Uni([StrZ(), k], "t")), FS("b", U8())])
    return s, lambda v: {"t": 1, "x": v, "b": 2}


def assigned(cls, real):
    inst = cls(**{n: v for n, v in real.items() if n != "x"})
    inst.x = None
    return inst


def unknown(ch, rec):
    """DEFAULT as the null value of something without a size."""
    from binobj import errors

    make = ch.choose(
        (
            lambda: StrZ("utf-8"),
            lambda: VarInt("uleb"),
            lambda: VarInt("leb", 3),
            lambda: Arr(U8(), None),
            lambda: Arr(StrZ(), 2),
            lambda: Nest(Spec([FS("s", StrZ())], name="V"), [{"s": "q"}]),
        )
    )
    style = ch.choose(("assign", "instance", "annotated"))
    with_before = ch.flag()
    kind = make()
    fields = ([FS("a", U8())] if with_before else []) + [FS("x", kind, null=DEFAULT)]
    spec = Spec(fields, style=style)
    cls = spec.build()
    base = {"a": 1} if with_before else {}
    note(rec, spec)
    out = io.BytesIO()
    how, got = attempt(cls(**base, x=None).to_stream, out)
    if how == "ok" or not isinstance(got, errors.UnserializableValueError):
        fail(f"dumping None whose representation is unknown: {how} {got!r}")
    if len(out.getvalue()) > len(base):
        fail(f"refused, but {short(out.getvalue())} is written")
    value = kind.real(kind.values[0])
    raw = spec.dump({**base, "x": kind.values[0]})
    if cls(**base, x=value).to_bytes() != raw:
        fail("a value that isn't None isn't dumped normally")
    for op in (
        lambda: cls.from_bytes(raw),
        lambda: cls.get_field(stream_at(raw), "x"),
        lambda: cls.partial_load(stream_at(raw), "x"),
    ):
        how, got = attempt(op)
        if how == "ok" or not isinstance(got, errors.CannotDetermineNullError):
            fail(f"loading when null is unknown: {how} {got!r}")
        rec.step()
    rec.traced()
    rec.state(repr(spec))


def seen(ch, rec):
    """Validators are given None, in every operation, however they're declared."""
    import binobj
    from binobj import decorators
    from binobj import errors
    from binobj import fields as F

    make, null = ch.choose(NULLABLE)
    how = ch.choose(("field", "field list", "method", "annotated method"))
    reject = ch.flag()
    kind = make()
    got = []

    def check(field, value):
        got.append(value)
        if reject and value is None:
            raise errors.ValidationError(field=field, value=value)

    def method(self, field, value):
        check(field, value)

    kw = {"null_value": F.DEFAULT if null is DEFAULT else null}
    if how == "field":
        kw["validate"] = check
    elif how == "field list":
        kw["validate"] = [lambda field, value: None, check]
    x = kind.make(F, **kw)
    ns = {"__module__": __name__}
    if how == "annotated method":
        ns["__annotations__"] = {"a": F.UInt8(), "x": x}
    else:
        ns.update(a=F.UInt8(), x=x)
    if "method" in how:
        ns["check"] = decorators.validates("x")(method)
    cls = type(binobj.Struct)("V", (binobj.Struct,), ns)
    if how == "annotated method":
        cls = binobj.dataclass(cls)
    spec = Spec([FS("a", U8()), FS("x", kind, null=null)])
    raw = spec.dump({"a": 1, "x": None})
    rec.case = lambda: f"{kind!r} with null {null!r}, validator: {how}, rejecting: {reject}"

    def assign():
        inst = cls(a=1)
        inst.x = None

    ops = {
        "to_bytes": lambda: cls(a=1, x=None).to_bytes(),
        "from_bytes": lambda: cls.from_bytes(raw),
        "validate_contents": lambda: cls(a=1, x=None).validate_contents(),
    }
    if "field" in how:
        ops["assign"] = assign
        ops["get_field"] = lambda: cls.get_field(stream_at(raw), "x")
        ops["partial_load"] = lambda: cls.partial_load(stream_at(raw), "x")
        ops["partial_dump"] = lambda: cls(a=1, x=None).partial_dump(io.BytesIO())
    for op, run in ops.items():
        got.clear()
        result, value = attempt(run)
        if not got:
            fail(f"{op} doesn't run the validator")
        if any(v is not None for v in got):
            fail(f"{op} gives the validator {got!r}, not None")
        if reject and (result == "ok" or not isinstance(value, errors.ValidationError)):
            fail(f"{op}: the validator rejects None but: {result} {value!r}")
        if not reject and result != "ok":
            fail(f"{op} raises {value!r}")
        rec.step()
    rec.traced()
    rec.state(kind.name, repr(null), how, reject)


LETTERS = b"\0\1\x7f\x80A "


def aliases(first, rest):
    """Whatever the data is: None is loaded if what it says is equal to the null value."""

    def body(ch, rec):
        from binobj import fields as F

        kind = ch.choose(KINDS)()
        if isinstance(kind, (Arr, Nest, Uni)):
            return
        null = ch.choose(tuple(range(len(kind.values))))
        null = kind.real(kind.values[null])
        how, field = attempt(lambda: kind.make(F, null_value=null))
        if how == "err" or isinstance(null, bytes):
            return
        plain_field = kind.make(F)
        how, raw = attempt(lambda: field.to_bytes(None))
        if how == "err":
            return
        for data in byte_strings(ch, LETTERS, first, rest):
            if data.startswith(raw):
                continue  # it starts with the very representation of null
            rec.case = lambda: f"{kind!r}, null {null!r}, data {data!r}"
            bare, stream = stream_at(data), stream_at(data)
            how, value = attempt(plain_field.from_stream, bare)
            if how == "err":
                continue
            how, got = attempt(field.from_stream, stream)
            rec.step()
            if how == "err":
                fail(f"{got!r}, without nulls it's {value!r}")
            expected = None if value == null else value
            if got != expected and not (got != got and expected != expected):
                fail(f"loaded as {got!r}, without nulls it's {value!r}")
            if stream.tell() != bare.tell():
                fail(f"ends at {stream.tell()}, without nulls at {bare.tell()}")
            rec.state("alias", repr(kind), repr(null), data)
        rec.traced()

    return body


def containers(rest):
    """The same for arrays, structures and unions, whose null values are several things."""

    def body(ch, rec):
        import binobj
        from binobj import fields as F

        encoding = ch.choose((
            binobj.varints.VarIntEncoding.LEB128,
            binobj.varints.VarIntEncoding.ULEB128,
            binobj.varints.VarIntEncoding.VLQ,
        ))

        def number():
            return F.VariableLengthInteger(vli_format=encoding)

        class In(binobj.Struct):
            p = number()

        class Two(binobj.Struct):
            p = number()
            q = F.UInt8()

        decide = {
            "load_decider": lambda s, c, *_: c[0],
            "dump_decider": lambda d, c, *_: c[0],
        }
        make, null = ch.choose((
            (lambda **kw: F.Array(number(), count=1, **kw), [1]),
            (lambda **kw: F.Array(number(), count=2, **kw), [0, 1]),
            (lambda **kw: F.Array(F.Nested(In), count=1, **kw), [{"p": 1}]),
            (lambda **kw: F.Nested(In, **kw), {"p": 1}),
            (lambda **kw: F.Nested(In, **kw), In(p=0)),
            (lambda **kw: F.Nested(Two, **kw), {"p": 1, "q": 0}),
            (lambda **kw: F.Union(number(), **decide, **kw), 1),
            (lambda **kw: F.Union(F.Array(number(), count=2), **decide, **kw), [1, 0]),
            (lambda **kw: F.Union(In, **decide, **kw), In(p=1)),
        ))
        seen = []
        fields_ = {"x": make(null_value=null, validate=lambda f, v: seen.append(v)), "b": F.UInt8()}
        S = type("S", (binobj.Struct,), fields_)
        bare_field = make()
        raw = S.x.to_bytes(None)
        for data in byte_strings(ch, b"\0\1\x7f\x80\x81", 1, rest):
            if data.startswith(raw):
                continue
            rec.case = lambda: f"{S.x!r} {encoding}, null {null!r}, data {data!r}"
            bare = stream_at(data)
            how, value = attempt(bare_field.from_stream, bare)
            if how == "err":
                continue
            expected = None if value == null else value
            end = bare.tell()
            ways = {
                "from_stream": lambda s: S.x.from_stream(s),
                "structure": lambda s: S.from_stream(s).x,
                "partial_load": lambda s: S.partial_load(s, "x").x,
                "get_field": lambda s: S.get_field(s, "x"),
            }
            for way, run in ways.items():
                seen.clear()
                stream = stream_at(data[:end] + b"\7")
                how, got = attempt(run, stream)
                if how == "err" or got != expected:
                    fail(f"{way}: {got!r}, without nulls it's {value!r}")
                if not seen or any(v != expected for v in seen):
                    fail(f"{way}: the validator sees {seen!r}, expected {expected!r}")
                if way in ("from_stream", "partial_load") and stream.tell() != end:
                    fail(f"{way} ends at {stream.tell()}, without nulls at {end}")
                rec.step()
            rec.state("containers", repr(encoding), repr(null), data)
        rec.traced()

    return body


def bodies(tier, seed):
    out = {
        "nullable": nullable_body(tier == "thorough"),
        "refused": refused,
        "unknown": unknown,
        "seen": seen,
        "aliases": aliases(1, 3 if tier == "thorough" else 2),
        "containers": containers(4 if tier == "thorough" else 3),
    }
    watchers = [see_bytes, see_size, see_loaded, see_single]
    depth = 4 if tier == "thorough" else 3
    out["histories"] = history_body(watchers, depth, nullable)
    return out
