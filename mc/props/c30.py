"""C30: a field used by itself does what it does in a structure."""

import io
import types

from mc.items import KINDS
from mc.lib import attempt
from mc.lib import byte_strings
from mc.lib import fail
from mc.lib import modes
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.model import ABSENT
from mc.model import Arr
from mc.model import Bad
from mc.model import BadData
from mc.model import DEFAULT
from mc.model import Eof
from mc.model import FS
from mc.model import Nest
from mc.model import NOPE
from mc.model import plain
from mc.model import same_model
from mc.model import Spec
from mc.model import Uni
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "every field of all structures of the families of declarations (every kind in every"
    " position, all ordered pairs of items, all triples of small items), given the values of"
    " the others: dumped, loaded, exactly and not, from several offsets, cut everywhere; every"
    " kind with 14 sets of options, without a name, with one, and bound: all of that, unfit"
    " values, None, no value, and all byte strings of up to 3 bytes over 6 byte values;"
    " nested structures with all subsets of their values, in 4 places; structures of up to"
    " two fields of 8 sorts that have values of their own, with all subsets of them given;"
    " nested structures in 8 places, given in 4 ways with 4 contexts",
    "thorough": "also all quadruples of small items and all triples of items, and all byte"
    " strings of up to 4 bytes",
}
ASSUMPTIONS = ["fields that refer to others are given the values of those"]


def check_field(what, field, f, v, real, env, real_env, rec, whole=True):
    """The field ``f`` as ``field``, with a value and those of the others."""
    expected = f.enc(v, env)
    how, raw = attempt(field.to_bytes, real, None, real_env)
    if how == "err":
        fail(f"{what}: to_bytes raises {raw!r}")
    if raw != expected:
        fail(f"{what}: to_bytes gives {short(raw)}, expected {short(expected)}")
    out = io.BytesIO(b"......")
    out.seek(4)
    got = field.to_stream(out, real, None, real_env)
    if got is not None or out.getvalue() != b"...." + raw + b"......"[4 + len(raw) :]:
        fail(f"{what}: to_stream writes {short(out.getvalue()[4:])}")
    if out.tell() != 4 + len(raw):
        fail(f"{what}: to_stream leaves the stream at {out.tell()}")
    rec.step(2)
    loaded = f.kind.loaded(v, env) if v is not None else None
    if v is not None and f.null is not NOPE:
        if raw == f.null_bytes(env) or same_model(loaded, f.null):
            loaded = None
    check_loads(what, field, f, raw, loaded, env, real_env, rec, whole)
    rec.outcome(len(raw))


def check_loads(what, field, f, raw, loaded, env, real_env, rec, whole=True):
    from binobj import errors

    same(plain(field.from_bytes(raw, None, True, real_env)), loaded, f"{what}: from_bytes")
    rec.step()
    if f.kind.greedy:
        return
    for extra in (b"\0", b"\xaa\xbb"):
        how, got = attempt(field.from_bytes, raw + extra, None, True, real_env)
        if how == "ok" or not isinstance(got, errors.ExtraneousDataError):
            fail(f"{what}: from_bytes with {extra!r} after it: {how} {got!r}")
        got = field.from_bytes(raw + extra, exact=False, loaded_fields=real_env)
        same(plain(got), loaded, f"{what}: inexact from_bytes")
        stream = stream_at(raw, b"\1\2\3"[len(extra) :], extra)
        same(
            plain(field.from_stream(stream, None, real_env)), loaded, f"{what}: from_stream"
        )
        end = 3 - len(extra) + len(raw)
        if stream.tell() != end:
            fail(f"{what}: from_stream leaves the stream at {stream.tell()}, not {end}")
        rec.step(3)
    if not whole:
        return
    null = f.null_bytes(env) if f.null is not NOPE else None
    cuts = range(len(raw)) if len(raw) < 40 else (0, 1, len(raw) // 2, len(raw) - 1)
    for cut in cuts:
        if null is not None and raw[:cut] == null:
            continue
        how, got = attempt(field.from_bytes, raw[:cut], loaded_fields=real_env)
        if how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
            fail(f"{what}: from_bytes of {short(raw[:cut])}: {how} {got!r}")
        rec.step()


def judge(case, rec):
    spec = case.spec
    cls = spec.build()
    for assign in case.assigns:
        for mode in modes(spec):
            resolved, env = spec.resolve(assign)
            real_env = {}
            for f, v in resolved:
                value = env[f.name] if v is ABSENT and f.name in env else v
                if value is ABSENT:
                    continue
                real_env[f.name] = value if value is None else f.kind.real(value, mode)
            for f, v in resolved:
                field = getattr(cls, f.name)
                note(rec, spec, field=f.name, values=assign, mode=mode)
                if v is ABSENT:
                    stream = stream_at(b"\xcc" * 9, b"..")
                    got = field.from_stream(stream, None, real_env)
                    same(plain(got), f.npv, f"{f.name}: from_stream")
                    if stream.tell() != 2:
                        fail(f"the absent {f.name} consumes {stream.tell() - 2} bytes")
                    continue
                if f.present is not None and f.kind.greedy:
                    continue
                whole = f.present is None
                check_field(f.name, field, f, v, real_env[f.name], env, real_env, rec, whole)
                rec.state(repr(spec), repr(assign), f.name, mode)
            rec.traced()
    rec.sample(f"{spec!r}")


def option_sets(kind):
    """Ways of declaring a field of this kind."""
    yield "plain", {}
    yield "discard", {"discard": True}
    if kind.fixed and kind.fixed < 40:
        yield "null bytes", {"null": b"\xee" * kind.fixed}
    if kind.fixed:
        yield "null default", {"null": DEFAULT}
    simple = not isinstance(kind, (Arr, Nest, Uni))
    if kind.values and kind.values[0] == kind.values[0]:
        if simple:
            yield "const", {"const": kind.values[0]}
            yield "null value", {"null": kind.values[-1]}
        yield "default", {"default": kind.values[-1]}
        yield "factory", {"factory": lambda: kind.values[0]}
    yield "present", {"present": lambda v, c, s: True}
    yield "absent", {"present": lambda v, c, s: False}
    yield "stand-in", {"present": lambda v, c, s: False, "npv": None}


def options(ch, rec):
    from binobj import errors
    from binobj import fields as F
    import binobj

    kind = ch.choose(KINDS)()
    sets = list(option_sets(kind))
    what, opts = sets[ch.pick(len(sets))]
    origin = ch.choose(("unnamed", "named", "bound", "inherited"))
    f = FS("x", kind, **opts)
    seen = []
    kw = f.kwargs(F)
    if "default" in kw and isinstance(kind, Nest):
        kind.make(F)
        kw["default"] = kind.real(kw["default"], 0)
    if origin == "named":
        kw["name"] = "x"
    verdict = [True]

    def check(field, value):
        seen.append(value)
        if not verdict[0]:
            raise errors.ValidationError("no", field=field, value=value)

    field = kind.make(F, validate=check, **kw)
    if origin in ("bound", "inherited"):
        cls = type("S", (binobj.Struct,), {"a": F.UInt8(), "x": field, "b": F.UInt8()})
        if origin == "inherited":
            cls = type("T", (cls,), {"c": F.UInt8()})
        field = cls.x
    rec.case = lambda: f"field {kind!r}, {what}, {origin}, case {rec_case[0]!r}"
    rec_case = [None]
    absent = f.present is not None and not f.present({}, None, None)
    if absent:
        stream = stream_at(b"\xcc" * 40, b"..")
        same(plain(field.from_stream(stream)), f.npv, "from_stream")
        if stream.tell() != 2:
            fail(f"an absent field consumes {stream.tell() - 2} bytes")
        if seen:
            fail(f"validators of an absent field are given {seen!r}")
        rec.state(kind.name, what, origin)
        return
    values = list(kind.values)
    if f.const is not NOPE:
        values = [f.const]
    if f.null is not NOPE:
        values.append(None)
    for v in values:
        for mode in (0, 1) if isinstance(kind, (Nest, Arr)) else (0,):
            rec_case[0] = v
            del seen[:]
            real = None if v is None else kind.real(v, mode)
            try:
                f.enc(v, {})
            except Bad:
                continue
            check_field("alone", field, f, v, real, {}, {}, rec)
            if len(seen) < 2 or not all(same_model(plain(s), v) for s in seen[:2]):
                fail(f"validators are given {seen[:2]!r} when dumping")
            verdict[0] = False
            out = io.BytesIO()
            how, got = attempt(field.to_stream, out, real)
            if how == "ok" or not isinstance(got, errors.ValidationError) or out.getvalue():
                fail(f"rejected by its validator: {how} {got!r}, {out.getvalue()!r}")
            how, got = attempt(field.from_bytes, f.enc(v, {}))
            if how == "ok" or not isinstance(got, errors.ValidationError):
                fail(f"rejected by its validator when loading: {how} {got!r}")
            verdict[0] = True
            rec.step(2)
            rec.state(kind.name, what, origin, repr(v), mode)
    refused = list(kind.bad)
    if f.null is NOPE:
        refused.append(None)
    for v in refused:
        rec_case[0] = v
        out = io.BytesIO()
        how, got = attempt(field.to_stream, out, v)
        if how == "ok" or not isinstance(got, errors.SerializationError):
            fail(f"an unfit value: {how} {got!r}, {short(out.getvalue())}")
        if out.getvalue():
            fail(f"refused, but {short(out.getvalue())} is written")
        rec.step()
    rec_case[0] = "no value"
    without = NOPE
    for k in ("const", "default"):
        if getattr(f, k) is not NOPE:
            without = getattr(f, k)
    if f.factory is not None:
        without = f.factory()
    if without is NOPE:
        for op in (field.to_bytes, lambda: field.to_stream(io.BytesIO())):
            how, got = attempt(op)
            if how == "ok" or not isinstance(got, errors.MissingRequiredValueError):
                fail(f"dumped without a value: {how} {got!r}")
    elif not isinstance(kind, Nest) or f.factory is None:
        raw = field.to_bytes()
        if raw != f.enc(without, {}):
            fail(f"without a value {short(raw)} is dumped, not {short(f.enc(without, {}))}")
    rec.step()
    rec.traced()
    rec.sample(f"{kind!r} {what} {origin}")


def outcome(op):
    how, got = attempt(op)
    return (how, got if how == "ok" else type(got).__name__)


def instances(ch, rec):
    """Structures with only some values given, by themselves and in a structure."""
    from binobj import fields as F
    import binobj

    kind = ch.choose(KINDS)()
    while isinstance(kind, Arr):
        kind = kind.elem
    if not isinstance(kind, Nest):
        return
    kind.make(F)
    cls = kind.cls
    names = [f.name for f in kind.spec.fields()]
    full = kind.spec.real_values(kind.values[0])
    given = {n: full[n] for n in names if n in full and ch.flag()}
    if len(given) < len(full) and any(f.computed for f in kind.spec.fields()):
        return  # how the user's own function fails without them is up to it
    where = ch.choose(("nested", "array", "union", "union of fields"))
    only = kind.values[0]
    rec.case = lambda: f"{kind!r} with only {sorted(given)} of {only!r}, {where}"

    def make():
        pick = lambda *a: a[1][0]  # noqa: E731
        if where == "nested":
            return F.Nested(cls)
        if where == "array":
            return F.Array(F.Nested(cls), count=1)
        first = cls if where == "union" else F.Nested(cls)
        return F.Union(first, load_decider=pick, dump_decider=pick)

    class S(binobj.Struct):
        x = make()

    for what, value in (("dict", dict(given)), ("instance", None)):
        if value is None:
            how, value = attempt(lambda: cls(**given))
            if how == "err":
                return
        if where == "array":
            value = [value]
        wanted = outcome(lambda: S(x=value).to_bytes())
        for name, field in (("unbound", make()), ("bound", S.x)):
            got = outcome(lambda: field.to_bytes(value))
            rec.step()
            if got != wanted:
                fail(f"{what}, {name}: {got!r}, in a structure {wanted!r}")
        rec.state("instance", kind.name, where, what, tuple(sorted(given)))
    rec.traced()


def contexts(ch, rec):
    """The context reaches everything within, whatever the values are given as."""
    import binobj
    from binobj import fields as F

    seen = []

    class Ctx(F.UInt8):
        def _do_dump(self, stream, data, context, all_fields):
            seen.append(("dump", context))
            super()._do_dump(stream, data, context, all_fields)

        def _do_load(self, stream, context, loaded_fields):
            seen.append(("load", context))
            return super()._do_load(stream, context, loaded_fields)

    class In(binobj.Struct):
        a = Ctx()
        b = F.UInt8(default=2, present=lambda v, c, s: c == "yes")

    class Mid(binobj.Struct):
        m = F.Nested(In)

    class Late(In):
        z = Ctx(default=4)

    shape = ch.choose(("nested", "deep", "late", "array", "union", "union field", "array union", "rows"))
    given = ch.choose(("instance", "dict", "mapping", "proxy"))
    context = ch.choose(("yes", "no", None, 0))
    bound = ch.flag()
    first = lambda *a: a[1][0]  # noqa: E731
    inner = {"deep": Mid, "late": Late}.get(shape, In)
    union = lambda c: F.Union(c, load_decider=first, dump_decider=first)  # noqa: E731
    field = {
        "array": lambda: F.Array(F.Nested(In), count=2),
        "union": lambda: union(In),
        "union field": lambda: union(F.Nested(In)),
        "array union": lambda: F.Array(union(In), count=2),
        "rows": lambda: F.Array(F.Array(F.Nested(In), count=1), count=2),
    }.get(shape, lambda: F.Nested(inner))()
    if bound:
        type(binobj.Struct)("S", (binobj.Struct,), {"x": field})

    def one():
        values = {"a": 1}
        if shape == "deep":
            values = {"m": wrap(In, values)}
        return wrap(inner, values)

    def wrap(cls, values):
        if given == "instance":
            return cls(**values)
        if given == "dict":
            return values
        if given == "proxy":
            return StructMappingProxy(cls(**values))
        return types.MappingProxyType(values)

    from binobj.structures import StructMappingProxy

    many = 2 if shape in ("array", "array union", "rows") else 1
    value = [[one()], [one()]] if shape == "rows" else [one(), one()] if many == 2 else one()
    piece = b"\1" + (b"\2" if context == "yes" else b"") + (b"\4" if shape == "late" else b"")
    if given == "proxy" and shape == "deep":
        return
    rec.case = lambda: f"{shape} given as {given}, context {context!r}, bound: {bound}"
    out = io.BytesIO()
    how, got = attempt(field.to_stream, out, value, context)
    if how != "ok" or out.getvalue() != piece * many:
        fail(f"{how} {got!r}, writes {out.getvalue()!r}, expected {piece * many!r}")
    if field.to_bytes(value, context=context) != piece * many:
        fail("to_bytes() gives something else")
    if not seen or any(s != ("dump", context) for s in seen):
        fail(f"the fields within were given {seen}")
    seen.clear()
    stream = io.BytesIO(piece * many + b"#")
    back = field.from_stream(stream, context)
    if stream.tell() != len(piece) * many:
        fail(f"loading ends at {stream.tell()}")
    same(plain(field.from_bytes(piece * many, context)), plain(back), "from_bytes")
    if not seen or any(s != ("load", context) for s in seen):
        fail(f"the fields within were given {seen}")
    rec.step(4)
    rec.traced()
    rec.state(shape, given, repr(context), bound)


def sparse(ch, rec):
    """Structures that have values of their own for what they aren't given."""
    from binobj import fields as F
    import binobj

    made = {
        "plain": lambda: (F.UInt8(), 3),
        "default": lambda: (F.UInt8(default=7), 3),
        "factory": lambda: (F.UInt8(factory=lambda: 8), 4),
        "const": lambda: (F.UInt8(const=9), 9),
        "computed": lambda: (F.UInt8(), 10),
        "absent": lambda: (F.UInt8(present=lambda *_: False), 3),
        "empty": lambda: (F.Bytes(size=0, default=b""), b""),
        "null": lambda: (F.UInt8(null_value=0, default=None), None),
    }
    body, given = {}, {}
    chosen = []
    for i in range(1 + ch.pick(2)):
        what = ch.choose(tuple(made))
        field, value = made[what]()
        if what == "computed":
            field.computes(lambda self, _: 10)
        body[f"f{i}"] = field
        give = ch.flag()
        if give:
            given[f"f{i}"] = value
        chosen.append((what, give))
    cls = type("N", (binobj.Struct,), body)
    where = ch.choose(("nested", "array", "union", "union of fields"))
    rec.case = lambda: f"a structure of {chosen!r}, {where}"

    def make():
        pick = lambda *a: a[1][0]  # noqa: E731
        if where == "nested":
            return F.Nested(cls)
        if where == "array":
            return F.Array(F.Nested(cls), count=1)
        first = cls if where == "union" else F.Nested(cls)
        return F.Union(first, load_decider=pick, dump_decider=pick)

    class S(binobj.Struct):
        x = make()

    wanted = outcome(lambda: cls(**given).to_bytes())
    required = [what for what, give in chosen if what == "plain" and not give]
    if (wanted[0] == "err") != bool(required):
        fail(f"by itself: {wanted!r}")
    for mode in ("dict", "instance"):
        value = dict(given) if mode == "dict" else cls(**given)
        if where == "array":
            value = [value]
        for name, op in (
            ("in a structure", lambda: S(x=value).to_bytes()),
            ("unbound", lambda: make().to_bytes(value)),
            ("bound", lambda: S.x.to_bytes(value)),
        ):
            got = outcome(op)
            rec.step()
            if got != wanted:
                fail(f"{mode}, {name}: {got!r}, by itself {wanted!r}")
    rec.state("sparse", tuple(chosen), where)
    rec.traced()


ALPHABET = b"\0\1A\x80\xee\xff"


def strings_body(first, rest):
    """Whatever the data is, the field alone and the only field of a structure agree."""

    def body(ch, rec):
        from binobj import fields as F

        kind = ch.choose(KINDS)()
        sets = [s for s in option_sets(kind) if s[0] in ("plain", "null bytes", "const")]
        what, opts = sets[ch.pick(len(sets))]
        f = FS("x", kind, **opts)
        field = kind.make(F, **f.kwargs(F))
        spec = Spec([f])
        cls = spec.build()
        for data in byte_strings(ch, ALPHABET, first, rest):
            rec.case = lambda: f"field {kind!r}, {what}, data {data!r}"
            stream = stream_at(data, b"#")
            how, got = attempt(field.from_stream, stream)
            whole = stream_at(data, b"#")
            how2, inst = attempt(cls.from_stream, whole)
            if how != how2:
                fail(f"alone: {how} {got!r}; in a structure: {how2} {inst!r}")
            if how == "ok":
                same(plain(got), plain(inst.x), "alone and in a structure")
                if stream.tell() != whole.tell():
                    fail(f"alone it ends at {stream.tell()}, in a structure at {whole.tell()}")
            elif type(got) is not type(inst):
                fail(f"alone: {got!r}; in a structure: {inst!r}")
            try:
                expected, pos = spec.load(data)
            except (Eof, BadData, Bad):
                if how == "ok":
                    fail(f"loaded as {got!r}, but it's malformed")
            else:
                if how != "ok":
                    fail(f"raises {got!r}, expected {expected['x']!r}")
                same(plain(got), expected["x"], "from_stream")
                if stream.tell() != 1 + pos:
                    fail(f"ends at {stream.tell() - 1}, not {pos}")
            rec.step(2)
            rec.state("string", kind.name, what, data)
        rec.traced()

    return body


def bodies(tier, seed):
    big = tier == "thorough"
    out = each_case(judge, families(tier))
    out["options"] = options
    out["instances"] = instances
    out["sparse"] = sparse
    out["contexts"] = contexts
    out["strings"] = strings_body(1, 3 if big else 2)
    return out
