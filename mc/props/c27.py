"""C27: errors identify what failed."""

import io

from mc.custom import Own
from mc.items import combine
from mc.items import ITEMS
from mc.lib import attempt
from mc.lib import fail
from mc.lib import note
from mc.lib import short
from mc.lib import stream_at
from mc.model import ABSENT
from mc.model import Arr
from mc.model import Bad
from mc.model import Eof
from mc.model import Nest
from mc.model import NOPE
from mc.model import plain
from mc.model import same_model
from mc.model import Uni
from mc.model import Uuid
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "every cut of every serialization, every value a field can't represent, every"
    " missing value, None in every field, every changed constant, every forbidden assignment,"
    " every validator's rejection and sets of up to 3 unknown names, types with a broken method, and all documented"
    " ways of making errors by hand, also in optimised interpreters: for every kind of field"
    " in every position, all ordered pairs of items and all triples of small items",
    "thorough": "also all quadruples of small items and all triples of items",
}
ASSUMPTIONS = [
    "in nested data any field from the outermost to the innermost one concerned is accepted",
]


def inside(field):
    """The field and everything within it."""
    from binobj import fields as F

    out = [field]
    if isinstance(field, F.Array):
        out += inside(field.component)
    elif isinstance(field, F.Nested):
        for f in field.struct_class.__binobj_struct__.components.values():
            out += inside(f)
    elif isinstance(field, F.Union):
        for c in field.choices:
            if isinstance(c, F.Field):
                out += inside(c)
            else:
                for f in c.__binobj_struct__.components.values():
                    out += inside(f)
    for f in vars(field).values():
        if isinstance(f, F.Field) and f is not getattr(field, "size", None):
            if f is not getattr(field, "count", None) and f is not getattr(field, "component", 0):
                out += [f]
    return out


def path(field, kind, v, piece, cut, env):
    """The fields that contain position ``cut`` of the bytes, from the outside in."""
    out = [field]
    if v is None or v is ABSENT:
        return out
    if isinstance(kind, Nest):
        pos = 0
        for f, p in kind.spec.pieces(v):
            n = len(p or b"")
            if n and cut < pos + n:
                _r, inner = kind.spec.resolve(v)
                part = getattr(field.struct_class, f.name)
                return out + path(part, f.kind, inner.get(f.name), p, cut - pos, inner)
            pos += n
        return out
    if isinstance(kind, Arr):
        pos = 0
        for e in v:
            p = kind.elem.enc(e, env)
            if cut < pos + len(p):
                return out + path(field.component, kind.elem, e, p, cut - pos, env)
            pos += len(p)
        return out
    if isinstance(kind, Uni):
        i = env[kind.tag]
        alt, choice = kind.alts[i], field.choices[i]
        if isinstance(alt, Nest):
            class Holder:
                struct_class = choice

            return out + path(Holder, alt, v, piece, cut, env)[1:]
        return out + path(choice, alt, v, piece, cut, env)
    return inside(field)


def is_about(exc, fields, what):
    """Does the error name one of the fields?"""
    got = exc.field
    names = [f.name for f in fields]
    if isinstance(got, str):
        ok = got in names
    else:
        ok = any(got is f for f in fields)
    if not ok:
        fail(f"{what}: {exc!r} is about {got!r}, it should be about {names}")
    if not str(exc):
        fail(f"{what}: {type(exc).__name__} says nothing")
    repr(exc)


def judge(case, rec):
    spec = case.spec
    if spec.greedy():
        return
    cls = spec.build()
    for assign in case.assigns:
        cuts(spec, cls, assign, rec)
        losses(spec, cls, assign, rec)
        rec.traced()
        rec.state(repr(spec), repr(assign))
    unfit(spec, cls, case.assigns, rec)
    refusals(spec, cls, case.assigns, rec)
    rec.sample(f"{spec!r}")


def cuts(spec, cls, assign, rec):
    from binobj import errors

    _resolved, env = spec.resolve(assign)
    pieces = spec.pieces(assign)
    raw = b"".join(p or b"" for _f, p in pieces)
    pos = 0
    for f, p in pieces:
        field = getattr(cls, f.name)
        n = len(p or b"")
        for at in range(n) if n < 40 else (0, 1, n // 2, n - 1):
            cut = pos + at
            note(rec, spec, values=assign, data=raw, cut=cut)
            v = env.get(f.name)
            concerned = path(field, f.kind, v, p, at, env)
            if f.null is not NOPE:
                # What's left may look like anything but the null it was.
                concerned = inside(field)
            before = b"~" * (cut % 3)
            ops = [
                ("from_stream", lambda: cls.from_stream(stream_at(raw[:cut], before))),
                ("from_bytes", lambda: cls.from_bytes(raw[:cut])),
                (
                    "partial_load",
                    lambda: cls.partial_load(stream_at(raw[:cut], before), f.name),
                ),
                ("get_field", lambda: cls.get_field(stream_at(raw[:cut], before), f.name)),
            ]
            for what, op in ops:
                start = 0 if what == "from_bytes" else len(before)
                how, got = attempt(op)
                rec.step()
                if how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
                    continue  # what C05 and C08 are about
                is_about(got, concerned, what)
                low, high = start + pos, start + cut
                if not isinstance(got.offset, int) or not low <= got.offset <= high:
                    fail(
                        f"{what}: fails at {got.offset}, the field is at {low}, the data ends"
                        f" at {high}"
                    )
                if isinstance(got.size, int) and not users_own(f.kind):
                    if got.offset + got.size <= high:
                        fail(f"{what}: {got.size} bytes at {got.offset} are there")
        pos += n


def users_own(kind):
    """Is a user's own code reading?"""
    if isinstance(kind, Nest):
        return any(users_own(f.kind) for f in kind.spec.fields())
    if isinstance(kind, Arr):
        return users_own(kind.elem)
    if isinstance(kind, Uni):
        return any(map(users_own, kind.alts))
    return isinstance(kind, Own)


def losses(spec, cls, assign, rec):
    """Each value missing, or None."""
    from binobj import errors

    used = {getattr(f.kind, a, None) for f in spec.fields() for a in ("size", "count", "tag")}
    simple = not any(f.computed or f.present for f in spec.fields())
    for f in spec.fields():
        if f.name not in assign:
            continue
        field = getattr(cls, f.name)
        real = spec.real_values(assign)
        del real[f.name]
        note(rec, spec, values=real)
        inst = cls(**real)
        for what, op in (
            ("to_bytes", inst.to_bytes),
            ("to_stream", lambda: inst.to_stream(io.BytesIO())),
            ("partial_dump", lambda: inst.partial_dump(io.BytesIO(), f.name)),
        ):
            how, got = attempt(op)
            rec.step()
            if how == "err" and isinstance(got, errors.MissingRequiredValueError):
                # A callback that needs the value may have asked for it first.
                callbacks = [getattr(cls, g.name) for g in spec.fields() if g.computed or g.present]
                is_about(got, [field, *callbacks], what)
        if simple:
            several(spec, cls, real, f, rec)
        if f.null is NOPE and f.name not in used and simple:
            inst = cls(**{**real, f.name: None})
            note(rec, spec, values={**real, f.name: None})
            how, got = attempt(inst.to_bytes)
            rec.step()
            if how == "err" and isinstance(got, errors.SerializationError):
                is_about(got, inside(field), "to_bytes")


def several(spec, cls, real, f, rec):
    """Another value is missing besides that of ``f``."""
    from binobj import errors

    names = [g.name for g in spec.fields()]
    for n in [None, *real]:
        given = {k: v for k, v in real.items() if k != n}
        missing = [
            getattr(cls, g) for g in names if g not in given and getattr(cls, g).required
        ]
        note(rec, spec, values=given)
        inst = cls(**given)
        for last in names[names.index(f.name) :]:
            how, got = attempt(inst.partial_dump, io.BytesIO(), last)
            rec.step()
            if how == "err" and isinstance(got, errors.MissingRequiredValueError):
                is_about(got, missing, f"partial_dump to {last}")
        how, got = attempt(inst.to_bytes)
        if how == "err" and isinstance(got, errors.MissingRequiredValueError):
            is_about(got, missing, "to_bytes")


def spoil(kind, v, env):
    """Versions of ``v`` with one unfit value, with the kinds from there out."""
    if v is None or v is ABSENT:
        return
    for bad in kind.bad:
        yield bad, bad, ()
    if isinstance(kind, Nest):
        for f in kind.spec.own:
            if f.name in v and f.const is NOPE and f.computed is None:
                for new, bad, where in spoil(f.kind, v[f.name], {}):
                    yield {**v, f.name: new}, bad, (f.name, *where)
    elif isinstance(kind, Arr):
        for i, e in enumerate(v):
            for new, bad, where in spoil(kind.elem, e, env):
                yield [*v[:i], new, *v[i + 1 :]], bad, (i, *where)
    elif isinstance(kind, Uni):
        yield from spoil(kind.alts[env[kind.tag]], v, env)


def follow(field, kind, where, env):
    """The fields on the way to an unfit value."""
    out = [field]
    if isinstance(kind, Uni):
        i = env[kind.tag]
        alt, choice = kind.alts[i], field.choices[i]
        if isinstance(alt, Nest):
            class Holder:
                struct_class = choice

            return out + follow(Holder, alt, where, env)[1:]
        return out + follow(choice, alt, where, env)
    if not where:
        return inside(field)
    if isinstance(kind, Nest):
        f = kind.spec.field(where[0])
        return out + follow(getattr(field.struct_class, f.name), f.kind, where[1:], {})
    return out + follow(field.component, kind.elem, where[1:], env)


def unfit(spec, cls, assigns, rec):
    from binobj import errors

    if any(f.computed or f.present for f in spec.fields()):
        simple = False
    else:
        simple = True
    for assign in assigns[:2]:
        try:
            _resolved, env = spec.resolve(assign)
        except Bad:
            continue
        for f in spec.fields():
            if f.name not in assign or f.const is not NOPE:
                continue
            field = getattr(cls, f.name)
            for new, bad, where in spoil(f.kind, assign[f.name], env):
                values = {**assign, f.name: new}
                note(rec, spec, values=values)
                how, inst = attempt(lambda: cls(**spec.real_values(values)))
                if how == "err":
                    continue
                out = io.BytesIO()
                how, got = attempt(inst.to_stream, out)
                rec.step()
                if how == "ok" or not isinstance(got, errors.SerializationError):
                    continue  # what C03 is about
                concerned = follow(field, f.kind, where, env)
                if not simple:
                    # Others may depend on it, and so be refused first.
                    continue
                others = [
                    g for g in spec.fields()
                    if f.name in (getattr(g.kind, a, None) for a in ("size", "count", "tag"))
                ]
                if others:
                    continue
                is_about(got, concerned, "to_stream")
                if isinstance(got, errors.UnserializableValueError):
                    if isinstance(innermost(f.kind, where, env), Own):
                        pass  # its representation may be what's refused
                    elif not may_be(got.value, bad, new):
                        fail(f"the value refused is {bad!r}, the error says {got.value!r}")
                rec.state(repr(spec), f.name, repr(new))


def innermost(kind, where, env):
    if isinstance(kind, Uni):
        return innermost(kind.alts[env[kind.tag]], where, {})
    if isinstance(kind, Arr) and isinstance(kind.elem, Own):
        return kind.elem
    if not where:
        return kind
    if isinstance(kind, Nest):
        return innermost(kind.spec.field(where[0]).kind, where[1:], {})
    return innermost(kind.elem, where[1:], env)


def may_be(got, bad, whole):
    """The value, a part of it, or what it would be written as."""
    if same_model(plain(got), bad) or same_model(plain(got), whole):
        return True
    if isinstance(bad, (list, tuple)):
        return any(may_be(got, e, e) for e in bad)
    if isinstance(bad, dict):
        return any(may_be(got, e, e) for e in bad.values())
    return isinstance(got, (bytes, bytearray))


def refusals(spec, cls, assigns, rec):
    """Assigning what can't be assigned; changed constants; unknown names."""
    from binobj import errors

    assign = assigns[0]
    for f in spec.fields():
        field = getattr(cls, f.name)
        if f.const is not NOPE or f.computed is not None:
            v = f.const if f.const is not NOPE else 0
            inst = cls(**spec.real_values(assign))
            note(rec, spec, values=assign, assigned=f.name)
            for op in (lambda: setattr(inst, f.name, v), lambda: inst.__setitem__(f.name, v)):
                how, got = attempt(op)
                rec.step()
                if how == "err" and isinstance(got, errors.ImmutableFieldError):
                    is_about(got, [field], "assignment")
                    if got.field is not field:
                        fail(f"the field is said to be {got.field!r}")
    pieces = spec.pieces(assign)
    raw = b"".join(p or b"" for _f, p in pieces)
    pos = 0
    for f, p in pieces:
        n = len(p or b"")
        if f.const is not NOPE and n:
            data = bytearray(raw)
            data[pos + n - 1] ^= 1
            note(rec, spec, values=assign, data=bytes(data))
            for what, op in (
                ("from_bytes", lambda: cls.from_bytes(bytes(data))),
                ("get_field", lambda: cls.get_field(io.BytesIO(bytes(data)), f.name)),
            ):
                how, got = attempt(op)
                rec.step()
                if how == "err" and isinstance(got, errors.ValidationError):
                    field = getattr(cls, f.name)
                    is_about(got, [field], what)
                    if got.field is not field:
                        fail(f"the field is said to be {got.field!r}")
                    if f.null is NOPE and same_model(plain(got.value), f.const):
                        fail(f"the value refused is said to be the constant {got.value!r}")
        pos += n
    note(rec, spec, values=assign)
    for unknown in ({"zz"}, {"zz", "yy"}, {"__zz", "Zz", "zz"}):
        given = {**spec.real_values(assign), **dict.fromkeys(unknown, 1)}
        how, got = attempt(lambda: cls(**given))
        rec.step()
        if how == "ok" or not isinstance(got, errors.UnexpectedValueError):
            fail(f"unknown names {unknown}: {how} {got!r}")
        if set(got.names) != unknown:
            fail(f"the unknown names are {unknown}, the error has {got.names!r}")
        if not isinstance(got.struct, cls):
            fail(f"the structure is said to be {got.struct!r}")
        for n in unknown:
            if n not in str(got):
                fail(f"{n} isn't mentioned in {str(got)!r}")
    data = raw + b"\1\2\3"
    how, got = attempt(cls.from_bytes, data)
    if how == "err" and isinstance(got, errors.ExtraneousDataError):
        if got.offset != len(raw):
            fail(f"extra data at {len(raw)}, the error says {got.offset}")


################################################################################
# Validators, arrays and everything with messages


def where_validated(ch, F, check):
    """Structures in which ``check`` is somewhere."""
    import binobj

    place = ch.choose(("field", "method", "element", "nested", "alternative", "records", "row"))
    if place == "method":
        class M(binobj.Struct):
            a = F.UInt8()
            x = F.UInt16(endian="big")
            b = F.UInt8()

            @binobj.decorators.validates("x")
            def look(self, field, value):
                check(field, value)

        return place, M, [M.x], 0x0203, b"\2\3"
    leaf = F.UInt16(endian="big", validate=check)
    if place == "field":
        made, value, raw, inner = leaf, 0x0203, b"\2\3", []
    elif place == "element":
        made, value, raw = F.Array(leaf, count=2), [1, 0x0203], b"\0\1\2\3"
        inner = [leaf]
    elif place == "row":
        row = F.Array(leaf, count=1)
        made, value, raw = F.Array(row, count=2), [[1], [0x0203]], b"\0\1\2\3"
        inner = [row, leaf]
    elif place == "alternative":
        made = F.Union(
            F.UInt8(), leaf, load_decider=lambda s, c, x, f: c[1],
            dump_decider=lambda d, c, x, f: c[1],
        )
        value, raw, inner = 0x0203, b"\2\3", [leaf]
    else:
        class N(binobj.Struct):
            p = F.UInt8()
            q = leaf

        inner = [leaf]
        if place == "nested":
            made, value, raw = F.Nested(N), {"p": 9, "q": 0x0203}, b"\x09\2\3"
        else:
            nest = F.Nested(N)
            made = F.Array(nest, count=2)
            value, raw = [{"p": 9, "q": 1}, {"p": 8, "q": 0x0203}], b"\x09\0\1\x08\2\3"
            inner = [nest, leaf]
    cls = type("S", (binobj.Struct,), {"a": F.UInt8(), "x": made, "b": F.UInt8()})
    if place == "field":
        inner = []
    return place, cls, [cls.x, *inner], value, raw


def validators(ch, rec):
    """What a validator is given is what its error can say."""
    from binobj import errors
    from binobj import fields as F

    def check(field, value):
        if value == 0x0203:
            raise errors.ValidationError(field=field, value=value)

    place, cls, concerned, value, raw = where_validated(ch, F, check)
    rec.case = lambda: f"a validator in: {place}"
    data = b"\7" + raw + b"\5"
    how, inst = attempt(lambda: cls(a=7, x=value, b=5))
    ops = [
        ("from_bytes", lambda: cls.from_bytes(data)),
        ("from_stream", lambda: cls.from_stream(io.BytesIO(data))),
    ]
    if place != "method":
        ops += [
            ("partial_load", lambda: cls.partial_load(io.BytesIO(data), "x")),
            ("get_field", lambda: cls.get_field(io.BytesIO(data), "x")),
        ]
    if how == "ok":
        ops += [("to_bytes", inst.to_bytes), ("to_stream", lambda: inst.to_stream(io.BytesIO()))]
    if place == "field":
        ops.append(("assignment", lambda: setattr(cls(a=7, b=5), "x", value)))
    for what, op in ops:
        how, got = attempt(op)
        rec.step()
        if how == "ok" or not isinstance(got, errors.ValidationError):
            fail(f"{what}: {how} {got!r}")
        is_about(got, concerned[-1:], what)
        if got.value != 0x0203:
            fail(f"{what}: the value is said to be {got.value!r}")
        if "515" not in str(got):
            fail(f"{what}: the value isn't mentioned in {str(got)!r}")
        rec.state(place, what)
    rec.traced()


def arrays(ch, rec):
    """Wrong numbers of elements."""
    from binobj import errors
    from binobj import fields as F
    import binobj

    n = ch.choose((0, 1, 2, 3))
    given = ch.choose((0, 1, 2, 3, 4, 7))
    shape = ch.choose((list, tuple, iter, dict.fromkeys))
    source = ch.choose(("int", "name", "field"))
    nested = ch.flag()
    rec.case = lambda: f"count {n} ({source}), {given} elements, {shape}, nested={nested}"
    if n == given:
        return
    size = F.UInt8()
    count = {"int": n, "name": "n", "field": size}[source]

    class S(binobj.Struct):
        n = size
        x = F.Array(F.UInt16(), count=count)

    field = S.x
    values = shape(range(given))
    if nested:
        class T(binobj.Struct):
            s = F.Nested(S)

        inst = T(s=S(n=n, x=values)) if shape is not iter else T(s={"n": n, "x": values})
    else:
        inst = S(n=n, x=values)
    how, got = attempt(inst.to_bytes)
    if how == "ok" or not isinstance(got, errors.ArraySizeError):
        fail(f"{how} {got!r}")
    is_about(got, [field], "to_bytes")
    if got.n_expected != n:
        fail(f"{n} are expected, the error says {got.n_expected}")
    if got.n_given is not None:
        # It may not have looked at all of them.
        ok = got.n_given == given or (given > n and n < got.n_given <= given)
        if not ok:
            fail(f"{given} are given, the error says {got.n_given}")
    rec.step()
    rec.traced()
    rec.state(n, given, source, repr(shape), nested)


def broken(ch, rec):
    """User-defined types that ask for their size to tell their size."""
    import binobj
    from binobj import errors
    from binobj import fields as F

    class Broken(F.Field):
        def _do_load(self, stream, context, loaded_fields):
            return stream.read(2)

        def _do_dump(self, stream, data, context, all_fields):
            stream.write(b"xx")

        def _size_for_value(self, value):
            return self.get_expected_size({self.name: value})

    value = ch.choose(("ab", 5, b"\x01", ["v"], {"k": 1}))
    before = ch.choose((None, F.UInt8, F.StringZ))
    how = ch.choose(("field", "metadata"))
    ns = {} if before is None else {"a": before()}
    cls = type(binobj.Struct)("S", (binobj.Struct,), {**ns, "broken": Broken()})
    given = {"broken": value}
    if before is not None:
        given["a"] = 7 if before is F.UInt8 else "seven"
    rec.case = lambda: (value, before, how)
    op = {
        "field": lambda: cls.broken.get_expected_size(given),
        "metadata": lambda: cls.__binobj_struct__.get_size(given),
    }[how]
    got, exc = attempt(op)
    rec.step()
    if got == "ok" or not isinstance(exc, errors.BuggyFieldImplementationError):
        fail(f"gives {exc!r}")
    if exc.field is not cls.broken:
        fail(f"the error is about {exc.field!r}")
    if repr(value) not in str(exc):
        fail(f"the value isn't in the message: {exc}")
    rec.traced()
    rec.state(repr(value), repr(before), how)


def by_hand(pick, say=lambda *_: None):
    """Errors as the authors of field types, validators and callbacks make them."""
    import binobj
    from binobj import errors as E
    from binobj import fields as F

    cls = type("S", (binobj.Struct,), {"a": F.UInt8(), "b": F.Bytes(size=4)})
    other = type("T", (binobj.Struct,), {"c": F.StringZ()})
    fields = (cls.a, cls.b, other.c, F.UInt8(name="free"))
    messages = (None, "it's {broken} %s", "100% \u2026")
    config = (E.ConfigurationError, E.MultipleInheritanceError, E.MixedDeclarationsError)
    load = (E.DeserializationError, E.ExtraneousDataError)
    name = pick((
        "configuration", "dump", "load", "validation", "reference", "operation", "immutable",
        "redefined", "size", "empty", "annotation", "null", "buggy", "unserializable", "missing",
        "unexpected", "value size", "array size", "eof", "base",
    ))
    field = pick(fields)
    by_name = pick((False, True))
    who = field.name if by_name else field
    message = pick(messages)
    value = pick((0, None, "x", b"ab", [1], {"a": 1}))
    given, args, mentioned = {}, (), [field.name]
    if name == "configuration":
        error = pick(config)
        parts = pick((("field",), ("struct",), ("obj",), ("field", "struct"), ("field", "obj")))
        if "field" in parts:
            given["field"] = who
        else:
            mentioned = []
        if "struct" in parts:
            given["struct"] = pick((cls, "S"))
            mentioned += ["S"]
        if "obj" in parts:
            given["obj"] = "thing"
            mentioned += ["thing"] if parts == ("obj",) else []
        args = (message,)
        default = dict.fromkeys(("field", "struct", "obj"))
        optional = True
    elif name == "dump":
        error, optional, default = E.SerializationError, True, dict.fromkeys(("field", "struct", "value"))
        for key, v in (("field", who), ("struct", cls(a=1)), ("value", value)):
            if pick((False, True)):
                given[key] = v
        args, mentioned = (message,), []
    elif name == "load":
        error, optional, default = pick(load), True, dict.fromkeys(("field", "data", "offset"))
        for key, v in (("field", field), ("data", b"\0"), ("offset", 0)):
            if pick((False, True)):
                given[key] = v
        args, mentioned = (message,), []
    elif name == "validation":
        error, optional, default = E.ValidationError, True, {}
        given, args = {"field": field, "value": value}, (message,)
        mentioned += [repr(value)]
    elif name == "reference":
        error, optional, default = E.FieldReferenceError, True, {}
        given, args = {"field": field.name}, (message,)
    elif name in ("operation", "base"):
        error = E.IllegalOperationError if name == "operation" else E.Error
        optional, default, args, mentioned = True, {}, (message,), []
    elif name == "immutable":
        error, optional, default = E.ImmutableFieldError, False, {"field": None}
        mentioned = []
        if pick((False, True)):
            given, mentioned = {"field": field}, [field.name]
    elif name == "redefined":
        error, optional, default = E.FieldRedefinedError, False, {}
        given = {"struct": "S", "field": who}
        mentioned += ["S"]
    elif name in ("size", "missing"):
        error = E.UndefinedSizeError if name == "size" else E.MissingRequiredValueError
        given, optional, default = {"field": who}, False, {}
    elif name == "empty":
        error, given, optional, default = E.NoDefinedFieldsError, {"struct": pick((cls, "S"))}, False, {}
        mentioned = ["S"]
    elif name == "annotation":
        error, optional, default = E.InvalidTypeAnnotationError, False, {}
        given = {"field": who, "annotation": int}
    elif name == "null":
        error, given, optional, default = E.CannotDetermineNullError, {"field": field}, False, {}
    elif name == "buggy":
        error, given, optional, default = E.BuggyFieldImplementationError, {"field": field}, False, {}
        args, mentioned = (message or "why",), [type(field).__name__, message or "why"]
    elif name == "unserializable":
        error, optional, default = E.UnserializableValueError, False, {}
        given = {"field": field, "value": value}
        if message:
            given["reason"] = message
            mentioned += [message]
    elif name == "unexpected":
        error, optional, default = E.UnexpectedValueError, False, {}
        names = pick((["x"], ["x", "y"], {"x", "y", "z"}, "x"))
        struct = cls()
        exc = error(struct=struct, name=names)
        say((name, names))
        want = {names} if isinstance(names, str) else set(names)
        if set(exc.names) != want or exc.struct is not struct:
            fail(f"{exc!r}: {exc.names}, {exc.struct!r}")
        for n in want:
            if repr(n) not in str(exc):
                fail(f"{n} isn't in the message {exc}")
        return name, str(exc)
    elif name == "value size":
        error, given, optional, default = E.ValueSizeError, {"field": field, "value": value}, False, {}
        mentioned += [repr(field.size)]
    elif name == "array size":
        error, optional, default = E.ArraySizeError, False, {"n_given": None}
        given = {"field": field, "n_expected": pick((0, 2, 70000))}
        mentioned = [str(given["n_expected"])]
        n = pick((None, 0, 1, 3, 70001))
        if n is not None:
            given["n_given"] = n
            mentioned += [str(n)]
    else:
        error, optional, default = E.UnexpectedEOFError, False, {}
        given = {"field": field, "size": pick((1, 70000)), "offset": pick((0, 5))}
        mentioned = [str(given["size"]), str(given["offset"])]
    say((error.__name__, args, given))
    exc = error(*args, **given)
    for key, v in {**default, **given}.items():
        if key == "reason" or (key == "size" and not hasattr(exc, "size")):
            continue
        if getattr(exc, key) is not v and getattr(exc, key) != v:
            fail(f"{exc!r}.{key} is {getattr(exc, key)!r}, {v!r} was given")
    if not isinstance(exc, E.Error):
        fail(f"{error} isn't one of the library's errors")
    if optional and message:
        if str(exc) != message:
            fail(f"the message {message!r} became {str(exc)!r}")
    else:
        for part in mentioned:
            if part not in str(exc):
                fail(f"{part!r} isn't in the message: {exc}")
        if error.__doc__ and (str(exc) in ("", "None")):
            fail(f"{exc!r} has no message")
    return name, str(exc)


def errors_by_hand(ch, rec):
    out = by_hand(ch.choose, lambda what: setattr(rec, "case", lambda: what))
    rec.step()
    rec.traced()
    rec.state(out)


def every_path(run):
    """All paths of a function that takes its choices with pick()."""
    path = []
    while True:
        at = 0

        def pick(options):
            nonlocal at
            if at == len(path):
                path.append([0, len(options)])
            at += 1
            return options[path[at - 1][0]]

        yield run(pick)
        while path and path[-1][0] == path[-1][1] - 1:
            path.pop()
        if not path:
            return
        path[-1][0] += 1


SCRIPT = """
import sys
sys.path[:0] = [{repo!r}, {here!r}]
import binobj
from mc.props import c27
assert False, "not optimised"
at = []
try:
    for n, _ in enumerate(c27.every_path(lambda pick: c27.by_hand(pick, lambda what: at.append(what)))):
        pass
    print("ok", n + 1, binobj.__file__)
except BaseException as exc:
    print(at[-1:], repr(exc))
"""


def optimised(ch, rec):
    """The same in an interpreter that drops docstrings."""
    import os
    import subprocess
    import sys

    from mc.core import REPO

    level = ch.choose(("-O", "-OO"))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    run = subprocess.run(
        [sys.executable, level, "-B", "-c", SCRIPT.format(repo=REPO, here=here)],
        capture_output=True,
        text=True,
        check=False,
    )
    rec.case = lambda: f"python {level}"
    if run.returncode or not run.stdout.startswith("ok "):
        fail(f"{run.stdout} {run.stderr[-500:]}")
    if not run.stdout.split(None, 2)[2].startswith(REPO):
        raise RuntimeError(f"binobj was taken from {run.stdout}")
    rec.step(int(run.stdout.split()[1]))
    rec.traced()


def bodies(tier, seed):
    out = each_case(judge, families(tier))
    out["validators"] = validators
    out["arrays"] = arrays
    out["broken"] = broken
    out["errors by hand"] = errors_by_hand
    out["optimised"] = optimised
    return out
