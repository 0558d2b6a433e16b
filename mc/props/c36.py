"""C36: the building blocks do what the structures made of them do."""

import io
import itertools

from mc.custom import Own
from mc.items import KINDS
from mc.lib import attempt
from mc.lib import fail
from mc.lib import modes
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.model import ABSENT
from mc.model import Arr
from mc.model import dec_compact
from mc.model import dec_leb
from mc.model import dec_uleb
from mc.model import dec_vlq
from mc.model import enc_compact
from mc.model import enc_leb
from mc.model import enc_uleb
from mc.model import enc_vlq
from mc.model import Eof
from mc.model import int_bytes
from mc.model import Missing
from mc.model import Nest
from mc.model import plain
from mc.model import Uni
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "the stream helpers on all byte strings of up to 4 bytes over 5 byte values, at all"
    " positions, for 0 to 5 bytes, both signs and byte orders, failing at each call; the four"
    " variable-length encodings: all numbers up to 2^14, all of up to 3 bits set below 2^70,"
    " and all byte strings of up to 4 bytes over 6 byte values, within longer streams;"
    " structures put together by hand from their fields and with StructMetadata, for every"
    " kind of field in every position, all ordered pairs of items and all triples of small"
    " items; arrays of 8 sorts of counts, with 0 to 4 elements in 4 streams; conversions of"
    " containers of up to 3 levels; all subclasses of field types that answer for themselves",
    "thorough": "also all quadruples of small items and all triples of items",
}
ASSUMPTIONS = []


################################################################################
# binobj.helpers


class Counted(io.BytesIO):
    """A stream noting what it's asked for; it can fail at one of the calls."""

    def __init__(self, data, fails_at=None):
        super().__init__(data)
        self.calls, self.fails_at, self.got = 0, fails_at, 0

    def _tick(self):
        self.calls += 1
        if self.calls == self.fails_at:
            raise OSError("broken")

    def read(self, n=-1):
        self._tick()
        data = super().read(n)
        self.got += len(data)
        return data

    def write(self, data):
        self._tick()
        return super().write(data)


def strings(alphabet, most):
    for n in range(most + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield bytes(t)


def reading(ch, rec):
    import sys

    from binobj import errors
    from binobj import helpers

    first = ch.choose((None, 0, 1, 0x7F, 0x80, 0xFF))
    signed, endian = ch.flag(), ch.choose(("little", "big", None))
    for rest in strings((0, 1, 0x7F, 0x80, 0xFF), 3):
        data = rest if first is None else bytes([first]) + rest
        if first is None and rest:
            break
        for pos in range(len(data) + 1):
            for n in range(6):
                rec.case = lambda: (data, pos, n, signed, endian)
                stream = io.BytesIO(data)
                stream.seek(pos)
                how, got = attempt(helpers.read_int, stream, n, signed, endian)
                part = data[pos : pos + n]
                if len(part) < n:
                    if how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
                        fail(f"read_int: {how} {got!r}")
                    if (got.size, got.offset, got.field) != (n, pos, None):
                        fail(f"the error is about {got.size} bytes at {got.offset}")
                else:
                    order = endian or sys.byteorder
                    if order == "little":
                        part = part[::-1]
                    wanted = 0
                    for b in part:
                        wanted = wanted * 256 + b
                    if signed and part and part[0] >= 128:
                        wanted -= 256**n
                    if got != wanted or type(got) is not int:
                        fail(f"read_int gives {got!r}, not {wanted}")
                    if stream.tell() != pos + n:
                        fail(f"read_int leaves the stream at {stream.tell()}")
                    out = io.BytesIO(b"......")
                    out.seek(1)
                    helpers.write_int(out, got, n, signed, endian)
                    if out.getvalue() != (b"." + data[pos : pos + n] + b"......"[1 + n :]):
                        fail(f"write_int writes {out.getvalue()!r}")
                    if out.tell() != 1 + n:
                        fail(f"write_int leaves the stream at {out.tell()}")
                rec.step(2)
        rec.state(data, signed, endian)
    rec.traced()


def writing(ch, rec):
    """Numbers fit or they don't, and then nothing is written."""
    from binobj import helpers

    n = ch.choose(range(1, 6))
    signed, endian = ch.flag(), ch.choose(("little", "big"))
    low, high = (-(256**n) // 2, 256**n // 2 - 1) if signed else (0, 256**n - 1)
    edges = {v + d for v in (low, high, 0, 255, 256, -256, 2**63) for d in (-2, -1, 0, 1, 2)}
    for v in sorted(edges):
        rec.case = lambda: (v, n, signed, endian)
        out = io.BytesIO()
        how, got = attempt(helpers.write_int, out, v, n, signed, endian)
        if low <= v <= high:
            if how == "err" or got is not None:
                fail(f"write_int: {how} {got!r}")
            same(out.getvalue(), int_bytes(v % 256**n, n, endian), "write_int")
            out.seek(0)
            same(helpers.read_int(out, n, signed, endian), v, "read_int")
        else:
            if how == "ok" or not isinstance(got, OverflowError):
                fail(f"write_int: {how} {got!r}")
            if out.getvalue():
                fail(f"write_int writes {out.getvalue()!r}")
        rec.step()
    rec.state(n, signed, endian)
    rec.traced()


def peeking(ch, rec):
    from binobj import helpers

    data = bytes(range(65, 65 + ch.choose(range(5))))
    pos = ch.choose(range(len(data) + 1))
    count = ch.choose(range(7))
    okay = ch.choose((True, False))
    given = ch.flag()
    rec.case = lambda: (data, pos, count, okay, given)
    for at in (None, 1, 2):
        stream = Counted(data, at)
        stream.seek(pos)
        if given or not okay:
            how, got = attempt(helpers.peek_bytes, stream, count, okay)
        else:
            how, got = attempt(helpers.peek_bytes, stream, count)
        wanted = data[pos : pos + count]
        if at is not None and stream.calls >= at:
            if how == "ok" or type(got) is not OSError:
                fail(f"peek_bytes: {how} {got!r} though the stream fails")
        elif len(wanted) < count and not okay:
            if how == "ok" or not isinstance(got, EOFError):
                fail(f"peek_bytes: {how} {got!r}")
        elif got != wanted or how == "err":
            fail(f"peek_bytes: {how} {got!r}, not {wanted!r}")
        if stream.tell() != pos:
            fail(f"peek_bytes leaves the stream at {stream.tell()}")
        rec.step()
    rec.state(data, pos, count, okay)
    rec.traced()


def iterating(ch, rec):
    """Byte after byte, as they're asked for, whatever is done in between."""
    from binobj import helpers

    data = bytes(range(65, 65 + ch.choose(range(5))))
    pos = ch.choose(range(len(data) + 1))
    limit = ch.choose((None, 0, 1, 2, 3, 9))
    between = ch.choose(("nothing", "read", "seek", "another"))
    stream = Counted(data)
    stream.seek(pos)
    rec.case = lambda: (data, pos, limit, between)
    if limit is None and ch.flag():
        it = helpers.iter_bytes(stream)
    else:
        it = helpers.iter_bytes(stream, limit)
    if stream.calls:
        fail("it reads before it's asked to")
    at, n = pos, 0
    while True:
        wanted = data[at : at + 1] if limit is None or n < limit else b""
        calls = stream.calls
        got = next(it, None)
        rec.step()
        if got != (wanted or None):
            fail(f"it gives {got!r}, not {wanted!r}")
        if limit is not None and n >= limit and stream.calls != calls:
            fail("it reads more than it should")
        at += len(wanted)
        if stream.tell() != at:
            fail(f"it leaves the stream at {stream.tell()}, not {at}")
        if not wanted:
            break
        n += 1
        if between == "read":
            at += len(stream.read(1))
        elif between == "seek" and n == 1:
            stream.seek(0)
            at = 0
        elif between == "another":
            at += len(next(helpers.iter_bytes(stream, 1), b""))
        if n > 20:
            fail("it doesn't end")
    if next(it, None) is not None:
        fail("it continues after its end")
    rec.state(data, pos, limit, between)
    rec.traced()


################################################################################
# binobj.varints

CODECS = {
    "COMPACT_INDICES": ("compact", enc_compact, dec_compact, True, "big"),
    "LEB128": ("leb128", enc_leb, dec_leb, True, "little"),
    "ULEB128": ("uleb128", enc_uleb, dec_uleb, False, "little"),
    "VLQ": ("vlq", enc_vlq, dec_vlq, False, "big"),
}


def functions(name):
    from binobj import varints

    short_name = CODECS[name][0]
    return (
        getattr(varints, f"encode_integer_{short_name}"),
        getattr(varints, f"decode_integer_{short_name}"),
        varints.INTEGER_ENCODING_MAP[varints.VarIntEncoding[name]],
        varints.VarIntEncoding[name],
    )


def numbers(part):
    if part == "small":
        return range(2**14 + 2)
    bits = range(70) if part == "one" else range(0, 70, 1)
    out = set()
    for a in bits:
        out.update((2**a - 1, 2**a, 2**a + 1))
        if part == "more":
            for b in range(a):
                out.update((2**a + 2**b, 2**a - 2**b))
    for a in (71, 127, 128, 1000):
        out.update((2**a - 1, 2**a, 2**a + 1))
    return sorted(out)


def encoding(ch, rec):
    from binobj import fields as F

    name = ch.choose(sorted(CODECS))
    part = ch.choose(("small", "one", "more"))
    negative = ch.flag()
    _n, enc, _dec, signed, endian = CODECS[name]
    encode, decode, info, member = functions(name)
    if (info.encode, info.decode, info.endian, info.signed) != (encode, decode, endian, signed):
        fail(f"the table says {info!r}")
    field = F.VariableLengthInteger(vli_format=member)
    for v in numbers(part):
        v = -v if negative else v
        rec.case = lambda: (name, v)
        how, got = attempt(encode, v)
        if v < 0 and not signed:
            if how == "ok" or not isinstance(got, ValueError):
                fail(f"encoding {v} gives {how} {got!r}")
            continue
        if how == "err" or type(got) is not bytes or got != enc(v):
            fail(f"encoding {v} gives {got!r}, not {enc(v)!r}")
        same(field.to_bytes(v), got, "the field")
        stream = io.BytesIO(b"\xff" + got + b"\x81\x01")
        stream.seek(1)
        back = decode(stream)
        if back != v or type(back) is not int:
            fail(f"{got!r} is decoded as {back!r}")
        if stream.tell() != 1 + len(got):
            fail(f"decoding leaves the stream at {stream.tell()}")
        if len(got) > 1 and part != "small":
            for cut in range(len(got)):
                eof(decode, got[:cut])
        rec.step(3)
        rec.state(name, v)
    rec.traced()


def eof(decode, data):
    from binobj import errors

    how, got = attempt(decode, io.BytesIO(data))
    if how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
        fail(f"decoding {data!r}: {how} {got!r}")
    if got.offset != len(data) or got.size != 1:
        fail(f"decoding {data!r} fails for {got.size} bytes at {got.offset}")


def decoding(ch, rec):
    from binobj import fields as F

    name = ch.choose(sorted(CODECS))
    first = ch.choose((0, 1, 0x3F, 0x40, 0x7F, 0x80, 0xC0, 0xFF))
    _n, _enc, dec, _signed, _endian = CODECS[name]
    _encode, decode, _info, member = functions(name)
    field = F.VariableLengthInteger(vli_format=member)
    for rest in strings((0, 1, 0x3F, 0x40, 0x7F, 0x80, 0xFF), 3):
        data = bytes([first]) + rest
        rec.case = lambda: (name, data)
        try:
            wanted, end = dec(data, 0)
        except Eof:
            eof(decode, data)
        else:
            stream = Counted(data)
            got = decode(stream)
            if got != wanted or type(got) is not int:
                fail(f"decoding gives {got!r}, not {wanted}")
            if stream.tell() != end or stream.got != end:
                fail(f"decoding reads {stream.got} bytes, not {end}")
            same(field.from_bytes(data, exact=False), wanted, "the field")
        rec.step()
        rec.state(name, data)
    rec.traced()


################################################################################
# Structures put together by hand


def assembled(case, rec):
    from binobj import errors
    from binobj import fields as F
    from binobj.structures import StructMappingProxy
    from binobj.structures import StructMetadata

    spec = case.spec
    cls = spec.build()
    meta = cls.__binobj_struct__
    for assign in case.assigns:
        for mode in modes(spec):
            note(rec, spec, values=assign, mode=mode)
            given = spec.real_values(assign, mode)
            inst = cls(**given)
            raw = inst.to_bytes()
            resolved, env = spec.resolve(assign)
            pieces = [p for _f, p in spec.pieces(assign)]
            values = StructMappingProxy(inst)
            # Everything that's known, as an ordinary dictionary
            known = {}
            for f, v in resolved:
                if v is not ABSENT:
                    known[f.name] = v if v is None else f.kind.real(v, mode)
                elif f.name in env:
                    v = env[f.name]
                    known[f.name] = v if v is None else f.kind.real(v, mode)
            out, written = io.BytesIO(), io.BytesIO()
            for (f, v), piece in zip(resolved, pieces):
                field = getattr(cls, f.name)
                got = field.compute_value_for_dump(values)
                again = field.compute_value_for_dump(known)
                if v is ABSENT:
                    if got is not F.NOT_PRESENT or again is not F.NOT_PRESENT:
                        fail(f"the value of the absent {f.name} is {got!r}, {again!r}")
                    continue
                for g in (got, again):
                    if g is F.NOT_PRESENT:
                        fail(f"{f.name} isn't absent")
                one, two = io.BytesIO(), io.BytesIO()
                field.to_stream(one, got, None, known)
                field.to_stream(two, again, None, known)
                same(one.getvalue(), piece, f"{f.name} with its structure")
                same(two.getvalue(), piece, f"{f.name} with a dictionary")
                out.write(one.getvalue())
                field.to_stream(written, got, None, known)
                how, size = attempt(field.get_expected_size, known)
                if how == "err":
                    hard = known[f.name] is None or isinstance(f.kind, (Arr, Nest, Uni, Own))
                    wrong = not isinstance(size, errors.UndefinedSizeError)
                    if wrong or field.has_fixed_size or not hard:
                        fail(f"the size of {f.name}: {size!r}")
                elif size != len(piece):
                    fail(f"the size of {f.name} is {size}, it has {len(piece)} bytes")
                rec.step(4)
            if not out.getvalue() == written.getvalue() == raw:
                fail(f"by hand: {short(out.getvalue())}, {short(written.getvalue())}")
            if all(p is not None for p in pieces):
                size = meta.get_size(known)
                if size is not None and size != len(raw):
                    fail(f"the size of all is {size}, there are {len(raw)} bytes")
            by_hand(cls, spec, raw, assign, rec)
            rec.state(repr(spec), repr(assign), mode)
        without(cls, spec, assign, rec)
        rec.traced()
    plain_class(case, rec, StructMetadata)
    rec.sample(f"{spec!r}")


def by_hand(cls, spec, raw, assign, rec):
    """Loading one field after the other."""
    stream = io.BytesIO(b"<" + raw + b">>")
    if spec.greedy():
        stream = io.BytesIO(b"<" + raw)
    stream.seek(1)
    loaded = {}
    for f in spec.fields():
        field = cls.__binobj_struct__.components[f.name]
        loaded[field.name] = field.from_stream(stream, None, loaded)
        rec.step()
    if stream.tell() != 1 + len(raw):
        fail(f"loading by hand leaves the stream at {stream.tell() - 1} of {len(raw)}")
    wanted = spec.loaded(assign, keep_discard=True)
    for n, v in wanted.items():
        same(plain(loaded[n]), v, f"{n}, loaded by hand")


def without(cls, spec, assign, rec):
    """Fields whose value isn't given: it's determined, or missing."""
    from binobj import errors
    from binobj import fields as F

    for f in spec.fields():
        fewer = {n: v for n, v in assign.items() if n != f.name}
        note(rec, spec, values=fewer, of=f.name)
        try:
            resolved, _env = spec.resolve(fewer)
        except Missing as missing:
            if str(missing) != f.name:
                continue
            resolved = None
        except Exception:  # noqa: BLE001
            continue
        field = getattr(cls, f.name)
        values = spec.real_values(fewer)
        known = {}
        for g, v in resolved or ():
            if g.name != f.name and v is not ABSENT:
                known[g.name] = v if v is None else g.kind.real(v)
        for vals in (known, cls(**values).__values__) if resolved else (values,):
            if f.computed is not None and vals is not known:
                continue
            if f.present is not None:
                # It can depend on anything.
                from binobj.structures import StructMappingProxy

                vals = StructMappingProxy(cls(**values))
            how, got = attempt(field.compute_value_for_dump, vals)
            rec.step()
            if resolved is None:
                if how == "ok" or not isinstance(got, errors.MissingRequiredValueError):
                    fail(f"without {f.name}, its value is {how} {got!r}")
                continue
            wanted = dict((g.name, v) for g, v in resolved)[f.name]
            if how == "err":
                fail(f"without {f.name}, its value: {got!r}")
            if wanted is ABSENT:
                if got is not F.NOT_PRESENT:
                    fail(f"the absent {f.name} is {got!r}")
                continue
            same(plain(got), wanted, f"the value of {f.name}, not given")


def plain_class(case, rec, StructMetadata):
    """The fields of a class that isn't a structure."""
    from binobj.structures import is_struct

    spec = case.spec
    if spec.parent is not None or spec.meta:
        return
    cls = spec.build()
    donor = spec.build()
    names = spec.names()
    note(rec, spec, what="an ordinary class")
    fresh = {}
    for f in spec.fields():
        fresh[f.name] = donor.__binobj_struct__.components[f.name]
    meta, wanted = donor.__binobj_struct__, cls.__binobj_struct__
    if list(meta.components) != names or meta.name != cls.__name__:
        fail(f"the metadata of {meta.name} have {list(meta.components)}")
    if meta.get_size() != spec.fixed_size() and spec.fixed_size() is not None:
        fail(f"the size is {meta.get_size()}, not {spec.fixed_size()}")
    if meta.get_size() != wanted.get_size() or meta.num_own_fields != len(names):
        fail(f"{meta.num_own_fields} fields, {meta.get_size()} bytes")
    if not (is_struct(cls) and is_struct(donor)) or is_struct(fresh):
        fail("is_struct()")
    rec.step()


################################################################################
# Metadata of classes that aren't structures


def from_class(ch, rec):
    """StructMetadata.from_class() of an ordinary class is like that of a structure."""
    import binobj
    from binobj.structures import is_struct
    from binobj.structures import StructMetadata

    from binobj import fields as F

    # Every field is made twice: for a structure and for an ordinary class.
    made = [ch.choose(KINDS)(), ch.choose((KINDS[0], KINDS[-1], KINDS[len(KINDS) // 2]))()]
    between = ch.choose(("nothing", "attributes", "checks"))
    derived = ch.flag()
    defaults = ch.choose((None, {"endian": "big", "discard": True}, {"UInt16__endian": "big"}))
    rec.case = lambda: (made, between, derived, defaults)

    def namespace(first):
        ns = {}
        for i, kind in enumerate(made):
            ns[f"{first}{i}"] = kind.make(F)
            if between == "attributes":
                ns[f"other{i}"] = [i]
                ns[f"method{i}"] = lambda self: 5
            if between == "checks":
                ns[f"check{i}"] = binobj.decorators.validates(f"{first}{i}")(lambda s, f, v: None)
                ns[f"whole{i}"] = binobj.decorators.validates_struct(lambda s, v: None)
        if defaults is not None:
            ns["Meta"] = type("Meta", (), {"argument_defaults": defaults})
        return ns

    struct = type(binobj.Struct)("Thing", (binobj.Struct,), namespace("f"))
    ordinary = type("Thing", (), namespace("f"))
    if is_struct(ordinary) or is_struct(ordinary()) or not is_struct(struct):
        fail("is_struct()")
    ns = dict(vars(ordinary))
    meta = StructMetadata.from_class(ordinary)
    if dict(vars(ordinary)) != ns:
        fail("the class has changed")
    compare(meta, struct.__binobj_struct__)
    if derived:
        # A class that isn't a structure can be used as one's parent, given metadata.
        ordinary.__binobj_struct__ = meta
        if not is_struct(ordinary) or not is_struct(ordinary()):
            fail("is_struct() of a class with metadata")
        child = type(binobj.Struct)("Child", (struct,), namespace("g"))
        plain_child = type("Child", (ordinary,), namespace("g"))
        before = list(meta.components)
        other = StructMetadata.from_class(plain_child)
        compare(other, child.__binobj_struct__)
        if list(meta.components) != before:
            fail("the metadata of the parent have changed")
        for n in before:
            if other.components[n] is not meta.components[n]:
                fail(f"{n} isn't the parent's")
    rec.step(2)
    rec.state(repr(made), between, derived, repr(defaults))
    rec.traced()


def compare(meta, wanted):
    if meta.name != wanted.name:
        fail(f"the name is {meta.name}")
    if list(meta.components) != list(wanted.components):
        fail(f"the fields are {list(meta.components)}")
    if meta.num_own_fields != wanted.num_own_fields:
        fail(f"there are {meta.num_own_fields} of its own")
    if meta.get_size() != wanted.get_size():
        fail(f"get_size() is {meta.get_size()}, not {wanted.get_size()}")
    if meta.argument_defaults != wanted.argument_defaults:
        fail(f"the defaults are {meta.argument_defaults}")
    for n, f in meta.components.items():
        w = wanted.components[n]
        if (f.name, f.index, f.offset, type(f)) != (w.name, w.index, w.offset, type(w)):
            fail(f"{n} is number {f.index} at {f.offset}, not {w.index} at {w.offset}")
        for attr in ("size", "endian", "discard", "encoding"):
            got, want = getattr(f, attr, None), getattr(w, attr, None)
            if got != want and not hasattr(want, "to_bytes"):
                fail(f"{n}.{attr} is {got!r}, not {want!r}")
    if set(meta.field_validators) != set(wanted.field_validators):
        fail(f"there are checks for {set(meta.field_validators)}")
    for n in meta.components:
        if len(meta.field_validators[n]) != len(wanted.field_validators[n]):
            fail(f"{n} has {len(meta.field_validators[n])} checks")
    if len(meta.struct_validators) != len(wanted.struct_validators):
        fail(f"there are {len(meta.struct_validators)} checks of all")


################################################################################
# Arrays

COUNTS = ("none", "number", "zero", "field", "name", "missing", "missing name", "halt")


def arrays(ch, rec):
    import binobj
    from binobj import errors
    from binobj import fields as F

    sort = ch.choose(COUNTS)
    n = ch.choose(range(4))
    component = ch.choose((F.UInt8, F.UInt16, F.StringZ))
    bound = ch.flag()
    counter = F.UInt8(name=None if bound else "n")
    kwargs = {
        "none": {},
        "number": {"count": n},
        "zero": {"count": 0},
        "field": {"count": counter},
        "name": {"count": "n"},
        "missing": {"count": counter},
        "missing name": {"count": "n"},
        "halt": {"halt_check": lambda seq, stream, vals, ctx, loaded: len(vals) >= n},
    }[sort]
    array = F.Array(component(), **kwargs)
    if bound:
        type(binobj.Struct)("S", (binobj.Struct,), {"n": counter, "array": array})
    values = {"other": 77} if sort.startswith("missing") else {"n": n, "other": 77}
    rec.case = lambda: (sort, n, component, bound)
    how, got = attempt(array.get_final_element_count, values)
    wanted = {"none": None, "number": n, "zero": 0, "field": n, "name": n, "halt": None}
    if sort in wanted:
        if how == "err" or got != wanted[sort]:
            fail(f"get_final_element_count: {how} {got!r}")
    elif how == "ok" or not isinstance(got, errors.FieldReferenceError):
        fail(f"get_final_element_count: {how} {got!r}")
    elif got.field != "n":
        fail(f"the missing field is {got.field!r}")
    for data in (b"", b"a", b"\0", b"abc\0d"):
        for pos in range(len(data) + 1):
            for have in range(5):
                stream = io.BytesIO(data)
                stream.seek(pos)
                elements = list(range(have))
                how, got = attempt(
                    F.Array.should_halt, array, stream, elements, None, values
                )
                rec.step()
                if sort in ("missing", "missing name"):
                    if how == "ok" or not isinstance(got, errors.FieldReferenceError):
                        fail(f"should_halt: {how} {got!r}")
                    continue
                if sort in ("none", "halt"):
                    want = pos >= len(data)
                else:
                    want = have >= wanted[sort]
                if how == "err" or bool(got) != want:
                    fail(f"should_halt with {have} elements before {data[pos:]!r}: {got!r}")
                if stream.tell() != pos or elements != list(range(have)):
                    fail(f"should_halt leaves the stream at {stream.tell()}")
                if array.halt_check(array, stream, elements, None, values) != (
                    have >= n if sort == "halt" else want
                ):
                    fail(f"halt_check with {have} elements")
    rec.state(sort, n, component.__name__, bound)
    rec.traced()


################################################################################
# Conversions


def conversions(ch, rec):
    """recursive_to_dicts() converts structures in all containers, and nothing else."""
    import collections
    import types

    import binobj
    from binobj import fields as F
    from binobj.structures import recursive_to_dicts
    from binobj.structures import StructMappingProxy

    class In(binobj.Struct):
        v = F.UInt8()
        hidden = F.UInt8(discard=True, default=3)

    class Out(binobj.Struct):
        inner = F.Nested(In)
        many = F.Array(F.Nested(In), count=2)

    keep = ch.flag()
    given = ch.flag()

    def flat(v):
        return {"v": v, "hidden": 3} if keep else {"v": v}

    Pair = collections.namedtuple("Pair", "a b")

    marker = object()

    def build(depth):
        """(the object, what it's converted to)"""
        sorts = ["struct", "text", "bytes", "number", "object", "set"]
        if depth:
            sorts += ["list", "tuple", "dict", "ordered", "proxy", "deep", "pair", "range"]
        sort = ch.choose(sorts)
        if sort == "struct":
            return In(v=depth), flat(depth)
        if sort == "text":
            return "text", "text"
        if sort == "bytes":
            return bytearray(b"ab"), bytearray(b"ab")
        if sort == "number":
            return None, None
        if sort == "object":
            return marker, marker
        if sort == "set":
            return frozenset((1, 2)), frozenset((1, 2))
        if sort == "deep":
            return (
                Out(inner=In(v=5), many=[In(v=1), {"v": 2}]),
                {
                    "inner": flat(5),
                    "many": [flat(1), {"v": 2}],
                },
            )
        if sort == "range":
            return range(3), [0, 1, 2]
        if sort == "proxy":
            return StructMappingProxy(In(v=9)), {"v": 9}
        inner, wanted = build(depth - 1)
        return {
            "list": lambda: ([inner, 1], [wanted, 1]),
            "tuple": lambda: ((1, inner), [1, wanted]),
            "pair": lambda: (Pair(inner, inner), [wanted, wanted]),
            "dict": lambda: ({"k": inner, 3: "x"}, {"k": wanted, 3: "x"}),
            "ordered": lambda: (
                types.MappingProxyType({"b": inner, "a": inner}),
                {"b": wanted, "a": wanted},
            ),
        }[sort]()

    obj, wanted = build(3)
    rec.case = lambda: (obj, keep)
    if given or keep:
        got = recursive_to_dicts(obj, keep)
    else:
        got = recursive_to_dicts(obj)
    if not alike(got, wanted):
        fail(f"converted to {got!r}, not {wanted!r}")
    rec.step()
    rec.state(repr(obj).split(" at ")[0], keep)
    rec.traced()


def alike(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(b, dict):
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in b) or (
            set(a) == set(b) and all(alike(a[k], b[k]) for k in b)
        )
    if isinstance(b, list):
        return len(a) == len(b) and all(map(alike, a, b))
    return a is b or a == b


def bodies(tier, seed):
    out = {
        "reading": reading,
        "writing": writing,
        "peeking": peeking,
        "iterating": iterating,
        "encoding": encoding,
        "decoding": decoding,
        "from_class": from_class,
        "arrays": arrays,
        "conversions": conversions,
    }
    out.update(each_case(assembled, families(tier)))
    return out
