"""The reference model: what a declaration means, independently of binobj.

Everything in here is deliberately plain.  A *kind* says how one sort of field is
encoded; a *spec* is an ordered list of fields.  ``Spec.build`` declares the same thing
with the real library.  The encoders don't share code with binobj.
"""

import codecs
import contextlib
import datetime
import io
import struct as pystruct
import uuid


class _Sentinel:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


ABSENT = _Sentinel("ABSENT")
NOPE = _Sentinel("NOPE")
DEFAULT = _Sentinel("DEFAULT")


class Bad(Exception):
    """The value can't be represented; a dump must refuse it."""


class Missing(Bad):
    """There's no value for a field."""


class Eof(Exception):
    """The data ends too early."""


class BadData(Exception):
    """The data doesn't encode anything for this kind."""


def take(data, pos, n):
    if pos + n > len(data):
        raise Eof()
    return data[pos : pos + n], pos + n


################################################################################
# Kinds


class Kind:
    fixed = None  # size in bytes, if every value has the same
    canonical = True  # is there exactly one encoding per value?
    values = ()
    bad = ()
    greedy = False  # extends to the end of the data
    sized_value = False  # no fixed size, but that of a constant is known

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def make(self, F, **kw):
        raise NotImplementedError

    def enc(self, v, env):
        raise NotImplementedError

    def dec(self, data, pos, env):
        raise NotImplementedError

    def loaded(self, v, env):
        """What loading the encoding of ``v`` gives."""
        return v

    def real(self, v, mode=0):
        """The value to hand to the library (mode 1: structs as instances)."""
        return v


def int_bytes(v, size, endian):
    out = []
    for _ in range(size):
        out.append(v % 256)
        v //= 256
    if endian == "big":
        out.reverse()
    return bytes(out)


def bytes_int(raw, signed, endian):
    order = raw if endian == "big" else raw[::-1]
    v = 0
    for b in order:
        v = v * 256 + b
    if signed and order and order[0] >= 128:
        v -= 256 ** len(raw)
    return v


NAMED_INTS = {
    (1, True): "Int8",
    (2, True): "Int16",
    (4, True): "Int32",
    (8, True): "Int64",
    (1, False): "UInt8",
    (2, False): "UInt16",
    (4, False): "UInt32",
    (8, False): "UInt64",
}


class Int(Kind):
    def __init__(self, size, signed, endian, generic=False, native=False):
        super().__init__(
            f"{'i' if signed else 'u'}{size * 8}{'?' if native else endian[0]}"
            + ("g" if generic else "")
        )
        self.size, self.signed, self.endian = size, signed, endian
        self.generic, self.native = generic, native
        self.fixed = size
        self.lo = -(256**size // 2) if signed else 0
        self.hi = 256**size // 2 - 1 if signed else 256**size - 1
        ramp = int_bytes_ramp(size)
        if signed and ramp > self.hi:
            ramp -= 256**size
        # A value whose bytes are all different shows any mix-up of their order.
        self.values = [ramp, self.hi, self.lo, 0, 1] + ([-1, -2] if signed else [])
        self.bad = [self.hi + 1, self.lo - 1, 256**size, -(256**size), 256**size * 3 + 5]

    def make(self, F, **kw):
        if not self.native:
            kw["endian"] = self.endian
        if not self.generic and (self.size, self.signed) in NAMED_INTS:
            return getattr(F, NAMED_INTS[self.size, self.signed])(**kw)
        if self.signed:
            return F.Integer(size=self.size, **kw)
        if self.generic:
            return F.Integer(size=self.size, signed=False, **kw)
        return F.UnsignedInteger(size=self.size, **kw)

    def enc(self, v, env):
        if not self.lo <= v <= self.hi:
            raise Bad(f"{v} isn't in {self.lo}..{self.hi}")
        return int_bytes(v % 256**self.size, self.size, self.endian)

    def dec(self, data, pos, env):
        raw, pos = take(data, pos, self.size)
        return bytes_int(raw, self.signed, self.endian), pos


def int_bytes_ramp(size):
    v = 0
    for i in range(size):
        v = v * 256 + (0x81 + 17 * i) % 256
    return v


class Float(Kind):
    canonical = False  # there are many NaNs
    CODES = {2: "e", 4: "f", 8: "d"}
    NAMES = {2: "Float16", 4: "Float32", 8: "Float64"}

    def __init__(self, size, endian, native=False):
        super().__init__(f"f{size * 8}{'?' if native else endian[0]}")
        self.size, self.endian, self.native = size, endian, native
        self.fixed = size
        mant, emax = {2: (10, 15), 4: (23, 127), 8: (52, 1023)}[size]
        top = (2.0 - 2.0**-mant) * 2.0**emax
        tiny = 2.0 ** (1 - emax - mant)
        self.values = [-1.5, 0.0, -0.0, 1 + 2.0**-mant, top, -top, tiny]
        self.values += [float("inf"), float("-inf"), float("nan")]
        self.bad = [top * 2, -top * 2] if size < 8 else []
        self.fmt = ("<" if endian == "little" else ">") + self.CODES[size]

    def make(self, F, **kw):
        if not self.native:
            kw["endian"] = self.endian
        return getattr(F, self.NAMES[self.size])(**kw)

    def enc(self, v, env):
        try:
            return pystruct.pack(self.fmt, v)
        except (OverflowError, pystruct.error) as exc:
            raise Bad(str(exc)) from None

    def dec(self, data, pos, env):
        raw, pos = take(data, pos, self.size)
        return pystruct.unpack(self.fmt, raw)[0], pos


def enc_vlq(v):
    if v < 0:
        raise Bad("negative")
    groups = [v % 128]
    v //= 128
    while v:
        groups.append(v % 128)
        v //= 128
    groups.reverse()
    return bytes([g + 128 for g in groups[:-1]] + [groups[-1]])


def dec_vlq(data, pos):
    v = 0
    while True:
        (b,), pos = take(data, pos, 1)
        v = v * 128 + b % 128
        if b < 128:
            return v, pos


def enc_uleb(v):
    if v < 0:
        raise Bad("negative")
    groups = [v % 128]
    v //= 128
    while v:
        groups.append(v % 128)
        v //= 128
    return bytes([g + 128 for g in groups[:-1]] + [groups[-1]])


def dec_uleb(data, pos):
    v, weight = 0, 1
    while True:
        (b,), pos = take(data, pos, 1)
        v += (b % 128) * weight
        weight *= 128
        if b < 128:
            return v, pos


def enc_leb(v):
    groups = []
    while True:
        low = v % 128
        v = (v - low) // 128
        groups.append(low)
        if (v == 0 and low < 64) or (v == -1 and low >= 64):
            break
    return bytes([g + 128 for g in groups[:-1]] + [groups[-1]])


def dec_leb(data, pos):
    v, weight = 0, 1
    while True:
        (b,), pos = take(data, pos, 1)
        v += (b % 128) * weight
        weight *= 128
        if b < 128:
            return (v - weight if b >= 64 else v), pos


def enc_compact(v):
    mag = abs(v)
    groups = []
    while mag >= 64:
        groups.append(mag % 128)
        mag //= 128
    groups.append(mag + (64 if v < 0 else 0))
    groups.reverse()
    return bytes([g + 128 for g in groups[:-1]] + [groups[-1]])


def dec_compact(data, pos):
    (b,), pos = take(data, pos, 1)
    negative = (b // 64) % 2 == 1
    v = b % 64
    while b >= 128:
        (b,), pos = take(data, pos, 1)
        v = v * 128 + b % 128
    return (-v if negative else v), pos


VARINTS = {
    "vlq": ("VLQ", enc_vlq, dec_vlq, False),
    "uleb": ("ULEB128", enc_uleb, dec_uleb, False),
    "leb": ("LEB128", enc_leb, dec_leb, True),
    "compact": ("COMPACT_INDICES", enc_compact, dec_compact, True),
}


class VarInt(Kind):
    canonical = False

    def __init__(self, fmt, max_bytes=None):
        super().__init__(fmt + (str(max_bytes) if max_bytes else ""))
        self.fmt, self.max_bytes = fmt, max_bytes
        self.enum, self._enc, self._dec, self.signed = VARINTS[fmt]
        vals = [5, 0, 63, 64, 127, 128, 8191, 8192, 16383, 16384, 2**35 + 9]
        if self.signed:
            vals += [-1, -5, -63, -64, -65, -127, -128, -8192, -8193, -(2**35) - 9]
        self.values = [v for v in vals if self._fits(v)]
        self.bad = [v for v in vals if not self._fits(v)]
        if not self.signed:
            self.bad += [-1, -128]

    def _fits(self, v):
        return self.max_bytes is None or len(self._enc(v)) <= self.max_bytes

    def make(self, F, **kw):
        from binobj import varints

        if self.max_bytes is not None:
            kw["max_bytes"] = self.max_bytes
        return F.VariableLengthInteger(
            vli_format=getattr(varints.VarIntEncoding, self.enum), **kw
        )

    def enc(self, v, env):
        raw = self._enc(v)
        if self.max_bytes is not None and len(raw) > self.max_bytes:
            raise Bad("too many bytes")
        return raw

    def dec(self, data, pos, env):
        return self._dec(data, pos)


class Raw(Kind):
    """Bytes of a fixed size, or of the size another field gives."""

    def __init__(self, size, values=None):
        super().__init__(f"raw{size}")
        self.size = size
        if isinstance(size, int):
            self.fixed = size
            self.values = values or [
                bytes((i * 37 + 1) % 256 for i in range(size)),
                b"\xff" * size,
                b"\0" * size,
            ]
            self.bad = [b"\1" * (size + 1), b"\1" * (size + 255)]
            if size:
                self.bad += [b"\1" * (size - 1), b""]
        else:
            self.values = values or [b"\x80\0", b"", b"\xff"]

    def make(self, F, **kw):
        return F.Bytes(size=self.size, **kw)

    def _n(self, env):
        return self.size if isinstance(self.size, int) else env[self.size]

    def enc(self, v, env):
        if len(v) != self._n(env):
            raise Bad("wrong size")
        return bytes(v)

    def dec(self, data, pos, env):
        n = self._n(env)
        if n < 0:
            raise BadData("negative size")
        return take(data, pos, n)


class Str(Kind):
    def __init__(self, size, encoding="iso-8859-1", pad=None, values=None, bad=None):
        super().__init__(f"str{size}-{encoding}" + ("" if pad is None else f"-pad{pad[0]}"))
        self.size, self.encoding, self.pad = size, encoding, pad
        self.fixed = size if isinstance(size, int) else None
        self.canonical = encoding in CANONICAL_ENCODINGS
        if values is not None:
            self.values = list(values)
        else:
            self.values = fill_values(size, encoding, pad)
        self.bad = list(bad or ())

    def make(self, F, **kw):
        if self.encoding != "iso-8859-1":
            kw["encoding"] = self.encoding
        if self.pad is not None:
            kw["pad_byte"] = self.pad
        return F.String(size=self.size, **kw)

    def _n(self, env):
        return self.size if isinstance(self.size, int) else env[self.size]

    def enc(self, v, env):
        n = self._n(env)
        try:
            raw = v.encode(self.encoding)
        except UnicodeEncodeError as exc:
            raise Bad(str(exc)) from None
        if len(raw) > n or (len(raw) < n and self.pad is None):
            raise Bad("wrong size")
        return raw + (self.pad or b"") * (n - len(raw))

    def dec(self, data, pos, env):
        n = self._n(env)
        if n < 0:
            raise BadData("negative size")
        raw, pos = take(data, pos, n)
        try:
            return raw.decode(self.encoding), pos
        except UnicodeDecodeError as exc:
            raise BadData(str(exc)) from None

    def loaded(self, v, env):
        return self.enc(v, env).decode(self.encoding)


CANONICAL_ENCODINGS = ("iso-8859-1", "utf-8", "utf-16-le", "utf-16-be", "utf-32-le", "cp037")
ALPHABET = ["A", "z", "\u00e9", "\u0416", "\u20ac", "\u3042", "\U0001f600"]


def encodable(char, encoding):
    try:
        return char.encode(encoding).decode(encoding) == char
    except UnicodeError:
        return False


def fill_values(size, encoding, pad):
    """Strings that fill (or, if padded, fit into) ``size`` bytes."""
    chars = [c for c in ALPHABET if encodable(c, encoding)]
    out = []
    for first in chars:
        text = ""
        i = chars.index(first)
        while True:
            for k in range(len(chars)):
                nxt = text + chars[(i + k) % len(chars)]
                if len(nxt.encode(encoding)) <= size:
                    break
            else:
                break
            text = nxt
            i += 1
        n = len(text.encode(encoding))
        if n == size or pad is not None:
            out.append(text)
    if pad is not None:
        out += [c for c in chars if len(c.encode(encoding)) <= size]
        if len("".encode(encoding)) == 0:
            out.append("")
    seen = []
    for s in out:
        raw = s.encode(encoding)
        if len(raw) > size or s in seen:
            continue
        if pad is not None:
            try:
                (raw + pad * (size - len(raw))).decode(encoding)
            except UnicodeError:
                continue
        seen.append(s)
    return seen


class StrZ(Kind):
    def __init__(self, encoding="iso-8859-1", size=None, pad=None, values=None, bad=None):
        super().__init__(
            f"strz-{encoding}"
            + ("" if size is None else f"-{size}")
            + ("" if pad is None else f"-pad{pad[0]}")
        )
        self.encoding, self.size, self.pad = encoding, size, pad
        self.fixed = size if isinstance(size, int) else None
        # The bytes after the terminator of a sized string are arbitrary.
        self.canonical = size is None and encoding in CANONICAL_ENCODINGS
        if values is not None:
            self.values = list(values)
        else:
            chars = [c for c in ALPHABET if encodable(c, encoding)]
            vals = ["".join(chars[:2]), "", "".join(chars)] + chars[2:]
            if isinstance(size, int):
                keep = []
                for v in vals + ["".join(chars[:1]), "".join(chars[-1:])] + [
                    chars[0] * k for k in range(size)
                ]:
                    n = len((v + "\0").encode(encoding))
                    if (n == size or (n < size and pad is not None)) and v not in keep:
                        keep.append(v)
                vals = keep
            self.values = vals
        self.bad = list(bad or ())

    def make(self, F, **kw):
        if self.encoding != "iso-8859-1":
            kw["encoding"] = self.encoding
        if self.pad is not None:
            kw["pad_byte"] = self.pad
        if self.size is not None:
            kw["size"] = self.size
        return F.StringZ(**kw)

    def _n(self, env):
        return self.size if isinstance(self.size, int) else env[self.size]

    def enc(self, v, env):
        if "\0" in v:
            raise Bad("embedded null")
        try:
            raw = (v + "\0").encode(self.encoding)
        except UnicodeEncodeError as exc:
            raise Bad(str(exc)) from None
        if self.size is None:
            return raw
        n = self._n(env)
        if len(raw) > n or (len(raw) < n and self.pad is None):
            raise Bad("wrong size")
        return raw + (self.pad or b"") * (n - len(raw))

    def dec(self, data, pos, env):
        if self.size is None:
            end = len(data)
        else:
            n = self._n(env)
            if n < 0:
                raise BadData("negative size")
            if pos + n > len(data):
                raise Eof()
            end = pos + n
        # The shortest stretch that decodes to something ending in a null.
        for stop in range(pos + 1, end + 1):
            decoder = codecs.getincrementaldecoder(self.encoding)()
            try:
                text = decoder.decode(data[pos:stop])
            except UnicodeError as exc:
                raise BadData(str(exc)) from None
            if text.endswith("\0"):
                return text[:-1], (stop if self.size is None else end)
        if self.size is None:
            raise Eof()
        raise BadData("no terminator")


UUID_VALUES = [
    uuid.UUID("00112233-4455-4677-8899-aabbccddeeff"),
    uuid.UUID(int=0),
    uuid.UUID("ffffffff-ffff-4fff-bfff-ffffffffffff"),
    uuid.UUID("c232ab00-9414-11ec-b3c8-9f6bdeced846"),
    uuid.UUID("01020304-0506-5708-0910-a1a2a3a4a5a6"),
]


class Uuid(Kind):
    FORMATS = {
        "bin1": "BINARY_VARIANT_1",
        "bin2": "BINARY_VARIANT_2",
        "canon": "CANONICAL_STRING",
        "hex": "HEX_STRING",
    }

    def __init__(self, fmt):
        super().__init__("uuid-" + fmt)
        self.fmt = fmt
        self.fixed = {"bin1": 16, "bin2": 16, "canon": 36, "hex": 32}[fmt]
        self.canonical = fmt in ("bin1", "bin2")
        self.values = UUID_VALUES

    def make(self, F, **kw):
        from binobj.fields import stringlike

        if self.fmt != "bin1":
            kw["stored_as"] = getattr(stringlike.UUIDFormat, self.FORMATS[self.fmt])
        return F.UUID4(**kw)

    def enc(self, v, env):
        digits = "%032x" % v.int
        raw = bytes.fromhex(digits)
        if self.fmt == "bin1":
            return raw
        if self.fmt == "bin2":
            return raw[3::-1] + raw[5:3:-1] + raw[7:5:-1] + raw[8:]
        if self.fmt == "hex":
            return digits.encode()
        return "-".join(
            [digits[:8], digits[8:12], digits[12:16], digits[16:20], digits[20:]]
        ).encode()

    def dec(self, data, pos, env):
        raw, pos = take(data, pos, self.fixed)
        if self.fmt == "bin1":
            return uuid.UUID(hex=raw.hex()), pos
        if self.fmt == "bin2":
            return (
                uuid.UUID(
                    hex=(raw[3::-1] + raw[5:3:-1] + raw[7:5:-1] + raw[8:]).hex()
                ),
                pos,
            )
        try:
            return uuid.UUID(hex=raw.decode("ascii")), pos
        except ValueError as exc:
            raise BadData(str(exc)) from None


UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
UNITS = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}


def instant_us(v):
    """Microseconds since the epoch of an aware datetime, exactly."""
    d = v - EPOCH
    return (d.days * 86400 + d.seconds) * 10**6 + d.microseconds


class Stamp(Kind):
    def __init__(self, size, res="s", aware=True, signed=True, endian="little"):
        super().__init__(
            f"ts{size * 8}{res}{'a' if aware else 'n'}{'' if signed else 'u'}{endian[0]}"
        )
        self.size, self.res, self.aware = size, res, aware
        self.signed, self.endian = signed, endian
        self.fixed = size
        self.canonical = res != "ns"
        self.int = Int(size, signed, endian)
        base = [
            datetime.datetime(2019, 2, 2, 16, 21, 55, tzinfo=UTC),
            EPOCH,
            datetime.datetime(2004, 2, 29, 23, 59, 59, tzinfo=UTC),
        ]
        if signed:
            base.append(datetime.datetime(1969, 12, 31, 23, 59, 58, tzinfo=UTC))
            base.append(datetime.datetime(1950, 6, 1, 0, 0, 1, tzinfo=UTC))
        if res != "s":
            base[0] = base[0].replace(microsecond=570000)
        if res in ("us", "ns"):
            base[0] = base[0].replace(microsecond=570001)
        vals = []
        for v in base:
            if not aware:
                v = v.replace(tzinfo=None)  # checks run with TZ=UTC
            try:
                self.enc(v, {})
            except Bad:
                continue
            vals.append(v)
        self.values = vals

    def make(self, F, **kw):
        kw.update(tz_aware=self.aware, endian=self.endian)
        if self.res != "s":
            kw["resolution"] = self.res
        if not self.signed:
            kw["signed"] = False
        if self.size == 4:
            return F.Timestamp32(**kw)
        if self.size == 8:
            return F.Timestamp64(**kw)
        return F.Timestamp(size=self.size, **kw)

    def count(self, v):
        if v.tzinfo is None:
            v = v.replace(tzinfo=UTC)
        us = instant_us(v)
        n = abs(us) * UNITS[self.res] // 10**6
        return n if us >= 0 else -n

    def enc(self, v, env):
        return self.int.enc(self.count(v), env)

    def loaded(self, v, env):
        n = self.count(v)
        out = EPOCH + datetime.timedelta(microseconds=n * 10**6 // UNITS[self.res])
        return out if self.aware else out.replace(tzinfo=None)

    def dec(self, data, pos, env):
        n, pos = self.int.dec(data, pos, env)
        try:
            out = EPOCH + datetime.timedelta(microseconds=n * 10**6 // UNITS[self.res])
        except OverflowError as exc:
            raise BadData(str(exc)) from None
        return (out if self.aware else out.replace(tzinfo=None)), pos


class Arr(Kind):
    """count: an int, a field name, None (until the end) or ('stop', value)."""

    def __init__(self, elem, count, lengths=(2, 0, 3), values=None, by_field=False):
        tag = count if not isinstance(count, tuple) else f"stop{count[1]}"
        super().__init__(f"[{elem}*{tag}]")
        self.elem, self.count, self.by_field = elem, count, by_field
        self.canonical = elem.canonical
        self.greedy = count is None
        if isinstance(count, int):
            lengths = (count,)
            if elem.fixed is not None:
                self.fixed = count * elem.fixed
        if values is not None:
            self.values = values
        else:
            ev = elem.values
            self.values = [[ev[i % len(ev)] for i in range(n)] for n in lengths]
            if isinstance(count, int) and count and len(ev) > 1:
                self.values.append([ev[-1 - i % len(ev)] for i in range(count)])

    def make(self, F, **kw):
        elem = self.elem.make(F)
        if isinstance(self.count, tuple):
            stop = self.count[1]

            def halt(seq, stream, values, context, loaded_fields):
                return bool(values) and values[-1] == stop

            return F.Array(elem, halt_check=halt, **kw)
        if self.count is None:
            return F.Array(elem, **kw)
        return F.Array(elem, count=self.count, **kw)

    def _n(self, env):
        return self.count if isinstance(self.count, int) else env[self.count]

    def enc(self, v, env):
        if not isinstance(self.count, tuple) and self.count is not None:
            if len(v) != self._n(env):
                raise Bad("wrong number of elements")
        return b"".join(self.elem.enc(e, env) for e in v)

    def dec(self, data, pos, env):
        out = []
        while True:
            if self.count is None:
                if pos >= len(data):
                    return out, pos
            elif isinstance(self.count, tuple):
                if out and out[-1] == self.count[1]:
                    return out, pos
            elif len(out) >= self._n(env):
                return out, pos
            v, pos = self.elem.dec(data, pos, env)
            out.append(v)

    def loaded(self, v, env):
        return [self.elem.loaded(e, env) for e in v]

    def real(self, v, mode=0):
        return [self.elem.real(e, mode) for e in v]


class Nest(Kind):
    def __init__(self, spec, assigns):
        super().__init__("{" + spec.name + "}")
        self.spec = spec
        self.values = list(assigns)
        self.fixed = spec.fixed_size()
        self.canonical = spec.canonical()
        self.cls = None

    def make(self, F, **kw):
        self.cls = self.spec.build()
        return F.Nested(self.cls, **kw)

    def enc(self, v, env):
        return self.spec.dump(v)

    def dec(self, data, pos, env):
        return self.spec.load(data, pos)

    def loaded(self, v, env):
        return self.spec.loaded(v)

    def real(self, v, mode=0):
        inner = self.spec.real_values(v, mode)
        return self.cls(**inner) if mode == 1 else inner


class Uni(Kind):
    """A union; the field named ``tag`` is the index of the alternative."""

    def __init__(self, alts, tag, values=None):
        super().__init__("(" + "|".join(a.name for a in alts) + ")")
        self.alts, self.tag = alts, tag
        self.values = values or []
        self.canonical = all(a.canonical for a in alts)

    def make(self, F, **kw):
        choices = []
        for a in self.alts:
            if isinstance(a, Nest):
                a.cls = a.spec.build()
                choices.append(a.cls)
            else:
                choices.append(a.make(F))
        tag = self.tag

        def load_decider(stream, classes, context, loaded_fields):
            return classes[loaded_fields[tag]]

        def dump_decider(data, classes, context, all_fields):
            return classes[all_fields[tag]]

        return F.Union(
            *choices, load_decider=load_decider, dump_decider=dump_decider, **kw
        )

    def enc(self, v, env):
        return self.alts[env[self.tag]].enc(v, env)

    def dec(self, data, pos, env):
        if not 0 <= env[self.tag] < len(self.alts):
            raise BadData("no such alternative")
        return self.alts[env[self.tag]].dec(data, pos, env)

    def loaded(self, v, env):
        return self.alts[env[self.tag]].loaded(v, env)

    def real(self, v, mode=0):
        if isinstance(v, dict):
            for a in self.alts:
                if isinstance(a, Nest) and set(v) <= set(a.spec.names()):
                    return a.real(v, mode)
        return v


################################################################################
# Fields and structures


_CONTEXT = None


@contextlib.contextmanager
def context(obj):
    """Use ``obj`` as the context of everything the model does."""
    global _CONTEXT
    before, _CONTEXT = _CONTEXT, obj
    try:
        yield obj
    finally:
        _CONTEXT = before


class FS:
    """One field of a structure declaration."""

    def __init__(
        self,
        name,
        kind,
        present=None,
        npv=ABSENT,
        const=NOPE,
        default=NOPE,
        factory=None,
        computed=None,
        discard=False,
        null=NOPE,
        validate=(),
    ):
        self.name, self.kind = name, kind
        self.present, self.npv = present, npv
        self.const, self.default, self.factory = const, default, factory
        self.computed, self.discard, self.null = computed, discard, null
        self.validate = validate

    def __repr__(self):
        opts = []
        for k in ("const", "default", "null"):
            if getattr(self, k) is not NOPE:
                opts.append(f"{k}={getattr(self, k)!r}")
        if self.npv is not ABSENT:
            opts.append(f"not_present_value={self.npv!r}")
        for k in ("present", "factory", "computed", "discard"):
            if getattr(self, k):
                opts.append(k)
        return f"{self.name}:{self.kind}" + (f"({', '.join(opts)})" if opts else "")

    def kwargs(self, F):
        kw = {}
        if self.present is not None:
            kw["present"] = self.present
        if self.npv is not ABSENT:
            kw["not_present_value"] = self.npv
        if self.const is not NOPE:
            kw["const"] = self.kind.real(self.const)
        if self.default is not NOPE:
            kw["default"] = self.default
        if self.factory is not None:
            kw["factory"] = self.factory
        if self.discard:
            kw["discard"] = True
        if self.null is not NOPE:
            kw["null_value"] = F.DEFAULT if self.null is DEFAULT else self.null
        if self.validate:
            kw["validate"] = self.validate
        return kw

    def null_bytes(self, env):
        if self.null is NOPE:
            raise Bad("not nullable")
        if isinstance(self.null, bytes):
            return self.null
        if self.null is DEFAULT:
            if self.kind.fixed is not None:
                return b"\0" * self.kind.fixed
            size = getattr(self.kind, "size", None)
            if isinstance(size, str):
                return b"\0" * env[size]
            raise Bad("unknown size")
        return self.kind.enc(self.null, env)

    @property
    def fixed(self):
        if self.present is not None:
            return None
        if self.kind.fixed is not None:
            return self.kind.fixed
        if self.const is not NOPE and (
            isinstance(self.kind, (StrZ, VarInt)) or self.kind.sized_value
        ):
            return len(self.kind.enc(self.const, {}))
        return None

    def enc(self, v, env):
        if v is None:
            return self.null_bytes(env)
        return self.kind.enc(v, env)


class _Lazy:
    """The values a callback sees: computed fields are computed when asked for."""

    def __init__(self, spec, env):
        self.spec, self.env = spec, env

    def __getitem__(self, name):
        if name in self.env:
            return self.env[name]
        f = self.spec.field(name)
        if f.computed is None:
            raise KeyError(name)
        return f.computed(self)


class Spec:

    def __init__(self, fields, parent=None, name="S", meta=None, style="assign", extra=None):
        self.own, self.parent, self.name = list(fields), parent, name
        self.meta, self.style = meta, style
        self.extra = extra or {}

    def __repr__(self):
        head = f"{self.name}" + (f"<{self.parent!r}>" if self.parent else "")
        style = "" if self.style == "assign" else f" [{self.style}]"
        return f"{head}({', '.join(map(repr, self.own))}){style}"

    def fields(self):
        return (self.parent.fields() if self.parent else []) + self.own

    def names(self):
        return [f.name for f in self.fields()]

    def field(self, name):
        return next(f for f in self.fields() if f.name == name)

    def fixed_size(self):
        total = 0
        for f in self.fields():
            if f.fixed is None:
                return None
            total += f.fixed
        return total

    def canonical(self):
        return all(f.kind.canonical for f in self.fields())

    def greedy(self):
        return any(f.kind.greedy for f in self.fields())

    # -- what it means

    def resolve(self, assigned, ctx=None):
        """All fields with the value each is dumped with (or ABSENT)."""
        env, missing = {}, []
        for f in self.fields():
            if f.name in assigned:
                env[f.name] = assigned[f.name]
            elif f.const is not NOPE:
                env[f.name] = f.const
            elif f.default is not NOPE:
                env[f.name] = f.default
            elif f.factory is not None:
                env[f.name] = f.factory()
            elif f.computed is None:
                missing.append(f)
        for f in self.fields():
            if f.name not in env and f not in missing:
                if f.present is None or f.present(env, ctx or _CONTEXT, None):
                    env[f.name] = f.computed(env)
        out = []
        for f in self.fields():
            if f.present is not None and not f.present(env, ctx or _CONTEXT, None):
                out.append((f, ABSENT))
            elif f in missing:
                raise Missing(f.name)
            else:
                out.append((f, env[f.name]))
        return out, env

    def pieces(self, assigned, ctx=None):
        """[(field, its bytes, or None if absent)]"""
        resolved, env = self.resolve(assigned, ctx)
        return [(f, None if v is ABSENT else f.enc(v, env)) for f, v in resolved]

    def dump(self, assigned, ctx=None):
        return b"".join(p or b"" for _f, p in self.pieces(assigned, ctx))

    def available(self, assigned, ctx=None):
        """[(field, value, ABSENT or NOPE)] of a possibly incomplete structure."""
        env = {}
        for f in self.fields():
            if f.name in assigned:
                env[f.name] = assigned[f.name]
            elif f.const is not NOPE:
                env[f.name] = f.const
            elif f.default is not NOPE:
                env[f.name] = f.default
            elif f.factory is not None:
                env[f.name] = f.factory()
        lazy = _Lazy(self, env)
        out = []
        for f in self.fields():
            try:
                if f.present is not None and not f.present(lazy, ctx or _CONTEXT, None):
                    v = ABSENT
                else:
                    v = lazy[f.name]
            except KeyError:
                v = NOPE
            out.append((f, v))
        return out, {f.name: v for f, v in out if v is not NOPE}

    def loaded(self, assigned, ctx=None, keep_discard=False):
        """The values a load of the dump gives."""
        resolved, env = self.resolve(assigned, ctx)
        out = {}
        for f, v in resolved:
            if f.discard and not keep_discard:
                continue
            if v is ABSENT:
                out[f.name] = f.npv
            elif v is None:
                out[f.name] = None
            else:
                lv = f.kind.loaded(v, env)
                if f.null is not NOPE and (
                    f.enc(v, env) == f.null_bytes(env) or same_model(lv, f.null)
                ):
                    lv = None
                out[f.name] = lv
        return out

    def load(self, data, pos=0, ctx=None, keep_discard=False):
        """Load from bytes: (values, position after).  Raises Eof or BadData."""
        env, out = {}, {}
        for f in self.fields():
            if f.present is not None and not self._reads(f, data, pos, env, ctx):
                v = f.npv
            else:
                v, pos = self._load_field(f, data, pos, env)
            env[f.name] = v
            if keep_discard or not f.discard:
                out[f.name] = v
        return out, pos

    @staticmethod
    def _reads(f, data, pos, env, ctx):
        stream = io.BytesIO(data)
        stream.seek(pos)
        return f.present(env, ctx or _CONTEXT, stream)

    def _load_field(self, f, data, pos, env):
        if f.null is not NOPE:
            nb = f.null_bytes(env)
            if data[pos : pos + len(nb)] == nb:
                return None, pos + len(nb)
        kind = f.kind
        if f.const is not NOPE and isinstance(kind, StrZ) and kind.size is None:
            # The size of a constant is known.
            kind = StrZ(kind.encoding, len(kind.enc(f.const, env)), values=[])
        v, pos = kind.dec(data, pos, env)
        if f.null is not NOPE and f.null is not DEFAULT and same_model(v, f.null):
            return None, pos
        if f.const is not NOPE and not same_model(v, f.const):
            raise BadData(f"{f.name} isn't {f.const!r}")
        return v, pos

    # -- the same thing, declared with the library

    def build(self):
        import binobj
        from binobj import fields as F

        base = self.parent.build() if self.parent else binobj.Struct
        ns = {"__module__": __name__, "__qualname__": self.name}
        if self.meta is not None:
            ns["Meta"] = type("Meta", (), {"argument_defaults": dict(self.meta)})
        ns.update(self.extra)
        made = {}
        for f in self.own:
            made[f.name] = self._make(F, f, made)
        if self.style == "assign":
            for f in self.own:
                ns[f.name] = made[f.name]
        else:
            import typing

            notes = {}
            for f in self.own:
                obj = made[f.name]
                if self.style == "annotated":
                    obj = typing.Annotated[typing.Any, obj]
                elif self.style == "class":
                    obj = self._annotation_class(F, f, made)
                notes[f.name] = obj
                if self.style == "class" and f.default is not NOPE:
                    ns[f.name] = f.default
            ns["__annotations__"] = notes
        cls = type(base)(self.name, (base,), ns)
        if self.style != "assign":
            cls = binobj.dataclass(cls)
        for f in self.own:
            if f.computed is not None:
                getattr(cls, f.name).computes(_compute_adapter(f.computed))
        return cls

    def _make(self, F, f, made):
        kind = f.kind
        kw = f.kwargs(F)
        if isinstance(kind, (Raw, Str, StrZ)) and isinstance(kind.size, str):
            if getattr(kind, "by_field", False) and kind.size in made:
                saved, kind.size = kind.size, made[kind.size]
                try:
                    return kind.make(F, **kw)
                finally:
                    kind.size = saved
        if isinstance(kind, Arr) and kind.by_field and kind.count in made:
            saved, kind.count = kind.count, made[kind.count]
            try:
                return kind.make(F, **kw)
            finally:
                kind.count = saved
        return kind.make(F, **kw)

    def _annotation_class(self, F, f, made):
        """The bare class to annotate with, where that's possible."""
        k = f.kind
        plain = f.present is None and f.const is NOPE and not f.discard
        plain = plain and f.null is NOPE and f.factory is None and not f.validate
        if plain and f.npv is ABSENT:
            if isinstance(k, Int) and k.native and not k.generic:
                if (k.size, k.signed) in NAMED_INTS:
                    return getattr(F, NAMED_INTS[k.size, k.signed])
            if isinstance(k, Float) and k.native:
                return getattr(F, Float.NAMES[k.size])
            if isinstance(k, StrZ) and k.size is None and k.encoding == "iso-8859-1":
                return F.StringZ
            if isinstance(k, Uuid) and k.fmt == "bin1":
                return F.UUID4
            if isinstance(k, Nest):
                return made[f.name].struct_class
        return made[f.name]

    def real_values(self, assigned, mode=0):
        out = {}
        for name, v in assigned.items():
            f = self.field(name)
            out[name] = v if v is None else f.kind.real(v, mode)
        return out


def _compute_adapter(fn):
    def compute(_field, all_fields):
        return fn(all_fields)

    return compute


################################################################################
# Comparing


def same_model(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return pystruct.pack(">d", a) == pystruct.pack(">d", b) or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_model(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_model(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def plain(value):
    """Turn what the library returns into model values."""
    import binobj
    from binobj import fields as F

    if value is F.NOT_PRESENT:
        return ABSENT
    if isinstance(value, binobj.Struct):
        return {n: plain(value[n]) for n in value}
    if isinstance(value, dict):
        return {n: plain(v) for n, v in value.items()}
    if isinstance(value, list):
        return [plain(v) for v in value]
    return value
