"""Field types defined by a user of the library, and what they mean.

The library documents how to add a field type (``_do_load`` and ``_do_dump``).  These are
written the way its documentation shows, and must work in every place a built-in one
does.
"""

import datetime
import functools

from mc.model import Bad
from mc.model import BadData
from mc.model import bytes_int
from mc.model import int_bytes
from mc.model import Kind
from mc.model import take


@functools.lru_cache(maxsize=None)
def classes():
    import binobj
    from binobj import errors
    from binobj import fields as F

    class Date(binobj.Field):
        """The example of the documentation, with a size."""

        def __init__(self, **kwargs):
            super().__init__(size=8, **kwargs)

        def _do_load(self, stream, context, loaded_fields):
            raw = self._read_exact_size(stream, loaded_fields)
            try:
                return datetime.datetime.strptime(raw.decode("ascii"), "%Y%m%d").date()
            except ValueError as exc:
                raise errors.DeserializationError(str(exc), field=self, data=raw) from exc

        def _do_dump(self, stream, data, context, all_fields):
            if not isinstance(data, datetime.date):
                raise errors.UnserializableValueError(field=self, value=data)
            stream.write(b"%04d" % data.year)
            stream.write(b"%02d%02d" % (data.month, data.day))

    class Pascal(binobj.Field):
        """Text after a byte that gives its length: a size that depends on the value."""

        def _do_load(self, stream, context, loaded_fields):
            offset = stream.tell()
            head = stream.read(1)
            raw = stream.read(head[0]) if head else b""
            if not head or len(raw) < head[0]:
                raise errors.UnexpectedEOFError(field=self, size=1, offset=offset)
            return raw.decode("latin-1")

        def _do_dump(self, stream, data, context, all_fields):
            if len(data) > 255:
                raise errors.UnserializableValueError(field=self, value=data)
            stream.write(bytes([len(data)]))
            stream.write(data.encode("latin-1"))

        def _size_for_value(self, value):
            return 1 + len(value)

    class Percent(F.UInt16):
        """A library field with a different value: hundredths."""

        def _do_load(self, stream, context, loaded_fields):
            return super()._do_load(stream, context, loaded_fields) / 128

        def _do_dump(self, stream, data, context, all_fields):
            super()._do_dump(stream, int(data * 128), context, all_fields)

    class Pair(binobj.Field):
        """A composite that delegates to fields of the library."""

        def __init__(self, **kwargs):
            super().__init__(size=3, **kwargs)
            self.first = F.UInt8()
            self.second = F.Int16(endian="little")

        def _do_load(self, stream, context, loaded_fields):
            first = self.first.from_stream(stream, context, loaded_fields)
            return [first, self.second.from_stream(stream, context, loaded_fields)]

        def _do_dump(self, stream, data, context, all_fields):
            first, second = data
            self.first.to_stream(stream, first, context, all_fields)
            self.second.to_stream(stream, second, context, all_fields)

    return {"date": Date, "pascal": Pascal, "percent": Percent, "pair": Pair}


class Own(Kind):
    what = None

    def __init__(self):
        super().__init__("own-" + self.what)

    def make(self, F, **kw):
        return classes()[self.what](**kw)


class OwnDate(Own):
    what = "date"
    fixed = 8
    canonical = False  # it also reads the likes of "2019 101"
    values = [datetime.date(2019, 2, 28), datetime.date(1000, 1, 1), datetime.date(9999, 12, 31)]

    def enc(self, v, env):
        return ("%d%02d%02d" % (v.year, v.month, v.day)).encode()

    def dec(self, data, pos, env):
        raw, pos = take(data, pos, 8)
        try:
            return datetime.datetime.strptime(raw.decode("ascii"), "%Y%m%d").date(), pos
        except ValueError as exc:
            raise BadData(str(exc)) from None


class OwnPascal(Own):
    what = "pascal"
    sized_value = True
    values = ["h\u00e9", "", "\0a\xff", "x" * 255]
    bad = ["x" * 256, "x" * 600]

    def enc(self, v, env):
        if len(v) > 255:
            raise Bad("too long")
        return bytes([len(v)]) + bytes(ord(c) for c in v)

    def dec(self, data, pos, env):
        (n,), pos = take(data, pos, 1)
        raw, pos = take(data, pos, n)
        return "".join(map(chr, raw)), pos


class OwnPercent(Own):
    what = "percent"
    fixed = 2
    values = [258.0078125, 0.0, 511.9921875, 1.5]
    bad = [512.0, -1.0]

    def make(self, F, **kw):
        return super().make(F, endian="big", **kw)

    def enc(self, v, env):
        n = int(v * 128)
        if not 0 <= n < 65536:
            raise Bad("doesn't fit")
        return int_bytes(n, 2, "big")

    def dec(self, data, pos, env):
        raw, pos = take(data, pos, 2)
        return bytes_int(raw, False, "big") / 128, pos


class OwnPair(Own):
    what = "pair"
    fixed = 3
    values = [[1, 0x0203], [255, -2], [0, 0]]
    bad = [[256, 0], [0, 32768], [-1, 0]]

    def enc(self, v, env):
        if not (0 <= v[0] < 256 and -32768 <= v[1] < 32768):
            raise Bad("doesn't fit")
        return int_bytes(v[0], 1, "big") + int_bytes(v[1] % 65536, 2, "little")

    def dec(self, data, pos, env):
        raw, pos = take(data, pos, 3)
        return [raw[0], bytes_int(raw[1:], True, "little")], pos


OWN = (OwnDate, OwnPascal, OwnPercent, OwnPair)
