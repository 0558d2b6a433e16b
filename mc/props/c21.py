"""C21: arrays hold exactly the declared elements."""

import collections
import collections.abc
import io
import itertools

from mc.history import has
from mc.history import history_body
from mc.history import see_bytes
from mc.history import see_loaded
from mc.history import see_size
from mc.items import KINDS
from mc.items import U8
from mc.lib import attempt
from mc.lib import fail
from mc.lib import has_structs
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.model import Arr
from mc.model import Bad
from mc.model import Eof
from mc.model import Float
from mc.model import Int
from mc.model import Nest
from mc.model import plain
from mc.model import Raw
from mc.model import Str
from mc.model import StrZ
from mc.model import Uuid
from mc.model import VarInt

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; every kind of element with 9 ways to say where the array ends (fixed, named,"
    " referenced and computed counts, a count in a parent, the end of the data, three stop"
    " rules), 0 to 3 elements, as list, tuple and generator; 10 kinds with all 16 combinations"
    " of count and number given, as 15 sorts of iterable, dumped in 6 ways and exported, loaded in 5 ways,"
    " cut at every byte; counts of 255 to 66000; arrays in arrays, and counts with the same"
    " name in different scopes; all combinations of 7 options of arrays and their elements with"
    " values equal to them",
    "thorough": "histories of 4 moves; every kind with every iterable, up to 5 elements",
}
ASSUMPTIONS = [
    "an iterator can be used up by one dump; negative counts aren't covered (they load as [])",
]


class OnlyIter:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class SizedIter(OnlyIter):
    def __len__(self):
        return len(self.items)


class OwnSequence(collections.abc.Sequence):
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)


class OldStyle:
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


class ListChild(list):
    pass


def generator(items):
    yield from items


CONTAINERS = {
    "list": list,
    "tuple": tuple,
    "generator": generator,
    "iterator": lambda v: iter(list(v)),
    "map": lambda v: map(lambda e: e, v),
    "deque": collections.deque,
    "dict values": lambda v: dict(enumerate(v)).values(),
    "iterable": OnlyIter,
    "sized iterable": SizedIter,
    "sequence": OwnSequence,
    "old-style": OldStyle,
    "list child": ListChild,
    "user list": collections.UserList,
    "reversed": lambda v: reversed(list(v)[::-1]),
    "chain": lambda v: itertools.chain(v[:1], v[1:]),
}
FEW = ("list", "tuple", "generator")


def special(kind, v):
    """Iterables only some elements can be given as."""
    out = {}
    if isinstance(kind, Int) and all(0 <= e < 256 for e in v):
        out["bytes"] = bytes
        out["bytearray"] = bytearray
        if list(v) == list(range(v[0], v[0] + len(v)) if v else ()):
            out["range"] = lambda v: range(v[0], v[0] + len(v)) if v else range(0)
    if isinstance(kind, (Str, StrZ)) and all(len(e) == 1 for e in v):
        out["str"] = "".join
    if len(v) < 2 and not has_structs(kind) and not isinstance(kind, Arr):
        out["set"] = set
        out["keys"] = lambda v: dict.fromkeys(v).keys()
    return out


STYLES = (
    "fixed",
    "name",
    "field",
    "computed",
    "parent",
    "end",
    "rule",
    "context",
    "subclass",
)
COUNTED = STYLES[:5]


def declare(kind, style, n):
    """A structure with a count, an array and (unless it goes to the end) a tail."""
    import binobj
    from binobj import fields as F

    elem = kind.make(F)
    number = F.UInt8()
    if style == "fixed":
        array = F.Array(elem, count=n)
    elif style in ("name", "parent"):
        array = F.Array(elem, count="n")
    elif style in ("field", "computed"):
        array = F.Array(elem, count=number)
    elif style == "end":
        array = F.Array(elem)
    elif style == "rule":
        array = F.Array(elem, halt_check=lambda a, s, v, c, f: len(v) >= f["n"])
    elif style == "context":
        array = F.Array(elem, halt_check=lambda a, s, v, c, f: len(v) >= c)
    else:

        class Own(F.Array):
            @staticmethod
            def should_halt(seq, stream, values, context, loaded_fields):
                return len(values) >= loaded_fields["n"]

        array = Own(elem)
    if style == "computed":
        number.computes(lambda self, f: len(f["x"]))
    if style == "parent":
        base = type("P", (binobj.Struct,), {"n": number})
        return type("S", (base,), {"x": array, "tail": F.UInt8()})
    body = {"n": number, "x": array}
    if style != "end":
        body["tail"] = F.UInt8()
    return type("S", (binobj.Struct,), body)


def elements(kind, m):
    ev = list(kind.values)
    return [ev[(i * 3 + m) % len(ev)] for i in range(m)]


def dumps(cls, style, n, make, context):
    """{way: function giving (bytes written, of what's expected without a tail)}."""
    base = {} if style == "computed" else {"n": n}
    if style != "end":
        base["tail"] = 0x77

    def instance():
        return cls(x=make(), **base)

    def later():
        inst = cls(**base)
        inst.x = make()
        return inst

    def streamed(fn, *args):
        s = io.BytesIO()
        s.write(b"ab")
        try:
            fn(s, *args)
        except Exception as exc:
            exc.written = s.getvalue()[2:]
            raise
        return s.getvalue()[2:]

    return {
        "to_bytes": lambda: instance().to_bytes(context),
        "assigned": lambda: later().to_bytes(context),
        "to_stream": lambda: streamed(instance().to_stream, context),
        "partial_dump": lambda: streamed(instance().partial_dump, None, context),
        "of the field": lambda: bytes([n])
        + cls.x.to_bytes(make(), context, {"n": n, "tail": 0x77})
        + (b"" if style == "end" else b"\x77"),
        "of the field to a stream": lambda: bytes([n])
        + streamed(cls.x.to_stream, make(), context, {"n": n})
        + (b"" if style == "end" else b"\x77"),
    }


def dumping(cls, kind, style, n, v, containers, ways, rec):
    from binobj import errors

    m = len(v)
    fits = style not in COUNTED or n == m
    tail = b"" if style == "end" else b"\x77"
    expected = bytes([n]) + b"".join(kind.enc(e, {}) for e in v) + tail
    for name, make in containers.items():
        for mode in (0, 1) if has_structs(kind) else (0,):
            for way, run in dumps(
                cls, style, n, lambda: make([kind.real(e, mode) for e in v]), n
            ).items():
                if ways and way not in ways:
                    continue
                if style == "computed" and not hasattr(make([]), "__len__"):
                    continue
                rec.case = lambda: (
                    f"{kind!r}, {style}, count {n}, given {v!r} as {name}, {way}, mode {mode}"
                )
                how, got = attempt(run)
                rec.step()
                if fits and (how != "ok" or got != expected):
                    fail(f"{how}: {short(got) if how == 'ok' else repr(got)}, expected {short(expected)}")
                if not fits:
                    if how == "ok":
                        fail(f"accepted and written as {short(got)}")
                    if not isinstance(got, errors.ArraySizeError):
                        fail(f"refused with {got!r}")
                    if got.n_expected != n:
                        fail(f"the error says {got.n_expected} elements were expected")
                    written = getattr(got, "written", b"")
                    if len(written) > 1:
                        fail(f"refused, but {short(written)} was written")
                rec.state(kind.name, style, n, name, way, m)
            if fits:
                rec.case = lambda: f"{kind!r}, {style}, {v!r} as {name}, exported, mode {mode}"
                exported(cls, style, n, [kind.real(e, mode) for e in v], make)
                rec.step()
    return expected


def exported(cls, style, n, values, make):
    """Sequences of any type become lists, without structures in them."""
    given = make(values)
    if not isinstance(given, collections.abc.Sequence) or isinstance(given, (str, bytes, bytearray)):
        return
    base = {} if style == "computed" else {"n": n}
    inst = cls(x=given, **base, **({} if style == "end" else {"tail": 1}))
    for keep in (True, False):
        got = inst.to_dict(keep)["x"]
        if type(got) is not list or len(got) != len(values):
            fail(f"to_dict() gives {got!r}")
        if without_structs(got) is not True:
            fail(f"to_dict() leaves a structure in {got!r}")


def without_structs(value):
    import binobj

    if isinstance(value, binobj.Struct):
        return False
    if isinstance(value, dict):
        return all(map(without_structs, value.values()))
    if isinstance(value, list):
        return all(map(without_structs, value))
    return True


def loading(cls, kind, style, n, v, raw, cuts, rec):
    from binobj import errors

    want = [kind.loaded(e, {}) for e in v]
    after = b"" if style == "end" else b"\x01\x02"
    last = len(raw) - (0 if style == "end" else 1)

    def at(before, op, end):
        s = stream_at(raw, before, after)
        got = op(s)
        if s.tell() != len(before) + end:
            fail(f"the stream is at {s.tell() - len(before)}, not {end}")
        return got

    def field(s):
        s.seek(1, io.SEEK_CUR)
        return cls.x.from_stream(s, n, {"n": n})

    ops = {
        "from_bytes": lambda: cls.from_bytes(raw, n).x,
        "from_stream": lambda: at(b"zz", lambda s: cls.from_stream(s, n), len(raw)).x,
        "partial_load": lambda: at(b"zz", lambda s: cls.partial_load(s, "x", n), last).x,
        "get_field": lambda: at(b"zz", lambda s: cls.get_field(s, "x", n), 0),
        "of the field": lambda: at(b"zz", field, last),
    }
    for name, op in ops.items():
        rec.case = lambda: f"{kind!r}, {style}, {name} of {raw!r}, expected {want!r}"
        got = op()
        if type(got) is not list:
            fail(f"gives {got!r}, not a list")
        same(plain(got), want, "the elements")
        rec.step()
    if not cuts:
        return
    ends = [1]
    for e in v:
        ends.append(ends[-1] + len(kind.enc(e, {})))
    for cut in range(1, last):
        data = raw[:cut]
        rec.case = lambda: f"{kind!r}, {style}, loading {data!r}"
        how, got = attempt(cls.from_bytes, data, n)
        if style == "end":
            if cut in ends:
                if how != "ok" or len(got.x) != ends.index(cut):
                    fail(f"{how} {got!r}, expected {ends.index(cut)} elements")
                rec.step()
                continue
            try:
                pos, loads = 1, True
                while pos < cut:
                    _v, pos = kind.dec(data, pos, {})
            except (Eof, Bad, ValueError):
                loads = False
            if loads:
                continue
        if how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
            fail(f"{how} {got!r}, expected the end-of-data error")
        rec.step()


def fitting(kind):
    if not kind.values or getattr(kind, "greedy", False):
        return False
    return kind.fixed != 0


def every_kind(most):
    def body(ch, rec):
        kind = ch.choose(KINDS)()
        style = ch.choose(STYLES)
        m = ch.pick(most + 1)
        if not fitting(kind):
            return
        v = elements(kind, m)
        cls = declare(kind, style, m)
        some = {k: CONTAINERS[k] for k in (FEW if most < 4 else CONTAINERS)}
        raw = dumping(cls, kind, style, m, v, some, ("to_bytes", "of the field"), rec)
        loading(cls, kind, style, m, v, raw, False, rec)
        rec.traced()
        rec.sample(f"{kind!r} {style} {m}: {short(raw)}")

    return body


def ten_kinds():
    inner = Nest(*_struct())
    return [
        U8(),
        Int(2, True, "little"),
        Int(3, False, "big"),
        VarInt("leb"),
        Raw(2),
        StrZ("utf-8"),
        Str(1),
        inner,
        Arr(U8(), 2),
        Uuid("bin1"),
        Float(4, "big"),
    ]


def _struct():
    from mc.items import _cond_struct

    return _cond_struct("El")


def combinations(most):
    makers = range(len(ten_kinds()))

    def body(ch, rec):
        kind = ten_kinds()[ch.choose(makers)]
        style = ch.choose(STYLES)
        n = ch.pick(most + 1)
        m = ch.pick(most + 1)
        if style == "computed" and n != m:
            return
        v = elements(kind, m)
        cls = declare(kind, style, n)
        raw = dumping(cls, kind, style, n, v, {**CONTAINERS, **special(kind, v)}, None, rec)
        if n == m:
            loading(cls, kind, style, n, v, raw, True, rec)
        elif style in ("rule", "context", "subclass") and m > n:
            # More elements than the rule lets it load: the tail comes from the elements.
            want = [kind.loaded(e, {}) for e in v[:n]]
            got = cls.partial_load(stream_at(raw), "x", n).x
            same(plain(got), want, "the elements the rule allows")
        endless(cls, kind, style, n, rec)
        broken(cls, kind, style, n, v, rec)
        rec.traced()

    return body


def endless(cls, kind, style, n, rec):
    """With a count, an iterator that never ends is refused."""
    from binobj import errors

    if style not in COUNTED or style == "computed":
        return
    taken = []

    def forever():
        while True:
            taken.append(1)
            if len(taken) > n + 50:
                raise RuntimeError("it doesn't stop taking elements")
            yield kind.real(kind.values[0], 0)

    rec.case = lambda: f"{kind!r}, {style}, count {n}, endless iterator"
    how, got = attempt(cls.x.to_bytes, forever(), None, {"n": n})
    if how == "ok" or not isinstance(got, errors.ArraySizeError):
        fail(f"{how} {got!r}")
    rec.step()


def broken(cls, kind, style, n, v, rec):
    """If an element is refused, or the iterator fails, nothing of the array is written."""
    if not v or (style in COUNTED and n != len(v)):
        return

    def failing(i):
        for k, e in enumerate(v):
            if k == i:
                raise ZeroDivisionError
            yield kind.real(e, 0)

    for i in range(len(v)):
        wrong = [kind.real(e, 0) for e in v]
        wrong[i] = None
        for make in (lambda: wrong, lambda: tuple(wrong), lambda: iter(wrong), lambda: failing(i)):
            rec.case = lambda: f"{kind!r}, {style}, {wrong!r}"
            s = io.BytesIO()
            how, got = attempt(cls.x.to_stream, s, make(), n, {"n": n})
            if how == "ok" or s.getvalue():
                fail(f"{how} {got!r}, written: {short(s.getvalue())}")
            rec.step()


def large(ch, rec):
    """Counts that don't fit a byte, or a short loop."""
    import binobj
    from binobj import fields as F

    n = ch.choose((127, 128, 255, 256, 257, 1000, 65535, 66000))
    style = ch.choose(("fixed", "field", "end"))
    container = ch.choose(("list", "generator"))

    count = n

    class T(binobj.Struct):
        n = F.UInt32(endian="big")
        if style == "fixed":
            x = F.Array(F.UInt8(), count=count)
        elif style == "field":
            x = F.Array(F.UInt8(), count=n)
        else:
            x = F.Array(F.UInt8())

    v = [i % 256 for i in range(n)]
    raw = n.to_bytes(4, "big") + bytes(v)
    rec.case = lambda: f"{n} elements, {style}, {container}"
    got = T(n=n, x=CONTAINERS[container](v)).to_bytes()
    if got != raw:
        fail(f"dumped {len(got)} bytes, expected {len(raw)}")
    if T.from_bytes(raw).x != v:
        fail("other elements are loaded")
    if style != "end":
        for other in (v + [1], v[:-1]):
            how, got = attempt(T(n=n, x=CONTAINERS[container](other)).to_bytes)
            if how == "ok":
                fail(f"{len(other)} elements are accepted")
        how, got = attempt(T.from_bytes, raw[:-1])
        if how == "ok":
            fail("truncated data is accepted")
    rec.step(5)
    rec.traced()
    rec.state(n, style, container)


def scopes(ch, rec):
    """Counts named alike in different structures, and arrays in arrays."""
    import binobj
    from binobj import fields as F

    style = ch.choose(("name", "field"))
    where = ch.choose(("nested", "array of nested", "array in array", "union", "after"))
    outer, inner = ch.pick(3), ch.pick(3)
    as_instance = ch.flag()

    number = F.UInt8()

    class I(binobj.Struct):  # noqa: E742
        n = number
        x = F.Array(F.UInt16(endian="big"), count=number if style == "field" else "n")

    v = list(range(1, inner + 1))
    part = bytes([inner]) + b"".join(e.to_bytes(2, "big") for e in v)
    item = {"n": inner, "x": v}
    given = I(**item) if as_instance else item
    top = F.UInt8()
    ref = top if style == "field" else "n"
    tail = [9] * outer

    if where == "nested":

        class S(binobj.Struct):
            n = top
            i = F.Nested(I)
            y = F.Array(F.UInt8(), count=ref)

        inst = S(n=outer, i=given, y=tail)
        raw = bytes([outer]) + part + bytes(tail)
        want = {"n": outer, "i": item, "y": tail}
    elif where == "array of nested":

        class S(binobj.Struct):
            n = top
            i = F.Array(F.Nested(I), count=ref)
            y = F.Array(F.UInt8(), count=ref)

        inst = S(n=outer, i=[given] * outer, y=tail)
        raw = bytes([outer]) + part * outer + bytes(tail)
        want = {"n": outer, "i": [item] * outer, "y": tail}
    elif where == "array in array":
        rows = [[k * 10 + e for e in range(outer)] for k in range(inner)]

        class S(binobj.Struct):
            n = top
            m = F.UInt8()
            i = F.Array(F.Array(F.UInt8(), count=ref), count="m")
            y = F.Array(F.UInt8(), count=ref)

        rest = [tuple(r) for r in rows] if as_instance else rows
        inst = S(n=outer, m=inner, i=rest, y=tail)
        raw = bytes([outer, inner]) + b"".join(map(bytes, rows)) + bytes(tail)
        want = {"n": outer, "m": inner, "i": rows, "y": tail}
    elif where == "union":

        class S(binobj.Struct):
            n = top
            i = F.Union(
                F.Array(F.UInt8(), count=ref),
                F.UInt8(),
                load_decider=lambda s, c, x, f: c[0],
                dump_decider=lambda d, c, x, f: c[0],
            )
            y = F.Array(F.UInt8(), count=ref)

        inst = S(n=outer, i=tuple(tail) if as_instance else tail, y=tail)
        raw = bytes([outer]) + bytes(tail) * 2
        want = {"n": outer, "i": tail, "y": tail}
    else:

        class S(binobj.Struct):
            i = F.Nested(I)
            n = top
            y = F.Array(F.UInt8(), count=ref)

        inst = S(i=given, n=outer, y=tail)
        raw = part + bytes([outer]) + bytes(tail)
        want = {"i": item, "n": outer, "y": tail}

    rec.case = lambda: f"{style}, {where}, outer {outer}, inner {inner}, instance {as_instance}"
    for _ in range(2):
        if inst.to_bytes() != raw:
            fail(f"dumped {short(inst.to_bytes())}, expected {short(raw)}")
        if len(inst) != len(raw):
            fail(f"len() is {len(inst)}, not {len(raw)}")
    loaded = S.from_bytes(raw)
    same({n: plain(getattr(loaded, n)) for n in want}, want, "loaded")
    for name, value in want.items():
        same(plain(S.get_field(io.BytesIO(raw), name)), value, f"get_field({name})")
    rec.step(5)
    rec.traced()
    rec.state(style, where, outer, inner, as_instance)


def own_options(ch, rec):
    """What's said about the array isn't taken to be about its elements, or vice versa."""
    import binobj
    from binobj import fields as F

    nothing = object()
    npv = ch.choose((nothing, None, 1, [1], "", []))
    null = ch.choose((nothing, b"\xfe\xfe", [254, 254]))
    elem_null = ch.choose((nothing, b"\xff", 255, 1))
    elem_npv = ch.choose((nothing, None, 2))
    default = ch.choose((nothing, [1, 2], None, []))
    counted = ch.choose((2, "n", None))
    present = ch.choose((None, True, False))
    values = ch.choose(([1, 2], [2, 2], [255, 1], [0, 255], [1, 1], [254, 254], [None, 1], None))
    kw, elem_kw = {}, {}
    if npv is not nothing:
        kw["not_present_value"] = npv
    if null is not nothing:
        kw["null_value"] = null
    if default is not nothing:
        kw["default"] = default
    if present is not None:
        kw["present"] = lambda *_: present
    if elem_null is not nothing:
        elem_kw["null_value"] = elem_null
    if elem_npv is not nothing:
        elem_kw["not_present_value"] = elem_npv
    nulls = {b"\xff": 255, 255: 255, 1: 1}.get(elem_null)
    if values is None and null is nothing:
        return
    if values is not None and None in values and nulls is None:
        return

    class S(binobj.Struct):
        n = F.UInt8()
        x = F.Array(F.UInt8(**elem_kw), count=counted, **kw)

    if values is None:
        body, want = b"\xfe\xfe", None
    else:
        body = bytes(nulls if v is None else v for v in values)
        want = [None if v in (nulls, None) else v for v in values]
    if body == b"\xfe\xfe" and null is not nothing:
        want = None
    rec.case = lambda: (
        f"Array(UInt8({elem_kw}), count={counted!r}, {kw}, present={present}) with {values!r}"
    )
    for inst in (S(n=2, x=values), S(n=2)):
        if "x" not in inst:
            inst.x = values
        raw = inst.to_bytes()
        expected = b"\2" + (b"" if present is False else body)
        if raw != expected:
            fail(f"dumps {short(raw)}, expected {short(expected)}")
        if len(inst) != len(raw):
            fail(f"len() is {len(inst)} for {short(raw)}")
    shown = want
    if present is False:
        shown = F.NOT_PRESENT if npv is nothing else npv
    for got in (
        S.from_bytes(raw).x,
        S.partial_load(io.BytesIO(raw)).x,
        S.get_field(io.BytesIO(raw), "x"),
        S.x.from_stream(io.BytesIO(raw[1:]), None, {"n": 2}),
    ):
        if got is not shown and got != shown or type(got) is not type(shown):
            fail(f"loads {got!r}, expected {shown!r}")
    rec.step(6)
    rec.traced()
    rec.state(repr((kw.keys(), npv, null, elem_null, elem_npv, default, counted, present, values)))


def bodies(tier, seed):
    most = 5 if tier == "thorough" else 3
    out = {
        "every-kind": every_kind(most),
        "combinations": combinations(most),
        "large": large,
        "scopes": scopes,
        "own-options": own_options,
    }
    watchers = [see_bytes, see_size, see_loaded]
    depth = 4 if tier == "thorough" else 3
    out["histories"] = history_body(watchers, depth, has(Arr))
    return out
