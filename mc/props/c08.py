"""C08: reading one field is the same as loading everything."""

import functools

from mc.history import history_body
from mc.history import see_single
from mc.lib import attempt
from mc.lib import fail
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.model import plain
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; every field of every declaration: every field kind in every position, all"
    " ordered pairs of items, all triples of small items, with and without inheritance;"
    " start offsets 0, 1 and 5; every truncation of the first two assignments;"
    " arrays that end in 11 ways, most of which depend on other fields or the context, of 6"
    " sorts of elements, three of which depend on other fields",
    "thorough": "histories of 4 moves; quick with every truncation of all assignments, plus all quadruples of"
    " small items and all triples of items",
}
ASSUMPTIONS = []

OFFSETS = (b"", b"\xff", b"\0\1\2\3\4")


def judge_with(n_cut):
    def judge(case, rec):
        from binobj import errors

        spec = case.spec
        cls = spec.build()
        for i, assign in enumerate(case.assigns):
            pieces = spec.pieces(assign)
            raw = b"".join(p or b"" for _f, p in pieces)
            loaded = spec.loaded(assign, keep_discard=True)
            # What a full load gives is checked too, so the two are compared.
            full = cls.from_bytes(raw)
            for f in spec.fields():
                if not f.discard:
                    same(plain(getattr(full, f.name)), loaded[f.name], f"full load: {f.name}")
            sizes = {f.name: len(p or b"") for f, p in pieces}
            ends, pos = {}, 0
            for f, p in pieces:
                pos += len(p or b"")
                ends[f.name] = pos
            for k, before in enumerate(OFFSETS):
                if k and i > 2:
                    break
                tail = b"" if spec.greedy() else b"\x07" * k
                for f in spec.fields():
                    note(rec, spec, values=assign, data=raw, offset=len(before), field=f.name)
                    stream = stream_at(raw, before, tail)
                    got = plain(cls.get_field(stream, f.name))
                    same(got, loaded[f.name], f"get_field({f.name}) in {short(raw)}")
                    if stream.tell() != len(before):
                        fail(f"get_field({f.name}) leaves the stream at {stream.tell()}")
                    rec.step()
                    rec.state(repr(spec), repr(assign), f.name, k)
            rec.traced()
            if spec.greedy() or i >= n_cut:
                continue
            for cut in range(len(raw)):
                before = OFFSETS[cut % 3]
                for f in spec.fields():
                    note(rec, spec, values=assign, data=raw, cut=cut, field=f.name)
                    stream = stream_at(raw[:cut], before)
                    how, got = attempt(cls.get_field, stream, f.name)
                    if ends[f.name] <= cut:
                        if how != "ok":
                            fail(f"get_field({f.name}) fails with {got!r} though it's all there")
                        same(plain(got), loaded[f.name], f"get_field({f.name})")
                    elif how == "ok" and sizes[f.name] == 0:
                        pass  # nothing of it is missing
                    elif how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
                        fail(f"get_field({f.name}) of a cut field: {how} {got!r}")
                    if stream.tell() != len(before):
                        fail(
                            f"get_field({f.name}) leaves the stream at {stream.tell()},"
                            f" not {len(before)}"
                        )
                    rec.step()
                    rec.state(repr(spec), repr(assign), f.name, "cut", cut)
                    rec.outcome(how, type(got).__name__)
        rec.sample(repr(spec))

    return judge


def corrupt(ch, rec):
    """Data that doesn't decode: the position is restored all the same."""
    from binobj import fields as F
    import binobj

    def validate(field, value):
        if value == 9:
            raise binobj.errors.ValidationError(field=field, value=value)

    class S(binobj.Struct):
        a = F.UInt8(validate=validate)
        m = F.UInt16(endian="big", const=0x4142)
        t = F.String(size=2, encoding="utf-8")
        n = F.UInt8()
        v = F.Bytes(size=n)
        z = F.StringZ(encoding="utf-16-le")
        e = F.UInt8(validate=validate)
        w = F.UInt8(validate=lambda f, v: 1 // (v - 9))

    good = [b"\x01", b"AB", b"hi", b"\x02", b"xy", b"q\0\0\0", b"\x05", b"\x06"]
    bad = [b"\x09", b"AC", b"\xff\xff", None, None, b"\x00\xd8\x00\x00\0\0", b"\x09", b"\x09"]
    names = ["a", "m", "t", "n", "v", "z", "e", "w"]
    values = [1, 0x4142, "hi", 2, b"xy", "q", 5, 6]
    which = [ch.flag() if b is not None else False for b in bad]
    data = b"".join(b if w else g for g, b, w in zip(good, bad, which))
    for before in OFFSETS:
        for i, name in enumerate(names):
            rec.case = lambda: f"data {data!r}, field {name}, offset {len(before)}"
            stream = stream_at(before=before, data=data)
            how, got = attempt(S.get_field, stream, name)
            if stream.tell() != len(before):
                fail(f"get_field leaves the stream at {stream.tell()} ({how} {got!r})")
            if which[i] and how == "ok":
                fail(f"get_field accepts bad data: {got!r}")
            if not any(which[: i + 1]):
                if how != "ok":
                    fail(f"get_field fails with {got!r}")
                same(got, values[i], "get_field")
            rec.step()
            rec.state("corrupt", which, name, len(before))
            rec.outcome(how, type(got).__name__)
    rec.traced()


def array_types(n):
    """Ways for an array to end that depend on other fields, or on the context."""
    from binobj import fields as F

    class Until(F.Array):
        @staticmethod
        def should_halt(seq, stream, values, context, loaded_fields):
            return len(values) >= loaded_fields["n"]

    class UntilMethod(F.Array):
        def should_halt(self, seq, stream, values, context, loaded_fields):
            return len(values) >= loaded_fields["n"]

    class Checked(F.Array):
        def __init__(self, component, **kwargs):
            super().__init__(component, halt_check=self.enough, **kwargs)

        @classmethod
        def enough(cls, seq, stream, values, context, loaded_fields):
            return len(values) >= loaded_fields["n"]

    class Context(F.Array):
        @staticmethod
        def should_halt(seq, stream, values, context, loaded_fields):
            return len(values) >= context

    class Sub(Until):
        pass

    def given(seq, stream, values, context, loaded_fields):
        return len(values) >= loaded_fields["n"]

    return {
        "overridden": lambda c: Until(c),
        "method": lambda c: UntilMethod(c),
        "given by the type": lambda c: Checked(c),
        "context": lambda c: Context(c),
        "inherited": lambda c: Sub(c),
        "given": lambda c: F.Array(c, halt_check=given),
        "partial": lambda c: F.Array(c, halt_check=functools.partial(given)),
        "given, counted": lambda c: F.Array(c, count=3, halt_check=given),
        "name": lambda c: F.Array(c, count="n"),
        "number": lambda c: F.Array(c, count=n),
        "of arrays": lambda c: F.Array(Until(c), count=1),
    }


def arrays(ch, rec):
    """Arrays that need other fields, whoever decides that they're at their end."""
    import binobj
    from binobj import fields as F

    n = ch.choose(range(4))
    ways = array_types(n)
    way = ch.choose(sorted(ways))
    elem = ch.choose(("byte", "text", "nested", "conditional", "sized", "chosen"))
    place = ch.choose(("after it", "after others", "inherited", "after a variable one"))

    class In(binobj.Struct):
        p = F.UInt8()

    component, values, raw = {
        "byte": (F.UInt8(), [5, 6, 7], [b"\5", b"\6", b"\7"]),
        "text": (F.StringZ(), ["a", "", "bc"], [b"a\0", b"\0", b"bc\0"]),
        "nested": (F.Nested(In), [{"p": 1}, {"p": 2}, {"p": 3}], [b"\1", b"\2", b"\3"]),
        "conditional": (
            F.UInt8(present=lambda values, *_: values["n"] >= 0), [5, 6, 7], [b"\5", b"\6", b"\7"]
        ),
        "sized": (F.Bytes(size="n"), [b"abc"[:n]] * 3, [b"abc"[:n]] * 3),
        "chosen": (
            F.Union(
                F.UInt8(), F.UInt16(endian="big"),
                load_decider=lambda s, c, _c, values: c[values["n"] > 1],
                dump_decider=lambda d, c, _c, values: c[values["n"] > 1],
            ),
            [5, 6, 7],
            [b"\0"[: n > 1] + bytes([v]) for v in (5, 6, 7)],
        ),
    }[elem]
    if (elem == "sized" and n == 0) or (way == "given, counted" and n != 3):
        return
    field = ways[way](component)

    if place == "inherited":

        class P(binobj.Struct):
            n = F.UInt8()

        class S(P):
            x = field
            e = F.UInt8()

        head = b""
    elif place == "after it":

        class S(binobj.Struct):
            n = F.UInt8()
            x = field
            e = F.UInt8()

        head = b""
    elif place == "after others":

        class S(binobj.Struct):
            n = F.UInt8()
            o = F.UInt16()
            x = field
            e = F.UInt8()

        head = b"ab"
    else:

        class S(binobj.Struct):
            n = F.UInt8()
            o = F.StringZ()
            x = field
            e = F.UInt8()

        head = b"ab\0"
    values, raw = values[:n], b"".join(raw[:n])
    if way == "of arrays":
        values = [values]
    data = bytes([n]) + head + raw + b"\x09"
    for before in OFFSETS:
        rec.case = lambda: f"{way}, {elem}, {place}, {n}, offset {len(before)}"
        whole = S.from_stream(stream_at(data, before), n)
        same(plain(whole.x), values, "the whole")
        for name, want in (("x", values), ("e", 9), ("n", n)):
            stream = stream_at(data + b"\xff", before)
            how, got = attempt(S.get_field, stream, name, n)
            if how != "ok":
                fail(f"get_field({name}) raises {got!r}")
            same(plain(got), want, f"get_field({name})")
            if stream.tell() != len(before):
                fail(f"get_field({name}) leaves the stream at {stream.tell()}")
            stream = stream_at(data + b"\xff", before)
            part = S.partial_load(stream, name, n)
            same(plain(part[name]), want, f"partial_load({name})")
            rec.step(2)
        rec.state(way, elem, place, n, len(before))
    rec.traced()


def bodies(tier, seed):
    out = {}
    n = 99 if tier == "thorough" else 2
    out.update(each_case(judge_with(n), families(tier)))
    out["corrupt"] = corrupt
    out["arrays"] = arrays
    watchers = [see_single]
    depth = 4 if tier == "thorough" else 3
    out["histories"] = history_body(watchers, depth)
    return out
