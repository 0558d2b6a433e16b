"""C09: partial operations are prefixes of the complete ones."""

import io
import itertools

from mc.history import history_body
from mc.history import see_partial
from mc.lib import attempt
from mc.lib import fail
from mc.lib import modes
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.model import ABSENT
from mc.model import NOPE
from mc.model import plain
from mc.props.c05 import judge_malformed
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; every stop field of every declaration: every field kind in every position, all"
    " ordered pairs of items, all triples of small items, with and without inheritance;"
    " partial dumps of every subset (of up to 5 assigned fields) of two assignments (one"
    " for triples); start"
    " offsets 0 to 2; every byte of every field kind in every position changed; structures"
    " that lack a value in 6 sorts of fields in 9 places",
    "thorough": "histories of 4 moves; quick with all subsets of all assignments, plus all quadruples of small"
    " items and all triples of items",
}
ASSUMPTIONS = []


def judge_with(n_subsets):
    def judge(case, rec):
        spec = case.spec
        cls = spec.build()
        for i, assign in enumerate(case.assigns):
            check_loads(spec, cls, assign, i % 3, rec)
            mode = modes(spec)[-1] if i % 2 else 0
            real = spec.real_values(assign, mode)
            keys = list(assign)[:5]
            if i < n_subsets:
                subsets = itertools.chain.from_iterable(
                    itertools.combinations(keys, n) for n in range(len(keys) + 1)
                )
            else:
                subsets = [(), *((k,) for k in keys)]
            for dropped in subsets:
                have = {k: v for k, v in assign.items() if k not in dropped}
                inst = cls(**{k: v for k, v in real.items() if k in have})
                check_dumps(spec, inst, have, rec)
        rec.sample(repr(spec))

    return judge


def check_loads(spec, cls, assign, start, rec):
    pieces = spec.pieces(assign)
    raw = b"".join(p or b"" for _f, p in pieces)
    loaded = spec.loaded(assign)
    before = b"\xee" * start
    pos, expected = start, {}
    for f, p in pieces:
        pos += len(p or b"")
        if f.name in loaded:
            expected[f.name] = loaded[f.name]
        note(rec, spec, values=assign, data=raw, start=start, last=f.name)
        # Whatever comes after the field, up to nothing at all, is of no concern.
        for data in {raw, raw[: pos - start]}:
            stream = stream_at(data, before)
            part = cls.partial_load(stream, f.name)
            same({n: plain(part[n]) for n in part}, expected, f"partial_load to {f.name}")
            if stream.tell() != pos:
                fail(f"partial_load to {f.name} ends at {stream.tell()}, not {pos}")
            rec.step()
        rec.state(repr(spec), repr(assign), "load", f.name)
    stream = stream_at(raw, before)
    part = cls.partial_load(stream)
    same({n: plain(part[n]) for n in part}, expected, "partial_load of everything")
    if stream.tell() != pos:
        fail(f"partial_load of everything ends at {stream.tell()}, not {pos}")
    rec.traced()


def check_dumps(spec, inst, have, rec):
    from binobj import errors

    available, env = spec.available(have)
    whole, first_gap = [], None
    for f, v in available:
        if v is NOPE:
            first_gap = f.name
            break
        whole.append((f, b"" if v is ABSENT else f.enc(v, env)))
    full = None
    if first_gap is None:
        full = inst.to_bytes()
    expected = b""
    for f, p in whole:
        expected += p
        note(rec, spec, assigned=have, last=f.name)
        out = io.BytesIO()
        inst.partial_dump(out, f.name)
        if out.getvalue() != expected:
            fail(f"partial_dump to {f.name}: {short(out.getvalue())}, not {short(expected)}")
        if full is not None and not full.startswith(out.getvalue()):
            fail(f"the complete dump {short(full)} doesn't start with {short(expected)}")
        rec.step()
        rec.state(repr(spec), sorted(have), "dump", f.name)
    note(rec, spec, assigned=have, last=None, gap=first_gap)
    out = io.BytesIO(b"\x11")
    out.seek(1)
    inst.partial_dump(out)
    if out.getvalue() != b"\x11" + expected:
        fail(f"partial_dump: {short(out.getvalue()[1:])}, not {short(expected)}")
    if full is not None and full != expected:
        fail(f"the complete dump is {short(full)}, not {short(expected)}")
    if first_gap is not None:
        how, got = attempt(inst.partial_dump, io.BytesIO(), first_gap)
        if how == "ok" or not isinstance(got, errors.MissingRequiredValueError):
            fail(f"partial_dump up to a field without a value: {how} {got!r}")
        rec.step()
    rec.outcome(first_gap is None, len(whole))
    rec.traced()
    rec.step()


def incomplete(ch, rec):
    """Structures within that lack a value matter only where they're dumped."""
    import binobj
    from binobj import errors
    from binobj import fields as F

    def struct(name, **members):
        return type(name, (binobj.Struct,), members)

    inner = struct("In", x=F.UInt8(), y=F.UInt16(endian="big"))
    deep = struct("Deep", h=F.UInt8(default=7), n=F.Nested(inner))
    union = {
        "load_decider": lambda s, choices, *_: choices[0],
        "dump_decider": lambda d, choices, *_: choices[0],
    }
    whole = {"x": 1, "y": 2}
    lacking = ch.choose(({}, {"x": 1}, {"y": 2}))
    how = ch.choose(("nested", "deep", "array", "array late", "union", "nested array"))
    # The bytes of what comes before the missing value within the field itself are
    # never written: fields are written when they're complete.
    field, make = {
        "nested": (lambda: F.Nested(inner), lambda w: inner(**w)),
        "deep": (lambda: F.Nested(deep), lambda w: deep(n=inner(**w))),
        "array": (lambda: F.Array(F.Nested(inner), count=1), lambda w: [inner(**w)]),
        "array late": (
            lambda: F.Array(F.Nested(inner), count=2),
            lambda w: [inner(**whole), inner(**w)],
        ),
        "union": (lambda: F.Union(inner, **union), lambda w: inner(**w)),
        "nested array": (
            lambda: F.Nested(struct("L", a=F.Array(F.Nested(inner), count=1))),
            lambda w: {"a": [inner(**w)]},
        ),
    }[how]
    before = ch.choose((0, 1, 2))
    after = ch.choose((0, 1, 2))
    others = (lambda: F.UInt8(), lambda: F.StringZ())
    members = {}
    for i in range(before):
        members[f"b{i}"] = others[i]()
    members["broken"] = field()
    for i in range(after):
        members[f"a{i}"] = others[i]()
    cls = struct("S", **members)
    given = {"b0": 9, "b1": "ab", "a0": 8, "a1": "cd"}
    pieces = {"b0": b"\x09", "b1": b"ab\0", "a0": b"\x08", "a1": b"cd\0"}
    values = {n: given[n] for n in members if n in given}
    for n in ch.choose(((), tuple(values)[-1:])):
        del values[n]
    for last in [*members, None]:
        inst = cls(**values, broken=make(lacking))
        rec.case = lambda: f"{how} lacking all but {lacking}, {values}, up to {last}"
        stream = io.BytesIO(b"##")
        stream.seek(2)
        got, exc = attempt(inst.partial_dump, stream, last)
        expected = b""
        reached = False
        fine = True
        for n in members:
            if n == "broken":
                reached, fine = True, False
                break
            if n not in values:
                fine = last is None
                break
            expected += pieces[n]
            if n == last:
                break
        if stream.getvalue() != b"##" + expected:
            fail(f"{stream.getvalue()!r} is in the stream, expected {expected!r}")
        if fine and got != "ok":
            fail(f"raises {exc!r}")
        if not fine and got == "ok" and last is not None:
            fail(f"what lacks values is dumped: {stream.getvalue()!r}")
        if got != "ok" and not isinstance(exc, errors.MissingRequiredValueError):
            fail(f"raises {exc!r}")
        # Completed, it can be dumped.
        if reached and len(values) == before + after:
            inst["broken"] = make(whole)
            stream = io.BytesIO()
            inst.partial_dump(stream, last)
            if not inst.to_bytes().startswith(stream.getvalue()):
                fail(f"completed, {stream.getvalue()!r} is dumped")
            if last is None and stream.getvalue() != inst.to_bytes():
                fail(f"completed, {stream.getvalue()!r} is dumped")
        rec.step()
    rec.traced()
    rec.state(how, lacking, before, after)


def bodies(tier, seed):
    out = {}
    for name, make in families(tier).items():
        n = 99 if tier == "thorough" else 1 if name == "triples" else 2
        out.update(each_case(judge_with(n), {name: make}))
    out.update(each_case(judge_malformed, {"malformed": families(tier)["wide"]}))
    watchers = [see_partial]
    depth = 4 if tier == "thorough" else 3
    out["incomplete"] = incomplete
    out["histories"] = history_body(watchers, depth)
    return out
