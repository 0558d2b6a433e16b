"""C10: constant fields hold their constant."""

from mc.items import KINDS
from mc.items import U8
from mc.items import on
from mc.lib import attempt
from mc.lib import fail
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.lib import values_of
from mc.model import Arr
from mc.model import BadData
from mc.model import Eof
from mc.model import Float
from mc.model import FS
from mc.model import Int
from mc.model import Nest
from mc.model import plain
from mc.model import Raw
from mc.model import Spec
from mc.model import StrZ
from mc.model import Uni

BOUNDS = {
    "quick": "every scalar kind with up to three constants of it, in 10 placements (first,"
    " middle, after variable-length data, conditional, in a parent, in a child, nested in a"
    " structure, in an array, discarded, as a union alternative, with annotations); every single-byte"
    " corruption to 8 other values, all 255 for constants of up to 4 bytes in one placement;"
    " all sequences of 3 assignments, deletions and observations in 8 placements, from 3 starts",
    "thorough": "all 255 values of every byte in every placement, sequences of 4",
}
ASSUMPTIONS = [
    "an override passed to the constructor is dumped as given (documented by a test)",
]


def q_first(k, c):
    return Spec([FS("x", k, const=c), FS("b", U8())]), {"b": 2}, ()


def q_middle(k, c):
    return Spec([FS("a", U8()), FS("x", k, const=c), FS("b", U8())]), {"a": 1, "b": 2}, ()


def q_var(k, c):
    s = Spec([FS("z", StrZ("utf-8")), FS("x", k, const=c), FS("b", U8())])
    return s, {"z": "\u00e9", "b": 2}, ()


def q_conditional(k, c):
    s = Spec([FS("f", U8()), FS("x", k, const=c, present=on("f")), FS("b", U8())])
    return s, {"f": 1, "b": 2}, ()


def q_parent(k, c):
    s = Spec([FS("b", U8())], parent=Spec([FS("a", U8()), FS("x", k, const=c)], name="P"))
    return s, {"a": 1, "b": 2}, ()


def q_child(k, c):
    s = Spec([FS("x", k, const=c), FS("b", U8())], parent=Spec([FS("a", U8())], name="P"))
    return s, {"a": 1, "b": 2}, ()


def q_annotated(k, c):
    s = Spec([FS("a", U8()), FS("x", k, const=c), FS("b", U8())], style="annotated")
    return s, {"a": 1, "b": 2}, ()


def q_nested(k, c):
    inner = Spec([FS("i", U8()), FS("x", k, const=c)], name="In")
    s = Spec([FS("a", U8()), FS("y", Nest(inner, [])), FS("b", U8())])
    return s, {"a": 1, "y": {"i": 3}, "b": 2}, ("y",)


def q_array(k, c):
    inner = Spec([FS("x", k, const=c)], name="In")
    s = Spec([FS("a", U8()), FS("y", Arr(Nest(inner, []), 2, values=[])), FS("b", U8())])
    return s, {"a": 1, "y": [{}, {}], "b": 2}, ("y",)


def q_discarded(k, c):
    s = Spec([FS("a", U8()), FS("x", k, const=c, discard=True), FS("b", U8())])
    return s, {"a": 1, "b": 2}, ("x",)


PLACES = [
    q_first,
    q_middle,
    q_var,
    q_conditional,
    q_parent,
    q_child,
    q_annotated,
    q_nested,
    q_array,
    q_discarded,
]


def const_span(spec, assign):
    """Where the (outermost) field holding the constant is, in the bytes."""
    pos = 0
    for f, p in spec.pieces(assign):
        n = len(p or b"")
        if f.name in ("x", "y"):
            return pos, pos + n
        pos += n
    raise AssertionError


def cases(ch):
    kind = ch.choose(KINDS)()
    if isinstance(kind, (Arr, Nest, Uni)) or not kind.values:
        return None
    c = ch.choose(list(kind.values)[:3])
    if c != c or (c == 0 and isinstance(kind, Float)):
        return None  # NaN isn't equal to itself; the zeros are equal to each other
    return kind, c


def body_with(all_bytes):
    def body(ch, rec):
        found = cases(ch)
        place = ch.choose(PLACES)
        if found is None:
            return
        kind, c = found
        spec, assign, path = place(kind, c)
        cls = spec.build()
        raw = spec.dump(assign)
        note(rec, spec, values=assign)
        inst = cls(**spec.real_values(assign))
        got = inst.to_bytes()
        if got != raw:
            fail(f"dumped {short(got)}, expected {short(raw)}")
        if len(inst) != len(raw):
            fail(f"len() is {len(inst)} but {len(raw)} bytes are dumped")
        rec.step(2)
        if not path:
            assigning(cls, spec, assign, kind, c, rec)
            sizes(cls, spec, raw, rec)
        lo, hi = const_span(spec, assign)
        everything = all_bytes or (hi - lo <= 4 and place is q_middle)
        names = spec.names()
        target = path[0] if path else "x"
        upto = names[: names.index(target) + 1]
        for at in range(lo, hi):
            for other in others(raw[at], everything):
                data = raw[:at] + bytes([other]) + raw[at + 1 :]
                corrupted(cls, spec, data, target, upto, at, rec)
        rec.traced()
        rec.sample(f"{spec!r} {short(raw)}")

    return body


def others(b, everything):
    if everything:
        return [x for x in range(256) if x != b]
    picks = {b ^ 1, b ^ 0x80, b ^ 0x20, (b + 1) % 256, (b - 1) % 256, 0, 0xFF, 0x41}
    return sorted(picks - {b})


def corrupted(cls, spec, data, target, upto, at, rec):
    note(rec, spec, data=data, corrupted_at=at)
    try:
        expected, _pos = spec.load(data)
    except (BadData, Eof):
        expected = None
    ops = {
        "from_bytes": lambda: cls.from_bytes(data, exact=False),
        "from_stream": lambda: cls.from_stream(stream_at(data, b"12")),
        "partial_load": lambda: cls.partial_load(stream_at(data), target),
        "get_field": lambda: cls.get_field(stream_at(data, b"12"), target),
    }
    for name, op in ops.items():
        how, got = attempt(op)
        if expected is None:
            if how == "ok":
                fail(f"{name} accepts a wrong constant: {plain(got)!r}")
        elif how != "ok":
            fail(f"{name} fails with {got!r} though the constant is right")
        rec.step()
        rec.outcome(name, how, type(got).__name__)
    if expected is not None:
        same(values_of(cls.from_bytes(data, exact=False), spec), expected, "loaded")
    rec.state(repr(spec), data)


def assigning(cls, spec, assign, kind, c, rec):
    from binobj import errors
    from binobj.structures import MutableStructMappingProxy

    def by_name(inst, v):
        inst.x = v

    def by_key(inst, v):
        inst["x"] = v

    def by_proxy(inst, v):
        MutableStructMappingProxy(inst)["x"] = v

    def by_update(inst, v):
        MutableStructMappingProxy(inst).update({"x": v})

    real = kind.real(c)
    loaded = cls.from_bytes(spec.dump(assign))
    for make in (lambda: cls(**spec.real_values(assign)), lambda: loaded):
        for way in (by_name, by_key, by_proxy, by_update):
            for v in [real, None, *[kind.real(o) for o in list(kind.values)[:3]]]:
                inst = make()
                before = {n: plain(inst[n]) for n in inst}
                how, got = attempt(way, inst, v)
                if how == "ok" or not isinstance(got, errors.ImmutableFieldError):
                    fail(f"{way.__name__} of {v!r} to a constant field: {how} {got!r}")
                same({n: plain(inst[n]) for n in inst}, before, "after a refused assignment")
                same(plain(inst.x), c, "the constant as an attribute")
                rec.step()
        inst = make()
        if inst.to_bytes() != spec.dump(assign):
            fail(f"after refused assignments it dumps {short(inst.to_bytes())}")
        # Giving the constant itself explicitly changes nothing, and can be undone.
        inst = cls(**spec.real_values(assign), x=real)
        if inst.to_bytes() != spec.dump(assign):
            fail(f"with the constant given explicitly it dumps {short(inst.to_bytes())}")
        del inst["x"]
        if inst.to_bytes() != spec.dump(assign):
            fail(f"after deleting it the field dumps as {short(inst.to_bytes())}")
        if len(inst.to_dict()) != len(spec.fields()):
            fail(f"to_dict() gives {inst.to_dict()!r}")
        rec.step(3)


def sizes(cls, spec, raw, rec):
    """The constant's size counts toward sizes and offsets."""
    fixed = [f.fixed for f in spec.fields()]
    reported = cls.get_size()
    if None not in fixed and reported != len(raw):
        fail(f"get_size() is {reported}, it always has {len(raw)} bytes")
    if None in fixed and reported is not None:
        fail(f"get_size() is {reported} though the size varies")
    got = cls.get_field(stream_at(raw, b"ab"), "b")
    if got != 2:
        fail(f"get_field of the field after the constant gives {got!r}")
    rec.step(2)


def union(ch, rec):
    """A constant alternative."""
    import binobj
    from binobj import fields as F

    found = cases(ch)
    if found is None:
        return
    kind, c = found
    t = [FS("t", U8()), FS("x", Uni([kind, U8()], "t")), FS("b", U8())]
    spec = Spec(t)
    env = {"t": 0}
    raw = b"\0" + kind.enc(c, env) + b"\2"
    alt = kind.make(F, const=kind.real(c))
    sized = kind
    if isinstance(kind, StrZ) and kind.size is None:
        sized = StrZ(kind.encoding, len(raw) - 2, values=[])

    class S(binobj.Struct):
        t = F.UInt8()
        x = F.Union(
            alt,
            F.UInt8(),
            load_decider=lambda s, classes, c, f: classes[f["t"]],
            dump_decider=lambda d, classes, c, f: classes[f["t"]],
        )
        b = F.UInt8()

    rec.case = lambda: f"union with the constant {c!r} of {kind!r}"
    if S(t=0, x=kind.real(c), b=2).to_bytes() != raw:
        fail("the union doesn't dump the constant")
    same(plain(S.from_bytes(raw).x), c, "loaded")
    for at in range(1, len(raw) - 1):
        for other in others(raw[at], False):
            data = raw[:at] + bytes([other]) + raw[at + 1 :]
            rec.case = lambda: f"union with the constant {c!r} of {kind!r}, data {data!r}"
            try:
                ok = sized.dec(data, 1, env)[0] == c
            except (BadData, Eof):
                ok = False
            how, got = attempt(S.from_bytes, data, exact=False)
            if (how == "ok") != ok:
                fail(f"{how} {got!r}")
            rec.step()
            rec.state("union", kind.name, data)
    rec.traced()


def history_of(depth):
    """All sequences of operations on structures with a constant field."""
    from binobj.structures import MutableStructMappingProxy as Proxy

    kinds = [
        (lambda: Int(2, False, "big"), 0x0102, [0x0102, 7, 0]),
        (lambda: StrZ("utf-8"), "\u00e9!", ["\u00e9!", "", "other"]),
        (lambda: Raw(2), b"BM", [b"BM", b"MB"]),
        (lambda: Int(1, False, "big"), 0, [0, 1, False]),
    ]
    places = [q_first, q_middle, q_var, q_parent, q_child, q_annotated, q_conditional, q_discarded]

    ways = {
        "attribute": lambda i, v: setattr(i, "x", v),
        "key": lambda i, v: i.__setitem__("x", v),
        "proxy": lambda i, v: Proxy(i).__setitem__("x", v),
        "update": lambda i, v: Proxy(i).update(x=v),
    }

    def body(ch, rec):
        make, c, others_ = ch.choose(kinds)
        place = ch.choose(places)
        spec, assign, _path = place(make(), c)
        cls = spec.build()
        raw = spec.dump(assign)
        start = ch.choose(("made", "explicit", "loaded"))
        if start == "loaded":
            inst = cls.from_bytes(raw)
        else:
            more = {"x": c} if start == "explicit" else {}
            inst = cls(**spec.real_values(assign), **more)
        held = start == "explicit" or (start == "loaded" and place is not q_discarded)
        log = [start]
        rec.case = lambda: f"declaration: {spec!r}\noperations: {log!r}"
        ops = ["delete", "pop", "dump", "measure", "setdefault", "clear"]
        ops += [(way, v) for way in ("key", "attribute") for v in others_]
        ops += [(way, others_[-1]) for way in ("proxy", "update")]
        for _ in range(depth):
            op = ch.choose(ops)
            log.append(op)
            if op == "delete":
                del inst["x"]
                held = False
            elif op == "pop":
                same(Proxy(inst).pop("x", c), c, "pop()")
                held = False
            elif op == "clear":
                for n in [n for n in inst]:
                    del inst[n]
                for n, v in spec.real_values(assign).items():
                    inst[n] = v
                held = False
            elif op == "setdefault":
                how, got = attempt(Proxy(inst).setdefault, "x", c)
                if how == "ok":
                    same(got, c, "setdefault()")
            elif op == "dump":
                if inst.to_bytes() != raw:
                    fail(f"dumped {short(inst.to_bytes())}, expected {short(raw)}")
            elif op == "measure":
                if len(inst) != len(raw):
                    fail(f"len() is {len(inst)}, expected {len(raw)}")
            else:
                way, v = op
                how, got = attempt(ways[way], inst, v)
                if how == "ok" or type(got).__name__ != "ImmutableFieldError":
                    fail(f"assigning {v!r} to the constant: {how} {got!r}")
            if ("x" in [n for n in inst]) is not held:
                fail(f"the constant is {'not ' if held else ''}listed as assigned")
            same(inst["x"], c, "inst['x']")
            same(inst.x, c, "inst.x")
            rec.step()
        if inst.to_bytes() != raw:
            fail(f"dumped {short(inst.to_bytes())}, expected {short(raw)}")
        if len(inst) != len(raw):
            fail(f"len() is {len(inst)}, expected {len(raw)}")
        same(inst.to_dict(keep_discardable=True)["x"], c, "to_dict()['x']")
        back = cls.from_bytes(raw)
        same(values_of(back, spec), spec.loaded(assign), "loaded afterwards")
        rec.traced()
        rec.state(repr(spec), repr(log))

    return body


def bodies(tier, seed):
    thorough = tier == "thorough"
    return {
        "corrupt": body_with(thorough),
        "union": union,
        "histories": history_of(4 if thorough else 3),
    }
