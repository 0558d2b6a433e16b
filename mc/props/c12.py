"""C12: a conditional field is present everywhere or nowhere."""

import copy
import io

from mc import model
from mc.history import conditional
from mc.history import history_body
from mc.history import put
from mc.history import see_bytes
from mc.history import see_loaded
from mc.history import see_partial
from mc.history import see_single
from mc.history import see_size
from mc.items import U8
from mc.lib import attempt
from mc.lib import fail
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.lib import values_of
from mc.model import ABSENT
from mc.model import Arr
from mc.model import Bad
from mc.model import BadData
from mc.model import DEFAULT
from mc.model import Eof
from mc.model import Float
from mc.model import FS
from mc.model import Int
from mc.model import Nest
from mc.model import NOPE
from mc.model import plain
from mc.model import Raw
from mc.model import same_model
from mc.model import Spec
from mc.model import Stamp
from mc.model import Str
from mc.model import StrZ
from mc.model import Uni
from mc.model import Uuid
from mc.model import VarInt

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; 20 field kinds x 9 conditions (earlier fields, bit masks, non-boolean results, the"
    " context, both, a look at the stream) x 9 places (first to last, parent, child, nested,"
    " arrays of structures, annotations) x 3 stand-ins x value set or not x present or not;"
    " three conditional fields of 8 kinds each in all 8 patterns of presence; each with all"
    " operations at every field; one instance of 7 kinds in 5 places going from every situation"
    " to every other",
    "thorough": "histories of 4 moves; the same with four conditional fields, and all changes of all kinds in"
    " all places",
}
ASSUMPTIONS = [
    "len() takes no context, so it's only judged where presence doesn't depend on one",
    "a value set for an absent field can be read back as an attribute until it's dumped",
    "what to_dict() shows for an absent field is the stand-in or NOT_PRESENT",
]


class Ctx:
    """A context that no condition can confuse with anything else."""

    def __init__(self, on):
        self.on = on

    def __repr__(self):
        return f"Ctx(on={self.on})"


# Conditions: (name, needs, condition, value of the flag for present and absent)


def c_flag(v, ctx=None, stream=None):
    return v["f"] == 1


def c_mask(v, ctx=None, stream=None):
    return v["f"] & 1


def c_truthy(v, ctx=None, stream=None):
    return "yes" if v["f"] == 1 else ""


def c_none(v, ctx=None, stream=None):
    return [0] if v["f"] == 1 else None


def c_lookup(v, ctx=None, stream=None):
    return "f" in v and v.get("f", 0) == 1


def c_context(v, ctx=None, stream=None):
    return ctx is not None and ctx.on


def c_both(v, ctx=None, stream=None):
    return ctx.on and v["f"] == 1


def c_either(v, ctx=None, stream=None):
    return (ctx is not None and ctx.on) or v["f"] == 1


def c_peek(v, ctx=None, stream=None):
    """Decided by what comes next, when loading."""
    if stream is None:
        return v["f"] == 1
    here = stream.tell()
    byte = stream.read(1)
    stream.seek(here)
    return byte not in (b"", b"\x07", b"a", b"\0", b"\3")


CONDITIONS = [c_flag, c_mask, c_truthy, c_none, c_lookup, c_context, c_both, c_either, c_peek]
USES_CONTEXT = (c_context, c_both, c_either)


class How:
    def __init__(self, cond):
        self.sizeable = cond not in USES_CONTEXT
        self.peeking = cond is c_peek


def situations(cond):
    """[(flag, context, present)]"""
    out = []
    for f in (0, 1):
        for ctx in (None, Ctx(False), Ctx(True)):
            if cond not in USES_CONTEXT and ctx is not None:
                continue
            if cond is c_both and ctx is None:
                continue
            out.append((f, ctx, bool(cond({"f": f}, ctx))))
    return out


def nest():
    return Nest(
        Spec([FS("p", U8()), FS("q", StrZ("utf-8"))], name="In"),
        [{"p": 1, "q": "\u0416"}, {"p": 2, "q": ""}],
    )


# (kind, options): the conditional field
FIELDS = [
    (lambda: Int(2, False, "big"), {}),
    (lambda: Int(3, True, "little"), {"default": -2}),
    (lambda: Int(2, False, "big"), {"const": 0x1234}),
    (lambda: Int(2, False, "big"), {"null": b"\xff\xff"}),
    (lambda: Raw(3), {"null": DEFAULT}),
    (lambda: Float(4, "big"), {}),
    (lambda: VarInt("leb"), {}),
    (lambda: VarInt("vlq"), {"default": 300}),
    (lambda: Raw(2), {"discard": True, "default": b"zz"}),
    (lambda: Str(4, "utf-8", b" "), {}),
    (lambda: StrZ("utf-16-le"), {}),
    (lambda: StrZ("utf-8"), {"const": "\u00e9"}),
    (lambda: StrZ("utf-8"), {"default": "def"}),
    (lambda: StrZ("utf-8"), {"null": "\\N"}),
    (lambda: Uuid("bin2"), {}),
    (lambda: Stamp(8, "us"), {}),
    (lambda: Arr(U8(), 2), {}),
    (lambda: Arr(StrZ(), 2), {}),
    (nest, {}),
    (lambda: U8(), {"computed": lambda e: len(e["z"]), "values": [4]}),
    (lambda: U8(), {"factory": lambda: 0x5E}),
]


def p_first(x):
    return Spec([FS("f", U8()), x, FS("z", StrZ()), FS("b", U8())]), ()


def p_late(x):
    return Spec([FS("f", U8()), FS("z", StrZ()), FS("b", U8()), x]), ()


def p_middle(x):
    return Spec([FS("f", U8()), FS("z", StrZ()), x, FS("b", U8())]), ()


def p_annotated(x):
    s = Spec([FS("f", U8()), FS("z", StrZ()), x, FS("b", U8())], style="annotated")
    return s, ()


def p_parent(x):
    parent = Spec([FS("f", U8()), x], name="P")
    return Spec([FS("z", StrZ()), FS("b", U8())], parent=parent), ()


def p_child(x):
    parent = Spec([FS("f", U8()), FS("z", StrZ())], name="P")
    return Spec([x, FS("b", U8())], parent=parent), ()


def p_nested(x):
    inner = p_middle(x)[0]
    inner.name = "Y"
    return Spec([FS("a", U8()), FS("y", Nest(inner, [])), FS("c", U8())]), ("y",)


def p_nested2(x):
    inner = p_middle(x)[0]
    inner.name = "Y"
    mid = Spec([FS("y", Nest(inner, []))], name="M")
    return Spec([FS("a", U8()), FS("m", Nest(mid, [])), FS("c", U8())]), ("m", "y")


def p_array(x):
    inner = p_middle(x)[0]
    inner.name = "Y"
    return Spec([FS("a", U8()), FS("y", Arr(Nest(inner, []), 2, values=[])), FS("c", U8())]), ("y", 2)


def p_union(x):
    inner = p_middle(x)[0]
    inner.name = "Y"
    return Spec([FS("a", U8()), FS("y", Uni([U8(), Nest(inner, [])], "a")), FS("c", U8())]), (
        "y",
    )


PLACES = [
    p_first,
    p_late,
    p_middle,
    p_annotated,
    p_parent,
    p_child,
    p_nested,
    p_nested2,
    p_array,
    p_union,
]


def single(ch, rec):
    make, opts = ch.choose(FIELDS)
    cond = ch.choose(CONDITIONS)
    place = ch.choose(PLACES)
    opts = dict(opts)
    kind = make()
    values = opts.pop("values", list(kind.values)[:2])
    if "const" in opts or "discard" in opts:
        values = values[:1]
    npvs = [ABSENT, None]
    if "const" not in opts and not isinstance(kind, Nest):
        npvs.append(values[0])
    npv = ch.choose(npvs)
    x = FS("x", kind, present=cond, npv=npv, **opts)
    spec, path = place(x)
    for flag, ctx, present in situations(cond):
        base = {"f": flag, "z": "ab\u00e9"[:2], "b": 7}
        options = [{**base, "x": v} for v in values]
        if "const" in opts:
            options = [base]
        elif not present or {"default", "factory", "computed"} & set(opts):
            options.append(base)
        if not present:
            options.append({**base, "x": npv} if npv is not ABSENT else base)
        if "null" in opts:
            options.append({**base, "x": None})
        for assign in options:
            judge(spec, wrapped(assign, path), ctx, How(cond), rec)


def wrapped(assign, path):
    for step in reversed(path):
        assign = [assign, assign] if step == 2 else {step: assign}
    if path:
        assign = {"a": 1, **assign, "c": 3}
    return assign


MULTI = [
    (lambda: Int(2, False, "big"), {}),
    (lambda: StrZ("utf-8"), {}),
    (lambda: Int(2, True, "little"), {"default": -3}),
    (lambda: VarInt("uleb"), {}),
    (lambda: Arr(U8(), 2), {}),
    (nest, {}),
    (lambda: Raw(2), {"const": b"!?"}),
    (lambda: U8(), {"npv": None}),
]


def multi_body(n):
    def multi(ch, rec):
        split = ch.choose((None, 1))
        fields, values = [FS("f", U8())], {}
        for i in range(n):
            make, opts = ch.choose(MULTI)
            bit = 1 << i

            def present(v, ctx=None, stream=None, bit=bit):
                return v["f"] & bit

            kind = make()
            fields.append(FS(f"x{i}", kind, present=present, **opts))
            if "const" not in opts:
                values[f"x{i}"] = kind.values[0]
        fields.append(FS("b", U8()))
        if split is None:
            spec = Spec(fields)
        else:
            spec = Spec(fields[split + 1 :], parent=Spec(fields[: split + 1], name="P"))
        for flags in range(1 << n):
            for leave_out in (True, False):
                assign = {"f": flags, "b": 0xBB}
                for i in range(n):
                    if f"x{i}" in values and (flags >> i & 1 or not leave_out):
                        assign[f"x{i}"] = values[f"x{i}"]
                judge(spec, assign, None, How(None), rec)

    return multi


def judge(spec, assign, ctx, how, rec):
    with model.context(ctx):
        _judge(spec, assign, ctx, how, rec)


def _judge(spec, assign, ctx, how, rec):
    cls = spec.build()
    note(rec, spec, values=assign, context=ctx)
    try:
        resolved, env = spec.resolve(assign)
        pieces = spec.pieces(assign)
    except (Bad, KeyError) as exc:
        fail(f"bad case: {exc!r}")
    raw = b"".join(p or b"" for _f, p in pieces)
    for mode in (0, 1):
        inst = cls(**spec.real_values(copy.deepcopy(assign), mode))
        dumped(inst, spec, pieces, raw, resolved, ctx, how, rec)
    if cls.get_size() is not None and has_conditions(spec):
        fail(f"get_size() is {cls.get_size()} though the size varies")
    loaded(cls, spec, pieces, raw, ctx, how, rec)
    rec.traced()
    rec.state(repr(spec), repr(assign), repr(ctx))
    rec.sample(f"{spec!r} {assign!r} {ctx!r} {short(raw)}")


def changes_body(fields, places, depth):
    """One class, and one instance of it, going from one situation to another."""

    def changes(ch, rec):
        make, opts = ch.choose(fields)
        cond = ch.choose(CONDITIONS)
        place = ch.choose(places)
        opts = dict(opts)
        kind = make()
        values = opts.pop("values", list(kind.values)[:1])[:1]
        x = FS("x", kind, present=cond, **opts)
        spec, path = place(x)
        how = How(cond)
        options = []
        for flag, ctx, present in situations(cond):
            base = {"f": flag, "z": "ab\u00e9"[:2], "b": 7}
            if "const" not in opts:
                options += [(wrapped({**base, "x": v}, path), ctx) for v in values]
            if "const" in opts or not present or {"default", "factory", "computed"} & set(opts):
                options.append((wrapped(base, path), ctx))
        cls = spec.build()
        inst, now = cls(), {}
        log = []
        rec.case = lambda: f"declaration: {spec!r}\nhistory: {log!r}"
        in_place = ch.flag() if path else False
        mode = 1 if in_place else 0
        for _ in range(depth):
            new, ctx = ch.choose(options)
            log.append((new, ctx))
            now = put(inst, spec, now, new, mode, in_place)
            with model.context(ctx):
                pieces = spec.pieces(now)
                resolved, _env = spec.resolve(now)
                raw = b"".join(p or b"" for _f, p in pieces)
                dumped(inst, spec, pieces, raw, resolved, ctx, how, rec)
                loaded(cls, spec, pieces, raw, ctx, how, rec)
        rec.traced()
        rec.state("changes", repr(spec), repr(log))

    return changes


def has_conditions(spec):
    for f in spec.fields():
        k = f.kind
        while isinstance(k, Arr):
            k = k.elem
        if f.present is not None or (isinstance(k, Nest) and has_conditions(k.spec)):
            return True
    return False


def dumped(inst, spec, pieces, raw, resolved, ctx, how, rec):
    got = inst.to_bytes(ctx)
    if got != raw:
        fail(f"to_bytes() gives {short(got)}, expected {short(raw)}")
    out = io.BytesIO()
    inst.to_stream(out, context=ctx)
    if out.getvalue() != raw:
        fail(f"to_stream() writes {short(out.getvalue())}, expected {short(raw)}")
    if how.sizeable:
        if len(inst) != len(raw):
            fail(f"len() is {len(inst)}, {len(raw)} bytes are dumped")
        if bytes(inst) != raw:
            fail(f"bytes() gives {short(bytes(inst))}, expected {short(raw)}")
    done = b""
    for f, p in pieces:
        done += p or b""
        out = io.BytesIO()
        inst.partial_dump(out, f.name, ctx)
        if out.getvalue() != done:
            fail(f"partial_dump({f.name!r}) writes {short(out.getvalue())}, expected {short(done)}")
    out = io.BytesIO()
    inst.partial_dump(out, context=ctx)
    if out.getvalue() != raw:
        fail(f"partial_dump() writes {short(out.getvalue())}, expected {short(raw)}")
    shown = plain(inst.to_dict(True, ctx))
    for f, v in resolved:
        if f.name not in shown:
            fail(f"to_dict() leaves out {f.name}")
        if v is ABSENT:
            if not (shown[f.name] is ABSENT or same_model(shown[f.name], f.npv)):
                fail(f"to_dict() shows {shown[f.name]!r} for the absent field {f.name}")
        elif not isinstance(v, (dict, list)):
            same(shown[f.name], v, f"to_dict()[{f.name!r}]")
    rec.step(6 + len(pieces))


def loaded(cls, spec, pieces, raw, ctx, how, rec):
    try:
        expected, end = spec.load(raw)
    except (BadData, Eof):
        end = None
    if end != len(raw):
        if how.peeking:
            return  # the bytes that follow look like the conditional field
        fail("bad case: the model doesn't load what it dumps")
    complete, _end = spec.load(raw, keep_discard=True)
    inst = cls.from_bytes(raw, ctx)
    same(values_of(inst, spec), expected, "from_bytes()")
    s = stream_at(raw, b"123", b"\7\7")
    same(values_of(cls.from_stream(s, ctx), spec), expected, "from_stream()")
    if s.tell() != 3 + len(raw):
        fail(f"from_stream() consumes {s.tell() - 3} bytes of {len(raw)}")
    pos = 0
    for f, p in pieces:
        pos += len(p or b"")
        s = stream_at(raw, b"123", b"\7\7")
        same(plain(cls.get_field(s, f.name, ctx)), complete[f.name], f"get_field({f.name!r})")
        if s.tell() != 3:
            fail(f"get_field({f.name!r}) leaves the stream at {s.tell()}")
        part = cls.partial_load(s, f.name, ctx)
        if s.tell() != 3 + pos:
            fail(f"partial_load({f.name!r}) consumes {s.tell() - 3} bytes of {pos}")
        if not f.discard:
            same(plain(part[f.name]), complete[f.name], f"partial_load({f.name!r})")
        rec.step(2)
    s = stream_at(raw, b"123")
    same(values_of(cls.partial_load(s, context=ctx), spec), expected, "partial_load()")
    # What's been loaded can be dumped again.
    if not any(f.discard and f.default is NOPE for f in spec.fields()):
        again = inst.to_bytes(ctx)
        if again != raw and not changed_by_discard(spec):
            fail(f"dumped again it's {short(again)}, expected {short(raw)}")
        if how.sizeable and len(inst) != len(again):
            fail(f"len() of the loaded structure is {len(inst)}, it dumps {len(again)} bytes")
    rec.step(5)


def changed_by_discard(spec):
    """Discarded values are replaced by defaults."""
    for f in spec.fields():
        k = f.kind
        while isinstance(k, Arr):
            k = k.elem
        inner = [a for a in getattr(k, "alts", [k]) if isinstance(a, Nest)]
        if f.discard or any(changed_by_discard(i.spec) for i in inner):
            return True
    return False


def bodies(tier, seed):
    out = {"single": single, "multi": multi_body(4 if tier == "thorough" else 3)}
    watchers = [see_bytes, see_size, see_loaded, see_single, see_partial]
    depth = 4 if tier == "thorough" else 3
    if tier == "thorough":
        out["changes"] = changes_body(FIELDS, PLACES, 2)
        out["longer-changes"] = changes_body(FIELDS[2:14:3], PLACES[2:7:2], 3)
    else:
        some = [FIELDS[i] for i in (0, 2, 3, 8, 12, 18, 19)]
        out["changes"] = changes_body(some, [p_first, p_parent, p_nested, p_array, p_union], 2)
    out["histories"] = history_body(watchers, depth, conditional)
    return out
