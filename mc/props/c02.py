"""C02: the byte layout is what the declaration says."""

import io

from mc.history import history_body
from mc.history import see_bytes
from mc.items import combine
from mc.items import ITEMS
from mc.items import KINDS
from mc.items import U8
from mc.lib import attempt
from mc.lib import byte_strings
from mc.lib import fail
from mc.lib import modes
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.lib import values_of
from mc.model import Bad
from mc.model import BadData
from mc.model import Eof
from mc.model import FS
from mc.model import Int
from mc.model import plain
from mc.model import Spec
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; every field kind in every position, all ordered pairs of items, all triples"
    " of small items, with and without inheritance, boundary values; every kind on its"
    " own through Field.to_bytes/from_bytes; all byte strings up to 4 bytes over 7 byte"
    " values against every item; all combinations of structure-wide byte order defaults"
    " over a two-level inheritance chain",
    "thorough": "histories of 4 moves; quick, plus all quadruples of small items, all triples of items and all"
    " byte strings up to 6 bytes",
}
ASSUMPTIONS = [
    "the reference encoders in mc/model.py (written from the published formats)",
    "float formats are taken from the struct module",
]


def judge(case, rec):
    spec = case.spec
    cls = spec.build()
    for assign in case.assigns:
        pieces = spec.pieces(assign)
        expected = b"".join(p or b"" for _f, p in pieces)
        for mode in modes(spec):
            note(rec, spec, values=assign, nested="instances" if mode else "dicts")
            inst = cls(**spec.real_values(assign, mode))
            raw = inst.to_bytes()
            if raw != expected:
                fail(f"dumped {short(raw)}, expected {short(expected)} = {layout(pieces)}")
            out = io.BytesIO(b"\x99\x98")
            out.seek(2)
            inst.to_stream(out)
            if out.getvalue() != b"\x99\x98" + expected:
                fail(f"to_stream at offset 2 gives {short(out.getvalue())}")
            rec.step(2)
        note(rec, spec, values=assign, data=expected)
        loaded = spec.loaded(assign)
        stream = stream_at(expected, b"\x7e")
        same(values_of(cls.from_stream(stream), spec), loaded, "loading the layout")
        if stream.tell() != 1 + len(expected):
            fail(f"the load ends at {stream.tell()}, not {1 + len(expected)}")
        rec.step()
        rec.traced()
        rec.state(repr(spec), repr(assign))
        rec.outcome(expected)
    rec.sample(f"{spec!r} -> {layout(pieces)}" if case.assigns else repr(spec))


def layout(pieces):
    return " ".join(f"{f.name}={'-' if p is None else p.hex()}" for f, p in pieces)


def alone(ch, rec):
    """Fields used without a structure."""
    from binobj import fields as F

    kind = ch.choose(KINDS)()
    field = kind.make(F, name="x")
    for v in kind.values:
        for mode in (0, 1):
            rec.case = lambda: f"field {kind!r}, value {v!r}"
            raw = field.to_bytes(kind.real(v, mode))
            expected = kind.enc(v, {})
            if raw != expected:
                fail(f"Field.to_bytes gives {short(raw)}, expected {short(expected)}")
            got = plain(field.from_bytes(raw))
            same(got, kind.loaded(v, {}), f"Field.from_bytes({short(raw)})")
            stream = stream_at(raw, b"\1\2\3", b"\xaa\xbb")
            same(plain(field.from_stream(stream)), kind.loaded(v, {}), "Field.from_stream")
            if not kind.greedy and stream.tell() != 3 + len(raw):
                fail(f"Field.from_stream ends at {stream.tell()}, not {3 + len(raw)}")
            rec.step(3)
            rec.state("alone", kind.name, repr(v), mode)
        rec.traced()


ALPHABET = b"\0\1\2A\x5c\x80\xff"


def bytes_body(first, rest):
    def body(ch, rec):
        case = combine([ch.choose(ITEMS)])
        spec = case.spec
        cls = spec.build()
        for data in byte_strings(ch, ALPHABET, first, rest):
            note(rec, spec, data=data)
            check_load(cls, spec, data, rec)

    return body


def check_load(cls, spec, data, rec):
    stream = stream_at(data)
    how, got = attempt(cls.from_stream, stream)
    try:
        expected, pos = spec.load(data)
    except (Eof, BadData, Bad) as exc:
        if how == "ok":
            fail(
                f"loaded {values_of(got, spec)!r} from data that must not load"
                f" ({type(exc).__name__} {exc})"
            )
        rec.outcome(type(exc).__name__)
    else:
        if how != "ok":
            fail(f"loading fails with {got!r}, expected {expected!r}")
        same(values_of(got, spec), expected, "loaded values")
        if stream.tell() != pos:
            fail(f"the load ends at {stream.tell()}, not {pos}")
    rec.step()
    rec.traced()
    rec.state(repr(spec), data)


META = [
    None,
    {"endian": "big"},
    {"endian": "little"},
    {"Int16__endian": "big", "endian": "little"},
    {"UInt32__endian": "little", "endian": "big"},
    {"Int16__endian": "big"},
    {"Integer__endian": "little", "Int16__endian": "big", "UInt32__endian": "big"},
    {"Int16__endian": "little", "UInt32__endian": "little", "Integer__endian": "big"},
]


def meta_body(ch, rec):
    """Structure-wide byte order: the most specific setting wins."""
    import sys

    import binobj
    from binobj import fields as F

    parent_meta, child_meta = ch.choose(META), ch.choose(META)
    # The byte order given to the fields themselves, if any.
    explicit = [ch.choose((None, "big", "little")) for _ in range(2)]
    style = ch.choose(("assign", "instance"))
    kinds = [("Int16", 2, True), ("UInt32", 4, False), ("Integer", 3, True)]
    inherits = child_meta is None

    def build(base, prefix, meta, explicit_endian):
        ns = {"__module__": __name__, "__qualname__": "M"}
        if meta is not None:
            ns["Meta"] = type("Meta", (), {"argument_defaults": dict(meta)})
        made = {}
        for cls_name, size, _signed in kinds:
            kw = {"size": size} if cls_name == "Integer" else {}
            if explicit_endian and cls_name != "UInt32":
                kw["endian"] = explicit_endian
            made[prefix + cls_name] = getattr(F, cls_name)(**kw)
        if style == "assign":
            ns.update(made)
        else:
            ns["__annotations__"] = made
        cls = type(base)("M", (base,), ns)
        return binobj.dataclass(cls) if style != "assign" else cls

    def model(prefix, meta, explicit_endian):
        out = []
        for cls_name, size, signed in kinds:
            endian = sys.byteorder
            meta = meta or {}
            endian = meta.get("endian", endian)
            endian = meta.get(cls_name + "__endian", endian)
            if explicit_endian and cls_name != "UInt32":
                endian = explicit_endian
            out.append(FS(prefix + cls_name, Int(size, signed, endian)))
        return out

    rec.case = lambda: (
        f"Meta of the parent {parent_meta}, of the child {child_meta}; fields' own"
        f" endian {explicit}; style {style}"
    )
    parent = build(binobj.Struct, "a", parent_meta, explicit[0])
    child = build(parent, "b", child_meta, explicit[1])
    parent_spec = Spec(model("a", parent_meta, explicit[0]))
    spec = Spec(
        model("b", parent_meta if inherits else child_meta, explicit[1]),
        parent=parent_spec,
    )
    for seed in (0, 1):
        values = {
            f.name: f.kind.values[seed] for f in spec.fields()
        }
        expected = spec.dump(values)
        raw = child(**values).to_bytes()
        if raw != expected:
            fail(f"dumped {short(raw)}, expected {layout(spec.pieces(values))}")
        same(values_of(child.from_bytes(raw), spec), values, "loaded")
        own = {n: v for n, v in values.items() if n.startswith("a")}
        if parent(**own).to_bytes() != parent_spec.dump(own):
            fail("the parent's layout is different")
        rec.step(3)
    rec.traced()
    rec.state(str(parent_meta), str(child_meta), str(explicit), style)


def bodies(tier, seed):
    out = each_case(judge, families(tier))
    out["alone"] = alone
    out["meta"] = meta_body
    out["bytes"] = bytes_body(1, 3) if tier == "quick" else bytes_body(2, 4)
    out["histories"] = history_body([see_bytes], 4 if tier == "thorough" else 3)
    return out
