"""C01: what's dumped loads back to the same values."""

from mc.history import history_body
from mc.history import see_loaded
from mc.items import combine
from mc.items import ITEMS
from mc.lib import byte_strings
from mc.lib import has_structs
from mc.lib import modes
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.lib import values_of
from mc.lib import fail
from mc.model import plain
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; every field kind in every position, all ordered pairs of items, all triples"
    " of small items, with and without inheritance; boundary values of each kind; all"
    " byte strings up to 4 bytes over 7 byte values for every item",
    "thorough": "histories of 4 moves; quick, plus all quadruples of small items, all triples of items and all"
    " byte strings up to 6 bytes",
}
ASSUMPTIONS = ["declarations are built from the catalogue in mc/items.py"]


def judge(case, rec):
    spec = case.spec
    cls = spec.build()
    redump = not any(f.discard for f in spec.fields())
    for assign in case.assigns:
        for mode in modes(spec):
            note(rec, spec, values=assign, nested="instances" if mode else "dicts")
            real = spec.real_values(assign, mode)
            raw = cls(**real).to_bytes()
            expected = spec.loaded(assign)
            back = cls.from_bytes(raw)
            got = values_of(back, spec)
            same(got, expected, f"loading {short(raw)}")
            for f in spec.fields():
                if f.discard and f.name in [n for n in back]:
                    fail(f"the discarded field {f.name} is still there after loading")
            judge_export(back, spec, expected)
            if redump:
                again = back.to_bytes()
                if again != raw:
                    fail(f"dumping what was loaded gives {short(again)}, not {short(raw)}")
                same(values_of(cls.from_bytes(again), spec), expected, "loading again")
            rec.step(3)
            rec.traced()
            rec.state(repr(spec), repr(assign), mode)
            rec.outcome(raw)
    rec.sample(f"{spec!r} {case.assigns[:2]!r}")


def judge_export(back, spec, expected):
    """What was loaded can be exported, whatever was discarded."""
    shown = plain(back.to_dict())
    if not isinstance(shown, dict):
        fail(f"to_dict() gives {shown!r}")
    for f in spec.fields():
        if f.discard:
            if f.name in shown:
                fail(f"to_dict() shows the discarded field {f.name}")
        elif f.name not in shown:
            fail(f"to_dict() of what was loaded lacks {f.name}")
        elif f.name in expected and f.present is None and not has_structs(f.kind):
            same(shown[f.name], expected[f.name], f"to_dict()[{f.name!r}] after loading")


ALPHABET = b"\0\1\2A\x5c\x80\xff"


def bytes_body(first, rest):
    def body(ch, rec):
        case = combine([ch.choose(ITEMS)])
        spec = case.spec
        if not spec.canonical() or any(f.discard for f in spec.fields()):
            return
        cls = spec.build()
        for data in byte_strings(ch, ALPHABET, first, rest):
            note(rec, spec, data=data)
            stream = stream_at(data)
            try:
                inst = cls.from_stream(stream)
            except Exception:  # noqa: BLE001 - doesn't load; nothing to say
                rec.step()
                continue
            used = data[: stream.tell()]
            again = inst.to_bytes()
            if again != used:
                fail(f"loaded {values_of(inst, spec)!r} but that dumps to {short(again)}")
            rec.step(2)
            rec.traced()
            rec.state(repr(spec), data)

    return body


def bodies(tier, seed):
    out = each_case(judge, families(tier))
    out["bytes"] = bytes_body(1, 3) if tier == "quick" else bytes_body(2, 4)
    watchers = [see_loaded]
    depth = 4 if tier == "thorough" else 3
    out["histories"] = history_body(watchers, depth)
    return out
