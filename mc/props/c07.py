"""C07: reported sizes are the number of bytes written."""

from mc.history import history_body
from mc.history import see_size
from mc.lib import fail
from mc.lib import modes
from mc.lib import note
from mc.model import Missing
from mc.model import NOPE
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "all histories of 3 moves (constructing, loading, assigning, changing in"
    " place) of every item concerned; every field kind in every position, all ordered pairs of items, all triples of"
    " small items, with and without inheritance, boundary values, nested values as"
    " dictionaries and as instances, fresh, loaded and reassigned instances",
    "thorough": "histories of 4 moves; quick, plus all quadruples of small items and all triples of items",
}
ASSUMPTIONS = []


def judge(case, rec):
    spec = case.spec
    cls = spec.build()
    sizes = set()
    reported = cls.get_size()
    for assign in case.assigns:
        for mode in modes(spec):
            note(rec, spec, values=assign, nested="instances" if mode else "dicts")
            inst = cls(**spec.real_values(assign, mode))
            measured = len(inst)
            raw = inst.to_bytes()
            if measured != len(raw):
                fail(f"len() is {measured} but {len(raw)} bytes are written: {raw.hex()}")
            if len(inst) != len(raw):
                fail(f"len() changes to {len(inst)} after dumping")
            sizes.add(len(raw))
            if reported is not None and reported != len(raw):
                fail(f"get_size() is {reported} but an instance has {len(raw)} bytes")
            if len(sizes) > 1 and reported is not None:
                fail(f"get_size() is {reported} but sizes vary: {sizes}")
            back = cls.from_bytes(raw)
            try:
                expected = len(spec.dump(spec.loaded(assign)))
            except Missing:
                pass  # discarded, without a default: it can't be dumped any more
            else:
                if len(back) != expected or len(back.to_bytes()) != expected:
                    fail(
                        f"len() of what was loaded is {len(back)} but"
                        f" {len(back.to_bytes())} bytes are written"
                    )
            rec.step(3)
            rec.state(repr(spec), repr(assign), mode)
            rec.outcome(len(raw), reported)
        rec.traced()
    # One instance going through all assignments: no size may stick to it.
    first = case.assigns[0] if case.assigns else {}
    inst = cls(**spec.real_values(first))
    len(inst)
    for assign in case.assigns[1:]:
        note(rec, spec, values=assign, before=first)
        blocked = {f.name for f in spec.fields() if f.computed or f.const is not NOPE}
        changed = {n: v for n, v in spec.real_values(assign).items() if n not in blocked}
        for n, v in changed.items():
            inst[n] = v
        if len(inst) != len(inst.to_bytes()):
            fail(f"after reassigning, len() is {len(inst)} but {len(inst.to_bytes())}")
        rec.step(2)
    rec.sample(f"{spec!r}: get_size() {reported}, sizes {sorted(sizes)}")


def bodies(tier, seed):
    out = each_case(judge, families(tier))
    out["histories"] = history_body([see_size], 4 if tier == "thorough" else 3)
    return out
