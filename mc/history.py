"""Histories: sequences of values going through one structure class.

A history starts with a new class and makes up to ``depth`` moves, each of which puts
one of the declaration's assignments into place in one of several ways: by constructing
a new instance, by assigning to the fields of the present one, by changing the values
of the present one in place, or by loading.  After every move the property's watchers
look at the present instance and at the one before it.  Whatever a structure class, a
field or an instance remembers from earlier (sizes, decisions, representations) must not
show.
"""

import copy

from mc.items import combine
from mc.items import i_null_ref
from mc.items import i_optional_null
from mc.items import i_records
from mc.items import i_ref_pair
from mc.items import ITEMS
from mc.items import one
from mc.items import U8
from mc.lib import fail
from mc.lib import has_structs
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.lib import values_of
from mc.model import ABSENT
from mc.model import Arr
from mc.model import Bad
from mc.model import Nest
from mc.model import NOPE
from mc.model import plain
from mc.model import Uni

WAYS = ("new", "load", "set", "edit")
EXTRA = [i_null_ref, i_optional_null, i_records, i_ref_pair]
tail = one(lambda: U8(), n=1)


class Live:
    """An instance, and the model's idea of the values assigned in it."""

    def __init__(self, inst, assigned):
        self.inst, self.assigned = inst, assigned


def put(inst, spec, assigned, new, mode, in_place):
    """Make ``inst``, which has the values ``assigned``, have the values ``new``."""
    now = {}
    for f in spec.fields():
        if f.name not in new or f.computed is not None or f.const is not NOPE:
            if f.name in assigned:
                del inst[f.name]
            continue
        value = copy.deepcopy(new[f.name])
        done = False
        if in_place and assigned.get(f.name, ABSENT) not in (None, ABSENT):
            done = change(getattr(inst, f.name), f.kind, assigned[f.name], value, mode)
        if not done:
            inst[f.name] = spec.real_values({f.name: copy.deepcopy(value)}, mode)[f.name]
        now[f.name] = value
    return now


def change(real, kind, old, new, mode):
    """Change a mutable value in place; False if that's impossible.

    ``new`` becomes what's assigned afterwards: computed values can't be.
    """
    import binobj

    if new is None or new is ABSENT:
        return False
    if isinstance(real, list) and isinstance(kind, Arr):
        if len(real) == len(new) and new and isinstance(kind.elem, Nest):
            pairs = zip(real, old, new)
            if all(isinstance(r, (dict, binobj.Struct)) for r in real):
                return all([change(r, kind.elem, o, n, mode) for r, o, n in pairs])
        real[:] = kind.real(copy.deepcopy(new), mode)
        return True
    if isinstance(kind, Uni) and isinstance(new, dict) and isinstance(old, dict):
        fits = [a for a in kind.alts if isinstance(a, Nest) and set(new) <= set(a.spec.names())]
        if not fits or not set(old) <= set(fits[0].spec.names()):
            return False
        kind = fits[0]
    if isinstance(kind, Nest):
        if isinstance(real, binobj.Struct):
            now = put(real, kind.spec, old, new, mode, True)
            new.clear()
            new.update(now)
            return True
        if isinstance(real, dict):
            real.clear()
            real.update(kind.real(copy.deepcopy(new), 0))
            return True
    return False


def history_body(watchers, depth, wanted=None, variants=(None,)):
    """A body exploring all histories of ``depth`` moves of every item ``wanted`` accepts."""
    makers = [m for m in [*ITEMS, *EXTRA] if wanted is None or wanted(fields_of(m))]

    def history(ch, rec):
        make = ch.choose(makers)
        split = ch.choose(variants)
        case = combine([make] if make("p").last else [make, tail], split)
        spec = case.spec
        mode = ch.choose((0, 1)) if any(has_structs(f.kind) for f in spec.fields()) else 0
        assigns = case.assigns[:3]
        cls = spec.build()
        log = []
        live = []
        for _ in range(depth):
            way = ch.choose(WAYS if live else WAYS[:2])
            new = copy.deepcopy(ch.choose(assigns))
            log.append((way, new))
            note(rec, spec, nested="instances" if mode else "dicts", history=log)
            if way == "new":
                inst = cls(**spec.real_values(copy.deepcopy(new), mode))
                live.append(Live(inst, new))
            elif way == "load":
                live.append(Live(cls.from_bytes(spec.dump(new)), spec.loaded(new)))
            else:
                last = live[-1]
                last.assigned = put(
                    last.inst, spec, last.assigned, new, mode, way == "edit"
                )
            for one_of in live[-2:]:
                for watch in watchers:
                    watch(cls, spec, one_of, rec)
            rec.step()
        rec.traced()
        rec.state(repr(spec), mode, repr(log))
        rec.sample(f"{spec!r} {log!r}")

    return history


def fields_of(make):
    return make("p").fields


################################################################################
# Watchers


def expected_bytes(spec, live):
    """The bytes it's dumped to, or None if it can't be dumped."""
    try:
        return spec.dump(live.assigned)
    except (Bad, KeyError):
        return None


def see_bytes(cls, spec, live, rec):
    raw = expected_bytes(spec, live)
    if raw is None:
        return
    got = live.inst.to_bytes()
    if got != raw:
        fail(f"dumped {short(got)}, expected {short(raw)}")
    rec.step()


def see_size(cls, spec, live, rec):
    raw = expected_bytes(spec, live)
    if raw is None:
        return
    measured = len(live.inst)
    wrote = len(live.inst.to_bytes())
    if measured != wrote:
        fail(f"len() is {measured}, {wrote} bytes are dumped")
    if measured != len(raw):
        fail(f"len() is {measured}, expected {len(raw)}")
    if cls.get_size() not in (None, wrote):
        fail(f"get_size() is {cls.get_size()}, {wrote} bytes are dumped")
    rec.step(2)


def see_loaded(cls, spec, live, rec):
    raw = expected_bytes(spec, live)
    if raw is None:
        return
    back = cls.from_bytes(live.inst.to_bytes())
    same(values_of(back, spec), spec.loaded(live.assigned), f"loading {short(raw)}")
    rec.step(2)


def see_position(cls, spec, live, rec):
    raw = expected_bytes(spec, live)
    if raw is None or spec.greedy():
        return
    stream = stream_at(raw + raw, b"12345", b"\0\0")
    for i in (1, 2):
        back = cls.from_stream(stream)
        same(values_of(back, spec), spec.loaded(live.assigned), f"record {i}")
        if stream.tell() != 5 + i * len(raw):
            fail(f"record {i} ends at {stream.tell()}, not at {5 + i * len(raw)}")
    rec.step(2)


def see_single(cls, spec, live, rec):
    raw = expected_bytes(spec, live)
    if raw is None:
        return
    everything, _end = spec.load(raw, keep_discard=True)
    for f in reversed(spec.fields()):
        stream = stream_at(raw, b"12345")
        got = plain(cls.get_field(stream, f.name))
        same(got, everything[f.name], f"get_field({f.name!r})")
        if stream.tell() != 5:
            fail(f"get_field({f.name!r}) leaves the stream at {stream.tell()}")
        rec.step()


def see_partial(cls, spec, live, rec):
    import io

    raw = expected_bytes(spec, live)
    if raw is None:
        return
    everything, _end = spec.load(raw, keep_discard=True)
    pos = 0
    for f, p in spec.pieces(live.assigned):
        pos += len(p or b"")
        out = io.BytesIO()
        live.inst.partial_dump(out, f.name)
        if out.getvalue() != raw[:pos]:
            fail(f"partial_dump({f.name!r}) writes {short(out.getvalue())}, not {short(raw[:pos])}")
        stream = stream_at(raw, b"12345")
        part = cls.partial_load(stream, f.name)
        if stream.tell() != 5 + pos:
            fail(f"partial_load({f.name!r}) consumes {stream.tell() - 5} bytes, not {pos}")
        if not f.discard:
            same(plain(part[f.name]), everything[f.name], f"partial_load({f.name!r})")
        rec.step(2)


def see_cuts(cls, spec, live, rec):
    from binobj import errors

    raw = expected_bytes(spec, live)
    if raw is None or spec.greedy():
        return
    for n in range(len(raw)):
        try:
            got = cls.from_bytes(raw[:n])
        except errors.UnexpectedEOFError:
            pass
        except (UnicodeError, ValueError):
            pass  # text or a UUID cut off in the middle
        else:
            fail(f"{short(raw[:n])} is loaded as {got!r}, {len(raw) - n} bytes are missing")
        rec.step()


def has(*kinds):
    """Do any fields have one of these kinds?"""

    def any_of(kind):
        if isinstance(kind, kinds):
            return True
        if isinstance(kind, Arr):
            return any_of(kind.elem)
        if isinstance(kind, Nest):
            return any(any_of(f.kind) for f in kind.spec.fields())
        if isinstance(kind, Uni):
            return any(any_of(a) for a in kind.alts)
        return False

    return lambda fields: any(any_of(f.kind) for f in fields)


def conditional(fields):
    return any(f.present is not None for f in fields) or any(
        conditional(k.spec.fields()) for f in fields for k in nests(f.kind)
    )


def nullable(fields):
    return any(f.null is not NOPE for f in fields)


def nests(kind):
    """The structures in a field of this kind."""
    if isinstance(kind, Nest):
        return [kind]
    if isinstance(kind, Arr):
        return nests(kind.elem)
    if isinstance(kind, Uni):
        return [n for a in kind.alts for n in nests(a)]
    return []


ALL = (see_bytes, see_size, see_loaded, see_position, see_single, see_partial)
