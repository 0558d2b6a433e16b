"""Helpers shared by the checks."""

import io

from mc.core import Violation
from mc.model import Arr
from mc.model import Nest
from mc.model import plain
from mc.model import same_model
from mc.model import Uni


def fail(what):
    raise Violation(what)


def same(got, expected, what):
    if not same_model(got, expected):
        raise Violation(f"{what}: got {got!r}, expected {expected!r}")


def short(data):
    return data.hex() if len(data) <= 80 else data[:60].hex() + f"...({len(data)} bytes)"


def attempt(fn, *args, **kw):
    """("ok", result) or ("err", exception)."""
    try:
        return "ok", fn(*args, **kw)
    except Exception as exc:  # noqa: BLE001
        return "err", exc


def values_of(inst, spec, what="loaded"):
    """The values of all fields as attributes show them."""
    return {f.name: plain(getattr(inst, f.name)) for f in spec.fields() if not f.discard}


def has_structs(kind):
    if isinstance(kind, Nest):
        return True
    if isinstance(kind, Arr):
        return has_structs(kind.elem)
    if isinstance(kind, Uni):
        return any(has_structs(a) for a in kind.alts)
    return False


def modes(spec):
    """0: nested structs as dictionaries, 1: as instances."""
    return (0, 1) if any(has_structs(f.kind) for f in spec.fields()) else (0,)


def note(rec, spec, **info):
    rec.case = lambda: "\n".join(
        [f"declaration: {spec!r}"] + [f"{k}: {v!r}"[:800] for k, v in info.items()]
    )


def stream_at(data, before=b"", after=b""):
    s = io.BytesIO(before + data + after)
    s.seek(len(before))
    return s


def defined_by_data(spec):
    """Is the extent of the structure defined by the data, not by its end?"""
    return not spec.greedy()


def byte_strings(ch, alphabet, first, rest):
    """Yield all strings over the alphabet of up to ``rest`` bytes after a chosen start.

    The first ``first`` positions are choice points (so they are spread over shards).
    """
    head = bytearray()
    for _ in range(first):
        c = ch.pick(len(alphabet) + 1)
        if c == 0:
            break
        head.append(alphabet[c - 1])
    head = bytes(head)
    if len(head) < first:
        yield head
        return
    layer = [head]
    for n in range(rest + 1):
        yield from layer
        if n < rest:
            layer = [s + bytes([b]) for s in layer for b in alphabet]
