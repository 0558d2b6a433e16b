"""C26: callbacks see the right data, context and stream position."""

import io
import itertools
from collections.abc import Mapping

from mc.lib import attempt
from mc.lib import fail
from mc.lib import short
from mc.model import ABSENT
from mc.model import plain
from mc.model import same_model

BOUNDS = {
    "quick": "19 kinds of fields that record what their callbacks get (presence conditions,"
    " compute functions, deciders, stop rules, validators of fields and of structures, in"
    " fields, alternatives, elements, nested structures and arrays of them), all ordered pairs"
    " of them with inheritance and all triples in one structure; 24 operations: loading whole"
    " and in part, reading and dumping single fields, dumping whole and in part, exporting,"
    " measuring, validating, overriding values; with 4 context objects",
    "thorough": "also all quadruples, all triples with inheritance and in 4 surroundings",
}
ASSUMPTIONS = [
    "when dumping, callbacks look at fields without callbacks and at earlier fields with them",
    "how often a callback is called isn't specified, except that it's called",
]


def flat(value):
    """Model values, without those which aren't there."""
    value = plain(value)
    return drop(value)


def drop(value):
    if isinstance(value, dict):
        return {n: drop(v) for n, v in value.items() if v is not ABSENT}
    if isinstance(value, list):
        return [drop(v) for v in value]
    return value


COMPUTED = 0x35


def fits(got, want, phase):
    """Structures to dump may be given without what's computed."""
    if isinstance(want, dict) and isinstance(got, dict):
        left = {n for n, v in want.items() if v == COMPUTED} if phase != "load" else set()
        return (
            set(got) <= set(want)
            and set(want) - set(got) <= left
            and all(fits(got[n], want[n], phase) for n in got)
        )
    if isinstance(want, list) and isinstance(got, list):
        return len(got) == len(want) and all(fits(a, b, phase) for a, b in zip(got, want))
    return same_model(got, want)


class Frame:
    """One legitimate call of a callback."""

    optional = False

    def __init__(self, label, phase, env, ahead=None, later=(), **extra):
        self.label, self.phase, self.env = label, phase, env
        self.ahead, self.later, self.extra = ahead, later, extra

    def mismatch(self, call):
        for n, v in self.env.items():
            got = call.env.get(n, "(not there)")
            if v is ABSENT and got in ("(not there)", ABSENT):
                continue
            if not fits(got, v, self.phase):
                return f"{n} is {got!r}, not {v!r}"
        if self.phase == "load":
            extra = [n for n in self.later if n in call.env]
            if extra:
                return f"{extra} are there already"
            if self.ahead and not call.ahead.startswith(self.ahead):
                return f"the stream is at {call.ahead[:12]!r}, not at {self.ahead[:12]!r}"
        for k, v in self.extra.items():
            got = call.extra.get(k)
            if got is not v and not fits(got, v, self.phase):
                return f"{k} is {got!r}, not {v!r}"
        return None


class Call:
    def __init__(self, label, phase, env, context, ahead, extra):
        self.label, self.phase, self.env, self.context = label, phase, env, context
        self.ahead, self.extra = ahead, extra

    def __repr__(self):
        return f"{self.label} ({self.phase}) with {self.env!r}, {self.extra!r}, {self.ahead!r}"


class Recorder:
    def __init__(self):
        self.calls = []
        self.names = {}  # label -> the names of the fields around it
        self.readable = {}  # label -> the names it may look at when dumping
        self.quiet = {}  # label -> the names of fields without callbacks
        self.no_context = set()  # labels of callbacks that don't get the context
        self.odd = []  # values around a field that weren't a proper mapping

    def record(self, label, phase, fields_, context, stream=None, **extra):
        env = {}
        if fields_ is not None:
            wanted = self.names[label] if phase == "load" else self.readable[label]
            for n in wanted:
                try:
                    if phase == "load" and n not in fields_:
                        continue
                    env[n] = flat(fields_[n])
                except Exception:  # noqa: BLE001 - it's not available
                    continue
            odd = not_a_mapping(fields_, env)
            if odd:
                self.odd.append(f"{label} ({phase}): {odd}")
        ahead = None
        if stream is not None:
            here = stream.tell()
            ahead = stream.read()
            stream.seek(here)
        extra = {k: flat(v) if not isinstance(v, (tuple,)) else v for k, v in extra.items()}
        self.calls.append(Call(label, phase, env, context, ahead, extra))


def not_a_mapping(values, env):
    """What's wrong with the mapping that a callback gets, of which ``env`` is known."""
    if not isinstance(values, Mapping):
        return f"gets a {type(values).__name__}, which isn't a mapping"
    try:
        names = list(values)
        if len(values) != len(names) or len(set(names)) != len(names):
            return f"a mapping of the length {len(values)} has the keys {names!r}"
        if list(values.keys()) != names:
            return f"the keys {list(values.keys())!r} aren't {names!r}"
        strange = [n for n in names if n not in values or not isinstance(n, str)]
        if strange:
            return f"{strange!r} are and aren't in the mapping"
        if "no_such_field" in values or values.get("no_such_field", 5) != 5:
            return "something that isn't a field has a value"
        for n, value in env.items():
            if flat(values.get(n, ABSENT)) != value:
                return f"get({n!r}) gives {values.get(n, ABSENT)!r}, not {value!r}"
    except Exception as exc:  # noqa: BLE001 - mappings don't do this
        return f"using the mapping fails with {exc!r}"
    return None


class Slot:
    """Some field with callbacks, and what's known about it."""

    def __init__(self, field, value, piece, callback, given=True):
        self.field, self.value, self.piece = field, value, piece
        self.callback = callback  # has it got any that others may not look at?
        self.given = value if given is True else given
        self.unset = given is None
        self.frames = []  # functions: (scope, index, rest of the data) -> frames
        self.bind = None
        self.discard = False
        self.can_override = None
        self.methods = {}


def scope_env(slots, names, upto, phase, overrides=()):
    """What a callback of the ``upto``-th field can see."""
    env = {}
    for i, (n, s) in enumerate(zip(names, slots)):
        if phase == "load":
            if i < upto:
                env[n] = s.value
        elif i != upto and (not s.callback or i < upto):
            env[n] = s.value
    env.update(overrides)
    return env


# Every maker gets the recorder and a label, and returns a Slot.


def s_plain(R, label):
    from binobj import fields as F

    s = Slot(F.UInt8(), 0x21, b"\x21", False)
    s.can_override = 0x7E
    return s


def s_text(R, label):
    from binobj import fields as F

    return Slot(F.StringZ(encoding="utf-8"), "v\u0416", b"v\xd0\x96\0", False)


def s_default(R, label):
    from binobj import fields as F

    return Slot(F.UInt16(endian="big", default=0x0102), 0x0102, b"\1\2", False, given=None)


def s_discard(R, label):
    from binobj import fields as F

    s = Slot(F.UInt8(discard=True), 0x44, b"\x44", False)
    s.discard = True
    return s


def presence(R, label, result):
    def present(values, context, stream):
        R.record(label, "dump" if stream is None else "load", values, context, stream)
        return result

    return present


def presence_frames(label, s):
    def frames(names, slots, i, ahead, later):
        yield Frame(label, "load", scope_env(slots, names, i, "load"), ahead, later)
        f = Frame(label, "dump", scope_env(slots, names, i, "dump"))
        f.optional = s.value is ABSENT
        yield f

    s.frames.append(frames)
    return s


def s_present(R, label):
    from binobj import fields as F

    f = F.UInt16(endian="big", present=presence(R, label, True))
    return presence_frames(label, Slot(f, 0x0304, b"\3\4", True))


def s_absent(R, label):
    from binobj import fields as F

    f = F.UInt16(endian="big", present=presence(R, label, 0))
    return presence_frames(label, Slot(f, ABSENT, b"", True, given=None))


def s_present_text(R, label):
    from binobj import fields as F

    f = F.StringZ(present=presence(R, label, "yes"), discard=True)
    s = presence_frames(label, Slot(f, "p", b"p\0", True))
    s.discard = True
    return s


def s_computed(R, label):
    from binobj import fields as F

    f = F.UInt8()

    def compute(field, values):
        R.record(label, "dump", values, None, field=(field,))
        return COMPUTED

    f.computes(compute)
    R.no_context.add(label)
    s = Slot(f, COMPUTED, b"\x35", True, given=None)

    def frames(names, slots, i, ahead, later):
        yield Frame(label, "compute", scope_env(slots, names, i, "dump"))

    s.frames.append(frames)
    return s


def s_stop(R, label):
    from binobj import fields as F

    elements = [7, 8, 9]

    def halt(seq, stream, values, context, loaded):
        R.record(label, "load", loaded, context, stream, seq=(seq,), values=list(values))
        return len(values) >= 3

    f = F.Array(F.UInt8(), halt_check=halt)
    s = Slot(f, elements, bytes(elements), False)

    def frames(names, slots, i, ahead, later):
        env = scope_env(slots, names, i, "load")
        for k in range(4):
            yield Frame(
                label,
                "load",
                env,
                ahead[k:] if k < 3 else None,
                later,
                values=elements[:k],
            )

    s.frames.append(frames)
    return s


def decided(R, label, alternatives, which, value, piece, choices_of=tuple):
    from binobj import fields as F

    def load(stream, choices, context, loaded):
        R.record(label, "load", loaded, context, stream, choices=tuple(choices))
        return choices[which]

    def dump(data, choices, context, fields):
        R.record(label, "dump", fields, context, choices=tuple(choices), data=data)
        return choices[which]

    f = F.Union(*alternatives, load_decider=load, dump_decider=dump)
    s = Slot(f, value, piece, False)

    def frames(names, slots, i, ahead, later):
        both = tuple(alternatives)
        yield Frame(label, "load", scope_env(slots, names, i, "load"), ahead, later, choices=both)
        env = scope_env(slots, names, i, "dump")
        env[names[i]] = value
        yield Frame(label, "dump", env, choices=both, data=value)

    s.frames.append(frames)
    return s


def s_union(R, label):
    from binobj import fields as F

    return decided(R, label, [F.UInt8(), F.UInt16(endian="big")], 1, 0x0506, b"\5\6")


def s_union_stop(R, label):
    """An alternative with a callback of its own, which sees the same fields."""
    from binobj import fields as F

    inner = s_stop(R, label + ".stop")
    s = decided(R, label, [F.UInt8(), inner.field], 1, inner.value, inner.piece)
    s.frames += inner.frames
    return s


def s_array_union(R, label):
    """Deciders of elements."""
    from binobj import fields as F

    values = [0x41, "z", 0x43]
    pieces = [b"\x41", b"z\0", b"\x43"]
    alternatives = (F.UInt8(), F.StringZ())

    def load(stream, choices, context, loaded):
        R.record(label, "load", loaded, context, stream, choices=tuple(choices))
        here = stream.tell()
        c = stream.read(1)
        stream.seek(here)
        return choices[c == b"z"]

    def dump(data, choices, context, fields):
        R.record(label, "dump", fields, context, choices=tuple(choices), data=data)
        return choices[isinstance(data, str)]

    f = F.Array(F.Union(*alternatives, load_decider=load, dump_decider=dump), count=3)
    s = Slot(f, values, b"".join(pieces), False)

    def frames(names, slots, i, ahead, later):
        at = 0
        for v, p in zip(values, pieces):
            env = scope_env(slots, names, i, "load")
            yield Frame(label, "load", env, ahead[at:], later, choices=alternatives)
            env = scope_env(slots, names, i, "dump")
            env[names[i]] = values
            yield Frame(label, "dump", env, choices=alternatives, data=v)
            at += len(p)

    s.frames.append(frames)
    return s


def s_array_stop(R, label):
    """The stop rules of arrays that are elements."""
    from binobj import fields as F

    rows = [[1, 2], [3, 4]]

    def halt(seq, stream, values, context, loaded):
        R.record(label, "load", loaded, context, stream, values=list(values))
        return len(values) >= 2

    f = F.Array(F.Array(F.UInt8(), halt_check=halt), count=2)
    s = Slot(f, rows, bytes([1, 2, 3, 4]), False)

    def frames(names, slots, i, ahead, later):
        env = scope_env(slots, names, i, "load")
        for r in range(2):
            for k in range(3):
                yield Frame(
                    label, "load", env, ahead[2 * r + k :] or None, later, values=rows[r][:k]
                )

    s.frames.append(frames)
    return s


def validating(R, label, which):
    def check(field, value):
        R.record(label, "validate", None, None, field=(field,), value=value, which=which)

    R.no_context.add(label)
    return check


def s_validated(R, label):
    from binobj import fields as F

    checks = [validating(R, label, 1), validating(R, label, 2)]
    s = Slot(F.UInt8(validate=checks), 0x51, b"\x51", False)

    def frames(names, slots, i, ahead, later):
        for w in (1, 2):
            yield Frame(label, "validate", {}, field=(s.field,), value=0x51, which=w)

    s.frames.append(frames)
    return s


def s_validated_elements(R, label):
    from binobj import fields as F

    element = F.UInt8(validate=validating(R, label, 1))
    s = Slot(F.Array(element, count=2), [0x61, 0x62], b"\x61\x62", False)

    def frames(names, slots, i, ahead, later):
        for v in (0x61, 0x62):
            yield Frame(label, "validate", {}, field=(element,), value=v, which=1)

    s.frames.append(frames)
    return s


def s_validated_by_method(R, label):
    from binobj import fields as F

    s = Slot(F.StringZ(), "mv", b"mv\0", False)

    def method(self, field, value):
        R.record(label, "method", None, None, field=(field,), value=value, of=(type(self),))

    R.no_context.add(label)
    s.methods = {"fields": method}

    def frames(names, slots, i, ahead, later):
        yield Frame(label, "method", {}, field=(s.field,), value="mv", of=(s.owner,))

    s.frames.append(frames)
    return s


def s_structure_validated(R, label):
    from binobj import fields as F

    s = Slot(F.UInt8(), 0x71, b"\x71", False)

    def method(self, struct):
        seen = {n: flat(struct[n]) for n in R.quiet[label]}
        R.record(label, "structure", None, None, of=(type(self),), seen=seen)

    R.no_context.add(label)
    s.methods = {"structure": method}

    def frames(names, slots, i, ahead, later):
        seen = {n: x.value for n, x in zip(names, slots) if not x.callback}
        yield Frame(label, "structure", {}, of=(s.owner,), seen=seen)

    s.frames.append(frames)
    return s


def inner_slots(R, label):
    makers = [s_plain, s_present, s_absent, s_computed, s_stop, s_union, s_validated]
    return [m(R, f"{label}.{m.__name__[2:]}") for m in makers]


def nested_scope(R, label):
    slots = inner_slots(R, label)
    names = [f"i{k}" for k in range(len(slots))]
    cls = declare("I", names, slots, R)
    value = {n: s.value for n, s in zip(names, slots) if s.value is not ABSENT}
    given = {n: s.given for n, s in zip(names, slots) if not s.unset}
    return slots, names, cls, value, given


def nested_frames(s, slots, names, piece, starts):
    def frames(_names, _slots, _i, ahead, _later):
        for at in starts:
            yield from scope_frames(names, slots, ahead[at:])

    s.frames.append(frames)


def s_nested(R, label):
    from binobj import fields as F

    slots, names, cls, value, given = nested_scope(R, label)
    piece = b"".join(x.piece for x in slots)
    s = Slot(F.Nested(cls), value, piece, True, given=given)
    nested_frames(s, slots, names, piece, [0])
    return s


def s_nested_instance(R, label):
    s = s_nested(R, label)
    cls, given = s.field.struct_class, s.given
    s.given = Made(lambda: cls(**given))
    return s


def s_array_nested(R, label):
    from binobj import fields as F

    slots, names, cls, value, given = nested_scope(R, label)
    piece = b"".join(x.piece for x in slots)
    f = F.Array(F.Nested(cls), count=2)
    s = Slot(f, [value, value], piece * 2, True)
    s.given = Made(lambda: [given, cls(**given)])
    nested_frames(s, slots, names, piece, [0, len(piece)])
    return s


def s_union_nested(R, label):
    """A structure as an alternative."""
    from binobj import fields as F

    slots, names, cls, value, given = nested_scope(R, label)
    piece = b"".join(x.piece for x in slots)
    label += ".decider"

    def load(stream, choices, context, loaded):
        R.record(label, "load", loaded, context, stream, choices=tuple(choices))
        return choices[0]

    def dump(data, choices, context, fields):
        R.record(label, "dump", fields, context, choices=tuple(choices))
        return choices[0]

    both = (cls, F.UInt8())
    f = F.Union(*both, load_decider=load, dump_decider=dump)
    s = Slot(f, value, piece, True, given=given)

    def frames(names, slots, i, ahead, later):
        yield Frame(label, "load", scope_env(slots, names, i, "load"), ahead, later, choices=both)
        yield Frame(label, "dump", scope_env(slots, names, i, "dump"), choices=both)

    s.frames.append(frames)
    nested_frames(s, slots, names, piece, [0])
    return s


class Made:
    def __init__(self, make):
        self.make = make


SLOTS = (
    s_plain,
    s_text,
    s_default,
    s_discard,
    s_present,
    s_absent,
    s_present_text,
    s_computed,
    s_stop,
    s_union,
    s_union_stop,
    s_array_union,
    s_array_stop,
    s_validated,
    s_validated_elements,
    s_validated_by_method,
    s_structure_validated,
    s_nested,
    s_nested_instance,
    s_array_nested,
    s_union_nested,
)


def all_labels(s, names, slots, i):
    out = set()
    for make in s.frames:
        for f in make(names, slots, i, b"", ()):
            out.add(f.label)
    return out


def declare(name, names, slots, R, parent=0):
    """The structure, the first ``parent`` fields of which are inherited."""
    import binobj
    from binobj import decorators

    def build(cls_name, base, part):
        ns = {}
        for n, s in part:
            ns[n] = s.field
            if "fields" in s.methods:
                # Bound by hand, for a fresh function per class.
                ns[f"check_{n}"] = decorators.validates(n)(s.methods["fields"])
            if "structure" in s.methods:
                ns[f"check_all_{n}"] = decorators.validates_struct(s.methods["structure"])
        return type(cls_name, (base,), ns)

    both = list(zip(names, slots))
    base = binobj.Struct
    if parent:
        base = build("P", binobj.Struct, both[:parent])
    cls = build(name, base, both[parent:])
    for i, s in enumerate(slots):
        s.owner = cls
        for make in s.frames:
            for f in make(names, slots, i, b"", ()):
                if f.label not in R.names:
                    R.names[f.label] = names
                    R.quiet[f.label] = [n for n, x in both if not x.callback]
                    R.readable[f.label] = [
                        n
                        for k, (n, x) in enumerate(both)
                        if (k < i or not x.callback) and (k != i or not x.callback)
                    ]
    return cls


def scope_frames(names, slots, ahead):
    """The legitimate calls of all callbacks in a structure starting there."""
    at = 0
    for i, s in enumerate(slots):
        for make in s.frames:
            for f in make(names, slots, i, ahead[at:], names[i:]):
                f.owner_index = i
                yield f
        at += len(s.piece)


CONTEXTS = (None, [], {"k": 1}, 0)


class Case:
    def __init__(self, makers, parent, rec):
        self.R = R = Recorder()
        self.slots = [m(R, f"{chr(97 + k)}:{m.__name__[2:]}") for k, m in enumerate(makers)]
        self.names = [chr(97 + k) for k in range(len(makers))]
        self.cls = declare("S", self.names, self.slots, R, parent)
        self.raw = b"".join(s.piece for s in self.slots)
        self.rec = rec
        self.makers = makers
        self.parent = parent

    def given(self):
        out = {}
        for n, s in zip(self.names, self.slots):
            if s.unset:
                continue
            out[n] = s.given.make() if isinstance(s.given, Made) else s.given
        return out

    def run(self, what, op, context, data, phases, upto=None, required=True, early=()):
        """Do something and check all the calls; ``upto``: the fields concerned."""
        R = self.R
        self.rec.case = lambda: (
            f"{[m.__name__[2:] for m in self.makers]}, inherited {self.parent}: {what}, context"
            f" {context!r}"
        )
        R.calls = []
        how, got = attempt(op)
        if how == "err":
            fail(f"fails with {got!r}")
        self.rec.step()
        calls = R.calls
        R.calls = []
        if R.odd:
            fail(R.odd[0])
        frames = {}
        for f in scope_frames(self.names, self.slots, data):
            # What's given for overriding may be there from the beginning.
            f.later = [n for n in f.later if n not in early or R.names[f.label] is not self.names]
            frames.setdefault(f.label, []).append(f)
        hit = set()
        for c in calls:
            if c.label not in R.no_context and c.context is not context:
                fail(f"{c!r} gets the context {c.context!r}")
            reasons = []
            for f in frames.get(c.label, ()):
                phase = "compute" if f.phase == "compute" and c.phase == "dump" else f.phase
                if phase == "compute":
                    f.phase = "compute"
                elif phase != c.phase:
                    continue
                why = f.mismatch(c)
                if why is None:
                    hit.add(id(f))
                else:
                    reasons.append(why)
            if not self.matched(c, frames.get(c.label, ())):
                fail(f"{c!r}: {' / '.join(dict.fromkeys(reasons)) or 'unexpected'}")
        if required:
            for label, fs in frames.items():
                for f in fs:
                    if f.phase not in phases or f.optional or id(f) in hit:
                        continue
                    if upto is not None and f.owner_index > upto:
                        continue
                    fail(f"{label} isn't called ({f.phase}) with {f.env!r}, {f.extra!r}")
        return got

    def matched(self, c, frames):
        for f in frames:
            if (f.phase == c.phase or (f.phase == "compute" and c.phase == "dump")) and (
                f.mismatch(c) is None
            ):
                return True
        return False

    def stream(self, before=b"", after=b""):
        s = io.BytesIO(before + self.raw + after)
        s.seek(len(before))
        return s

    def all_operations(self, context):
        cls, raw, names = self.cls, self.raw, self.names
        # What's loaded entirely is checked by all validators, in part by those of fields.
        full = ("load", "validate", "method", "structure")
        self.run("from_bytes", lambda: cls.from_bytes(raw, context), context, raw, full)
        self.run(
            "from_stream",
            lambda: cls.from_stream(self.stream(b"..", b"\xee\xee"), context),
            context,
            raw,
            full,
        )
        overridable = [(n, s) for n, s in zip(names, self.slots) if s.can_override]
        for n, s in overridable[:1]:
            old, s.value = s.value, s.can_override
            self.run(
                f"from_bytes, overriding {n}",
                lambda: cls.from_bytes(raw, context, init_kwargs={n: s.can_override}),
                context,
                raw,
                ("load",),
                early=(n,),
            )
            s.value = old
        self.run(
            "partial_load", lambda: cls.partial_load(self.stream(b"."), None, context),
            context, raw, ("load",),
        )
        for i, n in enumerate(names):
            self.run(
                f"partial_load to {n}",
                lambda: cls.partial_load(self.stream(b"...", b"\xee"), n, context),
                context,
                raw,
                ("load",),
                i,
            )
            got = self.run(
                f"get_field {n}",
                lambda: cls.get_field(self.stream(b".", b"\xee"), n, context),
                context,
                raw,
                (),
            )
            if not same_model(flat(got), self.slots[i].value):
                fail(f"get_field({n}) gives {got!r}")
            self.one_field(i, n, context)
        loaded = cls.from_bytes(raw, context)
        fresh = cls(**self.given())
        later = cls()
        for n, v in self.given().items():
            self.run(f"setting {n}", lambda: later.__setitem__(n, v), None, raw, (), None, False)
        complete = not any(s.discard for s in self.slots)
        for what, inst in (("loaded", loaded), ("made", fresh), ("assigned", later)):
            if what == "loaded" and not complete:
                continue
            computes = ("compute",) if what != "loaded" else ()
            dumping = ("dump", "validate", "method", "structure", *computes)
            got = self.run(
                f"to_bytes, {what}", lambda: inst.to_bytes(context), context, raw, dumping
            )
            if got != raw:
                fail(f"dumped {short(got)}, expected {short(raw)}")
            if what == "assigned":
                continue
            s = io.BytesIO()
            self.run(
                f"to_stream, {what}", lambda: inst.to_stream(s, context), context, raw, dumping
            )
            self.run(
                f"validate_contents, {what}",
                lambda: inst.validate_contents(context),
                context,
                raw,
                self.validates_only(),
            )
            for keep in (False, True):
                self.run(
                    f"to_dict({keep}), {what}",
                    lambda: inst.to_dict(keep, context),
                    context,
                    raw,
                    (),
                )
            self.run(f"len, {what}", lambda: len(inst), None, raw, ())
            self.run(f"== {what}", lambda: inst == fresh, None, raw, ())
            self.run(f"repr {what}", lambda: repr(inst), None, raw, ())
            self.run(
                f"attributes, {what}",
                lambda: [attempt(getattr, inst, n) for n in names],
                None,
                raw,
                (),
            )
            s = io.BytesIO()
            self.run(
                f"partial_dump, {what}",
                lambda: inst.partial_dump(s, None, context),
                context,
                raw,
                ("dump", *computes),
            )
            if s.getvalue() != raw:
                fail(f"dumped in part {short(s.getvalue())}, expected {short(raw)}")
            for i, n in enumerate(names):
                s = io.BytesIO()
                self.run(
                    f"partial_dump to {n}, {what}",
                    lambda: inst.partial_dump(s, n, context),
                    context,
                    raw,
                    ("dump",),
                    i,
                )
        self.incomplete(context)

    def validates_only(self):
        """Validators inside of elements and nested structures are part of dumping."""
        return ("method", "structure")

    def one_field(self, i, n, context):
        """A field by itself, given the values around it."""
        s = self.slots[i]
        field = s.field
        env = {m: x.value for m, x in list(zip(self.names, self.slots))[:i]}
        at = sum(len(x.piece) for x in self.slots[:i])
        stream = io.BytesIO(self.raw + b"\xee")
        stream.seek(at)
        self.run(
            f"{n}.from_stream",
            lambda: field.from_stream(stream, context, env),
            context,
            self.raw,
            (),
        )
        if s.value is ABSENT:
            return
        value = s.given.make() if isinstance(s.given, Made) else s.given
        if s.unset:
            value = s.value
        every = {m: x.value for m, x in zip(self.names, self.slots)}
        got = self.run(
            f"{n}.to_bytes", lambda: field.to_bytes(value, context, every), context, self.raw, ()
        )
        if got != s.piece:
            fail(f"{n} alone is dumped as {got!r}, not {s.piece!r}")

    def incomplete(self, context):
        """With one value missing, callbacks still get the others."""
        given = self.given()
        for i, (n, s) in enumerate(zip(self.names, self.slots)):
            if n not in given:
                continue
            inst = self.cls(**{m: v for m, v in given.items() if m != n})
            for j in range(i):
                old = s.value
                s.value = ABSENT
                try:
                    self.run(
                        f"partial_dump to {self.names[j]} without {n}",
                        lambda: inst.partial_dump(io.BytesIO(), self.names[j], context),
                        context,
                        self.raw,
                        ("dump",),
                        j,
                    )
                finally:
                    s.value = old


def judge(makers, parent, contexts, rec):
    case = Case(makers, parent, rec)
    for context in contexts:
        case.all_operations(context)
        rec.traced()
        rec.state(*[m.__name__ for m in makers], parent, repr(context))
    rec.sample(f"{[m.__name__ for m in makers]}: {short(case.raw)}")


def pairs(ch, rec):
    makers = [ch.choose(SLOTS) for _ in range(2)]
    judge(makers, ch.pick(2), CONTEXTS, rec)


def triples(parents):
    def body(ch, rec):
        makers = [ch.choose(SLOTS) for _ in range(3)]
        judge(makers, ch.choose(parents), CONTEXTS[1:2], rec)

    return body


def quads(ch, rec):
    makers = [ch.choose(SLOTS) for _ in range(4)]
    judge(makers, 0, CONTEXTS[1:2], rec)


def bodies(tier, seed):
    out = {"pairs": pairs, "triples": triples((0, 1, 2) if tier == "thorough" else (0,))}
    if tier == "thorough":
        out["quads"] = quads
    return out
