"""C22: timestamps keep denoting the same instant."""

import datetime
import io
import os
import time
import warnings

from mc.lib import attempt
from mc.lib import fail
from mc.lib import short
from mc.lib import stream_at
from mc.model import EPOCH
from mc.model import instant_us
from mc.model import UNITS
from mc.model import UTC

BOUNDS = {
    "quick": "sizes 1 to 16 bytes, all resolutions, byte orders, signedness, aware and naive;"
    " every number of 1 byte and the neighbourhood of every power of two, of the limits and of"
    " the multiples of the resolution for longer ones; 60 boundary instants of years 1 to 9999"
    " with 12 fractions in 14 zones of the value, under 10 local zones; every quarter of an"
    " hour around every change of the clocks in 8 years; all sequences of 4 operations that"
    " change the local zone, assign, dump and load",
    "thorough": "also every number of 2 bytes, every microsecond of several seconds, every"
    " quarter of an hour of a whole year, and sequences of 6 operations",
}
ASSUMPTIONS = [
    "local zones are given by POSIX rules; the C library is trusted to follow them, and is"
    " the reference for such zones before 1972",
    "naive datetimes within two days of the limits of years 1 and 9999 aren't covered: the"
    " interpreter can't convert them",
    "times skipped by a change of the clocks may mean either of the two instants",
    "numbers of nanoseconds between two microseconds may be loaded as either of them",
]


# --- what local time is, written without the time and datetime modules' conversions


def day_number(year, month, day):
    """Days since 1970-01-01 in the Gregorian calendar."""
    y = year - (month <= 2)
    era, yoe = divmod(y, 400)
    doy = (153 * ((month + 9) % 12) + 2) // 5 + day - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def civil(days):
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    month = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (month <= 2), month, doy - (153 * mp + 2) // 5 + 1


def rule_day(year, month, week, weekday):
    """The day of an M-rule of a POSIX zone."""
    first = day_number(year, month, 1)
    day = first + (weekday - (first + 4)) % 7 + 7 * (week - 1)
    following = day_number(year + month // 12, month % 12 + 1, 1)
    while day >= following:
        day -= 7
    return day


class Zone:
    def __init__(self, tz, std, dst=None, start=None, end=None):
        self.tz, self.std, self.dst, self.start, self.end = tz, std, dst, start, end
        self.memo = {}

    def changes(self, year):
        """The instants (in seconds) at which summer time starts and ends."""
        if year not in self.memo:
            m, w, d, at = self.start
            begins = rule_day(year, m, w, d) * 86400 + at - self.std
            m, w, d, at = self.end
            ends = rule_day(year, m, w, d) * 86400 + at - self.dst
            self.memo[year] = (begins, ends)
        return self.memo[year]

    def offset(self, seconds):
        if self.dst is None:
            return self.std
        year = civil((seconds + self.std) // 86400)[0]
        if year < 1972:  # what the C library makes of such years depends on its version
            return time.localtime(seconds).tm_gmtoff
        last = max(
            (at, off)
            for y in (year - 1, year, year + 1)
            for at, off in zip(self.changes(y), (self.dst, self.std))
            if at <= seconds
        )
        return last[1]

    def instants(self, v):
        """The microseconds since the epoch a naive datetime may stand for."""
        local = local_seconds(v)
        offs = {self.std} if self.dst is None else {self.std, self.dst}
        if self.dst is not None and v.year < 1973:
            offs |= {self.offset(local - self.std + d) for d in (-86400, 0, 86400)}
        found = sorted(local - o for o in offs if self.offset(local - o) == o)
        if len(found) > 1:
            found = [found[v.fold]]
        elif not found:
            found = [local - o for o in offs]
        return {s * 10**6 + v.microsecond for s in found}

    def naive(self, us):
        """The fields of the local time of an instant, and which of two alike it is."""
        seconds, micro = divmod(us, 10**6)
        off = self.offset(seconds)
        days, rest = divmod(seconds + off, 86400)
        out = (*civil(days), rest // 3600, rest // 60 % 60, rest % 60, micro)
        return out

    def __repr__(self):
        return self.tz


def local_seconds(v):
    return day_number(v.year, v.month, v.day) * 86400 + v.hour * 3600 + v.minute * 60 + v.second


H = 3600
PLAIN = [
    Zone("UTC0", 0),
    Zone("XXX-14", 14 * H),
    Zone("YYY12", -12 * H),
    Zone("NPT-5:45", 5 * H + 45 * 60),
    Zone("LMT3:17:32", -(3 * H + 17 * 60 + 32)),
]
CHANGING = [
    Zone("EST5EDT,M3.2.0,M11.1.0", -5 * H, -4 * H, (3, 2, 0, 2 * H), (11, 1, 0, 2 * H)),
    Zone("AEST-10AEDT,M10.1.0,M4.1.0/3", 10 * H, 11 * H, (10, 1, 0, 2 * H), (4, 1, 0, 3 * H)),
    Zone(
        "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0",
        10 * H + 1800,
        11 * H,
        (10, 1, 0, 2 * H),
        (4, 1, 0, 2 * H),
    ),
    Zone("<+00>0<+02>-2,M3.5.0/1,M10.5.0/3", 0, 2 * H, (3, 5, 0, H), (10, 5, 0, 3 * H)),
    Zone("IST-1GMT0,M10.5.0,M3.5.0/1", H, 0, (10, 5, 0, 2 * H), (3, 5, 0, H)),
]
ZONES = PLAIN + CHANGING


class local:
    """Run with the given local zone."""

    def __init__(self, zone):
        self.zone = zone

    def __enter__(self):
        set_zone(self.zone)
        self.quiet = warnings.catch_warnings()
        self.quiet.__enter__()
        warnings.simplefilter("ignore")

    def __exit__(self, *exc):
        self.quiet.__exit__(*exc)
        set_zone(PLAIN[0])


def set_zone(zone):
    os.environ["TZ"] = zone.tz
    time.tzset()


# --- what's stored


def number(us, res):
    n = abs(us) * UNITS[res] // 10**6
    return n if us >= 0 else -n


def encoded(n, size, signed, endian):
    """The bytes, or None if it doesn't fit."""
    low = -(1 << (8 * size - 1)) if signed else 0
    high = (1 << (8 * size - signed)) - 1
    if not low <= n <= high:
        return None
    if n < 0:
        n += 1 << (8 * size)
    out = [n >> (8 * i) & 255 for i in range(size)]
    return bytes(out if endian == "little" else out[::-1])


def declared(size, res, aware, signed, endian):
    from binobj import fields as F

    kw = {"resolution": res, "tz_aware": aware, "signed": signed, "endian": endian}
    if size == 4:
        return F.Timestamp32(**kw)
    if size == 8:
        return F.Timestamp64(**kw)
    return F.Timestamp(size=size, **kw)


FIRST = day_number(1, 1, 1) * 86400 * 10**6
LAST = day_number(10000, 1, 1) * 86400 * 10**6 - 1
MARGIN = 2 * 86400 * 10**6


def check_loaded(got, allowed, aware, zone, what):
    """A loaded datetime must denote one of the allowed instants."""
    if not isinstance(got, datetime.datetime):
        fail(f"{what}: {got!r}")
    if aware:
        if got.tzinfo is None or got.utcoffset() != datetime.timedelta(0):
            fail(f"{what}: {got!r} isn't in UTC")
        if instant_us(got) not in allowed:
            fail(f"{what}: {got!r} is {instant_us(got)}, expected {allowed}")
        return
    if got.tzinfo is not None:
        fail(f"{what}: {got!r} is aware")
    fields = (got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond)
    if not any(zone.naive(us) == fields and us in zone.instants(got) for us in allowed):
        fail(
            f"{what}: {got!r} (fold {got.fold}) is {zone.instants(got)},"
            f" expected {allowed} under {zone}"
        )


def check_dump(field, v, allowed, size, res, signed, endian, rec):
    """Dump a datetime denoting one of the allowed instants."""
    from binobj import errors

    expected = {encoded(number(us, res), size, signed, endian) for us in allowed}
    s = io.BytesIO()
    s.write(b"ab")
    how, got = attempt(field.to_stream, s, v)
    rec.step()
    written = s.getvalue()[2:]
    if how == "ok":
        if written not in expected:
            fail(f"wrote {short(written)}, expected one of {expected}")
        return written
    if None not in expected:
        fail(f"refused with {got!r}, expected one of {expected}")
    if not isinstance(got, errors.UnserializableValueError):
        fail(f"refused with {got!r}")
    if written:
        fail(f"refused, but {short(written)} was written")
    return None


def floors(n, res):
    """The instants (in microseconds) a number may be loaded as."""
    us, rest = divmod(n * 10**6, UNITS[res])
    return {us, us + 1} if rest and n < 0 else {us}


def check_load(field, raw, n, aware, res, zone, rec):
    allowed = floors(n, res)
    lo, hi = min(allowed), max(allowed)
    s = stream_at(raw, b"pre", b"after")
    how, got = attempt(field.from_stream, s)
    rec.step()
    if how == "ok":
        check_loaded(got, allowed, aware, zone, f"loading {n} ({res})")
        if s.tell() != 3 + len(raw):
            fail(f"the stream is at {s.tell() - 3} after {len(raw)} bytes")
        return got
    margin = 0 if aware else MARGIN
    if FIRST + margin <= lo and hi <= LAST - margin:
        fail(f"{n} ({res}) can't be loaded: {got!r}")
    return None


# --- bodies

SIZES = (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16)


def near(size, signed, res):
    """Numbers worth trying in a field of this size."""
    low = -(1 << (8 * size - 1)) if signed else 0
    high = (1 << (8 * size - signed)) - 1
    unit = UNITS[res]
    out = set()
    for k in range(8 * size + 1):
        for d in (-2, -1, 0, 1, 2):
            out.update(((1 << k) + d, -(1 << k) + d))
    for m in (1, 2, 59, 60, 61, 3600, 86399, 86400, 10**9, 1555555555):
        for d in (-1001, -1000, -999, -1, 0, 1, 499, 500, 501, 999, 1000, 1001):
            out.update((m * unit + d, -m * unit + d))
    for edge in (FIRST, LAST, FIRST + MARGIN, LAST - MARGIN):
        n = edge * unit // 10**6
        out.update(n + d for d in (-2, -1, 0, 1, 2))
    return sorted(n for n in out if low <= n <= high)


def numbers(every_up_to):
    def body(ch, rec):
        size = ch.choose(SIZES)
        res = ch.choose(tuple(UNITS))
        signed = ch.flag()
        endian = ch.choose(("little", "big"))
        aware = ch.flag()
        zone = PLAIN[0] if aware else ch.choose(ZONES)
        if size <= every_up_to:
            base = -(1 << (8 * size - 1)) if signed else 0
            all_of_them = range(base, base + (1 << 8 * size))
        else:
            all_of_them = near(size, signed, res)
        field = declared(size, res, aware, signed, endian)
        with local(zone):
            for n in all_of_them:
                raw = encoded(n, size, signed, endian)
                rec.case = lambda: (
                    f"{size} bytes, {res}, signed {signed}, {endian}, aware {aware},"
                    f" {zone}: loading {raw.hex()} ({n})"
                )
                v = check_load(field, raw, n, aware, res, zone, rec)
                if v is None:
                    continue
                if len(floors(n, res)) == 1 and n * 10**6 % UNITS[res] == 0:
                    how, again = attempt(field.to_bytes, v)
                    if how != "ok" or again != raw:
                        fail(f"{v!r} (fold {v.fold}) is dumped as {again!r}, not {raw.hex()}")
                    rec.step()
                rec.state(size, res, signed, aware, n)
        rec.traced()

    return body


class OtherZone(datetime.tzinfo):
    """A zone with rules of its own: an hour more after the epoch, and odd seconds."""

    def utcoffset(self, v):
        hour = datetime.timedelta(hours=1, seconds=7)
        return hour if v.replace(tzinfo=None) < datetime.datetime(1970, 1, 1) else 2 * hour

    def dst(self, v):
        return datetime.timedelta(0)

    def tzname(self, v):
        return "other"


class OwnDatetime(datetime.datetime):
    pass


def value_zones():
    """Ways to express an instant (naive UTC datetime -> datetime, or None)."""

    def fixed(**kw):
        zone = datetime.timezone(datetime.timedelta(**kw))
        return lambda v: v.replace(tzinfo=UTC).astimezone(zone)

    def named(name):
        def make(v):
            try:
                import zoneinfo

                zone = zoneinfo.ZoneInfo(name)
            except Exception:  # noqa: BLE001 - no time zone data here
                return None
            return v.replace(tzinfo=UTC).astimezone(zone)

        return make

    def other(v):
        for off in (1, 2):
            w = (v + off * datetime.timedelta(hours=1, seconds=7)).replace(tzinfo=OtherZone())
            if w.utcoffset() == off * datetime.timedelta(hours=1, seconds=7):
                return w
        return None

    def own(v):
        return OwnDatetime.combine(v.date(), v.time(), UTC)

    return {
        "utc": lambda v: v.replace(tzinfo=UTC),
        "+14": fixed(hours=14),
        "-12": fixed(hours=-12),
        "+5:45": fixed(hours=5, minutes=45),
        "-3:17:32": fixed(hours=-3, minutes=-17, seconds=-32),
        "odd microseconds": fixed(seconds=1, microseconds=1),
        "+23:59": fixed(hours=23, minutes=59),
        "-23:59": fixed(hours=-23, minutes=-59),
        "zero": fixed(hours=0),
        "New York": named("America/New_York"),
        "Dublin": named("Europe/Dublin"),
        "Lord Howe": named("Australia/Lord_Howe"),
        "own rules": other,
        "own class": own,
    }


def boundary_seconds():
    years = (1, 2, 1582, 1601, 1899, 1900, 1901, 1969, 1970, 1971, 1999, 2000, 2004, 2019)
    out = set()
    for y in (*years, 2024, 2038, 2100, 2106, 2262, 2263, 5138, 9998, 9999):
        out.add(day_number(y, 1, 1) * 86400)
        out.add(day_number(y, 12, 31) * 86400 + 86399)
    for k in (7, 8, 15, 16, 23, 24, 31, 32, 33, 53):
        out.update(((1 << k) - 1, 1 << k, -(1 << k), -(1 << k) - 1))
    out.update((0, -1, 1, -59, -60, -61, -3600, -86400, -86401, 951782400, -2203891200))
    first, last = FIRST // 10**6, LAST // 10**6
    return sorted(s for s in out if first <= s <= last)


FRACTIONS = (0, 1, 2, 499, 500, 999, 1000, 1001, 123456, 500000, 570001, 999000, 999999)
BASE = datetime.datetime(1970, 1, 1)


def instants(ch, rec):
    """Aware values, for aware fields and (the number is the same) for naive ones."""
    size = ch.choose(SIZES)
    res = ch.choose(tuple(UNITS))
    signed = ch.flag()
    aware = ch.flag()
    endian = ch.choose(("little", "big"))
    zone = ch.choose((PLAIN[0], PLAIN[3], CHANGING[0]))
    ways = value_zones()
    field = declared(size, res, aware, signed, endian)
    all_ways = size in (4, 8) and zone is not PLAIN[3]
    with local(zone):
        for i, s in enumerate(boundary_seconds()):
            for j, micro in enumerate(FRACTIONS):
                us = s * 10**6 + micro
                plain = BASE + datetime.timedelta(seconds=s, microseconds=micro)
                chosen = ways if all_ways and j % 3 == 0 else [list(ways)[(i + j) % len(ways)]]
                for way in chosen:
                    try:
                        v = ways[way](plain)
                    except OverflowError:
                        continue
                    if v is None:
                        continue
                    rec.case = lambda: (
                        f"{size} bytes, {res}, signed {signed}, {endian}, aware {aware},"
                        f" {zone}: {v!r} ({us} us)"
                    )
                    raw = check_dump(field, v, {us}, size, res, signed, endian, rec)
                    if raw is not None:
                        check_load(field, raw, number(us, res), aware, res, zone, rec)
                    rec.state(size, res, signed, aware, us)
                    rec.outcome(raw is None)
    rec.traced()


def fractions(ch, rec):
    """Microseconds, one after another."""
    start = ch.choose((0, 1, 1549124515, -1, -2, -86400, 4102444799, -(1 << 33), 253402300799))
    part = ch.pick(100)
    aware = ch.flag()
    fields = [
        (res, declared(size, res, aware, True, "big"), size)
        for res, size in (("s", 8), ("ms", 7), ("us", 8), ("ns", 9))
    ]
    with local(PLAIN[0]):
        for micro in range(part * 10000, part * 10000 + 10000):
            us = start * 10**6 + micro
            v = BASE + datetime.timedelta(seconds=start, microseconds=micro)
            if aware:
                v = v.replace(tzinfo=UTC)
            elif not FIRST + MARGIN <= us <= LAST - MARGIN:
                continue
            for res, field, size in fields:
                rec.case = lambda: f"{res}, aware {aware}: {v!r}"
                expected = encoded(number(us, res), size, True, "big")
                got = field.to_bytes(v)
                if got != expected:
                    fail(f"wrote {got.hex()}, expected {expected.hex()}")
                if res in ("us", "ns") and field.from_bytes(got) != v:
                    fail(f"loaded as {field.from_bytes(got)!r}")
            rec.step(6)
        rec.traced()
        rec.state(start, part, aware)


def some_fractions(ch, rec):
    start = ch.choose((0, 1, 1549124515, -1, -2, -86400, 4102444799, -(1 << 33), 253402300799))
    part = ch.choose((0, 57, 99))
    aware = ch.flag()
    _fractions_of(start, part, aware, rec)


def _fractions_of(start, part, aware, rec):
    class Given:
        def choose(self, seq):
            return start

        def pick(self, n):
            return part

        def flag(self):
            return aware

    fractions(Given(), rec)


YEARS = (1900, 1969, 1970, 2019, 2024, 2037, 2038, 2100, 9000)


def naive_times(whole_year):
    def body(ch, rec):
        zone = ch.choose(ZONES)
        year = ch.choose(YEARS if zone in CHANGING or whole_year else YEARS[1:9:3])
        half = ch.pick(2)
        size, res = ch.choose(((8, "s"), (8, "ms"), (8, "us"), (12, "ns"), (4, "s")))
        signed = not (size == 4 and ch.flag())
        aware = ch.flag()
        field = declared(size, res, aware, signed, "big")
        if zone.dst is None:
            centre = day_number(year, 6 if half else 1, 1) * 86400
        else:
            centre = zone.changes(year)[half]
        with local(zone):
            if whole_year:
                part = ch.pick(12)
                first = -183 * 96 + part * 31 * 96
                steps = range(first, first + 31 * 96) if half else range(-16 - part, 17, 12)
            else:
                steps = range(-16, 17)
            for q in steps:
                for d in (-1, 0, 1):
                    one_time(zone, centre + q * 900 + d, field, size, res, signed, aware, rec)
        rec.traced()
        rec.state(zone.tz, year, half, size, res, signed, aware)

    return body


def one_time(zone, seconds, field, size, res, signed, aware, rec):
    """The wall-clock time at an instant, both as it is and as the other of two alike."""
    for micro in (0, 1, 999999):
        us = seconds * 10**6 + micro
        for fold in (0, 1):
            for shift in (0, 1800):  # with a shift, also skipped times
                y, mo, d, h, mi, s, m = zone.naive(us + shift * 10**6)
                v = datetime.datetime(y, mo, d, h, mi, s, m, fold=fold)
                if shift:
                    v += datetime.timedelta(seconds=-shift)
                    v = v.replace(fold=fold)
                allowed = zone.instants(v)
                rec.case = lambda: (
                    f"{size} bytes, {res}, signed {signed}, aware {aware}, {zone}: {v!r},"
                    f" fold {fold}, which is {allowed}"
                )
                raw = check_dump(field, v, allowed, size, res, signed, "big", rec)
                if raw is None:
                    continue
                got = field.from_bytes(raw)
                ok = set()
                for a in allowed:
                    n = number(a, res)
                    if encoded(n, size, signed, "big") == raw:
                        ok |= floors(n, res)
                check_loaded(got, ok, aware, zone, f"{raw.hex()} loaded")
                rec.step()


def histories(depth):
    """The same objects while the local zone changes."""
    three = [PLAIN[1], CHANGING[0], CHANGING[2]]
    ops = ["zone 0", "zone 1", "zone 2", "load", "dump", "assign"]

    def body(ch, rec):
        import binobj
        from binobj import fields as F

        aware = ch.flag()
        where = ch.choose(("field", "array", "nested"))
        trace = [ch.choose(ops) for _ in range(depth)]

        class N(binobj.Struct):
            t = F.Timestamp64(tz_aware=aware, resolution="us", endian="big")
            u = F.Timestamp32(tz_aware=True, endian="little")

        if where == "field":
            cls = N
        elif where == "array":

            class A(binobj.Struct):
                x = F.Array(F.Timestamp64(tz_aware=aware, resolution="us", endian="big"), count=2)

            cls = A
        else:

            class W(binobj.Struct):
                x = F.Nested(N)

            cls = W

        class Instants:
            """The stored numbers, given the values."""

        ambiguous = zone_change = CHANGING[0].changes(2024)[1] * 10**6
        raw = zone_change.to_bytes(8, "big")
        later = (zone_change + 1800 * 10**6 + 7).to_bytes(8, "big")
        second = (1549124515).to_bytes(4, "little")
        start = raw + later if where == "array" else raw + second
        zone = three[1]
        with local(zone):
            inst = None
            holds = None  # (the bytes, the zone in which the values were made)
            for i, op in enumerate(trace):
                rec.case = lambda: f"aware {aware}, in {where}: {trace[: i + 1]}"
                if op.startswith("zone"):
                    zone = three[int(op[-1])]
                    set_zone(zone)
                elif op == "load":
                    inst = cls.from_bytes(start)
                    holds = (start, zone)
                    values = values_in(inst, where)
                    numbers_ = [ambiguous, ambiguous + 1800 * 10**6 + 7]
                    for k, v in enumerate(values):
                        check_loaded(v, {numbers_[k]}, aware, zone, "loaded")
                    if where != "array" and stamp_u(inst, where) != datetime.datetime(
                        2019, 2, 2, 16, 21, 55, tzinfo=UTC
                    ):
                        fail(f"u is {stamp_u(inst, where)!r}")
                elif op == "dump" and inst is not None:
                    got = inst.to_bytes()
                    expected = expected_bytes(inst, where, aware, zone, second)
                    if got != expected:
                        fail(f"dumped {got.hex()} under {zone}, expected {expected.hex()}")
                    if (aware or holds[1] is zone) and got != holds[0]:
                        fail(f"dumped {got.hex()}, loaded from {holds[0].hex()}")
                elif op == "assign":
                    v = datetime.datetime(2024, 7, 1, 12, 0, 0, 5)
                    if aware:
                        v = v.replace(tzinfo=UTC)
                    us = instant_us(v) if aware else zone.instants(v).pop()
                    u = datetime.datetime(2019, 2, 2, 16, 21, 55, tzinfo=UTC)
                    if where == "array":
                        inst = cls(x=[v, v])
                        holds = (us.to_bytes(8, "big") * 2, zone)
                    elif where == "field":
                        inst = cls(t=v, u=u)
                        holds = (us.to_bytes(8, "big") + second, zone)
                    else:
                        inst = cls(x={"t": v, "u": u})
                        holds = (us.to_bytes(8, "big") + second, zone)
                rec.step()
            rec.traced()
            rec.state(aware, where, tuple(trace))

    def values_in(inst, where):
        if where == "array":
            return list(inst.x)
        inner = inst if where == "field" else inst.x
        return [inner["t"]]

    def stamp_u(inst, where):
        return (inst if where == "field" else inst.x)["u"]

    def expected_bytes(inst, where, aware, zone, second):
        out = b""
        for v in values_in(inst, where):
            us = instant_us(v) if aware else zone.instants(v).pop()
            out += us.to_bytes(8, "big")
        return out if where == "array" else out + second

    return body


def bodies(tier, seed):
    thorough = tier == "thorough"
    return {
        "numbers": numbers(2 if thorough else 1),
        "instants": instants,
        "fractions": fractions if thorough else some_fractions,
        "naive-times": naive_times(thorough),
        "histories": histories(6 if thorough else 4),
    }
