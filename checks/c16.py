"""C16: datetime construction, arithmetic and ISO text are correct in any time zone."""

import datetime
import os
import re
import time
import zoneinfo

from bare_script import evaluate_expression, execute_script, parse_expression, parse_script

from core import Enum, Gen, HarnessError, Reject
from harness import LIBRARY, call
from ref.values import show

RULE = ('datetimeNew over grids and random components against civil-calendar integer arithmetic (own day-number algorithm, no datetime module), the '
        'getters of naive, aware and date values, datetime + ms and datetime - datetime against integer milliseconds, and datetimeISOFormat / '
        'datetimeISOParse in 8 named process time zones (and every installed zone) around each of their transitions against zoneinfo; date and '
        'datetime texts with every component in and out of range, and corrupted texts. '
        'Years to 10^14 brought back by the other components, and years 9999 to 10001, are included. '
        'Non-trivial: a component is out of its range, or the zone '
        'has an offset, or the text is no plain UTC text; distinct by call and zone.')
ASSUMPTIONS = ['Local times in a gap, and with an offset of no whole minutes, do not exist for the property.',
               'Results before year 1 or after year 9999 are no datetimes.',
               'The time zone database of the C library and of zoneinfo agree (instants where they do not are left out).']

ZONES = ['UTC', 'America/New_York', 'Europe/London', 'Asia/Kolkata', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Chatham', 'Etc/GMT+12']
MORE = ['America/St_Johns', 'Asia/Tehran', 'Pacific/Apia', 'Pacific/Kiritimati', 'Africa/Casablanca', 'Europe/Dublin', 'America/Sao_Paulo',
        'Antarctica/Troll', 'Etc/GMT-14', 'Asia/Pyongyang']
OPTIONS = {'globals': dict(LIBRARY)}
D = datetime.datetime
GETTERS = ['datetimeYear', 'datetimeMonth', 'datetimeDay', 'datetimeHour', 'datetimeMinute', 'datetimeSecond', 'datetimeMillisecond']


class Zone:
    """The process time zone for a while."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get('TZ')
        os.environ['TZ'] = self.name
        time.tzset()
        return zoneinfo.ZoneInfo(self.name)

    def __exit__(self, *_exc):
        if self.old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = self.old
        time.tzset()


# -- the civil calendar in integers ---------------------------------------------------------------

def day_number(y, m, d):
    """Days since 1970-01-01 of a civil date (month 1..12, any day)."""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1


DAY = 86400000


def instant(y, m, d, hh=0, mm=0, ss=0, ms=0):
    """Milliseconds since 1970 of any components."""
    y, m = y + (m - 1) // 12, (m - 1) % 12 + 1
    return day_number(y, m, 1) * DAY + (d - 1) * DAY + ((hh * 60 + mm) * 60 + ss) * 1000 + ms


def parts(t):
    z, ms = divmod(t, DAY)
    s, ms = divmod(ms, 1000)
    return (*civil(z), s // 3600, s // 60 % 60, s % 60, ms)


FIRST, LAST = instant(1, 1, 1), instant(10000, 1, 1)


def check_parts(c, what, got, want):
    """got is the datetime with these (millisecond) parts, through the getters."""
    if not isinstance(got, datetime.datetime):
        c.fail(f'{what} gives {got!r}, expected {want}')
    have = tuple(call(name, [got], OPTIONS) for name in GETTERS)
    if have != want or any(isinstance(v, bool) or not isinstance(v, (int, float)) for v in have):
        c.fail(f'{what} gives {got!r}, parts {have}, expected {want}')
    if got.tzinfo is not None or (got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond // 1000) != want:
        c.fail(f'{what} gives {got!r}, expected {want}')


def new(c, args):
    t = instant(*(int(a) for a in args))
    what = f'datetimeNew({", ".join(show(a) for a in args)})'
    got = call('datetimeNew', list(args), OPTIONS)
    if FIRST <= t < LAST:
        check_parts(c, what, got, parts(t))
    elif got is not None:
        c.fail(f'{what} gives {got!r}')
    ranges = [(1, 12), (1, 28), (0, 23), (0, 59), (0, 59), (0, 999)]
    if any(not lo <= a <= hi for a, (lo, hi) in zip(args[1:], ranges)):
        c.nontrivial(what)
    return got


YEARS = [100, 101, 1900, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 2400, 9000, 9999, 10000, 10001]
DAYS = [-10000, -1461, -1460, -400, -367, -366, -365, -364, -62, -61, -60, -59, -32, -31, -30, -29, -28, -2, -1, *range(0, 34), 58, 59, 60, 61, 62, 89, 90, 91, 92, 93,
        364, 365, 366, 367, 368, 400, 730, 731, 732, 1460, 1461, 1462, 10000]


def grid_items(tier):
    for y in YEARS if tier == 'thorough' else (100, 1999, 2023, 2024, 2100, 9000, 9999, 10000):
        for m in range(-30, 41):
            yield y, m


def grid_check(c, item):
    y, m = item
    c.sample(f'datetimeNew({y}, {m}, day) for {len(DAYS)} days')
    c.weight = len(DAYS) + 12
    for k, d in enumerate(DAYS):
        args = [y, m, d] if k % 2 else [float(y), float(m), float(d)]
        new(c, args)
    # each time component crossing the month's ends
    for d in (1, 28, 31):
        new(c, [y, m, d, 23, 59, 59, 999])
        new(c, [y, m, d, 23, 59, 59, 1000])
        new(c, [y, m, d, 0, 0, 0, -1])
        new(c, [y, m, d, 24])


def day_items(tier):
    for y in (100, 399, 400, 1582, 1700, 1752, 1900, 1970, 2000, 2023, 2024, 2100, 5000, 8999, 9000):
        for start in range(-10000, 10001, 500):
            yield y, start, 1 if tier == 'thorough' else 29


def day_check(c, item):
    y, start, step = item
    c.sample(f'datetimeNew({y}, 3, {start}..)')
    m = 1 + (start // 500) % 12
    days = range(start, min(start + 500, 10001), step)
    c.weight = len(days)
    for d in days:
        new(c, [y, m, d])


def time_items(_tier):
    for k in range(4):
        for v in range(-5000, 5001, 40):
            yield k, v


def time_check(c, item):
    k, v = item
    c.sample(f'component {k} from {v}')
    c.weight = 40
    for w in range(v, v + 40):
        args = [2024.0, 2.0, 29.0, 12.0, 30.0, 30.0, 500.0]
        args[3 + k] = w if w % 2 else float(w)
        new(c, args)


def component(c, lo, hi, wide):
    k = c.draw(4)
    v = c.int(lo, hi) if k <= 1 else c.pick([lo, hi, lo - 1, hi + 1]) if k == 2 else c.int(-wide, wide)
    return float(v) if c.draw(2) else v


def components(c):
    args = [component(c, 100, 9000, 0)]
    args[0] = c.int(100, 9000) if args[0] < 100 or args[0] > 9000 else args[0]
    args += [component(c, 1, 12, 40), component(c, 1, 31, 10000)]
    args[1] = max(-30, args[1])
    for lo, hi in ((0, 23), (0, 59), (0, 59), (0, 999)):
        if not c.draw(6):
            break
        args.append(component(c, lo, hi, 5000))
    c.sample(f'datetimeNew({", ".join(show(a) for a in args)})')
    new(c, args)


def far_components(c):
    """Components far outside their ranges, some of them cancelling; and absurd ones, which are out of any range."""
    args = [c.int(100, 9000), c.int(-30, 40), c.int(-10000, 10000), c.int(-5000, 5000), c.int(-5000, 5000), c.int(-5000, 5000), c.int(-5000, 5000)]
    args = args[:3 + c.draw(5)]
    k = c.draw(5)
    if k == 4:
        # a year beyond the calendar (or at its ends), brought back by the months or the time
        year = c.pick([100, 101, 9998, 9999, 10000, 10001, 10400, 20000, 10 ** 5, 10 ** 9, 10 ** 14, c.int(9990, 10100)])
        inside = c.pick([1, 100, 9999, 9998, 10000, c.int(1, 9999)])
        args[0] = year
        if c.draw(3):
            args[1] = c.int(-3, 14) - 12 * (year - inside)
        else:
            args = args + [0] * (4 - len(args))
            args[3] += (instant(inside, 1, 1) - instant(year, 1, 1)) // 3600000
        if max(abs(a) for a in args) > 10 ** 15:
            raise Reject('inexact')
    elif k == 0:
        i = 3 + c.draw(4)
        args += [0] * (i + 1 - len(args))
        args[i] = c.pick([-1, 1]) * c.pick([10 ** 16, 10 ** 18, 10 ** 20, 10 ** 30, 10 ** 100, 10 ** 300, 2 ** 1024])
    else:
        unit = {3: 3600000, 4: 60000, 5: 1000, 6: 1}
        i = 3 + c.draw(4)
        args += [0] * (i + 1 - len(args))
        big = c.int(10 ** 4, 10 ** c.int(5, 15)) * c.pick([-1, 1])
        args[i] += big
        if k >= 2:
            j = c.pick([x for x in unit if x != i])
            args += [0] * (j + 1 - len(args))
            args[j] -= big * unit[i] // unit[j]
            if abs(args[j]) > 10 ** 15:
                raise Reject('inexact')
    args = [float(a) if c.draw(2) and abs(a) < 1e300 else a for a in args]
    c.sample(f'datetimeNew({", ".join(show(a) for a in args)})')
    new(c, args)


# -- arithmetic -----------------------------------------------------------------------------------

PLUS = parse_expression('d + n')
PLUS2 = parse_expression('n + d')
MINUS = parse_expression('d - e')
BACK = parse_expression('(d + n) - d')
CHAIN = parse_expression('d + n + m - (d + m)')


def offset(c):
    k = c.draw(6)
    if k == 0:
        n = c.int(-2000, 2000)
    elif k == 1:
        n = c.pick([1, -1, 999, 1000, 1001, 59999, 60000, DAY - 1, DAY, DAY + 1, 365 * DAY, 366 * DAY, 10 ** 12, -10 ** 12, 10 ** 12 - 1, 31 * DAY])
    elif k == 2:
        n = c.int(-400, 400) * DAY + c.pick([0, 1, -1, 3600000])
    else:
        n = c.int(-10 ** 12, 10 ** 12)
    return float(n) if c.draw(2) else n


def arithmetic(c):
    name = c.pick(ZONES)
    t = instant(c.int(100, 9000), c.int(1, 12), c.int(1, 31), c.draw(24), c.draw(60), c.draw(60), c.pick([0, 0, 1, 999, c.draw(1000)]))
    n, m = offset(c), offset(c)
    d = D(*parts(t)[:6], parts(t)[6] * 1000)
    k = c.draw(6)
    micro = 0
    if k == 0:
        t -= t % DAY
        d = datetime.date(*civil(t // DAY))
    elif k == 1:
        micro = c.draw(1000)
        d = d.replace(microsecond=d.microsecond + micro)
    c.sample(f'{name}: {d!r} + {n!r}')
    c.nontrivial(f'{name} {d!r} + {n!r}')
    values = {'d': d, 'n': n, 'm': m}
    with Zone(name):
        got = evaluate_expression(PLUS, OPTIONS, values)
        check_parts(c, f'{d!r} + {n!r}', got, parts(t + int(n)))
        if got.microsecond % 1000 != micro:
            c.fail(f'{d!r} + {n!r} gives {got!r}')
        if evaluate_expression(PLUS2, OPTIONS, values) != got:
            c.fail(f'{n!r} + {d!r} gives {evaluate_expression(PLUS2, OPTIONS, values)!r}, the other order {got!r}')
        for what, expr, want in (('(d + n) - d', BACK, n), ('d + n + m - (d + m)', CHAIN, n)):
            back = evaluate_expression(expr, OPTIONS, values)
            if isinstance(back, bool) or not isinstance(back, (int, float)) or back != want:
                c.fail(f'{what} gives {back!r} for d = {d!r}, n = {n!r}, m = {m!r}')
        u = t + int(m)
        e = D(*parts(u)[:6], parts(u)[6] * 1000)
        diff = evaluate_expression(MINUS, OPTIONS, {'d': d, 'e': e})
        if micro == 0 and diff != t - u:
            c.fail(f'{d!r} - {e!r} gives {diff!r}, expected {t - u}')


# -- ISO text -------------------------------------------------------------------------------------

ISO = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,9}))?(?:(Z)|([+-])(\d\d):(\d\d))\Z', re.ASCII)


def exists(d, zone):
    """Does this naive local time exist (whole-minute offset), and does the C library agree? gives the possible offsets"""
    out = set()
    for fold in (0, 1):
        off = zone.utcoffset(d.replace(fold=fold))
        if off.microseconds or off.total_seconds() % 60:
            return None
        utc = d - off
        if not D(1, 1, 3) < utc < D(9999, 12, 28):
            return None
        local = utc.replace(tzinfo=datetime.timezone.utc).astimezone(zone)
        if local.replace(tzinfo=None) == d:
            out.add(off)
        ts = (utc - D(1970, 1, 1)) // datetime.timedelta(seconds=1)
        try:
            if time.localtime(ts).tm_gmtoff != local.utcoffset().total_seconds():
                return None
        except (OverflowError, OSError, ValueError):
            return None
    return out or None


def round_trip(c, d, zone, name):
    """Format and parse one existing local time."""
    naive = d
    if not isinstance(d, D):
        naive = D(d.year, d.month, d.day)
    elif d.tzinfo is not None:
        naive = d.astimezone(zone).replace(tzinfo=None, fold=0)
    offsets = exists(naive, zone)
    if offsets is None:
        c.tag('no such time')
        return
    what = f'TZ={name} datetimeISOFormat({d!r})'
    iso = call('datetimeISOFormat', [d], OPTIONS)
    m = ISO.match(iso) if isinstance(iso, str) else None
    if m is None:
        c.fail(f'{what} gives {iso!r}')
    y, mo, dd, hh, mm, ss = (int(x) for x in m.groups()[:6])
    ms = int((m.group(7) or '0').ljust(3, '0')[:3])
    off = datetime.timedelta(0) if m.group(8) else int(m.group(9) + '1') * datetime.timedelta(hours=int(m.group(10)), minutes=int(m.group(11)))
    want = naive.replace(microsecond=naive.microsecond // 1000 * 1000)
    if m.group(8):
        off_ok = instant(y, mo, dd, hh, mm, ss, ms) in [instant(*(want - o).timetuple()[:6], want.microsecond // 1000) for o in offsets]
    else:
        off_ok = off in offsets and (y, mo, dd, hh, mm, ss, ms) == (*want.timetuple()[:6], want.microsecond // 1000)
    if not off_ok:
        c.fail(f'{what} gives {iso!r}, not {want} at offset {[str(o) for o in offsets]}')
    back = call('datetimeISOParse', [iso], OPTIONS)
    check_parts(c, f'TZ={name} datetimeISOParse({iso!r})', back, (*want.timetuple()[:6], want.microsecond // 1000))
    if back.replace(fold=0) != want:
        c.fail(f'TZ={name} datetimeISOParse({iso!r}) gives {back!r}, expected {want!r}')
    for g, v in zip(GETTERS, (*want.timetuple()[:6], want.microsecond // 1000)):
        if call(g, [d], OPTIONS) != v:
            c.fail(f'TZ={name} {g}({d!r}) gives {call(g, [d], OPTIONS)!r}, expected {v}')
    day = call('datetimeISOFormat', [d, True], OPTIONS)
    if day != f'{want.year:04d}-{want.month:02d}-{want.day:02d}':
        c.fail(f'TZ={name} datetimeISOFormat({d!r}, true) gives {day!r}')
    midnight = call('datetimeISOParse', [day], OPTIONS)
    if midnight != D(want.year, want.month, want.day):
        c.fail(f'TZ={name} datetimeISOParse({day!r}) gives {midnight!r}')
    # the other spellings of the same text
    for v in (call('stringNew', [d], OPTIONS), evaluate_expression(TEXT, OPTIONS, {'d': d}), call('jsonParse', [call('jsonStringify', [[d]], OPTIONS)], OPTIONS)[0]):
        if v != iso:
            c.fail(f'{what} gives {iso!r}, but the text of the value is {v!r}')
    c.nontrivial(f'{name} {d!r}')
    c.weight += 1
    c.tag('round trip')


TEXT = parse_expression("'' + d")
_TRANSITIONS = {}


def transitions(name):
    """UTC seconds of the zone's offset changes 1900..2050, to the second."""
    if name in _TRANSITIONS:
        return _TRANSITIONS[name]
    zone = zoneinfo.ZoneInfo(name)
    epoch = D(1970, 1, 1, tzinfo=datetime.timezone.utc)

    def off(ts):
        return (epoch + datetime.timedelta(seconds=ts)).astimezone(zone).utcoffset()
    out = []
    step = 20 * 86400
    ts = -2208988800
    prev = off(ts)
    while ts < 2524608000:
        nxt = off(ts + step)
        if nxt != prev:
            lo, hi = ts, ts + step
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if off(mid) == prev:
                    lo = mid
                else:
                    hi = mid
            out.append(hi)
        prev = nxt
        ts += step
    _TRANSITIONS[name] = out
    return out


def available(names):
    out = []
    for name in names:
        try:
            zoneinfo.ZoneInfo(name)
            out.append(name)
        except Exception:  # pylint: disable=broad-exception-caught
            pass
    if 'America/New_York' not in out and 'America/New_York' in names:
        raise HarnessError('no time zone database')
    return out


def transition_items(_tier):
    for name in available(ZONES + MORE):
        for ts in transitions(name):
            yield name, ts
        yield name, 253000000000
        yield name, -2000000000


def transition_check(c, item):
    name, ts = item
    c.sample(f'{name} around {ts}')
    deltas = [-90000, -86400, -7201, -7200, -3601, -3600, -1801, -1800, -61, -60, -1, 0, 1, 59, 60, 1799, 1800, 3599, 3600, 7199, 7200, 86400]
    c.weight = 0
    with Zone(name) as zone:
        for k, delta in enumerate(deltas):
            aware = (D(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=ts + delta)).astimezone(zone)
            local = aware.replace(tzinfo=None, microsecond=[0, 1000, 999000, 999999, 500500][k % 5])
            round_trip(c, local, zone, name)
            if k % 3 == 0:
                round_trip(c, local.date(), zone, name)
                round_trip(c, aware, zone, name)
            # the instant itself, spelled in other offsets
            for minutes in (0, -300, 345):
                parse_instant(c, ts + delta, minutes, zone, name, ['', '.0', '.25', '.123456'][k % 4])


def parse_instant(c, ts, minutes, zone, name, frac, zulu=False):
    """A valid ISO text of a UTC instant at some offset gives the local time of that instant."""
    utc = D(1970, 1, 1) + datetime.timedelta(seconds=ts)
    p = parts((ts + minutes * 60) * 1000)
    sign = '-' if minutes < 0 else '+'
    zone_text = 'Z' if zulu and minutes == 0 else f'{sign}{abs(minutes) // 60:02d}:{abs(minutes) % 60:02d}'
    if not 1 <= p[0] <= 9999:
        return
    iso = f'{p[0]:04d}-{p[1]:02d}-{p[2]:02d}T{p[3]:02d}:{p[4]:02d}:{p[5]:02d}{frac}{zone_text}'
    if not D(1, 1, 3) < utc < D(9999, 12, 28):
        return
    local = utc.replace(tzinfo=datetime.timezone.utc).astimezone(zone)
    off = local.utcoffset().total_seconds()
    if off % 60 or time.localtime(ts).tm_gmtoff != off:
        return
    got = call('datetimeISOParse', [iso], OPTIONS)
    check_parts(c, f'TZ={name} datetimeISOParse({iso!r})', got, (*local.timetuple()[:6], int(frac[1:].ljust(3, '0')[:3] or '0')))
    c.nontrivial(f'{name} {iso}')
    c.weight += 1


def iso_random(c):
    name = c.pick(ZONES + MORE) if c.draw(4) else c.pick(sorted(zoneinfo.available_timezones()))
    if not available([name]):
        name = 'UTC'
    d = D(c.int(100, 9000) if c.draw(2) else c.int(1900, 2060), c.int(1, 12), c.int(1, 28), c.draw(24), c.draw(60), c.draw(60), c.pick([0, 1000, 999000, 999999, 1, c.draw(10 ** 6)]))
    k = c.draw(5)
    if k == 0:
        d = d.date()
    elif k == 1:
        d = d.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=c.int(-1439, 1439))))
    elif k == 2:
        d = d.replace(minute=0, second=0, microsecond=0)
    c.sample(f'TZ={name} {d!r}')
    with Zone(name) as zone:
        round_trip(c, d, zone, name)
        t = instant(c.int(100, 9000), 1, c.int(1, 366), c.draw(24), c.draw(60), c.draw(60))
        frac = c.pick(['', '.0', '.000', '.5', '.05', '.001', '.999', '.9999', '.0005', '.123456', '.999999'])
        parse_instant(c, t // 1000, c.pick([0, 0, 60, -60, 330, 345, -210, 840, -720, c.int(-1439, 1439)]), zone, name, frac, bool(c.draw(2)))


# -- texts ----------------------------------------------------------------------------------------

def month_days(y, m):
    return 31 if m in (1, 3, 5, 7, 8, 10, 12) else 30 if m != 2 else 29 if (y % 4 == 0 and y % 100 != 0) or y % 400 == 0 else 28


def date_items(_tier):
    for y in (0, 1, 4, 99, 100, 400, 1900, 2000, 2023, 2024, 2100, 9999):
        for m in range(0, 21):
            yield y, m


def date_check(c, item):
    y, m = item
    c.sample(f'{y:04d}-{m:02d}-xx')
    c.weight = 40
    for d in range(0, 40):
        ok = y >= 1 and 1 <= m <= 12 and 1 <= d <= month_days(y, m)
        text = f'{y:04d}-{m:02d}-{d:02d}'
        expect(c, text, (y, m, d, 0, 0, 0, 0) if ok else None)
        if 1 < y < 9999:
            expect(c, f'{text}T00:00:00Z', (y, m, d, 0, 0, 0, 0) if ok else None)
            expect(c, f'{text}T23:59:59.999+00:00', (y, m, d, 23, 59, 59, 999) if ok else None)


def expect(c, text, want):
    """datetimeISOParse in UTC."""
    got = call('datetimeISOParse', [text], OPTIONS)
    if want is None:
        if got is not None:
            c.fail(f'datetimeISOParse({text!r}) gives {got!r}, expected null')
    else:
        check_parts(c, f'datetimeISOParse({text!r})', got, want)
    c.nontrivial(text)


def clock_items(_tier):
    for hh in range(0, 100):
        yield hh


def clock_check(c, hh):
    c.sample(f'hour {hh}')
    for k in range(0, 100):
        for text, ok, want in (
                (f'2024-02-29T{hh:02d}:{k:02d}:00Z', hh < 24 and k < 60, (2024, 2, 29, hh, k, 0, 0)),
                (f'2024-02-29T00:{hh:02d}:{k:02d}Z', hh < 60 and k < 60, (2024, 2, 29, 0, hh, k, 0))):
            if hh == 24 and k == 0 and want[3] == 24:
                continue
            expect(c, text, want if ok else None)
        ok = hh < 24 and k < 60
        for sign in (1, -1):
            t = instant(2024, 2, 29, 12) - sign * (hh * 60 + k) * 60000
            expect(c, f'2024-02-29T12:00:00{"+" if sign > 0 else "-"}{hh:02d}:{k:02d}', parts(t) if ok else None)
    c.weight = 400


GARBAGE = ['', ' ', 'x', '\n', '0', '-', 'Z', 'T', '.', '+', ':', '\u0661', '\uff12', '\0', '\r', ',', '/', 'W', 'z', 't', '\u2212', '\u00b2']
VALID = re.compile(r'\d{4}-\d\d-\d\d\Z|\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,6})?(Z|[+-]\d\d:\d\d)\Z', re.ASCII)
# Forms that ISO 8601 allows in some reading: nothing is asked of them
ARGUABLE = re.compile(r'[+-]?\d{4,}(-?\d\d(-?\d\d)?|-?W\d\d(-?\d)?|-?\d{3})?([Tt ]\d\d(:?\d\d(:?\d\d)?)?([.,]\d+)?([Zz]|[+\-\u2212]\d\d(:?\d\d(:?\d\d)?)?)?)?\Z', re.ASCII)


def corrupt(c):
    """Damaged texts parse to null."""
    text = c.pick(['2024-02-29', '2024-02-29T12:30:15Z', '2024-02-29T12:30:15.25+05:45', '1999-12-31T23:59:59.999-03:30', '0100-01-01', '9000-12-31T00:00:00+00:00'])
    for _ in range(c.int(1, 2)):
        i = c.draw(len(text) + 1)
        k = c.draw(4)
        if k == 0:
            text = text[:i] + c.pick(GARBAGE) + text[i:]
        elif k == 1:
            text = text[:i] + text[i + 1:]
        elif k == 2:
            text = text[:i] + c.pick(GARBAGE) + text[i + 1:]
        else:
            text = c.pick([text[:i], text[i:], text + text[i:], ' ' + text, text + '\n', '\n' + text, text + ' '])
    c.sample(repr(text))
    c.nontrivial(text)
    name = c.pick(ZONES)
    with Zone(name):
        got = call('datetimeISOParse', [text], OPTIONS)
    if ARGUABLE.match(text):
        c.tag('arguable')
        if VALID.match(text) is None and got is not None and not isinstance(got, D):
            c.fail(f'datetimeISOParse({text!r}) gives {got!r}')
    elif got is not None:
        c.fail(f'datetimeISOParse({text!r}) gives {got!r}, expected null')


def other_types(c, v):
    c.sample(show(v))
    c.nontrivial(show(v))
    for name in ['datetimeISOParse', 'datetimeISOFormat'] + GETTERS:
        if name == 'datetimeISOParse' and isinstance(v, str):
            continue
        if name != 'datetimeISOParse' and isinstance(v, datetime.date):
            continue
        got = call(name, [v], OPTIONS)
        if got is not None:
            c.fail(f'{name}({show(v)}) gives {got!r}, expected null')


def other_items(_tier):
    return [None, True, False, 0, 1.5, 2024, '', '2024-01-01', [], [2024], {}, D(2024, 1, 1)]


# -- scripts --------------------------------------------------------------------------------------

SCRIPT = '''
d = datetimeNew(%s)
e = datetimeISOParse(datetimeISOFormat(d))
f = d + %d
return arrayNew(datetimeYear(d), datetimeMonth(d), datetimeDay(d), datetimeHour(d), datetimeMinute(d), datetimeSecond(d), datetimeMillisecond(d), \\
    e == d, e - d, f - d, d - f, f > d, datetimeISOFormat(d, true), '' + d == datetimeISOFormat(d), d + %d - %d - d)
'''


def scripts(c):
    name = c.pick(ZONES)
    args = [c.int(100, 9000), c.int(-30, 40), c.int(-10000, 10000)] + [c.int(-5000, 5000) for _ in range(c.draw(5))]
    n = c.int(1, 10 ** 12)
    t = instant(*args)
    text = SCRIPT % (', '.join(str(a) for a in args), n, n, n)
    c.sample(f'TZ={name}' + text)
    if not instant(2, 1, 1) <= t < LAST - 2 * 10 ** 12:
        return
    c.nontrivial(f'{name} {args} {n}')
    p = parts(t)
    with Zone(name) as zone:
        offsets = exists(D(*p[:6], p[6] * 1000), zone)
        got = execute_script(parse_script(text), {'globals': {}})
    if not isinstance(got, list) or len(got) != 15 or tuple(got[:7]) != p:
        c.fail(f'TZ={name} {text} gives {show(got)}, expected {p}')
    if offsets and (got[7] is not True or got[8] != 0 or got[13] is not True):
        c.fail(f'TZ={name} {text} gives {show(got)}: no ISO round trip')
    if got[9] != n or got[10] != -n or got[11] is not True or got[12] != f'{p[0]:04d}-{p[1]:02d}-{p[2]:02d}':
        c.fail(f'TZ={name} {text} gives {show(got)}')


def clock(c):
    """datetimeNow and datetimeToday are local times."""
    name = c.pick(ZONES + MORE)
    with Zone(name) as zone:
        for _ in range(3):
            before = D.now(zone).replace(tzinfo=None)
            now = call('datetimeNow', [], OPTIONS)
            today = call('datetimeToday', [], OPTIONS)
            after = D.now(zone).replace(tzinfo=None)
            if after < before:
                continue
            if not isinstance(now, D) or not before <= now <= after:
                c.fail(f'TZ={name} datetimeNow() gives {now!r} between {before} and {after}')
            if today not in (D(before.year, before.month, before.day), D(after.year, after.month, after.day)):
                c.fail(f'TZ={name} datetimeToday() gives {today!r} on {before}')
            break
    c.sample(f'TZ={name}')
    c.nontrivial(name)


def sections(tier):
    return [
        Enum('months', grid_items, grid_check),
        Enum('days', day_items, day_check),
        Enum('times', time_items, time_check),
        Gen('components', components, 30000),
        Gen('far components', far_components, 8000),
        Gen('arithmetic', arithmetic, 20000),
        Enum('transitions', transition_items, transition_check),
        Gen('ISO', iso_random, 20000),
        Enum('dates', date_items, date_check),
        Enum('clock texts', clock_items, clock_check),
        Gen('corrupted texts', corrupt, 20000),
        Enum('other types', other_items, other_types),
        Gen('scripts', scripts, 6000),
        Gen('now', clock, 200),
    ]
