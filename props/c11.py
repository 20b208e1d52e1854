"""C11: dates and times mean the instant they denote, in all three HTTP formats."""
import os
import re
import time

import httpolice
from lib import htmltree, wild
from lib.core import HarnessError, Part, require, same, sut

PID = 'C11'
TECHNIQUE = ('generated days from year 1 to 9999, times, weekdays and formats in every date field, and tuples of related dates in mixed '
             'formats; oracle: calendar arithmetic written from the definition of the Gregorian calendar')
NOTE = ('Random sampling. Two-digit years are those within 49 years of the present, or in the 50th before the current month (RFC 7231 is exact about these). Year 0, dates within '
        'a minute of the present, differences below 2 s next to a leap second, and a wrong weekday next to an impossible time are not '
        'generated.')
RULE = ('one date: field x format x day x time x claimed weekday, possible or not; several dates: Date, Last-Modified, Expires, '
        'If-Modified-Since, warn-dates, each in its own format, with Age; dates minutes to days from the present, in various local time zones; non-trivial when something is wrong or two dates are compared')

DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
LENGTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def length(y, m):
    return 29 if m == 2 and leap(y) else LENGTHS[m - 1]


def day_number(y, m, d):
    """Days since 1 January of year 1, which was a Monday."""
    n = y - 1
    return n * 365 + n // 4 - n // 100 + n // 400 + sum(length(y, k) for k in range(1, m)) + d - 1


def from_number(n):
    y = n * 400 // 146097 + 1
    while day_number(y, 1, 1) > n:
        y -= 1
    while day_number(y + 1, 1, 1) <= n:
        y += 1
    m = 12
    while day_number(y, m, 1) > n:
        m -= 1
    return y, m, n - day_number(y, m, 1) + 1


EPOCH = day_number(1970, 1, 1)
LAST = day_number(9999, 12, 31)
THIS_YEAR, THIS_MONTH, TODAY = from_number(EPOCH + int(time.time()) // 86400)
# Two-digit years about which RFC 7231 leaves no doubt (except when the year changes during the run).
MARGIN = 48 if (THIS_MONTH, TODAY) in ((12, 31), (1, 1)) else 49


def seconds(date):
    """Since the beginning of year 1."""
    y, m, d, h, mi, s = date[:6]
    return day_number(y, m, d) * 86400 + h * 3600 + mi * 60 + s


def write(date, form, dow):
    y, m, d, h, mi, s = date
    clock = '%02d:%02d:%02d' % (h, mi, s)
    if form == 'imf':
        return '%s, %02d %s %04d %s GMT' % (DAYS[dow][:3], d, MONTHS[m - 1], y, clock)
    if form == 'rfc850':
        return '%s, %02d-%s-%02d %s GMT' % (DAYS[dow], d, MONTHS[m - 1], y % 100, clock)
    if form == 'asctime':
        return '%s %s %2d %s %04d' % (DAYS[dow][:3], MONTHS[m - 1], d, clock, y)
    if form == 'asctime0':
        return '%s %s %02d %s %04d' % (DAYS[dow][:3], MONTHS[m - 1], d, clock, y)
    raise HarnessError(form)


# ------------------------------------------------------------------ one date

FIELDS = [('response', 'Date'), ('response', 'Last-Modified'), ('response', 'Expires'), ('response', 'Retry-After'), ('response', 'Warning'),
          ('request', 'Date'), ('request', 'If-Modified-Since'), ('request', 'If-Unmodified-Since'), ('request', 'If-Range'),
          ('request', 'Warning')]
YEARS = [1, 2, 4, 99, 100, 400, 999, 1000, 1582, 1752, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2004, 2015, 2016, 2024, 2038, 2100, 2400,
         9996, 9999]


def gen_year(g, form):
    if form == 'rfc850':
        return g.int(THIS_YEAR - MARGIN, THIS_YEAR + MARGIN) if g.bool(80) else THIS_YEAR + g.choice([-MARGIN, MARGIN, MARGIN - 1, 1 - MARGIN])
    return g.choice(YEARS) if g.bool(60) else g.int(1, 9999)


def gen_one(g):
    form = g.choice(['imf', 'imf', 'rfc850', 'asctime', 'asctime0'])
    y = gen_year(g, form)
    m = g.int(1, 12) if g.bool(65) else g.choice([2, 2, 1, 12])
    if form == 'rfc850' and THIS_MONTH > 1 and MARGIN == 49 and g.bool(8):
        # Nearly, but not more than, 50 years from now.
        y, m = THIS_YEAR + 50, g.int(1, THIS_MONTH - 1)
    n = length(y, m)
    k = g.int(0, 9)
    d = g.int(1, n) if k < 5 else n if k < 8 else g.choice([0, n + 1, 29, 30, 31, 32, 99])
    k = g.int(0, 9)
    if k < 6:
        h, mi, s = g.int(0, 23), g.int(0, 59), g.int(0, 59)
    elif k < 8:
        h, mi, s = g.choice([(0, 0, 0), (23, 59, 59), (23, 59, 60), (12, 0, 0), (8, 9, 9)])
    else:
        h, mi, s = g.choice([(24, 0, 0), (0, 60, 0), (0, 0, 60), (22, 59, 60), (23, 58, 60), (23, 59, 61), (99, 0, 0), (12, 99, 0), (12, 0, 99),
                             (24, 59, 60)])
    return {'field': g.choice(FIELDS), 'form': form, 'date': (y, m, d, h, mi, s), 'off': 0 if g.bool(60) else g.int(1, 6),
            'version': g.choice(['HTTP/1.1', 'HTTP/2'])}


OWN = {1000, 1107, 1108, 1222, 1223}


def complaints(section):
    return [(n.id, n.title, ' '.join(n.paras)) for n in section.notices if n.id in OWN]


def possible(date):
    y, m, d, h, mi, s = date
    return 1 <= d <= length(y, m), (h < 24 and mi < 60 and s < 60) or (h, mi, s) == (23, 59, 60)


def check_one(case):
    where, name = case['field']
    date, form, off = case['date'], case['form'], case['off']
    y, m, d, h, mi, s = date
    good_day, good_time = possible(date)
    dow = (day_number(y, m, d) if good_day else 0) % 7
    if good_day and not good_time:
        off = 0
    claimed = (dow + off) % 7
    text = write(date, form, claimed)
    value = ('299 - "a" "%s"' % text if name == 'Warning' else text).encode()
    req = {'scheme': 'http', 'method': 'GET', 'target': '/', 'version': case['version'], 'headers': [('Host', b'a.com')], 'body': b'',
           'trailers': None}
    resp = {'version': case['version'], 'status': 200, 'reason': 'OK', 'headers': [], 'body': b'', 'trailers': None}
    (req if where == 'request' else resp)['headers'].append((name, value))
    exch = sut('constructing', wild.build, {'request': req, 'responses': [resp]})
    sut('check_exchange', httpolice.check_exchange, exch)
    [block] = htmltree.report([exch]).blocks
    found = complaints(block.sections[0 if where == 'request' else 1])
    same('complaints about the other message', [], complaints(block.sections[1 if where == 'request' else 0]))
    want = []
    if form != 'imf':
        want.append((1107, 'Obsolete date-time format in %s' % name))
    if not good_day:
        want.append((1222, None))
    if not good_time:
        want.append((1223, None))
    if good_day and good_time and off:
        want.append((1108, 'Wrong day of week in %s' % name))
    same('complaints about %s' % text, sorted(i for i, _ in want), sorted(i for i, _, _ in found))
    for i, title in want:
        [(_, t, para)] = [x for x in found if x[0] == i]
        if title is not None:
            same('the title', title, t.strip())
        if i == 1108:
            r = re.search(r'claims that (\d+)-(\d+)-(\d+) is (\w+), but in reality it\S+ (\w+)', para)
            require(r is not None, 'unexpected explanation %r', para)
            same('the day as explained', (y, m, d, DAYS[claimed], DAYS[dow]), tuple(map(int, r.groups()[:3])) + r.groups()[3:])
        elif i == 1222:
            require(re.search(r'\b0?%d %s 0*%d\b' % (d, MONTHS[m - 1], y), t + para) is not None, 'the date is not named: %r %r', t, para)
        elif i == 1223:
            require('%02d:%02d:%02d' % (h, mi, s) in t + para, 'the time is not named: %r %r', t, para)
    return bool(want), [form, '%s %s' % (where, name)] + ['wrong: %d' % i for i, _ in want] + ['leap second'] * ((h, mi, s) == (23, 59, 60))


# ------------------------------------------------------------------ several dates

DELTAS = [0, 0, 1, -1, 59, 60, 3600, -3600, 86399, 86400, -86400, 31 * 86400, 365 * 86400, -365 * 86400, 2 * 365 * 86400, 12 * 3600]


def gen_several(g):
    k = g.int(0, 9)
    if k < 6:
        # Close enough to be told in any format.
        y = g.int(THIS_YEAR - 40, THIS_YEAR + 30)
    else:
        y = g.choice(YEARS[4:-3])
    m = g.int(1, 12)
    base = seconds((y, m, g.int(1, length(y, m)), g.int(0, 23), g.int(0, 59), g.int(0, 59)))
    if g.bool(20):
        base = seconds((y, m, length(y, m), 23, 59, g.int(50, 59)))
    case = {'base': base, 'dates': {}, 'age': g.choice([None, None, 0, 1, 59, 60, 3599, 3600, 86400, 86401, 31 * 86400, 10 ** 9, 10 ** 12])
            if g.bool(60) else None, 'immutable': g.bool(25), 'method': g.choice(['GET', 'GET', 'HEAD']), 'status': g.choice([200, 200, 203])}
    if case['age'] is not None and g.bool(50):
        # Around the difference.
        case['age'] = ('diff', g.int(-1, 1))
    for key in ('date', 'lm', 'expires', 'ims', 'reqdate'):
        if g.bool(70):
            case['dates'][key] = gen_date(g, base)
    case['warn'] = [(g.choice([299, 199, 214]), gen_date(g, base, same_=60)) for _ in range(g.weighted([(5, 0), (3, 1), (2, 2)]))]
    case['reqwarn'] = [(299, gen_date(g, base, same_=60)) for _ in range(g.weighted([(7, 0), (2, 1)]))]
    return case


def gen_date(g, base, same_=0):
    t = base + (0 if g.bool(same_) else g.choice(DELTAS))
    t = min(max(t, 0), LAST * 86400 + 86399)
    y = from_number(t // 86400)[0]
    forms = ['imf', 'asctime', 'asctime0']
    if abs(y - THIS_YEAR) < 48:
        forms += ['rfc850', 'rfc850']
    return t, g.choice(forms), g.choice(['ok'] * 14 + ['bad day', 'bad time', 'junk'])


def render(spec):
    t, form, state = spec
    y, m, d = from_number(t // 86400)
    date = (y, m, d, t % 86400 // 3600, t % 3600 // 60, t % 60)
    dow = t // 86400 % 7
    if state == 'bad day':
        date = (y, m, length(y, m) + 1) + date[3:]
    elif state == 'bad time':
        date = date[:3] + (24,) + date[4:]
    text = write(date, form, dow)
    return (text[:-1] if state == 'junk' else text).encode(), t if state == 'ok' else None


RELATED = {1109, 1118, 1123, 1164, 1185, 1241, 1301}


def check_several(case):
    now = EPOCH * 86400 + time.time()
    text, val = {}, {}
    for key, spec in case['dates'].items():
        text[key], val[key] = render(spec)
    date, lm, expires, ims, reqdate = (val.get(k) for k in ('date', 'lm', 'expires', 'ims', 'reqdate'))
    for t in (date, reqdate):
        if t is not None and abs(t - now) < 2 * 86400:
            return False, ['now']
    age = case['age']
    if isinstance(age, tuple):
        if expires is None or date is None or expires < date:
            age = None
        else:
            age = max(0, expires - date + age[1])
    if date is not None and age is not None and abs(date + age - now) < 2 * 86400:
        return False, ['now']
    h, q = [], [('Host', b'a.com')]
    for key, name, to in [('date', 'Date', h), ('lm', 'Last-Modified', h), ('expires', 'Expires', h), ('ims', 'If-Modified-Since', q),
                          ('reqdate', 'Date', q)]:
        if key in text:
            to.append((name, text[key]))
    if age is not None:
        h.append(('Age', str(age).encode()))
    if case['immutable']:
        h.append(('Cache-Control', b'immutable'))
    want = {'request': set(), 'response': set()}
    for code, spec in case['warn'] + case['reqwarn']:
        if spec[2] == 'junk':
            return False, ['junk']
    for side, warns, to, d in (('response', case['warn'], h, date), ('request', case['reqwarn'], q, reqdate)):
        if warns:
            vs = []
            for code, spec in warns:
                v, t = render(spec)
                vs.append(b'%d - "x" "%s"' % (code, v))
                if t is not None and d is not None and t != d:
                    want[side].add(1164)
            to.append(('Warning', b', '.join(vs)))
        if d is not None and d > now:
            want[side].add(1109)
    w = want['response']
    if date is not None and lm is not None and lm > date:
        w.add(1118)
    if ims is not None and lm is not None and ims >= lm:
        w.add(1123)
    if date is not None and age is not None and date + age > now:
        w.add(1241)
    if date is not None and expires is not None and age is not None and age > expires - date:
        w.add(1185)
    if case['immutable'] and ('expires' not in text or expires is not None and date is not None and expires <= date):
        w.add(1301)
    req = {'scheme': 'http', 'method': case['method'], 'target': '/', 'version': 'HTTP/1.1', 'headers': q, 'body': b'', 'trailers': None}
    resp = {'version': 'HTTP/1.1', 'status': case['status'], 'reason': 'OK', 'headers': h, 'body': b'', 'trailers': None}
    exch = sut('constructing', wild.build, {'request': req, 'responses': [resp]})
    sut('check_exchange', httpolice.check_exchange, exch)
    reqi, [respi], _ = wild.ids(exch)
    same('notices on the request, from %r' % (q,), sorted(want['request']), sorted(set(reqi) & RELATED))
    same('notices on the response, from %r and %r' % (q, h), sorted(w), sorted(set(respi) & RELATED))
    if not any(s[2] != 'ok' for s in list(case['dates'].values()) + [x[1] for x in case['warn'] + case['reqwarn']]):
        found = set(reqi + respi) & {1000, 1108, 1222, 1223}
        require(not found, 'notices %r about correct dates', found)
    n = len([x for x in (date, lm, expires, ims) if x is not None]) + len(case['warn'])
    return n > 1, ['%d' % i for i in sorted(w | want['request'])] or ['none']


# ------------------------------------------------------------------ next to the present

# POSIX time zones, some with summer time for (nearly) the whole year.
ZONES = ['UTC0', 'AAA-5', 'AAA5', 'AAA8', 'AAA-13', 'AAA12', 'AAA-5:30', 'AAA0BBB,J1/0,J365/23', 'AAA8BBB,J1/0,J365/23', 'AAA-1BBB,M3.5.0,M10.5.0/3',
         'AAA-10BBB,M10.1.0,M4.1.0/3']
OFFSETS = [90, 600, 1700, 3500, 3700, 7000, 4 * 3600, 8 * 3600, 14 * 3600, 26 * 3600, 3 * 86400]


def gen_now(g):
    def offset():
        return g.choice([1, -1]) * (g.choice(OFFSETS) if g.bool(50) else g.int(60, 4 * 86400))
    return {'zone': g.choice(ZONES), 'date': (offset(), g.choice(['imf', 'imf', 'asctime', 'rfc850'])) if g.bool(85) else None,
            'age': (offset(), g.choice([0, 1, 100, 5000, 90000])) if g.bool(50) else None, 'reqdate': offset() if g.bool(40) else None,
            'version': g.choice(['HTTP/1.1', 'HTTP/2'])}


def check_now(case):
    old = os.environ.get('TZ')
    now = EPOCH * 86400 + int(time.time())

    def at(offset, form='imf'):
        t = now + offset
        return write(from_number(t // 86400) + (t % 86400 // 3600, t % 3600 // 60, t % 60), form, t // 86400 % 7).encode()

    h, q, want = [], [('Host', b'a.com')], {'request': set(), 'response': set()}
    offset = None
    if case['date'] is not None:
        offset, form = case['date']
    if case['age'] is not None:
        # Such an Age that Date + Age is so far from now.
        from_now, age = case['age']
        if offset is not None:
            age = max(0, from_now - offset)
            if abs(offset + age) < 60:
                return False, ['too close']
            if offset + age > 0:
                want['response'].add(1241)
        h.append(('Age', b'%d' % age))
    if offset is not None:
        h.append(('Date', at(offset, form)))
        if offset > 0:
            want['response'].add(1109)
    if case['reqdate'] is not None:
        q.append(('Date', at(case['reqdate'])))
        if case['reqdate'] > 0:
            want['request'].add(1109)
    req = {'scheme': 'http', 'method': 'GET', 'target': '/', 'version': case['version'], 'headers': q, 'body': b'', 'trailers': None}
    resp = {'version': case['version'], 'status': 200, 'reason': 'OK', 'headers': h, 'body': b'', 'trailers': None}
    exch = sut('constructing', wild.build, {'request': req, 'responses': [resp]})
    try:
        os.environ['TZ'] = case['zone']
        time.tzset()
        sut('check_exchange', httpolice.check_exchange, exch)
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()
    reqi, [respi], _ = wild.ids(exch)
    about = {1109, 1241, 1108, 1222, 1223}
    same('notices on the request, from %r in zone %s' % (q, case['zone']), sorted(want['request']), sorted(set(reqi) & about))
    same('notices on the response, from %r in zone %s' % (h, case['zone']), sorted(want['response']), sorted(set(respi) & about))
    return offset is not None or case['reqdate'] is not None, [case['zone']] + ['%d' % i for i in sorted(want['request'] | want['response'])]


PARTS = [
    Part('one', gen_one, check_one, 6000),
    Part('several', gen_several, check_several, 4000),
    Part('now', gen_now, check_now, 1500),
]
