# -*- coding: utf-8 -*-
""" C33: text-mode timestamps and line helpers are exact """
import datetime
import re
from hypothesis import strategies as st
from vf import gens, load
from vf.core import Sub, Violation, require, equal

TD = datetime.timedelta
_u = []


def util():
    if not _u:
        ns = load.fresh()
        _u.extend([ns['gsmmodem.util'], ns])
    return _u[0]


def text(when):
    y, mo, d, h, mi, s, q = when
    return '%02d/%02d/%02d,%02d:%02d:%02d%s%02d' % (y % 100, mo, d, h, mi, s, '-' if q < 0 else '+', abs(q))


def run_time(case):
    when, minus0 = case
    t = text(when)
    if when[6] == 0 and minus0:
        t = t[:-3] + '-00'
    got = util().parseTextModeTimeStr(t)
    require(isinstance(got, datetime.datetime), '{0}: {1!r}', t, got)
    equal((got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond), tuple(when[:6]) + (0,), t + ': local time')
    equal(got.utcoffset(), TD(minutes=15 * when[6]), t + ': offset from UTC')
    equal(got.dst(), TD(0), t + ': daylight saving offset')
    utc = datetime.datetime(*when[:6]) - TD(minutes=15 * when[6]) if when[0] > 1969 or when[1] > 1 else None
    if utc:
        equal(got.astimezone(datetime.timezone.utc).replace(tzinfo=None), utc, t + ': instant')
    for how, c in load.copies(_u[1], got):
        equal((tuple(c.timetuple())[:6], c.utcoffset(), c == got), (tuple(when[:6]), TD(minutes=15 * when[6]), True), '%s after %s' % (t, how))
    repr(got)
    repr(got.tzinfo)
    return ['west' if when[6] < 0 else 'east', 'whole hour' if when[6] % 4 == 0 else 'fraction of an hour']


def enum_time(tier):
    for q in range(-79, 80):
        for hour in (0, 9, 23):
            yield ((2013, 7, 18, hour, 59, 8, q), False)
    yield ((2013, 7, 18, 9, 59, 8, 0), True)
    for y in range(1969, 2069):
        yield ((y, 12, 31, 23, 59, 59, 4), False)
        yield ((y, 1, 1, 0, 0, 0, -5), False)
        if y % 4 == 0:
            yield ((y, 2, 29, 12, 30, 1, -4), False)
    for mo in range(1, 13):
        for d in range(1, 29):
            yield ((2020, mo, d, mo, d, 59 - d, d - mo), False)


LENIENT = re.compile(r'\s*(\d{1,2})/\s*(\d{1,2})/\s*(\d{1,2}),\s*(\d{1,2}):\s*(\d{1,2}):\s*(\d{1,2})\s*[-+0-9 ][0-9_ ]*\s*\Z')


def malformed(t):
    """ clearly not a timestamp: no reading of the fields makes sense """
    m = LENIENT.match(t)
    if not m:
        return True
    y, mo, d, h, mi, s = map(int, m.groups())
    try:
        datetime.datetime(2000 + y if y < 69 else 1900 + y, mo, d, h, mi, min(s, 59))
    except ValueError:
        return len(m.group(1)) == len(m.group(2)) == len(m.group(3)) == len(m.group(4)) == len(m.group(5)) == len(m.group(6)) == 2 and t[-3] in '+-'
    return s > 61


def run_bad(case):
    t, = case
    if not malformed(t):
        return []
    try:
        got = util().parseTextModeTimeStr(t)
    except ValueError:
        return ['refused', 'out of range' if LENIENT.match(t) else 'not of this form']
    raise Violation('%r was read as %r' % (t, got))


def gen_bad():
    good = gens.pdu_time.map(text)

    def damage(args):
        t, kind, i, j, ch = args
        i, j = sorted((i % (len(t) + 1), j % (len(t) + 1)))
        if kind == 'drop':
            return t[:i] + t[j:]
        if kind == 'put':
            return t[:i] + ch + t[i + 1:]
        if kind == 'insert':
            return t[:i] + ch + t[i:]
        if kind == 'cut':
            return t[:i]
        if kind == 'swap':
            return t[j:] + t[:j]
        return ''.join(reversed(t))
    damaged = st.tuples(good, st.sampled_from(['drop', 'put', 'insert', 'cut', 'swap', 'reverse']), st.integers(0, 20), st.integers(0, 20), st.sampled_from(list('/,:+- xZ.;') + ['T', '\n', '"', '+0', '99'])).map(damage)
    two = st.integers(0, 99)
    numbers = st.tuples(two, two, two, two, two, two, st.sampled_from('+-'), st.integers(0, 79)).map(lambda x: '%02d/%02d/%02d,%02d:%02d:%02d%s%02d' % x)
    # just out of range in one field
    edge = st.tuples(good, st.sampled_from([(3, '00'), (3, '13'), (6, '00'), (6, '32'), (9, '24'), (12, '60'), (15, '62'), (0, 'xx'), (9, '25'), (12, '99')])).map(lambda a: a[0][:a[1][0]] + a[1][1] + a[0][a[1][0] + 2:])
    return st.tuples(st.one_of(damaged, damaged, numbers, edge, st.text(max_size=25)))


def run_lines(case):
    lines, prefix, pattern = case
    u = util()
    before = list(lines)
    labels = []
    first = None
    for l in lines:
        if l[:len(prefix)] == prefix:
            first = l
            break
    got = u.lineStartingWith(prefix, lines)
    require(got == first and (got is None) == (first is None), 'lineStartingWith({0!r}, {1!r}): {2!r}, expected {3!r}', prefix, lines, got, first)
    if first is not None and first != lines[0]:
        labels.append('prefix found later')
    regex = re.compile(pattern)
    hits = [(i, regex.match(l)) for i, l in enumerate(lines) if regex.match(l)]

    def same(m, e, name):
        if e is None:
            require(m is None, '{0}({1!r}, {2!r}): {3!r}', name, pattern, lines, m)
        else:
            require(m is not None, '{0}({1!r}, {2!r}): no match', name, pattern, lines)
            equal((m.string, m.span(), m.groups()), (e.string, e.span(), e.groups()), name)
    e = hits[0][1] if hits else None
    same(u.lineMatching(pattern, lines), e, 'lineMatching')
    same(u.lineMatchingPattern(regex, lines), e, 'lineMatchingPattern')
    every = u.allLinesMatchingPattern(regex, lines)
    require(isinstance(every, list), 'allLinesMatchingPattern: {0!r}', every)
    equal(len(every), len(hits), 'allLinesMatchingPattern(%r, %r): number of matches' % (pattern, lines))
    for m, (i, e) in zip(every, hits):
        same(m, e, 'allLinesMatchingPattern')
    equal(lines, before, 'lines afterwards')
    labels.append('%s matches' % (len(hits) if len(hits) < 3 else 'many'))
    return labels if lines else []


def gen_lines():
    word = st.text(alphabet='+C:OA 1', max_size=6)
    line = st.one_of(word, st.sampled_from(['OK', '+CSQ: 18,99', '+CREG: 0,1', 'ERROR', '', '+CPIN: READY', 'x+CSQ: 1', '+CSQ', '+csq: 1', '+CSQ: 5,1\r']))
    patterns = st.sampled_from([r'^\+CSQ:\s*(\d+),', r'OK', r'^OK$', r'', r'.*A', r'\+C(..)', r'^(\+)?C', r'A|O', r'(?i)\+csq', r'[^+]', r'1', r'.+$', r'$', r'^\+CPIN: (READY)$'])
    return st.tuples(st.lists(line, max_size=6), st.one_of(word, st.sampled_from(['', '+CSQ:', '+CSQ', '+C', 'OK', '+', 'SQ'])), patterns)


def enum_lines(tier):
    for n in (64, 100, 256, 300, 1000):
        yield (['+CMGL: %d' % i if i % 2 else 'x' for i in range(n)], '+CMGL: %d' % (n - 1 - n % 2), r'^\+CMGL: (\d+)$')


SUBS = [Sub('times', run_time, lambda: st.tuples(gens.pdu_time, st.booleans()), quick=4000, thorough=200000, enum=enum_time, shards=2, rule='every timestamp counts'),
        Sub('malformed', run_bad, gen_bad, quick=6000, thorough=300000, shards=2, rule='the string is not a timestamp, however it is read'),
        Sub('lines', run_lines, gen_lines, enum=enum_lines, quick=6000, thorough=300000, shards=2, rule='at least one line')]
