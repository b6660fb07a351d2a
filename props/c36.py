# -*- coding: utf-8 -*-
""" C36: the terminal's line editor sends exactly the edited line """
from hypothesis import strategies as st
from vf import term
from vf.core import Sub, Violation, require, equal
from vf.rig import schedules
from vf.term import TermRig, Line

KEYS = {'up': term.UP, 'down': term.DOWN, 'left': term.LEFT, 'right': term.RIGHT, 'bs': term.BACKSPACE, 'del': term.DELETE, 'home': term.HOME, 'end': term.END}
CATEGORIES = ('General', 'Call Control', 'Network Service', 'Security', 'Phonebook', 'SMS', 'Supplementary Services', 'Data', 'Fax', 'Fax Class 2', 'V24-V25', 'Specific')


class Editor(object):
    """ the reference: a conventional line editor with a history """
    def __init__(self):
        self.line, self.cur, self.history, self.pos = '', 0, [], 0
        self.blank = False           # an empty line was confirmed while going through the history: its place there is unspecified

    def put(self, ch):
        self.line = self.line[:self.cur] + ch + self.line[self.cur:]
        self.cur += 1

    def key(self, k):
        n = len(self.line)
        if k == 'left':
            self.cur = max(0, self.cur - 1)
        elif k == 'right':
            self.cur = min(n, self.cur + 1)
        elif k == 'home':
            self.cur = 0
        elif k == 'end':
            self.cur = n
        elif k == 'bs':
            if self.cur:
                self.line = self.line[:self.cur - 1] + self.line[self.cur:]
                self.cur -= 1
        elif k == 'del':
            self.line = self.line[:self.cur] + self.line[self.cur + 1:]
        elif k == 'up':
            if self.pos > 0:
                self.pos -= 1
                self.line = self.history[self.pos]
                self.cur = len(self.line)
        elif k == 'down':
            if self.pos < len(self.history) - 1:
                self.pos += 1
                self.line = self.history[self.pos]
                self.cur = len(self.line)

    def enter(self):
        s = self.line.strip()
        self.line, self.cur = '', 0
        if s:
            self.history = (self.history + [s])[-100:]
            self.pos = len(self.history)
            self.blank = False
        elif self.pos != len(self.history):
            self.blank = True
        return s


def local(s):
    """ handled by the terminal itself: True / False / None (not specified) """
    low = s.lower()
    if low.startswith('at+cmgs='):
        return None
    if len(s) > 2 and (s[0] == '?' or s[-2:] == '??'):
        return True
    if s and (s[0] == '?' or s[-2:] == '??'):
        return None
    for word in ('help', 'ls', 'load'):
        if low.startswith(word):
            rest = low[len(word):]
            if word == 'help':
                return True if rest == '' or rest[0] == ' ' else None
            if word == 'ls':
                return True if rest in ('', 'cat') or rest[0] == ' ' and rest[1:] in [c.lower() for c in CATEGORIES] else None
            return True if rest[:1] == ' ' and len(rest.strip()) else None
    return False


def run(case):
    ops, mode, color, sched = case
    labels = set()
    answers = {'ok': lambda c: ('OK', []), 'silent': lambda c: ('silent', []), 'error': lambda c: ('ERROR', []), 'lines': lambda c: ('OK', ['+X: 1', 'text'])}
    with TermRig(lambda sim: Line(sim, answers.get(mode, answers['ok'])), sched) as rig:
        d = rig.device
        d.echo = mode == 'echo'

        def main():
            rig.start(useColor=color)
            ed = Editor()
            edited = recalled = 0
            for op in ops:
                before = d.raw
                if op[0] == 'type':
                    for ch in op[1]:
                        rig.press(ch)
                        if ed.cur < len(ed.line):
                            edited += 1
                        ed.put(ch)
                elif op[0] == 'key':
                    if op[1] in ('up', 'down') and ed.blank:
                        break
                    for i in range(op[2]):
                        rig.press(KEYS[op[1]])
                        if op[1] in ('up', 'down'):
                            recalled += 1
                        else:
                            edited += 1
                        ed.key(op[1])
                elif op[0] == 'urc':
                    d.urc('\r\n%s\r\n' % op[1])
                    rig.sim.sleep(0.3)
                    labels.add('notification')
                elif op[0] == 'wait':
                    rig.sim.sleep(op[1])
                elif op[0] == 'enter':
                    s = ed.line.strip()
                    if s.lower().startswith('at+cmgs='):
                        break
                    kind = local(s)
                    if mode != 'silent':
                        rig.sim.sleep(0.5)
                    rig.press(term.ENTER)
                    ed.enter()
                    sent = d.raw[len(before):]
                    if kind is None and s:
                        require(sent in ('', s + '\r'), 'the line {0!r}: sent {1!r}', s, sent)
                    elif kind or not s:
                        require(sent == '', 'the line {0!r} is not for the modem, but {1!r} was sent', s, sent)
                        labels.add('local' if s else 'blank')
                    else:
                        require(sent == s + '\r', 'the edited line was {0!r}, sent {1!r}', s, sent)
                        labels.add('sent')
                        if edited:
                            labels.add('edited')
                        if recalled:
                            labels.add('recalled')
                        if len(ed.history) == 100:
                            labels.add('full history')
                    edited = recalled = 0
                    rig.alive('after %r' % s)
                    continue
                require(d.raw == before, '{0}: {1!r} was sent', op, d.raw[len(before):])
            rig.sim.sleep(1)
            rig.alive('at the end')
        rig.run(main)
    return sorted(labels) if labels & {'sent', 'local'} else []


COMMANDS = ['AT', 'ATZ', 'at+csq', 'AT+CMGF=1', 'ATD123;', 'AT+CPIN="0000"', 'help', 'ls', 'lscat', 'ls sms', 'LS Fax Class 2', '?AT+CMGS', 'AT+CSQ??', 'AT+CSQ=??', 'help AT+CMGF', 'AT+CMGF=?', 'AT+CMGF?',
            'load /nonexistent/x', 'A/', '+++', 'AT+CMGS', 'text with  blanks', 'at+CMGL="ALL"', '?', '??', '=', 'H', 'listen', 'loa', 'hel', 'l']


def ops(max_size=14):
    char = st.sampled_from([chr(c) for c in range(32, 127)])
    typed = st.one_of(st.text(char, min_size=1, max_size=8), st.sampled_from(COMMANDS), st.text(st.sampled_from('ab \'"=?+'), min_size=1, max_size=5))
    key = st.tuples(st.just('key'), st.sampled_from(sorted(KEYS) + ['left', 'left', 'up']), st.one_of(st.just(1), st.integers(1, 4), st.integers(1, 12)))
    line = st.tuples(typed, st.lists(st.one_of(key, st.tuples(st.just('type'), typed)), max_size=5)).map(lambda a: [('type', a[0])] + a[1] + [('enter',)])
    recall = st.lists(st.tuples(st.just('key'), st.sampled_from(['up', 'up', 'up', 'down']), st.integers(1, 4)), min_size=1, max_size=4).map(lambda k: k + [('enter',)])
    edit_recalled = st.tuples(st.integers(1, 4), st.lists(st.one_of(key, st.tuples(st.just('type'), typed)), min_size=1, max_size=4)).map(lambda a: [('key', 'up', a[0])] + a[1] + [('enter',)])
    other = st.one_of(st.tuples(st.just('type'), typed), key, st.just(('enter',)), st.tuples(st.just('urc'), st.sampled_from(['+CREG: 1', 'RING', '+CMTI: "SM",3', 'ERROR', 'OK', '> '])), st.tuples(st.just('wait'), st.sampled_from([0.05, 1.0, 10.0])))
    return st.lists(st.one_of(line, line, recall, edit_recalled, other.map(lambda o: [o]), other.map(lambda o: [o])), min_size=1, max_size=max_size).map(lambda l: sum(l, []))


MODES = st.sampled_from(['ok', 'ok', 'silent', 'error', 'lines', 'echo'])


def gen():
    return st.tuples(ops(), MODES, st.booleans(), schedules(max_pre=3))


def gen_long():
    """ more than a hundred lines, then recalls """
    def build(a):
        n, jumps, last = a
        o = [x for i in range(n) for x in (('type', 'L%d' % i), ('enter',))]
        for up, down, edit in jumps:
            o += [('key', 'up', up), ('key', 'down', down)] + ([('type', edit)] if edit else []) + [('enter',)]
        return o + last
    jump = st.tuples(st.one_of(st.integers(1, 5), st.integers(90, 130), st.sampled_from([99, 100, 101])), st.one_of(st.just(0), st.integers(0, 5), st.integers(90, 110)), st.sampled_from(['', '', 'x']))
    return st.tuples(st.tuples(st.one_of(st.integers(95, 106), st.integers(2, 130)), st.lists(jump, min_size=1, max_size=5), st.just([])).map(build), st.sampled_from(['ok', 'silent']), st.just(False), st.just({}))


def enum_small(tier):
    """ every short sequence of editing keys on a three-letter line with a history of two """
    import itertools
    names = sorted(KEYS) + ['x']
    depth = 3 if tier == 'quick' else 4
    group, cases = [], itertools.product(names, repeat=depth)
    for seq in cases:
        group += [('type', 'abc')] + [('type', 'X') if k == 'x' else ('key', k, 1) for k in seq] + [('enter',)]
        if len(group) > 150:
            yield ([('type', 'h1'), ('enter',), ('type', 'h22'), ('enter',)] + group, 'silent', False, {})
            group = []
    if group:
        yield ([('type', 'h1'), ('enter',), ('type', 'h22'), ('enter',)] + group, 'silent', False, {})


LENGTHS = [1, 2, 3, 8, 16, 20, 21, 32, 40, 41, 64, 79, 80, 81, 100, 128, 161, 256]


def edge_edits(lengths, keys=sorted(KEYS)):
    """ every editing key at the edges of lines of all lengths: lists of operations """
    for n in lengths:
        text = ''.join(chr(97 + (i * 7) % 25) for i in range(n))
        for k in [k for k in keys if k not in ('up', 'down')] + ['x', '~', ' ']:
            for side in ('home', 'end'):
                for steps in sorted(set([0, 1, 2, n // 2, n - 1])):
                    yield [('type', text), ('key', side, 1)] + ([('key', 'right' if side == 'home' else 'left', steps)] if steps > 0 else []) + \
                        [('type', k) if len(k) == 1 else ('key', k, 1), ('type', 'Y')]


def enum_edges(tier):
    group = []
    for n, seq in enumerate(edge_edits(LENGTHS[:11] if tier == 'quick' else LENGTHS)):
        group += seq + [('enter',)]
        if n % 12 == 11:
            yield (group, 'silent', False, {})
            group = []
    yield (group, 'silent', False, {})


SUBS = [
    Sub('edges', run, None, 0, enum=enum_edges, rule='every editing key at both ends of and inside lines of many lengths', guard=120, shards=8),
    Sub('short', run, None, 0, enum=enum_small, rule='every sequence of three editing keys', guard=120),
    Sub('histories', run, gen, 700, 14000, rule='at least one line was confirmed and either sent or handled by the terminal', guard=120),
    Sub('long', run, gen_long, 40, 800, rule='histories of up to 130 lines, with recalls across the limit', guard=300),
]
