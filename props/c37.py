# -*- coding: utf-8 -*-
""" C37: no key sequence makes the terminal fail; completion only completes """
import os
import shutil
import tempfile
from hypothesis import strategies as st
from vf import load, term
from vf.core import Sub, Violation, require, equal
from vf.rig import schedules
from vf.term import TermRig, Line
from props.c36 import Editor, KEYS, CATEGORIES

_t = []


def table():
    if not _t:
        ns = load.fresh(names=('gsmtermlib.atcommands',))
        _t.append([k for k, h in ns['gsmtermlib.atcommands'].ATCOMMANDS])
    return _t[0]


def completions(line):
    """ the lines that are acceptable after the completion key """
    p = line.strip().upper()
    found = [k for k in table() if k.startswith(p)]
    if not found:
        return [line]
    common = os.path.commonprefix(found)
    if p and line == line.strip() and common != p:
        return [common]
    return [line, common]


def answers(cmd):
    low = cmd.lower()
    if low.startswith('at+cmgs='):
        last = cmd.rstrip('"')[-1:]
        return {'0': ('ERROR', []), '1': ('silent', []), '2': ('+CMS ERROR: 500', []), '3': ('prompt', ['+CREG: 1'])}.get(last, ('prompt', []))
    return {'0': ('ERROR', []), '1': ('silent', []), '2': ('OK', ['+X: 1', 'text'])}.get(cmd[-1:], ('OK', []))


def run_complete(case):
    """ lines, edits and the completion key against the model """
    ops, color, sched = case
    labels = set()
    with TermRig(lambda sim: Line(sim, answers), sched) as rig:
        d = rig.device

        def main():
            rig.start(useColor=color)
            ed = Editor()
            for op in ops:
                before = d.raw
                if op[0] == 'type':
                    for ch in op[1]:
                        rig.press(ch)
                        ed.put(ch)
                elif op[0] == 'key':
                    rig.press(KEYS[op[1]])
                    ed.key(op[1])
                elif op[0] == 'urc':
                    d.urc('\r\n%s\r\n' % op[1])
                    rig.sim.sleep(0.3)
                elif op[0] == 'tab':
                    ok = completions(ed.line)
                    rig.press(term.TAB)
                    rig.alive('after the completion key on %r' % ed.line)
                    text, col = rig.shown()
                    require(text.startswith(term.PROMPT) or not ed.line, 'after the completion key on {0!r} the screen shows {1!r}', ed.line, text)
                    shown = text[len(term.PROMPT):]
                    match = [o for o in ok if o.rstrip() == shown.rstrip()]
                    require(match or not text, 'the completion key turned the line {0!r} into {1!r}; acceptable: {2}', ed.line, shown, ok)
                    if len(match) > 1:       # they differ in trailing blanks only: the end of the line tells
                        rig.press(term.END)
                        col = rig.shown()[1]
                        match = [o for o in match if len(o) == col - len(term.PROMPT)]
                        require(match, 'the completion key turned the line {0!r} into one of length {1}', ed.line, col - len(term.PROMPT))
                        ed.line, ed.cur = match[0], len(match[0])
                        continue
                    new = match[0] if match else ed.line
                    if new != ed.line:
                        labels.add('completed')
                        ed.line, ed.cur = new, len(new)
                    else:
                        cur = col - len(term.PROMPT) if text else ed.cur
                        require(cur in (ed.cur, len(new)), 'the completion key left the cursor of {0!r} in column {1}, it was in {2}', ed.line, cur, ed.cur)
                        ed.cur = cur
                        labels.add('several' if ok != [ed.line] else 'no completion')
                elif op[0] == 'enter':
                    s = ed.line.strip()
                    if s.lower().startswith(('at+cmgs=', 'load', 'ls', 'help')) or s[:1] == '?' or s[-2:] == '??':
                        break
                    rig.sim.sleep(0.5)
                    rig.press(term.ENTER)
                    ed.enter()
                    equal(d.raw[len(before):], s + '\r' if s else '', 'sent for the line %r' % s)
                    rig.alive('after %r' % s)
                    continue
                require(d.raw == before, '{0}: {1!r} was sent', op, d.raw[len(before):])
                rig.alive('after %r' % (op,))
            rig.sim.sleep(1)
            rig.alive('at the end')
        rig.run(main)
    return sorted(labels)


def gen_complete():
    keys = table()

    def cut(a):
        k, n, flip, tail = a
        s = k[:max(1, n % (len(k) + 1))]
        if flip == 1:
            s = s.lower()
        elif flip > 1:
            s = ''.join(c.lower() if (flip >> (i % 5)) & 1 else c for i, c in enumerate(s))
        return s + tail
    prefix = st.tuples(st.sampled_from(keys), st.one_of(st.integers(1, 12), st.just(-1)), st.one_of(st.just(0), st.just(1), st.integers(2, 31)), st.sampled_from(['', '', '', '', '=', '=1', ' ', 'X', '?', '==', '\xe9'[:0]])).map(cut)
    odd = st.one_of(st.sampled_from(['', ' ', 'AT+NOPE=', 'X=', '=', '  at+c', 'AT+C ', 'AT+CMGS=', 'help', '?', 'A', 'a', 'at', 'AT', 'ATS0=', '+', 'ATD', 'A/', 'at+wind', 'AT+CMG']), st.text(st.sampled_from([chr(c) for c in range(32, 127)]), max_size=6))
    line = st.tuples(st.one_of(prefix, prefix, odd), st.integers(1, 3), st.lists(st.one_of(st.tuples(st.just('key'), st.sampled_from(sorted(KEYS))), st.just(('tab',)), st.tuples(st.just('type'), st.sampled_from(['=', 'A', 'c', ' ', '1']))), max_size=3), st.booleans()) \
        .map(lambda a: ([('type', a[0])] if a[0] else []) + [('tab',)] * a[1] + a[2] + ([('enter',)] if a[3] else [('key', 'home')] + [('key', 'del')] * 20))
    other = st.one_of(st.tuples(st.just('urc'), st.sampled_from(['RING', 'ERROR', '+CREG: 1'])).map(lambda o: [o]), st.just([('tab',)]), st.just([('key', 'up'), ('tab',)]))
    return st.tuples(st.lists(st.one_of(line, line, other), min_size=1, max_size=6).map(lambda l: sum(l, [])), st.booleans(), schedules(max_pre=2))


def enum_complete(tier):
    """ every prefix of every command, in both cases """
    seen, group = set(), []
    for k in table():
        for n in range(len(k) + 1):
            for s in (k[:n], k[:n].lower(), k[:n] + '='):
                if s and s not in seen:
                    seen.add(s)
                    group += [('type', s), ('tab',), ('tab',), ('key', 'home')] + [('key', 'del')] * 20
        if len(group) > 60:
            yield (group, False, {})
            group = []
    yield (group, True, {})


# ------------------------------------------------------------------ anything at all
WILD = [term.UP, term.DOWN, term.LEFT, term.RIGHT, term.DELETE, term.HOME, term.END, term.BACKSPACE, term.TAB, term.TAB, term.ENTER, term.ENTER, term.CTRL_Z, term.ESC, '\x1b[5~', '\x1b[F', '\x00', '\x03', '\x01', '\r', '\x0b', '\x0c',
        '\x1f', '\xe9', '\u20ac', '\x7f\x7f', 'ab', '\x1b[', 'abcd', '\xa0', '\x1bO', '']


def run_wild(case):
    ops, color, files, sched = case
    labels = set()
    folder = tempfile.mkdtemp(prefix='vf-term')
    try:
        for i, f in enumerate(files):
            with open(os.path.join(folder, 'f%d' % i), 'wb') as h:
                h.write(f.replace(b'%D', folder.encode()))
        with TermRig(lambda sim: Line(sim, answers), sched, max_time=1e6, max_steps=4000000) as rig:
            d = rig.device

            def main():
                rig.start(useColor=color)
                for op in ops:
                    if op[0] == 'wait':
                        rig.sim.sleep(op[1])
                    elif op[0] == 'urc':
                        d.urc('\r\n%s\r\n' % op[1])
                        rig.sim.sleep(0.2)
                    elif op[0] == 'key':
                        rig.press(op[1])
                        labels.add('keys')
                    elif op[0] == 'line':
                        rig.type(op[1].replace('%D', folder))
                        rig.press(term.ENTER)
                        labels.add(op[1].split(' ')[0].strip('?')[:4].lower() if op[1][:4].lower() in ('load', 'help', 'ls', 'ls c', 'lsca', 'at+c') else 'line')
                    before = d.raw
                    rig.alive('after %r' % (op,))
                    if op[0] == 'key' and op[1] == term.TAB:
                        require(d.raw == before, 'the completion key sent {0!r}', d.raw[len(before):])
                rig.sim.sleep(5)
                # it still works: leave message entry, clear the line, send a command
                rig.press(term.ESC)
                rig.sim.sleep(5)
                rig.press(term.HOME, *[term.DELETE] * 600)
                before = d.raw
                rig.type('AT+CSQ')
                rig.press(term.ENTER)
                rig.sim.sleep(1)
                rig.alive('after a command at the end')
                equal(d.raw[len(before):], 'AT+CSQ\r', 'sent for a command at the end')
                rig.press('\x1d')
                rig.sim.sleep(2)
                require(not rig.running() and d.port is not None and not d.port.is_open, 'the exit key did not end the terminal')
                for name, e, tb in rig.sim.errors:
                    raise Violation('on exit: %s: %s\n%s' % (type(e).__name__, e, tb[-1200:]))
            rig.run(main)
    finally:
        shutil.rmtree(folder)
    return sorted(labels)


def gen_wild():
    keys = table()
    arg = st.one_of(st.sampled_from(keys), st.sampled_from(keys).map(str.lower), st.sampled_from(CATEGORIES), st.sampled_from(['', ' ', 'nope', '?', '??', '=', '  AT+CSQ ']), st.text(st.sampled_from([chr(c) for c in range(32, 127)]), max_size=8))
    form = st.sampled_from(['?%s', '%s??', '%s=??', 'help %s', 'help%s', 'ls %s', 'ls%s', 'lscat%s', 'load %s', 'load%s', '%s', 'AT+CMGS=%s', 'at+cmgs="+4412%s', 'HELP  %s', 'LS  %s'])
    line = st.tuples(st.just('line'), st.tuples(form, arg).map(lambda a: a[0] % a[1]))
    fixed = st.tuples(st.just('line'), st.sampled_from(['load %D/f0', 'load %D/f1', 'load %D', 'load %D/nothing', 'load  %D/f0 ', 'ls', 'lscat', 'help', 'AT+CMGS="+4412345"', 'AT+CMGS="+44120"', 'AT+CMGS="+44121"', 'AT+CMGS="+44122"', 'AT+CMGS="+44123"', 'AT', 'AT0', 'AT1', 'message text']))
    key = st.tuples(st.just('key'), st.one_of(st.sampled_from(WILD), st.sampled_from([chr(c) for c in range(32, 127)]), st.characters(max_codepoint=0x2ff).filter(lambda c: c not in '\x1d\x04')))
    urc = st.tuples(st.just('urc'), st.sampled_from(['RING', 'ERROR', 'OK', '+CMTI: "SM",1', '> ', ' ']))
    wait = st.tuples(st.just('wait'), st.sampled_from([0.02, 1.0, 4.0]))
    piece = st.one_of(st.sampled_from([b'AT\n', b'AT+CSQ\n', b'# comment\n', b'\n', b'  AT+X  \r\n', b'help\n', b'ls\n', b'?AT\n', b'load %D/f0\n', b'load %D/f1\n', b'AT+CMGS="+4412"\n', b'AT+CMGS="+44120"\n', b'text\n', b'\x1a\n', b'\xff\xfe\n', b'\x00', b'AT\xe9\n', b'??\n', b'load %D\n', b'#\n', b'?', b'load \n']), st.binary(max_size=6))
    script = st.lists(piece, max_size=5).map(b''.join)
    return st.tuples(st.lists(st.one_of(key, key, line, line, fixed, urc, wait), min_size=1, max_size=20), st.booleans(), st.lists(script, min_size=2, max_size=2), schedules(max_pre=3))


def enum_wild(tier):
    for i in range(0, len(table()), 25):
        part = table()[i:i + 25]
        for form in ('?%s', '%s??', '%s=??', 'help %s'):
            yield ([('line', form % k) for k in part] + [('line', form % k.lower()) for k in part], i % 50 == 0, [b'', b''], {})
    yield ([('line', 'ls'), ('line', 'lscat'), ('line', 'help'), ('line', 'LS')] + [('line', 'ls ' + c) for c in CATEGORIES + ('nope', '')], True, [b'', b''], {})


SUBS = [
    Sub('prefixes', run_complete, None, 0, enum=enum_complete, rule='every prefix of every known command, in upper and lower case and with "="', guard=300),
    Sub('complete', run_complete, gen_complete, 500, 10000, rule='the completion key was used on at least one line', guard=120),
    Sub('commands', run_wild, None, 0, enum=enum_wild, rule='help for every known command in every form, and every listing', guard=300),
    Sub('anything', run_wild, gen_wild, 500, 10000, rule='at least one key or line', guard=300),
]
