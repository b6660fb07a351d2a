# -*- coding: utf-8 -*-
""" C42: the terminal shows the line being edited """
from hypothesis import strategies as st
from vf import term
from vf.core import Sub, Violation, require, equal
from vf.rig import schedules
from vf.term import TermRig, Line
from props.c36 import Editor, KEYS, LENGTHS, edge_edits, local
from props.c38 import Phone


def run(case):
    ops, color, echo, extra, sched = case
    labels = set()
    with TermRig(Phone, sched) as rig:
        d, s = rig.device, rig.screen
        d.echo, d.outcome = echo, ('prompt', extra, 0.01)

        def main():
            rig.start(useColor=color)
            cmd, msg = Editor(), None
            notes = []

            def check(what):
                ed, prompt = (msg, '> ') if msg else (cmd, term.PROMPT)
                text, col = rig.shown()
                equal(text.rstrip(' '), (prompt + ed.line).rstrip(' '), '%s: the line shown' % what)
                equal(col, len(prompt) + ed.cur, '%s: the column of the cursor in %r' % (what, text))

            check('at the start')
            for n, op in enumerate(ops):
                what = 'step %d %r' % (n, op)
                ed = msg or cmd
                if op[0] == 'type':
                    for ch in op[1]:
                        rig.press(ch)
                        ed.put(ch)
                        check(what)
                    labels.add('message' if msg else 'command')
                elif op[0] == 'key':
                    if op[1] in ('up', 'down') and (msg or cmd.blank):
                        continue
                    for i in range(op[2]):
                        old = ed.line, ed.cur
                        rig.press(KEYS[op[1]])
                        ed.key(op[1])
                        if (ed.line, ed.cur) != old:
                            check(what)
                            labels.add('edited')
                            if op[1] in ('up', 'down'):
                                labels.add('recalled')
                elif op[0] == 'urc':
                    done = len(s.done)
                    d.port.rx_put('\r\n%s\r\n' % op[1], exclusive=True)
                    rig.sim.sleep(0.3)
                    check(what)
                    equal([l.rstrip(' ') for l in s.done[done:]][-1:], [op[1]], what + ': the notification is printed on a line of its own')
                    labels.add('notification')
                elif op[0] == 'enter':
                    rig.sim.sleep(1)
                    if msg:
                        rig.press(term.ENTER)
                        msg.line, msg.cur = msg.line[msg.cur:], 0
                        check(what)
                        continue
                    line = cmd.line.strip()
                    if local(line) is None and not line.lower().startswith('at+cmgs='):
                        return
                    rig.press(term.ENTER)
                    cmd.enter()
                    if line.lower().startswith('at+cmgs='):
                        rig.sim.sleep(1)
                        msg = Editor()
                        check(what)
                    elif line and local(line):
                        check(what)
                        labels.add('local command')
                    elif line and local(line) is False:
                        rig.sim.sleep(1)         # the answer
                        check(what)
                elif op[0] == 'message':
                    if msg:
                        continue
                    rig.press(term.HOME)
                    cmd.key('home')
                    rig.press(*[term.DELETE] * len(cmd.line))
                    cmd.line = ''
                    line = 'AT+CMGS="%s"' % op[1]
                    rig.type(line)
                    for ch in line:
                        cmd.put(ch)
                    rig.press(term.ENTER)
                    cmd.enter()
                    rig.sim.sleep(0.5)
                    msg = Editor()
                    check(what)
                elif op[0] in ('send', 'cancel'):
                    if not msg:
                        continue
                    rig.press(term.CTRL_Z if op[0] == 'send' else term.ESC)
                    msg = None
                    rig.sim.sleep(1)
                    check(what)
                    answer = '+CMGS: 1\nOK' if op[0] == 'send' else 'OK'
                    lines = [l.rstrip(' ') for l in s.done]
                    require(lines[-answer.count('\n') - 1:] == answer.split('\n'), '{0}: the answer {1!r} is shown as {2!r}', what, answer, lines[-3:])
                    labels.add(op[0])
                rig.alive(what)
            equal(s.odd, [], 'odd control sequences')
        rig.run(main)
    return sorted(labels)


def gen():
    char = st.sampled_from([chr(c) for c in range(32, 127)])
    typed = st.one_of(st.text(char, min_size=1, max_size=12), st.sampled_from(['AT', 'AT+CSQ', 'at+cops?', 'hello world', 'x' * 30, 'y' * 75, 'z' * 130]))
    key = st.tuples(st.just('key'), st.sampled_from(sorted(KEYS) + ['left', 'left', 'up', 'up', 'bs', 'home', 'end']), st.one_of(st.just(1), st.integers(1, 4), st.integers(1, 12)))
    urc = st.tuples(st.just('urc'), st.sampled_from(['RING', 'ERROR', '+CREG: 1', '+CMTI: "SM",3', 'a rather long notification from the modem, longer than the line being edited']))
    line = st.tuples(typed, st.lists(st.one_of(key, key, key, urc), max_size=6)).map(lambda a: [('type', a[0])] + a[1] + [('enter',)])
    here = st.sampled_from(['help', 'ls', 'lscat', 'ls general', 'LS sms', '?AT+CSQ', 'at+csq??', 'AT+NOPE??', 'help at+cmgs', 'load /nonexistent/x', '?ATS0', 'HELP nothing'])
    line = st.one_of(line, line, line, line, here.map(lambda t: [('type', t), ('enter',)]))
    other = st.one_of(st.tuples(st.just('type'), typed), key, key, urc, st.just(('enter',)), st.tuples(st.just('message'), st.sampled_from(['123', '+44123'])), st.just(('send',)), st.just(('cancel',))).map(lambda o: [o])
    message = st.tuples(st.lists(st.one_of(st.tuples(st.just('type'), typed), key, urc, st.just(('enter',))), max_size=5), st.sampled_from(['send', 'cancel'])).map(lambda a: [('message', '123')] + a[0] + [(a[1],)])
    return st.tuples(st.lists(st.one_of(line, line, other, other, message), min_size=2, max_size=10).map(lambda l: sum(l, [])), st.booleans(), st.sampled_from([False, False, False, True]), st.sampled_from([[], [], [], ['+CREG: 1'], ['RING', '+X: 1']]), schedules(max_pre=3))


def enum_edges(tier):
    """ every editing key at the edges of lines of many lengths, in command mode and in a message, with a notification before or after it """
    group = []
    for n, seq in enumerate(edge_edits([1, 2, 16, 41, 81, 161] if tier == 'quick' else LENGTHS)):
        h = n * 40503 >> 7
        urc = [('urc', ['RING', 'ERROR', '+CMTI: "SM",3', 'w' * 90][h % 4])]
        ops = seq[:-2] + (urc if h % 3 == 0 else []) + seq[-2:-1] + (urc if h % 3 == 1 else []) + seq[-1:]
        if h % 2:
            group += [('message', '123')] + ops + [('send',) if (h >> 4) % 5 else ('cancel',)]
        else:
            group += ops + [('enter',)]
        if n % 8 == 7:
            yield (group, h % 5 == 0, False, [], {})
            group = []
    yield (group, False, False, [], {})


SUBS = [Sub('edges', run, None, 0, enum=enum_edges, rule='every editing key at both ends of and inside lines of many lengths', guard=120, shards=8),
        Sub('screen', run, gen, 2500, 50000, rule='something was typed, edited or notified', guard=120, shards=8)]
