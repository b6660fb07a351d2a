# -*- coding: utf-8 -*-
""" C38: message entry in the terminal sends the typed message only """
from hypothesis import strategies as st
from vf import term
from vf.core import Sub, Violation, require, equal
from vf.rig import schedules
from vf.term import TermRig, Line
from props.c36 import Editor, KEYS, LENGTHS, edge_edits, local


class Phone(Line):
    outcome = ('prompt', [], 0.01)

    def on_command(self, cmd):
        if cmd.lower().startswith('at+cmgs='):
            kind, lines, delay = self.outcome
            if kind == 'prompt':
                self.prompt(''.join('\r\n%s\r\n' % l for l in lines) + '\r\n> ', delay)
            elif kind == 'silent':
                self.silent(0.0)
            else:
                self.reply(lines, kind, delay)
        else:
            self.reply()


def run(case):
    steps, echo, color, sched = case
    labels = set()
    with TermRig(Phone, sched) as rig:
        d = rig.device
        d.echo = echo

        def main():
            rig.start(useColor=color)
            ed = Editor()

            def put(text):
                rig.type(text)
                for ch in text:
                    ed.put(ch)

            def command_mode(what):
                """ an empty line in command mode """
                before = d.raw
                rig.press('Q')
                text, col = rig.shown()
                equal((text.rstrip(), col), (term.PROMPT + 'Q', len(term.PROMPT) + 1), what + ': the line shown, and the cursor, after one key')
                rig.press(term.BACKSPACE)
                equal(d.raw, before, what + ': sent')

            for n, step in enumerate(steps):
                what = 'step %d' % n
                rig.sim.sleep(1)
                before = d.raw
                if step[0] == 'cmd':
                    put(step[1])
                    rig.press(term.ENTER)
                    s = ed.enter()
                    equal(d.raw[len(before):], s + '\r', what + ': sent for a command')
                elif step[0] == 'up':
                    if not ed.history or ed.pos == 0:
                        continue
                    rig.press(term.UP)
                    ed.key('up')
                    equal(rig.shown()[0].rstrip(), term.PROMPT + ed.line, what + ': the line recalled')
                    rig.press(*[term.BACKSPACE] * len(ed.line))
                    for i in range(len(ed.line)):
                        ed.key('bs')
                elif step[0] == 'urc':
                    d.urc('\r\n%s\r\n' % step[1])
                    rig.sim.sleep(0.3)
                else:
                    kind, cmd, d.outcome, ops, finish, tab = step
                    put(cmd)
                    rig.press(term.ENTER)
                    s = ed.enter()
                    equal(d.raw[len(before):], s + '\r', what + ': sent for the command')
                    rig.alive(what)
                    rig.sim.sleep(0.5)
                    if d.outcome[0] != 'prompt':
                        if d.outcome[0] == 'silent':
                            rig.sim.sleep(5)
                        command_mode(what + ' (no prompt)')
                        labels.add('no prompt')
                        continue
                    entered, msg = '', Editor()
                    texts, start = len(d.texts), len(d.raw)
                    for op in ops:
                        before = d.raw
                        if op[0] == 'type':
                            rig.type(op[1])
                            for ch in op[1]:
                                msg.put(ch)
                        elif op[0] == 'key':
                            rig.press(KEYS[op[1]])
                            msg.key(op[1])
                        elif op[0] == 'wait':
                            rig.sim.sleep(op[1])
                        elif op[0] == 'urc':
                            d.port.rx_put('\r\n%s\r\n' % op[1], exclusive=True)
                            rig.sim.sleep(0.2)
                            labels.add('notification')
                        else:
                            rig.press(term.ENTER)
                            entered += msg.line[:msg.cur] + '\r'
                            msg.line, msg.cur = msg.line[msg.cur:], 0
                            labels.add('lines')
                            require(entered.startswith(d.raw[start:]), '{0}: after a line break: sent {1!r}, entered {2!r}', what, d.raw[start:], entered)
                            continue
                        equal(d.raw, before, '%s: sent while editing the message (%r)' % (what, op))
                    if tab:
                        rig.press(term.TAB)
                    equal(len(d.texts), texts, what + ': messages ended before they were confirmed')
                    rig.press(term.CTRL_Z if finish == 'send' else term.ESC)
                    equal(len(d.texts), texts + 1, what + ': messages ended')
                    t, text, end = d.texts[-1]
                    text = text.replace('\t', '')
                    if finish == 'send':
                        equal((text, end), (entered + msg.line, term.CTRL_Z), what + ': message text')
                    else:
                        equal(end, term.ESC, what + ': end of a cancelled message')
                        require(text in ('', entered), '{0}: a cancelled message with the confirmed lines {1!r}: the modem received {2!r}', what, entered, text)
                    rig.alive(what)
                    rig.sim.sleep(0.5)
                    command_mode(what)
                    labels.add(finish)
                    if msg.line or entered:
                        labels.add(finish + ' text')
            rig.sim.sleep(1)
            rig.alive('at the end')
        rig.run(main)
    return sorted(labels)


def gen():
    char = st.sampled_from([chr(c) for c in range(32, 127)])
    words = st.one_of(st.text(char, min_size=1, max_size=10), st.sampled_from(['Hello', 'AT+C', ' two  words ', '?', 'help', 'ls', 'AT+CMGS="1"', '> ', 'OK', 'load x', 'at+csq??', 'at+cs', 'AT+CMG', 'AT+CREG', 'a', 'AT+CSQ=', ' at+csq ']))
    op = st.one_of(st.tuples(st.just('type'), words), st.tuples(st.just('type'), words), st.tuples(st.just('key'), st.sampled_from(['left', 'right', 'bs', 'del', 'home', 'end', 'left'])), st.just(('enter',)),
                   st.tuples(st.just('wait'), st.sampled_from([0.1, 5.0])), st.tuples(st.just('urc'), st.sampled_from(['RING', '+CREG: 1', 'ERROR'])))
    outcome = st.one_of(st.tuples(st.just('prompt'), st.sampled_from([[], [], [], ['+CREG: 1']]), st.sampled_from([0.01, 0.01, 0.5, 2.5])), st.tuples(st.just('prompt'), st.just([]), st.just(0.01)),
                        st.tuples(st.sampled_from(['ERROR', '+CMS ERROR: 500', '+CME ERROR: 3', 'silent']), st.just([]), st.sampled_from([0.01, 1.0])))
    sms = st.tuples(st.just('sms'), st.sampled_from(['AT+CMGS="+441234"', 'at+cmgs="123"', 'AT+CMGS=23', ' AT+cmgs="1" ']), outcome, st.lists(op, max_size=8), st.sampled_from(['send', 'send', 'cancel']), st.sampled_from([False, False, False, True]))
    cmd = st.tuples(st.just('cmd'), st.one_of(st.sampled_from(['AT', 'AT+CSQ', 'x', 'at+cmgl="ALL"']), st.text(char, min_size=1, max_size=6).filter(lambda s: s.strip() and local(s.strip()) is False)))
    step = st.one_of(sms, sms, sms, cmd, st.just(('up',)), st.tuples(st.just('urc'), st.sampled_from(['RING', '+CREG: 1', 'ERROR'])))
    return st.tuples(st.lists(step, min_size=1, max_size=5), st.booleans(), st.booleans(), schedules(max_pre=3))


def enum_edges(tier):
    """ every editing key at the edges of message lines of many lengths, then sent or confirmed before it is sent """
    for words in ('at+cs', 'AT+CMG', 'AT+CREG', 'AT+CSQ=', 'atd', 'a', 'at+cop', '+CS', 'xyz'):
        for before in ([], [('type', 'Hello'), ('enter',)]):
            yield ([('sms', 'AT+CMGS="123"', ('prompt', [], 0.01), before + [('type', words)], 'send', True)], False, False, {})
    for n, seq in enumerate(edge_edits([1, 2, 11, 21, 41, 81, 161] if tier == 'quick' else LENGTHS)):
        ops = [o if o[0] == 'type' else p for o in seq for p in ([o] if o[0] == 'type' else [('key', o[1])] * o[2])]
        for tail in ([], [('enter',), ('type', 'Z')]):
            yield ([('sms', 'AT+CMGS="123"', ('prompt', [], 0.01), ops + tail, 'send' if (n * 40503 >> 7) % 5 else 'cancel', (n * 40503 >> 5) % 3 == 0)], (n * 40503 >> 9) % 7 == 0, False, {})


SUBS = [Sub('edges', run, None, 0, enum=enum_edges, rule='every editing key at both ends of and inside message lines of many lengths', guard=120, shards=8),
        Sub('messages', run, gen, 1000, 20000, rule='a message was entered and sent or cancelled, or the modem did not prompt', guard=120)]
