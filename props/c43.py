# -*- coding: utf-8 -*-
""" C43: the raw terminal passes everything through; both terminals end cleanly """
import os
import sys
from hypothesis import strategies as st
from vf import load, term
from vf.core import Sub, Violation, require, equal
from vf.rig import schedules
from vf.runner import REPO
from vf.term import TermRig, Line
from props import c44


RATE = (9600, 115200, 300)


class Port(Line):
    """ records; answers nothing by itself """
    def on_write(self, data):
        self.raw += data


def run(case):
    ops, program, raw, exit_key, busy, message, sched = case
    labels = set()
    with TermRig(Port, sched) as rig:
        d, s = rig.device, rig.screen
        ended = []

        def start():
            if not program:
                rig.start(raw=raw)
                return
            path = os.path.join(REPO, 'tools', 'gsmterm.py')
            argv, saved = sys.argv, {n: sys.modules.get(n) for n in rig.ns._mods}
            sys.argv = [path, 'port', '-b', str(RATE[len(ops) % 3])] + (['-r'] if raw else [])
            sys.modules.update(rig.ns._mods)
            try:
                space = {'__name__': 'tool', '__file__': path}
                exec(load._compile(path), space)
            finally:
                for n, m in saved.items():
                    sys.modules.pop(n, None) if m is None else sys.modules.__setitem__(n, m)
            terms = []
            for name in ('GsmTerm', 'RawTerm'):
                base = getattr(rig.mod, name)
                space[name] = (lambda base: lambda *a, **kw: terms.append(base(*a, **kw)) or terms[-1])(base)

            def go():
                try:
                    space['main']()
                    ended.append('Done')
                finally:
                    sys.argv = argv
            rig.spawn(go, 'program')
            rig.sim.block(lambda: rig.thread is not None, 100)
            require(len(terms) == 1 and rig.thread is not None, 'the program did not start a terminal')
            require(isinstance(terms[0], rig.mod.GsmTerm) != raw, 'the wrong kind of terminal')
            rig.term = terms[0]
            rig.sim.sleep(1) # the program itself may still be printing
            rig.settled()
            equal((d.opened[0], int(d.opened[1])), ('port', RATE[len(ops) % 3]), 'port and rate')

        def main():
            start()
            want = ''
            for n, op in enumerate(ops):
                what = 'step %d %r' % (n, op)
                if op[0] == 'keys':
                    if not raw:
                        continue
                    for k in op[1]:
                        before = len(s.raw)
                        rig.press(k)
                        want += '\r' if k == term.ENTER else k
                        equal(d.raw, want, what + ': sent to the modem')
                        if not any(o[0] == 'both' for o in ops):
                            equal(s.raw[before:], k, what + ': echo')
                    labels.add('keys')
                elif op[0] == 'lines':
                    before = len(s.raw)
                    d.port.rx_put(''.join('\r\n%s\r\n' % l for l in op[1]), exclusive=True)
                    rig.sim.sleep(0.3)
                    if raw:
                        equal(s.raw[before:], ''.join(l + '\n' for l in op[1]), what + ': printed')
                    else:
                        shown = [l.rstrip(' ') for l in s.done]
                        equal(shown[-len(op[1]):], list(op[1]), what + ': printed')
                    labels.add('lines')
                elif op[0] == 'both':
                    # typed while the modem is sending
                    d.port.rx_put(''.join('\r\n%s\r\n' % l for l in op[2]))
                    for k in op[1]:
                        if raw:
                            rig.press(k)
                            want += '\r' if k == term.ENTER else k
                    rig.sim.sleep(0.3)
                    equal(d.raw, want, what + ': sent to the modem')
                    labels.add('both')
                elif op[0] == 'wait':
                    rig.sim.sleep(op[1])
                rig.alive(what)
            if message and not raw:
                # in the middle of a message
                rig.sim.sleep(1)
                rig.type('AT+CMGS="123"')
                rig.sim.at(0.2, lambda: d.port.rx_put('\r\n> '))
                rig.press(term.ENTER)
                want += 'AT+CMGS="123"\r'
                rig.type(message)
                equal(d.raw, want, 'sent to the modem before the end of a message')
                labels.add('message')
            if busy:
                d.port.rx_put('\r\nRING\r\n')
            rig.press(exit_key)
            rig.sim.sleep(3)
            equal(d.raw, want, 'sent to the modem by the end')
            for name, e, tb in rig.sim.errors:
                raise Violation('on exit: %s: %s\n%s' % (type(e).__name__, e, tb[-1200:]))
            require(not rig.running(), 'the exit key did not end the input')
            require(not d.port.is_open, 'the port is still open after the exit key')
            require(not rig.term.rxThread.is_alive(), 'the reader is still running after the exit key')
            if program:
                equal(ended, ['Done'], 'the program ended')
                require('port' in s.raw and str(RATE[len(ops) % 3]) in s.raw, 'port and rate are not shown: {0!r}', s.raw[:200])
                require(s.raw.endswith('Done.\n'), 'output at the end: {0!r}', s.raw[-100:])
            labels.add('raw' if raw else 'friendly')
            if program:
                labels.add('program')
        rig.run(main)
    return sorted(labels)


def gen():
    keys = st.lists(st.one_of(st.sampled_from([chr(c) for c in range(32, 127)]), st.sampled_from(['\n', '\n', '\t', '\x1b', '\x1a', '\x03', '\x7f', '\x1b[A', '\x1b[3~', '\x00', '\x1bOH', '\x1b[15~', '\x1b[1;5C', '\x1b[24;2~', '\x1bOa'])), min_size=1, max_size=12)
    line = st.one_of(st.sampled_from(['OK', 'RING', 'ERROR', '+CREG: 1', '> ', '+CMTI: "SM",3', ' x ']), st.text(alphabet=[chr(c) for c in range(32, 127)], min_size=1, max_size=20))
    lines = st.lists(line.map(lambda l: l if l.rstrip() == l else l + '.'), min_size=1, max_size=3)
    burst = st.tuples(lines, st.sampled_from([9, 26, 60, 101])).map(lambda a: ['%d %s' % (i, l) for i, l in enumerate((a[0] * 101)[:a[1]])])
    lines = st.one_of(lines, lines, lines, lines, burst)
    op = st.one_of(st.tuples(st.just('keys'), keys), st.tuples(st.just('keys'), keys), st.tuples(st.just('lines'), lines), st.tuples(st.just('both'), keys, lines), st.tuples(st.just('wait'), st.sampled_from([0.1, 5.0])))
    exits = st.one_of(st.tuples(st.just(True), st.just('\x1d')), st.tuples(st.just(True), st.just('\x1d')), st.tuples(st.just(False), st.sampled_from(['\x1d', '\x04'])))
    return st.tuples(st.lists(op, max_size=8), st.booleans(), exits, st.booleans(), st.one_of(st.just(''), st.text(alphabet=[chr(c) for c in range(32, 127)], min_size=1, max_size=12)), schedules(max_pre=4)).map(lambda a: (a[0], a[1], a[2][0], a[2][1], a[3], a[4], a[5]))


SUBS = [Sub('raw', run, gen, 800, 16000, rule='every session counts', guard=120),
        Sub('process', lambda case: c44.run_program(case, False), c44.gen_program, 40, 400, rule='every session counts', guard=120, shards=8)]
