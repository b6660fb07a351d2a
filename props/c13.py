# -*- coding: utf-8 -*-
""" C13: unsolicited lines reach the notification handler once, in order """
import re
from hypothesis import strategies as st
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules
from vf.wire import Wire
from props.c12 import line, gap

EPS = 0.013


class Device(Wire):
    def on_command(self, cmd):
        m = re.match(r'AT\+C(\d+)$', cmd)
        if not m:
            return self.reply()
        lines, delay, chunks = self.script[int(m.group(1))]
        self.reply(lines, 'OK', delay, chunks)


def run(case):
    """ items: ('n', pause, lines, chunks, framing) notification; ('c', pause, lines, delay, chunks, wait) command """
    items, handler_cmds, sched, trace = case
    if handler_cmds:   # the handler's command must not run into the second line of the same notification
        items = [(i[0], i[1], i[2][:1], i[3], i[4]) if i[0] == 'n' and i[3] else
                 (i[:4] + ([],) + i[5:] if i[0] == 'c' and not i[5] else i) for i in items]
    labels = set()
    rig = Rig(Device, sched, trace)
    rig.device.script = [(i[2], i[3], i[4]) for i in items if i[0] == 'c']
    calls, handled = [], []
    expected, unsplit = [], []
    commands = {'n': 0}

    def main():
        if handler_cmds:
            modem = rig.modem_mod.GsmModem('port')

            def handler(lines):
                # what GsmModem does with a notification: the handler runs in a thread of its own and issues commands
                calls.append(lines)      # kept as is: the library must not change it afterwards

                def work():
                    handled.append(modem.write('AT+H'))
                rig.spawn(work, 'handler')
            modem.notifyCallback = handler
            comm, write = modem, lambda d, **k: modem.write(d, **k)
        else:
            comm = rig.serial_mod.SerialComms('port', notifyCallbackFunc=calls.append)
            write = lambda d, **k: comm.write(d + '\r', **k)
        rig.open(comm)
        c = 0
        for item in items:
            kind, pause = item[0], item[1]
            if pause:
                rig.sim.sleep(pause)
            if kind == 'n':
                _, _, lines, chunks, frame = item
                text = ''.join(frame[0] + l + frame[1] for l in lines)
                done = []
                if chunks:                       # nothing else may be on the line meanwhile
                    rig.sim.sleep(6 if handler_cmds else 0.05)
                    require_quiet(rig)
                    rig.device.urc(text, 0.0, chunks)
                    rig.sim.sleep(sum(g for _, g in chunks) + (6 if handler_cmds else 0.1))
                    labels.add('notification in pieces')
                    expected.append((list(lines), False))
                else:
                    rig.device.urc(text, 0.0)
                    expected.append((list(lines), True))
                    labels.add('burst of lines' if len(lines) > 1 else 'single line')
                if frame[1] != '\r\n':
                    labels.add('trailing blank line')
            else:
                _, _, lines, delay, chunks, wait = item
                if wait:
                    got = write('AT+C%d' % c, waitForResponse=True, timeout=30)
                    require(list(got) == list(lines) + ['OK'], 'command {0}: got {1}, expected {2}', c, got, list(lines) + ['OK'])
                    labels.add('command')
                else:
                    rig.sim.sleep(6 if handler_cmds else 0.05)
                    require_quiet(rig)
                    write('AT+C%d' % c, waitForResponse=False)
                    labels.add('response nobody waits for')
                    expected.append((list(lines) + ['OK'], False))
                    rig.sim.sleep(delay + sum(g for _, g in chunks) + (6 if handler_cmds else 0.1))
                c += 1
        rig.sim.sleep(20)
        comm.close()
    rig.run(main)
    rig.deaths()
    flat = [l for c in calls for l in c]
    want = [l for ls, _ in expected for l in ls]
    require(flat == want, 'lines passed to the handler: {0}, sent by the modem: {1}', flat, want)
    pos, bounds, n = 0, set(), 0
    for c in calls:
        require(len(c) > 0, 'the handler was called without lines')
        bounds.add((n, n + len(c)))
        n += len(c)
    n = 0
    for ls, whole in expected:
        if whole:
            require(any(a <= n and n + len(ls) <= b for a, b in bounds), 'lines {0} arrived together, but were passed on in separate calls: {1}', ls, calls)
        n += len(ls)
    if handler_cmds:
        require(len(handled) == len(calls) and all(h == ['OK'] for h in handled), 'commands issued by the handler got {0}', handled)
    if rig.sim.preempted:
        labels.add('preempted')
    if len(expected) > 1:
        labels.add('several notifications')
    return sorted(labels)


def require_quiet(rig):
    n = 0
    while not rig.device.quiet() or rig.device.port.pending():
        rig.sim.sleep(0.5)
        n += 1
        require(n < 200, 'the line does not become quiet')


frames = st.sampled_from([('\r\n', '\r\n'), ('', '\r\n'), ('\r\n', '\r\n'), ('\r\n', '\r\n\r\n')])
uline = st.one_of(line, st.sampled_from(['OK', 'ERROR', '+CME ERROR: 3', 'RING', '+CMTI: "SM",5', '+CLIP: "+12",145', 'HANGUP: 1']))
chunks = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.one_of(st.integers(1, 4), st.integers(1, 30)), gap), min_size=1, max_size=6))
pause = st.sampled_from([0.0, 0.0, 0.003, 0.0137, 0.5, 1.0, 1.3])


def gen():
    note = st.tuples(st.just('n'), pause, st.lists(uline, min_size=1, max_size=5), chunks, frames)
    cmd = st.tuples(st.just('c'), pause, st.lists(line, max_size=4), st.integers(0, 100).map(lambda n: n * EPS), chunks, st.sampled_from([True, True, False]))
    return st.tuples(st.lists(st.one_of(note, note, cmd), min_size=1, max_size=8), st.booleans(), schedules(), st.sampled_from([None, None, 'line']))


def enum(tier):
    for n in (80, 128, 200, 256, 257, 1000, 1024, 1025, 4097, 9000):
        for m in (1, 3):
            yield ([('n', 0.0, ['x' * n] * m, [], ('\r\n', '\r\n')), ('c', 0.5, ['y' * n], 0.1, [], True), ('n', 0.0, ['+CUSD: 1,"%s",15' % ('z' * n)], [(n, 0.3)], ('\r\n', '\r\n'))], False, {}, None)
    for n in (20, 64, 130, 260, 500):
        yield ([('n', 0.0, ['+CMTI: "SM",%d' % i for i in range(n)], [], ('\r\n', '\r\n')), ('n', 1.0, ['x'], [], ('\r\n', '\r\n'))], False, {}, None)
        yield ([('n', 0.3, ['+CMTI: "SM",%d' % i], [], ('\r\n', '\r\n')) if i % 3 else ('c', 0.3, ['a'], 0.1, [], True) for i in range(n)], False, {}, None)
    text = '\r\n+CMTI: "SM",5\r\n\r\nRING\r\n'
    for cut in range(1, len(text)):
        for g in (0.0, 0.4, 1.2):
            yield ([('n', 0.0, ['+CMTI: "SM",5', 'RING'], [(cut, g)], ('\r\n', '\r\n')), ('c', 0.0, ['a'], 0.1, [], True),
                    ('n', 0.0, ['x'], [], ('\r\n', '\r\n\r\n'))], False, {}, None)


SUBS = [Sub('notifications', run, gen, quick=5000, thorough=100000, enum=enum, shards=6,
            rule='histories of notifications and commands with generated framing, pieces and schedules')]
