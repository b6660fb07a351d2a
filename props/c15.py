# -*- coding: utf-8 -*-
""" C15: serial port failure ends the session cleanly, once """
import re
from hypothesis import strategies as st
from vf.core import Sub, Violation, require
from vf.rig import Rig, schedules
from vf.wire import Wire
from props.c12 import gap

EPS = 0.0131


class Device(Wire):
    def on_command(self, cmd):
        m = re.match(r'AT\+C(\d+)$', cmd)
        if not m:
            return self.reply()
        kind, lines, delay, chunks, timeout = self.script[int(m.group(1))]
        if kind == 'silent':
            self.silent(timeout)
        elif kind == 'prompt':
            self.emit('\r\n> ', delay, done=True)
        else:
            self.reply(lines, 'OK', delay, chunks)


def build(rig, modem):
    log = {'fatal': [], 'notes': []}
    if modem:
        comm = rig.modem_mod.GsmModem('port')
        comm.fatalErrorCallback = log['fatal'].append
        comm.notifyCallback = lambda lines: log['notes'].append(list(lines))
        write = lambda d, **k: comm.write(d, parseError=False, **k)
    else:
        comm = rig.serial_mod.SerialComms('port', notifyCallbackFunc=lambda lines: log['notes'].append(list(lines)), fatalErrorCallbackFunc=log['fatal'].append)
        write = lambda d, **k: comm.write(d + '\r', **k)
    return comm, write, log


def left(rig):
    """ names of the threads that are still there, apart from the check's own """
    return [t.name for t in rig.sim.threads[1:] if t.started and not t.done and t.name != 'user']


def kwargs(kind, timeout):
    return dict(timeout=timeout, **({'expectedResponseTermSeq': '> '} if kind == 'prompt' else {}))


def expected(kind, lines):
    return ['> '] if kind == 'prompt' else list(lines) + ['OK']


def run_read(case):
    """ The port fails once n characters have been read (or n virtual seconds after opening it: fault=('t', seconds)) """
    items, fault, modem, close_after, sched = case
    rig = Rig(Device, sched)
    rig.device.script = [i[1] for i in items if i[0] == 'c']
    labels = set()

    def main():
        comm, write, log = build(rig, modem)
        rig.open(comm)
        sim, port = rig.sim, rig.device.port
        error = rig.shims['serial'].SerialException('the device was unplugged')
        if fault[0] == 'n':
            port.fail_after = (fault[1], error)
        elif fault[0] == 'w':
            port.fail_waiting = [fault[1], error]
        else:
            sim.at(fault[1], lambda: setattr(port, 'fail_read', error))
        c = 0
        for item in items:
            if item[0] == 'n':
                rig.device.urc(''.join('\r\n%s\r\n' % l for l in item[1]), 0.0)
                sim.sleep(0.02)
                continue
            if item[0] == 'p':
                sim.sleep(item[1])
                continue
            kind, lines, delay, chunks, timeout = item[1]
            t0 = sim.now
            was = len(log['fatal'])
            try:
                got = write('AT+C%d' % c, **kwargs(kind, timeout))
                require(list(got) == expected(kind, lines), 'command {0}: got {1}', c, got)
            except rig.exc.TimeoutException as e:
                require(abs(sim.now - t0 - timeout) < 1e-6, 'command {0}: TimeoutException after {1} s, limit {2} s', c, sim.now - t0, timeout)
                if len(log['fatal']) > was:
                    labels.add('failed during a command')
                elif log['fatal']:
                    raise Violation('a command was sent although the port had failed')
            except IOError:
                require(log['fatal'] or port.closed, 'command {0}: the port reported an error before it failed', c)
                labels.add('command after failure')
            c += 1
        sim.sleep(3 + (fault[1] if fault[0] == 't' else 0))
        if port.fail_after is not None or port.fail_waiting is not None:       # never reached
            require(not log['fatal'] and comm.alive and not port.closed, 'the connection ended without a failure')
            comm.close()
            return
        labels.add('failed')
        require(log['fatal'] == [error], 'fatal error callback calls: {0}', log['fatal'])
        require(comm.alive is False, 'alive is {0} after the port failed', comm.alive)
        require(port.closed, 'the port was left open')
        require(not left(rig), 'the reading thread is still there')
        if close_after:
            comm.close()
            labels.add('closed afterwards')
            sim.sleep(2)
        require(log['fatal'] == [error], 'fatal error callback calls: {0}', log['fatal'])
    rig.run(main)
    rig.deaths()
    return sorted(labels) if 'failed' in labels else []


def run_write(case):
    """ The port refuses the k-th write: the caller gets that error; everything else works as if it had not been tried """
    items, k, modem, sched = case
    ncmds = max(1, sum(i[0] == 'c' for i in items))
    rig = Rig(Device, sched)
    rig.device.script = [i[1] for i in items if i[0] == 'c']
    labels = set()

    def main():
        comm, write, log = build(rig, modem)
        rig.open(comm)
        sim, port = rig.sim, rig.device.port
        error = rig.shims['serial'].SerialException('cannot write')
        c, want_notes = 0, []
        for item in items:
            if item[0] == 'n':
                for _ in range(50):
                    if rig.device.quiet():
                        break
                    sim.sleep(1)
                rig.device.urc(''.join('\r\n%s\r\n' % l for l in item[1]), 0.0)
                want_notes += item[1]
                sim.sleep(0.02)
                continue
            if item[0] == 'p':
                sim.sleep(item[1])
                continue
            kind, lines, delay, chunks, timeout = item[1]
            timeout = timeout if kind == 'silent' else 60
            failing = c == k % ncmds
            if failing:
                port.fail_write = error
                labels.add('failed')
            try:
                got = write('AT+C%d' % c, **kwargs(kind, timeout))
            except rig.exc.TimeoutException as e:
                require(kind == 'silent' and not failing, 'command {0}: TimeoutException with {1}', c, e.data)
                require(not e.data, 'command {0}: TimeoutException carries {1}', c, e.data)
            except IOError as e:
                require(failing and e is error, 'command {0} raised {1}', c, e)
            else:
                require(not failing, 'command {0} returned {1} although it could not be written', c, got)
                require(list(got) == expected(kind, lines), 'command {0}: got {1}, expected {2}', c, got, expected(kind, lines))
                if 'failed' in labels:
                    labels.add('later command')
            c += 1
        sim.sleep(3)
        require(not log['fatal'] and comm.alive and not port.closed and left(rig), 'the connection was given up')
        notes = [l for n in log['notes'] for l in n]
        require(notes == want_notes, 'notifications passed on: {0}, sent: {1}', notes, want_notes)
        if want_notes:
            labels.add('notification')
        comm.close()
        require(not left(rig), 'the reading thread is still there')
    rig.run(main)
    rig.deaths()
    return sorted(labels) if 'failed' in labels else []


def run_close(case):
    """ close() at any moment while another thread uses the connection """
    items, when, modem, sched, trace = case
    rig = Rig(Device, sched, trace)
    rig.device.script = [i[1] for i in items if i[0] == 'c']
    labels = set()
    problems = []

    def main():
        comm, write, log = build(rig, modem)
        rig.open(comm)
        sim, port = rig.sim, rig.device.port

        def user():
            c = 0
            for item in items:
                if item[0] == 'n':
                    rig.device.urc(''.join('\r\n%s\r\n' % l for l in item[1]), 0.0)
                elif item[0] == 'p':
                    sim.sleep(item[1])
                else:
                    kind, lines, delay, chunks, timeout = item[1]
                    t0 = sim.now
                    try:
                        got = write('AT+C%d' % c, **kwargs(kind, timeout))
                        if list(got) != expected(kind, lines):
                            problems.append('command %d: got %r' % (c, got))
                    except rig.exc.TimeoutException:
                        if abs(sim.now - t0 - timeout) > 1e-6:
                            problems.append('command %d: TimeoutException after %r s, limit %r' % (c, sim.now - t0, timeout))
                        if not comm.alive:
                            labels.add('closed during a command')
                    except IOError:
                        if comm.alive:
                            problems.append('command %d failed before closing' % c)
                    c += 1
        t = rig.spawn(user, 'user')
        sim.sleep(when)
        t0 = sim.now
        comm.close()
        require(sim.now - t0 <= 1.001, 'close() took {0} s', sim.now - t0)
        require(not left(rig), 'the reading thread is still there after close()')
        require(port.closed and comm.alive is False, 'after close(): port closed {0}, alive {1}', port.closed, comm.alive)
        require(not log['fatal'], 'close() was reported as a fatal error: {0}', log['fatal'])
        t.join()
        labels.add('closed')
    rig.run(main)
    rig.deaths()
    require(not problems, '{0}', '; '.join(problems))
    return sorted(labels)


lines = st.lists(st.sampled_from(['a', '+CSQ: 5,0', 'hello world', '+X: "y"']), max_size=3)
chunks = st.one_of(st.just([]), st.lists(st.tuples(st.integers(1, 10), gap), max_size=4))
cmd = st.tuples(st.sampled_from(['ok', 'ok', 'ok', 'silent', 'prompt']), lines, st.integers(0, 60).map(lambda n: n * EPS), chunks, st.sampled_from([0.5, 3, 5]))
item = st.one_of(st.tuples(st.just('c'), cmd), st.tuples(st.just('n'), st.lists(st.sampled_from(['+NOTE: 1', 'HELLO', 'x']), min_size=1, max_size=3)),
                 st.tuples(st.just('p'), st.sampled_from([0.003, 0.7, 1.1])))
items = st.lists(item, min_size=1, max_size=7)


def gen_read():
    ok = items.map(lambda l: [(i[0], i[1][:4] + (60,)) if i[0] == 'c' and i[1][0] != 'silent' else i for i in l])
    # time limits of the waiting commands stay generous, so that an undisturbed command always completes
    fault = st.one_of(st.tuples(st.just('n'), st.one_of(st.integers(0, 12), st.integers(0, 90))), st.tuples(st.just('w'), st.integers(0, 3)), st.tuples(st.just('t'), st.integers(0, 400).map(lambda n: n * 0.0173)))
    return st.tuples(ok, fault, st.booleans(), st.booleans(), schedules())


def enum_read(tier):
    hist = [('c', ('ok', ['+CSQ: 5,0'], 0.01, [(3, 0.2)], 60)), ('n', ['+NOTE: 1', 'x']), ('c', ('prompt', [], 0.01, [], 60)), ('c', ('silent', [], 0.0, [], 3)),
            ('c', ('ok', ['hello'], 0.01, [], 60)), ('p', 0.7)]
    for n in range(0, 66):
        for modem in (False, True):
            yield (hist, ('n', n), modem, True, {})
            yield (hist, ('t', n * 0.0731), modem, False, {})


def gen_write():
    # a notification right after the failing command is what matters most
    return st.tuples(items, st.integers(0, 3), st.booleans(), schedules())


def enum_write(tier):
    for kind in ('ok', 'silent', 'prompt'):
        for after in ([('n', ['+NOTE: 1'])], [('c', ('ok', ['a > b'], 0.01, [], 5))], [('c', ('silent', [], 0.01, [], 1)), ('n', ['x', 'y'])],
                      [('n', ['+NOTE: 1']), ('c', ('prompt', [], 0.01, [], 5)), ('n', ['z'])]):
            for before in ([], [('c', ('ok', ['b'], 0.0, [], 5))]):
                for modem in (False, True):
                    yield (before + [('c', (kind, ['r'], 0.01, [], 2))] + after, len(before), modem, {})


def gen_close():
    return st.tuples(items.map(lambda l: [(i[0], i[1][:4] + (60,)) if i[0] == 'c' and i[1][0] != 'silent' else i for i in l]),
                     st.one_of(st.just(0.0), st.integers(0, 300).map(lambda n: n * 0.0173)), st.booleans(), schedules(), st.sampled_from([None, None, 'line']))


SUBS = [Sub('read', run_read, gen_read, quick=3000, thorough=60000, enum=enum_read, rule='histories with a read failure at a generated position; non-trivial: the failure was reached'),
        Sub('write', run_write, gen_write, quick=2000, thorough=40000, enum=enum_write, rule='histories with one failing write; non-trivial: the write failed'),
        Sub('close', run_close, gen_close, quick=2000, thorough=40000, rule='close() at a generated time of a history')]
