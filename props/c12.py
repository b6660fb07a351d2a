# -*- coding: utf-8 -*-
""" C12: a command gets exactly its response lines, however they arrive """
import re
from hypothesis import strategies as st
from vf import gens
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules
from vf.wire import Wire

FINAL = re.compile(r'(OK|ERROR|\+CM[ES] ERROR: ?\d+|COMMAND NOT SUPPORT)\s*\Z')
EDGE = 0.0137


class Device(Wire):
    """ Answers the n-th command with the n-th scripted response """
    script = ()

    def on_command(self, cmd):
        i = int(re.match(r'AT\+C(\d+)$', cmd).group(1))
        lines, final, delay, chunks, frame = self.script[i]
        text = ''.join(('\r\n%s\r\n' if frame else '%s\r\n') % l for l in list(lines) + ([final] if final else []))
        self.sent = []
        self.start = self.sim.now
        if text:
            self.send_chunks(text, delay, chunks, done=bool(final))
        if not final:
            self.silent(delay + sum(g for _, g in chunks) + 0.001)


def arrivals(lines, final, delay, chunks, frame):
    """ [(time after the command, line)] computed independently of the device """
    items = list(lines) + ([final] if final else [])
    pieces = [('\r\n%s\r\n' if frame else '%s\r\n') % l for l in items]
    ends, pos = [], 0
    for p in pieces:
        pos += len(p)
        ends.append(pos)
    total = pos
    t, done, res = delay, 0, []
    cuts = []
    gap = 0.0
    rest = total
    for n, g in chunks:
        n = max(1, n)
        if n >= rest:
            break
        cuts.append((n, t))
        rest -= n
        t += g
    cuts.append((rest, t))
    out, got, k = [], 0, 0
    for n, at in cuts:
        got += n
        while k < len(ends) and ends[k] <= got:
            out.append((at, items[k]))
            k += 1
    return out


NOTIFICATION = re.compile(r'RING|\+CMTI|\+CUSD|\+CDSI')


def run(case):
    cmds, use_modem, sched, trace = case
    if use_modem:     # what arrives after the time limit would be acted upon
        cmds = [(([l for l in c[0] if not NOTIFICATION.search(l)]),) + tuple(c[1:]) for c in cmds]
    rig = Rig(Device, sched, trace)
    rig.device.script = [c[:5] for c in cmds]
    labels = set()
    result = {}

    def main():
        if use_modem:
            comm = rig.modem_mod.GsmModem('port')
            write = lambda d, t: comm.write(d, timeout=t, parseError=False)
        else:
            comm = rig.serial_mod.SerialComms('port')
            write = lambda d, t: comm.write(d + '\r', timeout=t)
        rig.open(comm)
        for i, (lines, final, delay, chunks, frame, timeout, pause) in enumerate(cmds):
            arr = arrivals(lines, final, delay, chunks, frame)
            end = arr[-1][0] if arr and final else None
            tie = any(t == timeout for t, _ in arr)
            t0 = rig.sim.now
            try:
                got = write('AT+C%d' % i, timeout)
            except rig.exc.TimeoutException as e:
                require(end is None or end >= timeout, 'command {0}: TimeoutException although the response was complete after {1} s (limit {2} s)', i, end, timeout)
                require(abs(rig.sim.now - t0 - timeout) < 1e-6, 'command {0}: TimeoutException after {1} s, limit {2} s', i, rig.sim.now - t0, timeout)
                want = [l for t, l in arr if t < timeout]
                data = list(e.data or [])
                if tie:
                    allw = [l for t, l in arr if t <= timeout]
                    require(data[:len(want)] == want and data == allw[:len(data)], 'command {0}: TimeoutException carries {1}, received were {2}', i, data, want)
                    labels.add('response at the time limit')
                else:
                    require(data == want, 'command {0}: TimeoutException carries {1}, received were {2}', i, data, want)
                labels.add('timeout with lines' if want else 'timeout')
            else:
                require(end is not None and end <= timeout, 'command {0}: returned {1} although no final line arrived in time', i, got)
                require(list(got) == list(lines) + [final], 'command {0}: got {1}, expected {2}', i, got, list(lines) + [final])
                require(rig.sim.now - t0 <= end + 1e-6, 'command {0}: returned {1} s after the final line', i, rig.sim.now - t0 - end)
                if len(chunks) > 0:
                    labels.add('chunked')
                if any(l.startswith(('OK', 'ERROR', '+CM')) for l in lines):
                    labels.add('line that looks like a final result')
            last = arr[-1][0] if arr else 0
            left = max(0.0, t0 + last - rig.sim.now) + 0.01 if last >= rig.sim.now - t0 else 0.0
            rig.sim.sleep(max(pause, left))
        comm.close()
    rig.run(main)
    rig.deaths()
    if rig.sim.preempted:
        labels.add('preempted')
    return sorted(labels) or ['plain']


TRICKY = ['OK', 'OKAY', 'OK then', 'OK.', 'ERROR', 'ERROR: none', 'ERRORS', 'no ERROR', 'all OK', '+CME ERROR: 5', '+CMS ERROR: 11 was fixed', '+CME ERROR: x', ' OK', '> ', '+CMGL: 1,0,,20',
          'COMMAND NOT SUPPORT', 'COMMAND NOT SUPPORTED', 'RING', '+CMTI: "SM",1', 'a> b', '0', '> OK',
          '+C0: 5', '+C1: "a"', '+C0', '+C1', 'AT+C0', 'AT+C1', 'AT', '+C2: 0,1', ' ', 'OK OK', 'NO CARRIER', 'CONNECT', 'BUSY']
line = st.one_of(st.sampled_from(TRICKY), st.text(alphabet=st.one_of(st.integers(32, 126).map(chr), st.sampled_from('éß\tñ "\\\x00\x01\x07\x08\x1a\x1b\x7f\x85\xff')), min_size=1, max_size=12),
                 st.tuples(st.sampled_from(['OK', 'ERROR', '+CMS ERROR: 3']), st.text(alphabet='abc 1:', min_size=1, max_size=5)).map(''.join)
                 ).filter(lambda l: not FINAL.match(l))
final = st.sampled_from(['OK', 'OK', 'OK', 'ERROR', '+CME ERROR: 13', '+CMS ERROR: 500', '+CMS ERROR: 0', 'COMMAND NOT SUPPORT'])
gap = st.one_of(st.just(0.0), st.integers(1, 90).map(lambda n: n * 0.0137), st.sampled_from([0.9, 1.003, 1.7]))
chunks = st.one_of(st.just([]), st.lists(st.tuples(st.one_of(st.integers(1, 4), st.integers(1, 30)), gap), max_size=6))
delay = st.one_of(st.just(0.0), st.integers(0, 100).map(lambda n: n * 0.0137), st.sampled_from([0.99, 2.51, 4.99]))


def command(fin=final):
    return st.tuples(st.lists(line, max_size=8), fin, delay, chunks, st.booleans(), st.sampled_from([0.5, 1, 5, 3.3]),
                     st.sampled_from([0.0, 0.0, 0.0137, 1.1]))


def gen():
    return st.tuples(st.lists(command(st.one_of(final, final, final, st.none())), min_size=1, max_size=5), st.booleans(), schedules(), st.none())


def gen_tie():
    """ lines arriving exactly when the time limit expires, with preemption between byte codes """
    def fit(c):
        lines, fin, delay, chunks, frame, timeout, pause = c
        return (lines[:2], fin, timeout, [], frame, timeout, pause)
    pre = st.lists(st.tuples(st.integers(0, 12), st.integers(0, 2)).map(list), min_size=1, max_size=12)
    sched = st.tuples(st.integers(0, 700), st.integers(0, 2), pre, st.lists(st.integers(0, 2), max_size=10)).map(
        lambda t: {'pre': [[t[0], t[1]]] + t[2], 'order': t[3]})
    return st.tuples(st.lists(command().map(fit), min_size=1, max_size=2), st.just(False), sched, st.sampled_from(['opcode', 'opcode', 'line']))


def enum(tier):
    for f in ('OK', 'ERROR', '+CME ERROR: 100', 'COMMAND NOT SUPPORT'):
        for lines in ([], ['+CSQ: 5,0'], ['OK x', 'y ERROR'], ['a', 'b', 'c']):
            text = ''.join('\r\n%s\r\n' % l for l in lines + [f])
            for cut in range(1, len(text)):                      # every cut position, with a pause on either side
                yield ([(lines, f, 0.0137, [(cut, 0.3)], True, 5, 0.0), ([], 'OK', 0.0, [], True, 5, 0.0)], False, {}, None)
            yield ([(lines, f, 0.0137, [(1, 0.01)] * len(text), True, 5, 0.0)], True, {}, None)
    # long lines, long responses and long sessions
    for n in (80, 127, 128, 200, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 9000, 20000):
        yield ([(['x' * n, 'OK ' * (n // 3)], 'OK', 0.0137, [], True, 5, 0.0), (['b'], 'ERROR', 0.0, [(n, 0.01), (n // 2, 0.3)], True, 5, 0.0)], n % 2 == 0, {}, None)
    for n in (20, 64, 100, 128, 256, 500, 1000):
        yield ([(['+CMGL: %d' % i for i in range(n)], 'OK', 0.0137, [], True, 5, 0.0), (['b'], 'OK', 0.0, [], True, 5, 0.0)], n % 2 == 0, {}, None)
    for n in (70, 150, 300):
        yield ([([str(i)] * (i % 3), 'OK' if i % 7 else 'ERROR', 0.0137 * (i % 2), [], True, 5, 0.0) for i in range(n)], n % 100 == 0, {}, None)


# ---- commands that end with a prompt
class PromptDevice(Wire):
    script = ()

    def on_command(self, cmd):
        kind, lines, fin, delay, chunks, timeout = self.script[int(re.match(r'AT\+C(\d+)$', cmd).group(1))]
        text = ''.join('\r\n%s\r\n' % l for l in lines)
        if kind == 'prompt':
            self.send_chunks(text + '\r\n%s> ' % (fin if fin in BEFORE else ''), delay, chunks, done=True)
        elif kind == 'none':
            if text:
                self.send_chunks(text, delay, chunks)
            self.silent(timeout)
        else:
            self.send_chunks(text + '\r\n%s\r\n' % fin, delay, chunks, done=True)


BEFORE = ['AT+CMGS=17\r', 'Enter text', '>', '>>', ' ', 'OK', 'RING', '>\r']      # on the line of the prompt


def run_prompt(case):
    """ items (kind, lines, final, delay, chunks, timeout): 'prompt', 'none' and 'refused' are issued waiting for '> ', 'plain' normally """
    items, use_modem, sched = case
    rig = Rig(PromptDevice, sched)
    rig.device.script = items
    labels = set()

    def main():
        comm = rig.modem_mod.GsmModem('port') if use_modem else rig.serial_mod.SerialComms('port')
        rig.open(comm)
        for i, (kind, lines, fin, delay, chunks, timeout) in enumerate(items):
            kw = {} if kind == 'plain' else {'expectedResponseTermSeq': '> '}
            labels.add(kind)
            if kind != 'none':
                timeout = 60
            t0 = rig.sim.now
            try:
                if use_modem:
                    got = comm.write('AT+C%d' % i, timeout=timeout, parseError=False, **kw)
                else:
                    got = comm.write('AT+C%d\r' % i, timeout=timeout, **kw)
            except rig.exc.TimeoutException as e:
                require(kind == 'none', 'command {0} ({1}): TimeoutException with {2}', i, kind, e.data)
                data, n = list(e.data or []), len(e.data or [])
                require(data == lines[:n], 'command {0}: TimeoutException carries {1}, sent were {2}', i, data, lines)
                require(abs(rig.sim.now - t0 - timeout) < 1e-6, 'command {0}: TimeoutException after {1} s, limit {2} s', i, rig.sim.now - t0, timeout)
                rig.sim.sleep(delay + sum(g for _, g in chunks) + 0.1)     # the rest is a notification
            else:
                want = {'prompt': lines + [(fin if fin in BEFORE else '') + '> '], 'refused': lines + [fin], 'plain': lines + [fin], 'none': None}[kind]
                require(list(got) == want, 'command {0} ({1}): got {2}, expected {3}', i, kind, got, want)
        comm.close()
    rig.run(main)
    rig.deaths()
    return sorted(labels)


def gen_prompt():
    noprompt = line.filter(lambda l: '> ' not in l and not NOTIFICATION.search(l))
    few = st.lists(noprompt, max_size=3)
    before = st.tuples(st.just('prompt'), few, st.sampled_from(BEFORE), delay, chunks, st.sampled_from([0.5, 1, 3]))
    awaited = st.tuples(st.sampled_from(['prompt', 'none', 'refused']), few, final, delay, chunks, st.sampled_from([0.5, 1, 3]))
    plain = st.tuples(st.just('plain'), st.lists(line.filter(lambda l: not NOTIFICATION.search(l)), max_size=4), final, delay, chunks, st.just(5))
    return st.tuples(st.lists(st.one_of(awaited, awaited, before, plain, plain), min_size=1, max_size=6), st.booleans(), schedules())


def enum_prompt(tier):
    for first in ('prompt', 'none', 'refused'):
        for lines in (['> '], ['a> b'], ['x', '> y']):
            for m in (False, True):
                yield ([(first, [], 'ERROR', 0.0137, [], 1), ('plain', lines, 'OK', 0.0137, [], 5), ('prompt', ['a'], 'OK', 0.0137, [(2, 0.1)], 5)], m, {})


SUBS = [Sub('prompt', run_prompt, gen_prompt, quick=1500, thorough=40000, enum=enum_prompt,
            rule='sequences of commands some of which wait for a prompt instead of a final result line'),
        Sub('lines', run, gen, quick=5000, thorough=100000, enum=enum, shards=4,
            rule='sequences of commands whose responses arrive in generated pieces; non-trivial: every case (each returns or times out)'),
        Sub('tie', run, gen_tie, quick=3000, thorough=60000, shards=4,
            rule='response lines arriving exactly at the time limit, with byte-code level preemption')]
