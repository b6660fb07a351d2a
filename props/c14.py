# -*- coding: utf-8 -*-
""" C14: concurrent commands never interleave or receive each other's data """
import re
from hypothesis import strategies as st
from vf.core import Sub, Violation, require
from vf.rig import Rig, schedules
from vf.wire import Wire
from props.c12 import gap

# what a command does: ('ok', delay, chunks) | ('error', delay, chunks) | ('silent', None, None)
#                      | ('prompt', delay, chunks): waits for the expected terminator, then enters a text


class Device(Wire):
    def on_command(self, cmd):
        m = re.match(r'AT\+T(\d+)C(\d+)$', cmd)
        if not m:
            return self.reply(['unknown ' + cmd], 'ERROR')
        t, c = int(m.group(1)), int(m.group(2))
        kind, delay, chunks, wait, timeout = self.plan[t][c]
        if kind == 'silent':
            if wait:
                self.silent(timeout - 0.0005)
            else:
                self.inflight = None
        elif kind == 'prompt':
            self.emit('\r\n> ', delay, done=True)         # a response without final result line
        else:
            self.reply(['%s: > %d' % (cmd, i) for i in range(2)], 'OK' if kind == 'ok' else 'ERROR', delay, chunks)


def run(case):
    plan, modem, sched, trace = case
    rig = Rig(Device, sched, trace)
    rig.device.plan = plan
    labels = set()
    problems = []

    def main():
        if modem:
            comm = rig.modem_mod.GsmModem('port')
        else:
            comm = rig.serial_mod.SerialComms('port')
        lock = comm._txLock if hasattr(comm, '_txLock') else None
        rig.open(comm)

        def write(d, **kw):
            if modem:
                return comm.write(d, parseError=False, **kw)
            return comm.write(d + '\r', **kw)

        def user(t):
            for c, (kind, delay, chunks, wait, timeout) in enumerate(plan[t]):
                name = 'AT+T%dC%d' % (t, c)
                if not wait:
                    write(name, waitForResponse=False)
                    continue
                try:
                    if kind == 'prompt':
                        got = write(name, timeout=timeout, expectedResponseTermSeq='> ')
                    else:
                        got = write(name, timeout=timeout)
                except rig.exc.TimeoutException as e:
                    if kind != 'silent':
                        problems.append('%s: TimeoutException, although the modem answered in time' % name)
                    elif e.data:
                        problems.append('%s: TimeoutException carries %r, but the modem sent nothing' % (name, e.data))
                    continue
                want = {'ok': ['%s: > 0' % name, '%s: > 1' % name, 'OK'], 'error': ['%s: > 0' % name, '%s: > 1' % name, 'ERROR'],
                        'prompt': ['> '], 'silent': None}[kind]
                if list(got) != want:
                    problems.append('%s: got %r, expected %r' % (name, got, want))
        threads = [rig.spawn(lambda t=t: user(t), 'user-%d' % t) for t in range(len(plan))]
        for t in threads:
            t.join()
        rig.sim.sleep(3)
        comm.close()
    rig.run(main)
    rig.deaths()
    require(not problems, '{0}', '; '.join(problems))
    require(not rig.device.overlaps, 'written while another command was being executed: {0}', [(o[1], o[2]) for o in rig.device.overlaps])
    # every command arrived whole, once, and each thread's in order
    names = [c for _, c in rig.device.commands]
    want = sorted('AT+T%dC%d' % (t, c) for t in range(len(plan)) for c in range(len(plan[t])))
    require(sorted(names) == want, 'commands received: {0}, issued: {1}', names, want)
    for t in range(len(plan)):
        mine = [n for n in names if n.startswith('AT+T%dC' % t)]
        require(mine == ['AT+T%dC%d' % (t, c) for c in range(len(plan[t]))], 'commands of thread {0} arrived as {1}', t, mine)
    kinds = set(x[0] for p in plan for x in p)
    labels.update(kinds)
    if any(not x[3] for p in plan for x in p):
        labels.add('not waiting')
    if rig.sim.preempted:
        labels.add('preempted')
    if len(plan) < 2:
        return []
    return sorted(labels)


def gen(max_threads=5, small=False):
    d = st.one_of(st.just(0.0), st.integers(0, 60).map(lambda n: n * 0.0131))
    chunks = st.one_of(st.just([]), st.lists(st.tuples(st.integers(1, 12), gap), max_size=4))
    cmd = st.one_of(st.tuples(st.sampled_from(['ok', 'ok', 'ok', 'error', 'prompt']), d, chunks, st.just(True), st.just(20)),
                    st.tuples(st.just('silent'), st.just(0.0), st.just([]), st.just(True), st.sampled_from([0.5, 1, 1.7])),
                    st.tuples(st.just('silent'), st.just(0.0), st.just([]), st.just(False), st.just(1)))
    # a command nobody waits for is answered by nothing here: its response would be everybody's (see C13)
    if small:
        cmd = st.tuples(st.sampled_from(['ok', 'ok', 'error', 'prompt']), st.sampled_from([0.0, 0.01]), st.just([]), st.just(True), st.just(20))
        plan = st.lists(st.lists(cmd, min_size=1, max_size=2), min_size=2, max_size=3)
        pre = st.lists(st.tuples(st.one_of(st.integers(0, 10), st.integers(0, 150)), st.integers(0, 3)).map(list), min_size=1, max_size=14)
        sched = st.fixed_dictionaries({'pre': pre, 'order': st.lists(st.integers(0, 3), max_size=16)})
        return st.tuples(plan, st.booleans(), sched, st.sampled_from(['line', 'opcode', 'opcode']))
    plan = st.lists(st.lists(cmd, min_size=1, max_size=4), min_size=2, max_size=max_threads)
    return st.tuples(plan, st.booleans(), schedules(max_pre=12), st.sampled_from([None, 'line']))


def gen_small():
    return gen(3, True)


def enum(tier):
    """ two threads: a single preemption at every point of a short run """
    plan = [[('ok', 0.0, [], True, 20), ('ok', 0.01, [], True, 20)], [('ok', 0.0, [], True, 20), ('silent', 0.0, [], True, 0.5)]]
    for g in range(0, 400 if tier == 'quick' else 2500, 1):
        yield (plan, bool(g % 2), {'pre': [[g, 0]]}, 'opcode' if tier != 'quick' else 'line')


SUBS = [Sub('threads', run, gen, quick=2500, thorough=60000, enum=enum, shards=5, rule='2..5 threads issuing 1..4 commands each; non-trivial: at least two threads'),
        Sub('fine', run, gen_small, quick=2500, thorough=60000, shards=5, rule='2..3 threads, preemption between byte codes / lines of the library')]
