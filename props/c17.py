# -*- coding: utf-8 -*-
""" C17: busy errors are retried transparently until a real answer arrives """
import re
from hypothesis import strategies as st
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules
from vf.wire import Wire

BRIEF = 0.5      # "no more than briefly"


class Device(Wire):
    """ Answers each command from its own list of responses: the n-th time it is received, the n-th response """
    def on_command(self, cmd):
        lines, final, delay = self.todo.pop(0)
        if final == 'PROMPT':
            self.emit(''.join('\r\n%s\r\n' % l for l in lines) + '\r\n> ', delay, done=True)
        else:
            self.reply(lines, final, delay)


def run(case):
    """ items: (busy kinds/codes, lines, final, parse, prompt, time limit, time of the final answer as a fraction of it) """
    items, delay = case
    rig = Rig(Device, {})
    labels = set()
    dev = rig.device
    ex = rig.exc

    def main():
        modem = rig.modem_mod.GsmModem('port')
        rig.open(modem)
        for n, (busy, lines, final, parse, prompt, limit, frac) in enumerate(items):
            last = max(delay, frac * limit)
            cmd = 'AT+C%d' % n
            del dev.commands[:]
            dev.todo = [((), '+%s ERROR: %d' % b, delay) for b in busy] + [(lines, final, last)]
            kw = {'expectedResponseTermSeq': '> '} if prompt else {}
            t0 = rig.sim.now
            try:
                got = modem.write(cmd, timeout=limit, parseError=parse, **kw)
            except ex.TimeoutException as e:
                require(frac > 1, 'TimeoutException although every answer came within the limit of {0} s: {1!r} {2!r} after {3} s', limit, busy, final, last)
                took = rig.sim.now - dev.commands[-1][0]
                require(limit - 0.01 <= took <= limit + BRIEF, 'TimeoutException {0} s after the last repetition, limit {1} s', took, limit)
                labels.add('timeout after busy' if busy else 'timeout')
                rig.sim.sleep(last + 1)
            except ex.CommandError as e:
                require(parse and final != 'OK', 'response {0}: raised {1!r}', lines + [final], e)
                if final.startswith('+CM'):
                    equal((e.type, e.code), (final[1:4], int(final[12:])), 'type and code of the error')
                    labels.add('real error after busy' if busy else 'error')
                require(cmd in e.command, 'the exception carries the command {0!r}', e.command)
            else:
                if not parse and busy:
                    equal(list(got), ['+%s ERROR: %d' % busy[0]], 'returned lines (error parsing off)')
                    equal([c for _, c in dev.commands], [cmd], 'commands received (error parsing off)')
                    labels.add('parsing off')
                    continue
                require(frac <= 1, 'no TimeoutException: answer after {0} s, limit {1} s', last, limit)
                require(final in ('OK', 'PROMPT') or not parse, 'response {0}: no exception, returned {1}', lines + [final], got)
                equal(list(got), lines + ['> ' if final == 'PROMPT' else final], 'returned lines')
                if final == 'PROMPT' and busy:
                    labels.add('prompt after busy')
                if last > 5 and busy:
                    labels.add('slow answer after busy')
            times = [t for t, _ in dev.commands]
            equal([c for _, c in dev.commands], [cmd] * (len(busy) + 1), 'commands received')
            if busy:
                labels.add('busy %d' % min(3, len(busy)))
                if len(set(b[1] for b in busy)) > 1:
                    labels.add('both busy codes')
                gaps = [b - a - delay for a, b in zip(times, times[1:])]      # the busy answers take `delay`
                require(all(g > 0.01 for g in gaps), 'no pause before retrying: {0}', gaps)
                require(all(b > a + 0.01 for a, b in zip(gaps, gaps[1:])), 'the pauses do not grow: {0}', gaps)
            else:
                labels.add('not busy')
                require(len(times) == 1 and (frac > 1 or rig.sim.now - t0 <= last + BRIEF), 'a command took {0} s, its response {1} s', rig.sim.now - t0, last)
                if any(i[0] for i in items[:n]):
                    labels.add('plain command afterwards')
            # every command after the busy spell pauses no more than briefly
            del dev.commands[:]
            dev.todo = [([], 'OK', delay)]
            t0 = rig.sim.now
            equal(list(modem.write('AT')), ['OK'], 'the next command')
            if final == 'OK':     # after a busy spell that ended well
                require(rig.sim.now - t0 <= delay + BRIEF, 'the next command took {0} s, its response {1} s', rig.sim.now - t0, delay)
            else:
                require(rig.sim.now - t0 <= delay + BRIEF, 'the next command (after an error) took {0} s, its response {1} s', rig.sim.now - t0, delay)
        modem.close()
    rig.run(main)
    rig.deaths()
    return sorted(labels) if labels - {'not busy', 'error'} else []


busy1 = st.tuples(st.sampled_from(['CME', 'CMS']), st.sampled_from([515, 14]))
busy = st.one_of(st.just([]), st.lists(busy1, min_size=1, max_size=3), st.lists(busy1, min_size=1, max_size=9))
final = st.sampled_from(['OK', 'OK', 'PROMPT', 'PROMPT', 'OK', 'ERROR', '+CME ERROR: 16', '+CMS ERROR: 330', '+CME ERROR: 100', '+CMS ERROR: 5'])
lines = st.lists(st.sampled_from(['+CSQ: 1,2', 'x', '+CME ERROR: 515 x', '+CME ERROR: SIM busy']), max_size=3)


def gen():
    item = st.tuples(busy, lines, final, st.sampled_from([True, True, True, False]), st.booleans(), st.sampled_from([7, 7, 1, 2, 20]), st.sampled_from([0, 0, 0, 0.5, 0.9, 1.5]))
    # a prompt is only given to a command that asks for one
    item = item.map(lambda t: t if t[2] != 'PROMPT' or t[4] else t[:2] + ('OK',) + t[3:])
    item = item.map(lambda t: t if t[2] != 'PROMPT' or t[6] <= 1 else t[:6] + (0.9,))      # a late prompt: see DESIGN.md, late answers
    return st.tuples(st.lists(item, min_size=1, max_size=5), st.sampled_from([0.0, 0.0131, 0.4]))


def enum(tier):
    for kind in ('CME', 'CMS'):
        for code in (515, 14):
            for n in range(1, 40 if tier == 'quick' else 60):
                for fin in ('OK', '+CME ERROR: 16', 'ERROR'):
                    yield ([([(kind, code)] * n, ['x'], fin, True, False, 7, 0), ([], [], 'OK', True, False, 7, 0)], 0.0131)


SUBS = [Sub('busy', run, gen, quick=3000, thorough=60000, enum=enum, rule='sequences of commands with runs of busy answers; non-trivial: at least one busy answer')]
