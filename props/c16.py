# -*- coding: utf-8 -*-
""" C16: modem error responses become the right exception, or are returned as is """
import re
from hypothesis import strategies as st
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules
from vf.wire import Wire
from props.c12 import FINAL, TRICKY, gap

SPECIAL = {('CME', 11): 'PinRequiredError', ('CME', 16): 'IncorrectPinError', ('CME', 12): 'PukRequiredError', ('CMS', 330): 'SmscNumberUnknownError'}
BUSY = (14, 515)


class Device(Wire):
    def on_command(self, cmd):
        lines, final, delay, chunks = self.script[len(self.commands) - 1]
        self.reply(lines, final, delay, chunks)


def run(case):
    """ items: (command, lines, (kind, code), parse, blanks after the final result, chunks, waiting for a prompt, modem state) """
    items = case
    rig = Rig(Device, {})
    final = lambda kc, blank: {'OK': 'OK', 'ERROR': 'ERROR', 'CNS': 'COMMAND NOT SUPPORT'}.get(kc[0], '+%s ERROR: %s' % (kc[0], kc[1])) + blank
    rig.device.script = [(i[1], final(i[2], i[4]), 0.001, i[5]) for i in items]
    labels = set()
    ex = rig.exc

    def main():
        modem = rig.modem_mod.GsmModem('port')
        rig.open(modem)
        for cmd, lines, (kind, code), parse, blank, chunks, prompt, _ in items:
            want = list(lines) + [final((kind, code), blank)]
            kw = {'expectedResponseTermSeq': '> '} if prompt else {}
            if not parse:
                kw['parseError'] = False
            try:
                got = modem.write(cmd, timeout=30, **kw)
            except ex.GsmModemException as e:
                require(parse, '{0}: raised {1!r} with error parsing off', want, e)
                require(kind != 'OK', '{0}: raised {1!r} although the response ends in OK', want, e)
                require(isinstance(e, ex.CommandError), '{0}: raised {1!r}, which is no CommandError', want, e)
                require(isinstance(e.command, str) and cmd in e.command, '{0}: the exception carries the command {1!r}, not {2!r}', want, e.command, cmd)
                if kind in ('CME', 'CMS'):
                    name = SPECIAL.get((kind, int(code)), 'CmeError' if kind == 'CME' else 'CmsError')
                    require(type(e).__name__ == name, '{0}: raised {1}, expected {2}', want, type(e).__name__, name)
                    require(isinstance(e, ex.CmeError if kind == 'CME' else ex.CmsError), '{0}: {1} is not a {2} error', want, type(e), kind)
                    equal((e.type, e.code), (kind, int(code)), 'type and code for %r' % (want,))
                    require(str(int(code)) in str(e) and kind in str(e), '{0}: message of the exception is {1!r}', want, str(e))
                    equal(e.command, cmd, 'command of the exception')
                    if name in ('PinRequiredError', 'IncorrectPinError', 'PukRequiredError'):
                        require(isinstance(e, ex.SecurityException), '{0}: {1} is not a SecurityException', want, name)
                        labels.add('specialised')
                    elif name == 'SmscNumberUnknownError':
                        labels.add('specialised')
                else:
                    require(type(e) is ex.CommandError, '{0}: raised {1}', want, type(e).__name__)
                    equal((e.type, e.code), (None, None), 'type and code for %r' % (want,))
                labels.add(kind)
            else:
                require(kind == 'OK' or not parse, '{0}: no exception, returned {1}', want, got)
                equal(list(got), want, 'returned lines')
                labels.add('OK' if kind == 'OK' else 'unparsed')
        modem.close()
    rig.run(main)
    rig.deaths()
    names = [c for _, c in rig.device.commands]
    equal(names, [i[0] for i in items], 'commands received')
    return sorted(labels) if labels != {'OK'} or any(i[1] for i in items) else []


line = st.one_of(st.sampled_from(TRICKY + ['+CME ERROR: 515', '+CMS ERROR: 14x', 'ERROR 5', '+CME ERROR: SIM failure']),
                 st.text(alphabet=st.integers(33, 126).map(chr), min_size=1, max_size=12)).filter(lambda l: not FINAL.match(l) and '> ' not in l)
code = st.one_of(st.integers(0, 999), st.sampled_from([10, 11, 12, 13, 15, 16, 17, 330, 329, 331, 3, 30, 100, 500, 514, 516, 114, 140, 5150])).filter(lambda n: n not in BUSY)
outcome = st.one_of(st.tuples(st.sampled_from(['OK', 'OK', 'ERROR', 'CNS']), st.just(0)), st.tuples(st.sampled_from(['CME', 'CMS']), code))
command = st.one_of(st.sampled_from(['AT+CPIN?', 'AT+CMGS=20', 'AT', 'AT+CUSD=1,"*1#",15', 'AT+X="{0}"']), st.text(alphabet=st.integers(33, 126).map(chr), min_size=1, max_size=10))
chunks = st.one_of(st.just([]), st.lists(st.tuples(st.integers(1, 12), gap), max_size=3))


def gen():
    return st.lists(st.tuples(command, st.lists(line, max_size=4), outcome, st.booleans(), st.sampled_from(['', '', '', ' ', '  ']), chunks,
                              st.sampled_from([False, False, True]), st.none()), min_size=1, max_size=6)


def enum(tier):
    for kind in ('CME', 'CMS'):
        for parse in (True, False):
            for base in range(0, 1000, 50):
                yield [('AT+X%d' % n, [], (kind, n), parse, '', [], False, None) for n in range(base, base + 50) if n not in BUSY]
    for kind in ('ERROR', 'CNS', 'OK'):
        for parse in (True, False):
            yield [('AT+X', lines, (kind, 0), parse, '', [], p, None) for lines in ([], ['a'], ['+CME ERROR: x', 'ERRORS']) for p in (True, False)]


SUBS = [Sub('errors', run, gen, quick=4000, thorough=80000, enum=enum, rule='sequences of commands with generated final results; non-trivial: an error, or OK after other lines')]
