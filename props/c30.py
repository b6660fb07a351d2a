# -*- coding: utf-8 -*-
""" C30: modem information queries return what the modem reports """
import re
from hypothesis import strategies as st
from vf import device, profiles
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules

FAM = sorted(profiles.FAMILIES)
NAMES = {'manufacturer': 'AT+CGMI', 'model': 'AT+CGMM', 'revision': 'AT+CGMR', 'imei': 'AT+CGSN', 'imsi': 'AT+CIMI'}
FINAL = re.compile(r'(OK|ERROR|\+CM[ES] ERROR: \d+|COMMAND NOT SUPPORT)\s*\Z')
ERRORS = ['ERROR', '+CME ERROR: 3', '+CME ERROR: 4', '+CME ERROR: 10', '+CME ERROR: 100', '+CMS ERROR: 310', '+CMS ERROR: 500', 'COMMAND NOT SUPPORT', 'ERROR ', 'COMMAND NOT SUPPORT\r', '+CME ERROR: 11', '+CME ERROR: 12', '+CMS ERROR: 311']


def run(case):
    fam, queries, latency, chunks, sched = case
    rig = Rig(lambda sim: device.Modem(sim, dict({'echo': False}, **profiles.FAMILIES[fam]), latency))
    d, exc = rig.device, rig.exc
    labels = set()

    def main():
        m = rig.modem()
        m.connect()
        rig.arm(sched)
        if chunks:
            d.chunker = lambda text: list(chunks)
        for n, (name, expect, reply) in enumerate(queries):
            what = 'query %d %s (%r)' % (n, name, reply)
            cmd = NAMES.get(name) or {'signalStrength': 'AT+CSQ', 'networkName': 'AT+COPS?', 'supportedCommands': 'AT+CLAC'}[name]
            d.fault('^' + re.escape(cmd) + '$', reply)
            mark = len(d.commands)
            try:
                got = getattr(m, name)
            except exc.CommandError as e:
                require(expect[0] == 'error', '{0}: {1!r}', what, e)
                final = reply if isinstance(reply, str) else reply[1]
                code = re.match(r'\+(CM[ES]) ERROR: (\d+)', final)
                if code and expect[1]:
                    require(isinstance(e, {'CME': exc.CmeError, 'CMS': exc.CmsError}[code.group(1)]) if code.group(1) in ('CME', 'CMS') else True, '{0}: {1!r}', what, e)
                    equal(e.code, int(code.group(2)), what + ': error code')
                labels.add('error')
            else:
                require(expect[0] == 'value', '{0}: no error, but {1!r}', what, got)
                values = expect[1]
                require(any(got == v and type(got) is type(v) for v in values), '{0}: got {1!r}, expected {2!r}', what, got, values)
                labels.add(name if values[0] not in (None, '', -1) else name + ' not known')
            equal([c for _, c in d.commands[mark:]], [cmd], what + ': commands sent')
        m.close()
    rig.run(main)
    rig.deaths()
    return sorted(labels)


def printable(min_size=1, max_size=30, without=''):
    return st.text(alphabet=st.characters(min_codepoint=33, max_codepoint=255, blacklist_characters='\x7f' + ''.join(map(chr, range(128, 161))) + without), min_size=min_size, max_size=max_size)


@st.composite
def gen(draw):
    words = st.lists(printable(1, 10), min_size=1, max_size=4).map(' '.join)
    tricky = st.sampled_from(['OKI', 'OK Telecom', 'ERRORLESS', 'OK 1', '+CGMI: ACME', 'A OK', 'no ERROR', 'ERROR?', '+CME ERROR', 'Model "X"', '> ', 'AT+CGMI', 'RING', '0', 'OK,OK', '+CMTI: "SM",1', 'None'])
    line = st.one_of(words, tricky, st.text(alphabet='0123456789', min_size=15, max_size=16)).filter(lambda s: not FINAL.match(s) and s != '')
    command = st.one_of(st.builds(lambda p, n: p + n, st.sampled_from(['+', '^', '', '&', '$', '%', '\\', '#', '*']), st.text(alphabet='ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789', min_size=1, max_size=8)),
                        st.sampled_from(['OKAY', '+CLAC', '+COK', 'E', 'S0', 'OKX', '+CLACX', 'S3=', '+CGMI=?'])).filter(lambda s: not FINAL.match(s))
    queries = []
    for _ in range(draw(st.integers(1, 8))):
        name = draw(st.sampled_from(sorted(NAMES) + ['signalStrength', 'networkName', 'supportedCommands', 'signalStrength', 'networkName', 'supportedCommands']))
        if draw(st.integers(0, 4)) == 0:
            final = draw(st.sampled_from(ERRORS))
            lines = draw(st.lists(line, max_size=1)) if draw(st.integers(0, 3)) == 0 else []
            queries.append((name, ('value', [None]) if name in ('revision', 'supportedCommands') else ('error', True), (lines, final)))
            continue
        if name in NAMES:
            lines = draw(st.lists(line, min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=draw(st.sampled_from([1, 1, 3]))))
            values = [lines[0]] if lines else [None] if name == 'revision' else ['', None]
        elif name == 'signalStrength':
            kind = draw(st.sampled_from(['good'] * 6 + ['bad']))
            if kind == 'bad':
                lines = draw(st.sampled_from([['+CSQ: ,99'], ['+CSQ: x,99'], ['garbage'], ['+CSQ:'], [], ['18,99'], ['+CREG: 0,18'], ['+CSQ: -5,99'], ['CSQ: 18,99']]))
                queries.append((name, ('error', False), (lines, 'OK')))
                continue
            n = draw(st.one_of(st.integers(0, 31), st.integers(0, 99), st.sampled_from([99, 0, 9, 31, 1])))
            ber = draw(st.sampled_from([99, 0, 7, 3]))
            lines = ['+CSQ:%s%d,%d' % (draw(st.sampled_from([' ', '', ' ', '  '])), n, ber)]
            values = [n if n != 99 else -1]
        elif name == 'networkName':
            kind = draw(st.sampled_from(['name'] * 5 + ['bad', 'none']))
            if kind == 'bad':
                lines, values = draw(st.sampled_from([['garbage'], [], ['+COPS:'], ['+COPS: 0,0,MTN'], ['+COPS: x,0,"MTN"'], ['+CREG: 0,0,"MTN"'], ['xCOPS: 0,0,"MTN"']])), [None]
            elif kind == 'none':
                lines, values = ['+COPS: %d' % draw(st.integers(0, 4))], [None]
            else:
                w = draw(st.one_of(st.lists(printable(1, 10, '"'), min_size=1, max_size=4).map(' '.join), st.text(alphabet='0123456789', min_size=5, max_size=6), st.sampled_from(['OK', 'MTN-SA', 'A, B', 'ERROR', ',', '1,2', ' x ', '+COPS: 0'])))
                lines, values = ['+COPS: %d,%d,"%s"%s' % (draw(st.integers(0, 4)), draw(st.integers(0, 2)), w, draw(st.sampled_from(['', ',0', ',2', ',7', ',13'])))], [w]
        else:
            cmds = draw(st.lists(command, min_size=1, max_size=draw(st.sampled_from([3, 12, 60]))))
            kind = draw(st.sampled_from(['prefix', 'prefix_blank', 'plain', 'lines', 'lines_cr', 'lines_blank', 'nothing']))
            if kind == 'nothing':
                lines, values = [], [None]
            elif kind in ('prefix', 'prefix_blank', 'plain'):
                sep = draw(st.sampled_from([',', ', ', ' ,', ',']))
                if kind == 'plain' and cmds[0].startswith('+CLAC'):
                    cmds = ['Z'] + cmds
                lines = [{'prefix': '+CLAC:', 'prefix_blank': '+CLAC: ', 'plain': ''}[kind] + sep.join(cmds) + draw(st.sampled_from(['', '', ',', ' ']))]
                values = [cmds]
                if FINAL.match(lines[0]):
                    continue
            else:
                if len(cmds) == 1 and cmds[0].startswith('+CLAC'):
                    continue
                lines = [{'lines': '%s', 'lines_cr': '%s\r', 'lines_blank': ' %s '}[kind] % c for c in cmds]
                values = [cmds]
                if any(FINAL.match(l) for l in lines):
                    continue
        queries.append((name, ('value', values), (lines, 'OK')))
    chunks = draw(st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(1, 40), st.sampled_from([0.0, 0.01, 0.5])), min_size=1, max_size=5)))
    return draw(st.sampled_from(FAM)), queries or [('signalStrength', ('value', [5]), (['+CSQ: 5,99'], 'OK'))], draw(st.sampled_from([0.01, 0.0, 0.1])), chunks, draw(schedules())


SUBS = [Sub('queries', run, gen, quick=4000, thorough=120000, shards=7, rule='every case makes at least one query')]
