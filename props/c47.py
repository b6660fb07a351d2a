# -*- coding: utf-8 -*-
""" C47: the command line tools do what their command line says, with both argument parsers """
import builtins
import collections
import io
import os
import sys
import types
from hypothesis import strategies as st
from vf import load, term
from vf.core import Sub, require, equal
from vf.runner import REPO

# options of each tool: (name, short, long, takes a value)
TOOLS = {
    'gsmterm.py': ('port', [('baud', '-b', '--baud', True), ('raw', '-r', '--raw', False)]),
    'sendsms.py': ('destination', [('baud', '-b', '--baud', True), ('port', '-i', '--port', True), ('pin', '-p', '--pin', True), ('deliver', '-d', '--deliver', False)]),
    'identify-modem.py': ('port', [('baud', '-b', '--baud', True), ('pin', '-p', '--pin', True), ('debug', '-d', '--debug', False)]),
}
Version = collections.namedtuple('version_info', 'major minor micro releaselevel serial')
_ns = []


def modules():
    if not _ns:
        stdin, sys.stdin = sys.stdin, term._Stdin()      # the terminal is set up when it is imported
        try:
            _ns.append(load.fresh({'atexit': term._Atexit(), 'termios': term._Termios(), 'tty': types.ModuleType('tty')}, names=('gsmmodem', 'gsmmodem.pdu', 'gsmmodem.modem', 'gsmmodem.util', 'gsmmodem.exceptions', 'gsmmodem.serial_comms',
                                     'gsmtermlib', 'gsmtermlib.terminal', 'gsmtermlib.posoptparse')))
        finally:
            sys.stdin = stdin
            if hasattr(sys, 'exitfunc'):
                del sys.exitfunc
    return _ns[0]


class Anything(object):
    """ result of whatever the tool asks the modem for """
    report = None
    status = 0

    def __str__(self):
        return 'x'


def stand_ins(seen):
    def arg(a, k, i, *names):
        for n in names:
            if n in k:
                return k[n]
        return a[i] if len(a) > i else None

    class Modem(object):
        def __init__(self, *a, **k):
            seen.append(('open', 'modem', arg(a, k, 0, 'port'), int(arg(a, k, 1, 'baudrate') or 115200)))

        def connect(self, *a, **k):
            seen.append(('pin', arg(a, k, 0, 'pin')))

        def waitForNetworkCoverage(self, *a, **k):
            return 20

        def sendSms(self, *a, **k):
            seen.append(('sms', arg(a, k, 0, 'destination'), arg(a, k, 1, 'text'), bool(arg(a, k, 2, 'waitForDeliveryReport'))))
            return Anything()

        def write(self, data, *a, **k):
            seen.append(('write', data))
            return ['OK']

        def close(self, *a, **k):
            pass

        def __getattr__(self, name):
            return Anything() if not name.startswith('__') else object.__getattribute__(self, name)

    def terminal(kind):
        class Terminal(object):
            def __init__(self, *a, **k):
                seen.append(('open', kind, arg(a, k, 0, 'port'), int(arg(a, k, 1, 'baudrate') or 115200)))
                self.rxThread = self

            def start(self):
                seen.append(('start',))

            def join(self, *a):
                pass
        return Terminal
    return Modem, terminal('terminal'), terminal('raw terminal')


def call(tool, argv, old):
    """ Runs the tool's main() with the arguments and stand-ins for modem and terminal: (exit status, stdout, stderr, what it did) """
    ns, seen = modules(), []
    modem, line, raw = stand_ins(seen)
    swap = [(ns['gsmmodem.modem'], 'GsmModem', modem), (ns['gsmmodem'], 'GsmModem', modem), (ns['gsmtermlib.terminal'], 'GsmTerm', line), (ns['gsmtermlib.terminal'], 'RawTerm', raw)]
    before = [(m, n, getattr(m, n)) for m, n, _ in swap]
    path = os.path.join(REPO, 'tools', tool)
    out, err = io.StringIO(), io.StringIO()
    saved = sys.argv, sys.stdout, sys.stderr, builtins.input, sys.version_info, {n: sys.modules.get(n) for n in ns._mods}, os.environ.get('COLUMNS')
    sys.modules.update(ns._mods)
    for m, n, v in swap:
        setattr(m, n, v)
    try:
        sys.argv, sys.stdout, sys.stderr, builtins.input = [path] + argv, out, err, lambda prompt='': 'the text'
        os.environ['COLUMNS'] = '200'
        space = {'__name__': 'tool', '__file__': path}
        exec(load._compile(path), space)
        if old:
            sys.version_info = Version(2, 6, 9, 'final', 0)
        try:
            space['main']()
            status = 0
        except SystemExit as e:
            status = 0 if e.code is None else e.code
    finally:
        sys.version_info = saved[4]
        sys.argv, sys.stdout, sys.stderr, builtins.input = saved[:4]
        for n, m in saved[5].items():
            sys.modules.pop(n, None) if m is None else sys.modules.__setitem__(n, m)
        os.environ.pop('COLUMNS') if saved[6] is None else os.environ.__setitem__('COLUMNS', saved[6])
        for m, n, v in before:
            setattr(m, n, v)
    return status, out.getvalue(), err.getvalue(), seen


def run_good(case):
    tool, old, values, forms, order, dashes = case
    positional, options = TOOLS[tool]
    argv = []
    for (name, short, long, takes), form in zip(options, forms):
        v = values.get(name)
        if v is None or v is False:
            continue
        if takes:
            argv.append({0: [short, v], 1: [short + v], 2: [long, v], 3: [long + '=' + v]}[form % 4])
        else:
            argv.append([(short, long)[form % 2]])
    # in any order, with the argument anywhere between the options, or last after "--"
    argv = [argv[i] for i in sorted(range(len(argv)), key=lambda i: order[i])]
    target = values['target']
    at = len(argv) if dashes else order[-1] % (len(argv) + 1)
    argv.insert(at, (['--'] if dashes else []) + [target])
    argv = [a for group in argv for a in group]
    status, out, err, seen = call(tool, argv, old)
    what = '%s %s (%s)' % (tool, ' '.join(argv), 'parser for Python 2.6' if old else 'argparse')
    port = target if positional == 'port' else values.get('port')
    rate = int(values.get('baud') or 115200)
    if port is None:
        require(status == 1 and seen == [] and 'port' in err.lower(), '{0}: no port given, but exit status {1}, done {2}, message {3!r}', what, status, seen, err)
        return ['no port', tool]
    equal(status, 0, what + ': exit status (' + err + ')')
    if tool == 'gsmterm.py':
        equal(seen, [('open', 'raw terminal' if values.get('raw') else 'terminal', port, rate), ('start',)], what + ': done')
    else:
        equal(seen[:2], [('open', 'modem', port, rate), ('pin', values.get('pin'))], what + ': port, rate and PIN')
        rest = seen[2:]
        if tool == 'sendsms.py':
            equal(rest, [('sms', target, 'the text', bool(values.get('deliver')))], what + ': message')
        else:
            require(bool(rest) == bool(values.get('debug')) and all(r[0] == 'write' for r in rest), '{0}: commands sent: {1}', what, rest)
    return [tool, 'old parser' if old else 'argparse'] + sorted('with ' + n for n, v in values.items() if v and n != 'target')


names = st.sampled_from(['/dev/ttyUSB0', 'COM3', '0', '12', 'loop://', '/dev/serial/by-id/usb-HUAWEI-if00', 'a b'])
numbers = st.one_of(st.sampled_from(['+27831234567', '0123456789', '112', '*31#0821234567', '#100#']), st.text('0123456789', min_size=1, max_size=15))


@st.composite
def values(draw, tool):
    positional, options = TOOLS[tool]
    v = {'target': draw(names if positional == 'port' else numbers)}
    for name, _, _, takes in options:
        if draw(st.integers(0, 2 if name != 'port' else 9)):
            v[name] = draw({'baud': st.sampled_from(['9600', '460800', '115200', '300']), 'port': names, 'pin': st.text('0123456789', min_size=4, max_size=8)}[name]) if takes else True
    return v


@st.composite
def gen_good(draw):
    tool = draw(st.sampled_from(sorted(TOOLS)))
    return (tool, draw(st.booleans()), draw(values(tool)), draw(st.lists(st.integers(0, 3), min_size=4, max_size=4)), draw(st.permutations(range(5))), draw(st.integers(0, 5)) == 0)


def run_bad(case):
    tool, old, vals, kind, at = case
    positional, options = TOOLS[tool]
    argv = []
    for name, short, long, takes in options:
        if vals.get(name):
            argv += [[long, vals[name]] if takes else [short]]
    if kind == 'two arguments':
        argv += [[vals['target']], ['other']]
    elif kind == 'unknown option':
        argv += [[vals['target']]]
        argv.insert(at % len(argv), [('--frobnicate', '-x', '--ports=1')[at % 3]])
    elif kind == 'no value':
        argv += [[vals['target']], [[o for o in options if o[3]][at % sum(o[3] for o in options)][1 + at % 2]]]
    argv = [a for g in argv for a in g]
    status, out, err, seen = call(tool, argv, old)
    what = '%s %s (%s)' % (tool, ' '.join(argv), 'parser for Python 2.6' if old else 'argparse')
    require(status not in (0, None) and seen == [] and err.strip(), '{0}: {1}, but exit status {2}, done {3}, message {4!r}', what, kind, status, seen, err)
    return [tool, kind, 'old parser' if old else 'argparse']


@st.composite
def gen_bad(draw):
    tool = draw(st.sampled_from(sorted(TOOLS)))
    return (tool, draw(st.booleans()), draw(values(tool)), draw(st.sampled_from(['no argument', 'two arguments', 'unknown option', 'no value'])), draw(st.integers(0, 11)))


def run_help(case):
    tool, old, flag, also = case
    positional, options = TOOLS[tool]
    status, out, err, seen = call(tool, also + [flag], old)
    what = '%s %s (%s)' % (tool, flag, 'parser for Python 2.6' if old else 'argparse')
    require(status == 0 and seen == [], '{0}: exit status {1}, done {2}: {3}', what, status, seen, err)
    for word in [positional.upper()] + [w for o in options for w in o[1:3]]:
        require(word in out, '{0} does not mention {1}: {2!r}', what, word, out)
    return [tool]


def enum_help(tier):
    for tool in sorted(TOOLS):
        for old in (False, True):
            for flag in ('-h', '--help'):
                for also in ([], ['-b', '9600'], ['/dev/ttyUSB0']):
                    yield (tool, old, flag, also)


SUBS = [Sub('options', run_good, gen_good, quick=2500, thorough=60000, shards=4, rule='command lines with options in every form, order and combination, for both parsers'),
        Sub('mistakes', run_bad, gen_bad, quick=800, thorough=20000, shards=2, rule='missing and surplus arguments, unknown options and options without their value'),
        Sub('help', run_help, None, enum=enum_help, shards=1, rule='every tool, parser and spelling of the help option')]
