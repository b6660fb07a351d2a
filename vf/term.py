# -*- coding: utf-8 -*-
""" The terminal (gsmtermlib.terminal) on the simulated line: keys go in through the real input loop, the screen comes out """
import collections
import re
import sys
import types

from .core import Violation, require
from .rig import Rig
from .wire import Wire

NAMES = ('gsmmodem', 'gsmmodem.exceptions', 'gsmmodem.serial_comms', 'gsmmodem.modem', 'gsmtermlib', 'gsmtermlib.trie', 'gsmtermlib.atcommands', 'gsmtermlib.terminal')
UP, DOWN, RIGHT, LEFT = '\x1b[A', '\x1b[B', '\x1b[C', '\x1b[D'
DELETE, HOME, END = '\x1b[3~', '\x1bOH', '\x1bOF'
BACKSPACE, TAB, ENTER, CTRL_Z, ESC = '\x7f', '\t', '\n', '\x1a', '\x1b'
EXITS = ('\x1d', '\x04')
PROMPT = 'GSM> '
_CSI = re.compile('\x1b\\[([0-9;]*)([A-Za-z])')


class Screen(object):
    """ stdout: keeps the current line, the cursor column and the finished lines """
    def __init__(self):
        self.line, self.col, self.done, self.pending = [], 0, [], ''
        self.odd = []
        self.raw = ''

    def flush(self):
        pass

    def isatty(self):
        return True

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError('write() argument must be str, not %s' % type(text).__name__)
        self.raw += text
        text, self.pending = self.pending + text, ''
        i = 0
        while i < len(text):
            ch = text[i]
            if ch == '\x1b':
                m = _CSI.match(text, i)
                if not m:
                    if len(text) - i < 12 and re.match('\x1b(\\[[0-9;]*)?$', text[i:]):
                        self.pending = text[i:]
                        return
                    self.odd.append(text[i:i + 6])
                    i += 1
                    continue
                n = int(m.group(1)) if m.group(1).isdigit() else 1
                if m.group(2) == 'C':
                    self.col += n
                elif m.group(2) == 'D':
                    self.col = max(0, self.col - n)
                elif m.group(2) == 'K':
                    del self.line[self.col:]
                elif m.group(2) != 'm':
                    self.odd.append(m.group(0))
                i = m.end()
                continue
            if ch == '\r':
                self.col = 0
            elif ch == '\n':
                self.done.append(''.join(self.line))
                self.line, self.col = [], 0
            elif ch == '\x08':
                self.col = max(0, self.col - 1)
            else:
                while len(self.line) < self.col:
                    self.line.append(' ')
                self.line[self.col:self.col + 1] = [ch]
                self.col += 1
            i += 1

    def current(self):
        return ''.join(self.line)

    def all(self):
        return '\n'.join(self.done + [self.current()])


class Line(Wire):
    """ A modem that answers every command; answers(cmd) -> (kind, lines) decides how """
    def __init__(self, sim, answers=None, latency=0.01):
        super(Line, self).__init__(sim, latency)
        self.answers = answers or (lambda cmd: ('OK', []))
        self.text_answer = lambda text, term: ('OK', ['+CMGS: 1'] if term == CTRL_Z else [])

    def _act(self, kind, lines):
        if kind == 'silent':
            self.silent(0.0)
        elif kind == 'prompt':
            self.prompt(''.join('\r\n%s\r\n' % l for l in lines) + '\r\n> ')
        else:
            self.reply(lines, kind)

    def on_command(self, cmd):
        self._act(*self.answers(cmd))

    def on_text(self, text, term):
        self._act(*self.text_answer(text, term))


class _Termios(types.ModuleType):
    ICANON, ECHO, ISIG, VMIN, VTIME, TCSANOW, TCSAFLUSH, TCSADRAIN = 2, 8, 1, 6, 5, 0, 2, 1
    error = type('error', (Exception,), {})

    def __init__(self):
        super(_Termios, self).__init__('termios')

    def tcgetattr(self, fd):
        return [0, 0, 0, 0xff, 0, 0, [0] * 32]

    def tcsetattr(self, fd, when, attrs):
        pass


class _Atexit(types.ModuleType):
    def __init__(self):
        super(_Atexit, self).__init__('atexit')

    def register(self, f, *a, **kw):
        return f

    def unregister(self, f):
        pass


class _Stdin(object):
    def fileno(self):
        return 0

    def isatty(self):
        return True


class TermRig(Rig):
    """ with TermRig(...) as rig: the loaded terminal module with its standard streams replaced """
    def __init__(self, make_device=Line, sched=None, **kw):
        self.screen = Screen()
        self._saved = sys.stdin, sys.stdout, getattr(sys, 'exitfunc', None)
        sys.stdin = _Stdin()
        try:
            super(TermRig, self).__init__(make_device, sched, names=NAMES, extra={'atexit': _Atexit(), 'termios': _Termios(), 'tty': types.ModuleType('tty')}, **kw)
        except BaseException:
            sys.stdin = self._saved[0]
            raise
        finally:
            if hasattr(sys, 'exitfunc'):
                del sys.exitfunc
        self.mod = self.ns['gsmtermlib.terminal']
        self.keys = collections.deque()
        self.idle = False
        self.mod.console.getkey = self._getkey
        self.thread = None

    def __enter__(self):
        sys.stdout = self.screen
        return self

    def __exit__(self, *a):
        sys.stdin, sys.stdout = self._saved[:2]

    def _getkey(self):
        self.thread = self.sim.current
        while not self.keys:
            self.idle = True
            self.sim.block(lambda: self.keys)
        self.idle = False
        return self.keys.popleft()

    def start(self, raw=False, **kw):
        self.term = (self.mod.RawTerm if raw else self.mod.GsmTerm)('port', 115200, **kw)
        self.term.start()
        self.sim.block(lambda: self.thread is not None, 100)
        require(self.thread is not None, 'the terminal does not read keys')
        self.settled()
        return self.term

    def running(self):
        return self.thread is None or not self.thread.done      # (not is_alive(): this is also evaluated by the scheduler)

    def settled(self):
        """ until the input loop waits for a key again (or has ended) """
        if not self.sim.block(lambda: (self.idle and not self.keys) or not self.running(), 3000) and self.running():
            raise Violation('the terminal does not respond to keys any more')

    def press(self, *keys):
        for k in keys:
            self.idle = False if self.running() else self.idle
            self.keys.append(k)
            self.settled()

    def type(self, text):
        self.press(*text)

    def alive(self, what):
        for name, e, tb in self.sim.errors:
            raise Violation('%s: the terminal failed: %s: %s\n%s' % (what, type(e).__name__, e, tb[-1500:]))
        require(self.running() and self.term.alive, '{0}: the terminal has stopped', what)

    def shown(self):
        """ the line on the screen and the cursor's column """
        return self.screen.current(), self.screen.col
