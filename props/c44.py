# -*- coding: utf-8 -*-
""" C44: every key typed at the console reaches the terminal """
import fcntl
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import termios
import threading
import time
from hypothesis import strategies as st
from vf import load, term
from vf.core import Sub, Violation, require, equal
from vf.runner import REPO

SPECIAL = [term.UP, term.DOWN, term.LEFT, term.RIGHT, term.DELETE, term.HOME, term.END]
OTHER = ['\x1b[5~', '\x1b[15~', '\x1b[1;5C', '\x1b[24;2~', '\x1b[3;5~', '\x1bOa', '\x1bOP', '\x1b[H', '\x1b[Z']      # keys the terminal does not use
END = '\x1d'


class Stdin(object):
    def __init__(self, fd):
        self.fd = fd

    def fileno(self):
        return self.fd


def run(case):
    chunks, lone = case
    master, slave = os.openpty()
    saved, exitfunc = sys.stdin, getattr(sys, 'exitfunc', None)
    before = termios.tcgetattr(slave)
    got, problems = [], []
    try:
        sys.stdin = Stdin(slave)
        try:
            mod = load.fresh(names=('gsmtermlib.terminal',))['gsmtermlib.terminal']
        finally:
            sys.stdin = saved
            if hasattr(sys, 'exitfunc'):
                del sys.exitfunc
        console = mod.console
        now = termios.tcgetattr(slave)
        equal(now[3] & (termios.ICANON | termios.ECHO | termios.ISIG), 0, 'line buffering, echo and signal keys of the console while the terminal runs')
        more = threading.Semaphore(0)        # chunk i has been consumed

        def reader():
            try:
                while True:
                    k = console.getkey()
                    if not isinstance(k, str):
                        problems.append('a key of type %s: %r' % (type(k).__name__, k))
                    got.append(k)
                    if k == END or len(got) > 500 or problems:
                        return
            except BaseException as e:
                problems.append('%s: %s' % (type(e).__name__, e))
        want = [k for c in chunks for k in c] + [END]
        t = threading.Thread(target=reader)
        t.daemon = True
        if lone:
            # every chunk is typed when the one before it has been read
            t.start()
            n = 0
            for c in [list(c) for c in chunks] + [[END]]:
                os.write(master, ''.join(c).encode())
                n += len(c)
                for i in range(400):
                    if len(got) >= n or not t.is_alive():
                        break
                    t.join(0.0005 if i < 100 else 0.01)
        else:
            data = ''.join(want).encode()
            os.write(master, data)
            for i in range(1000):
                if struct.unpack('i', fcntl.ioctl(slave, termios.FIONREAD, b'\0\0\0\0'))[0] >= len(data):
                    break
                time.sleep(0.001)
            t.start()
        t.join(5)
        if t.is_alive():
            os.write(master, b'\x1d')        # alone: this one will be seen
            t.join(2)
        require(not problems, 'reading keys: {0}', problems)
        require(got == want, 'typed {0!r}, received {1!r}', want, got)
        console.cleanup()
        equal(termios.tcgetattr(slave)[:4], before[:4], 'modes of the console at the end')
    finally:
        os.close(master)
        os.close(slave)
    return ['one at a time' if lone else 'at once', 'several' if any(len(c) > 1 for c in chunks) or not lone else 'single'] + (['escape sequences'] if any(k in SPECIAL for c in chunks for k in c) else [])


def gen():
    key = st.one_of(st.sampled_from([chr(c) for c in range(32, 127)]), st.sampled_from([chr(c) for c in range(32, 127)]), st.sampled_from(['\n', '\t', '\x7f', '\x1a', '\x04', '\x01', '\x03']), st.sampled_from(SPECIAL), st.sampled_from(SPECIAL + OTHER))
    chunk = st.lists(key, min_size=1, max_size=8)
    lone = st.lists(st.one_of(chunk, key.map(lambda k: [k]), key.map(lambda k: [k]), st.just(['\x1b'])), min_size=1, max_size=6)
    return st.one_of(st.tuples(lone, st.just(True)), st.tuples(st.lists(chunk, max_size=4), st.just(False)))


STUB = """
import ctypes, time
ctypes.CDLL(None).prctl(1, 9)      # ends with the check, whatever happens
class SerialException(IOError):
    pass
class SerialTimeoutException(SerialException):
    pass
def to_bytes(x):
    return bytes(x)
LOG = %r
FAULT = %r
class Serial(object):
    def __init__(self, *a, **kw):
        self.rx, self.n, self.dead, self.closed = '', 0, False, False
        self.portstr = self.port = self.name = 'port'
    def isOpen(self):
        return not self.closed
    is_open = property(isOpen)
    def inWaiting(self):
        return len(self.rx)
    in_waiting = property(inWaiting)
    def read(self, size=1):
        for i in range(10):
            if self.dead or self.closed:
                raise SerialException('device disconnected')
            if self.rx:
                break
            time.sleep(0.005)
        c, self.rx = self.rx[:1], self.rx[1:]
        return c
    def write(self, data):
        with open(LOG, 'a', newline='') as f:
            f.write(data)
        for c in data:
            if c == '\\r':
                self.n += 1
                if FAULT is not None and self.n > FAULT[1]:
                    if FAULT[0] == 'write':
                        raise SerialException('write failed')
                    self.dead = True
                self.rx += '\\r\\nOK\\r\\n'
        return len(data)
    def flush(self):
        pass
    flushInput = flushOutput = reset_input_buffer = reset_output_buffer = flush
    def close(self):
        self.closed = True
"""


def run_program(case, modes=True):
    """ The gsmterm program as a process of its own, on a pseudo terminal """
    raw, lines, exit_key, fault, after = case
    scratch = tempfile.mkdtemp(prefix='vf-console')
    master, slave = os.openpty()
    before = termios.tcgetattr(slave)
    p = None
    try:
        log = os.path.join(scratch, 'log')
        open(log, 'w').close()
        with open(os.path.join(scratch, 'serial.py'), 'w') as f:
            f.write(STUB % (log, fault))
        env = dict(os.environ, PYTHONPATH=scratch + os.pathsep + REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONUNBUFFERED='1', HOME=scratch, TERM='xterm')
        out = open(os.path.join(scratch, 'out'), 'wb')
        p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(REPO, 'tools', 'gsmterm.py'), 'port'] + (['-r'] if raw else []), stdin=slave, stdout=out, stderr=subprocess.STDOUT, env=env, cwd=scratch, start_new_session=True)
        out.close()

        def output():
            with open(os.path.join(scratch, 'out'), encoding='utf-8', errors='replace') as f:
                return f.read()

        def until(cond, limit, what):
            end = time.time() + limit
            while not cond():
                if time.time() > end:
                    raise Violation('%s; output: %r' % (what, output()[-800:]))
                time.sleep(0.003)

        def written():
            with open(log, newline='') as f:
                return f.read()
        until(lambda: p.poll() is not None or 'onnected to port' in output(), 30, 'the program does not start')
        require(p.poll() is None, 'the program ended at once: {0!r}', output()[-800:])
        if modes:
            equal(termios.tcgetattr(slave)[3] & (termios.ICANON | termios.ECHO | termios.ISIG), 0, 'line buffering, echo and signal keys while the program runs')
        want = ''
        for n, l in enumerate(lines):
            want += l + '\r'
            os.write(master, (l + '\n').encode())
            until(lambda: p.poll() is not None or written() == want, 20, 'typed %r: %r was sent to the modem, not %r' % (l, written(), want))
            if fault is not None and n == fault[1]:
                break
            require(p.poll() is None, 'the program ended after {0!r}: {1!r}', l, output()[-800:])
        failed = fault is not None and len(lines) > fault[1]
        if not failed:
            os.write(master, (exit_key + after).encode())
        until(lambda: p.poll() is not None, 20, 'the program does not end after %s' % ('the port failed' if failed else 'the exit key'))
        if failed:
            require(p.returncode >= 0, 'the program was killed by signal {0}', -p.returncode)
        else:
            equal(p.returncode, 0, 'exit status (output %r)' % output()[-800:])
            equal(written(), want, 'sent to the modem')
            require('Traceback' not in output(), 'error on exit: {0!r}', output()[-1500:])
        if modes:
            equal(termios.tcgetattr(slave)[:4], before[:4], 'modes of the console after the end of the program')
        return ['raw' if raw else 'friendly', ('failed ' + fault[0]) if failed else 'exit key']
    finally:
        if p is not None and p.poll() is None:
            p.kill()
            p.wait()
        os.close(master)
        os.close(slave)
        shutil.rmtree(scratch, ignore_errors=True)


def gen_program():
    line = st.one_of(st.sampled_from(['AT', 'ATI', 'AT+CSQ', 'AT+CREG?']), st.text(alphabet=[chr(c) for c in range(33, 127) if chr(c) not in '?'], min_size=1, max_size=12).map(lambda t: 'AT' + t))
    exits = st.one_of(st.tuples(st.just(True), st.just('\x1d')), st.tuples(st.just(False), st.sampled_from(['\x1d', '\x04'])))
    fault = st.one_of(st.none(), st.tuples(st.sampled_from(['read', 'write']), st.integers(0, 3)))
    return st.tuples(exits, st.lists(line, max_size=4), fault, st.sampled_from(['', '', 'A', 'AT\n', '\x1d', '\x1b[A'])).map(lambda a: (a[0][0], a[1], a[0][1], a[2], a[3]))


SUBS = [Sub('program', run_program, gen_program, 40, 400, rule='every session counts', guard=120, shards=8),
        Sub('console', run, gen, 300, 3000, rule='every session counts', guard=60)]
