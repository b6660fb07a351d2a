# -*- coding: utf-8 -*-
""" The device end of the simulated serial line: command assembly, response timing and chunking, unsolicited output.

Unsolicited output is emitted at quiet points only (no command in flight, no output pending) and is read by the library's
reader before anything else happens: on a real line an unsolicited line that overlaps a response cannot be told apart from it
(see DESIGN.md). `overlaps` records commands written while another one was still in flight. """
from .core import HarnessError


class Wire(object):
    SerialException = IOError

    def __init__(self, sim, latency=0.01):
        self.sim = sim
        self.latency = latency
        self.port = None
        self.buf = ''
        self.mode = 'cmd'
        self.inflight = None
        self.pending_out = 0
        self.free_at = sim.now
        self.commands = []           # (time, command)
        self.texts = []              # (time, text, terminator) entered at a prompt
        self.overlaps = []
        self.raw = ''
        self.token = 0
        self.echo = False

    def attach(self, port):
        if self.port is not None:
            raise HarnessError('port opened twice')
        self.port = port
        self.started()

    def started(self):
        pass

    # ---- input from the library
    def on_write(self, data):
        self.raw += data
        if self.inflight is not None and data:
            self.overlaps.append((self.sim.now, self.inflight, data))
        for ch in data:
            if self.mode == 'cmd':
                if ch == '\r':
                    cmd, self.buf = self.buf, ''
                    if cmd:
                        self._command(cmd)
                elif ch == '\n' and not self.buf:
                    pass
                elif ch == '\x1b' and not self.buf:
                    self.stray_escape()
                else:
                    self.buf += ch
            else:
                if ch in '\x1a\x1b':
                    text, self.buf = self.buf, ''
                    self.mode = 'cmd'
                    self.texts.append((self.sim.now, text, ch))
                    self.inflight = 'text'
                    self.token += 1
                    self.on_text(text, ch)
                else:
                    self.buf += ch

    def stray_escape(self):
        pass

    def _command(self, cmd):
        self.commands.append((self.sim.now, cmd))
        self.inflight = cmd
        self.token += 1
        if self.echo:
            self.emit(cmd + '\r', 0.0)
        self.on_command(cmd)

    # ---- to be implemented
    def on_command(self, cmd):
        raise NotImplementedError

    def on_text(self, text, term):
        raise NotImplementedError

    # ---- output
    def emit(self, text, delay=None, done=False, urc=False, then=None):
        """ Puts text on the line after `delay`; done: this completes the command in flight """
        d = self.latency if delay is None else delay
        t = max(self.free_at, self.sim.now + d)
        self.free_at = t
        self.pending_out += 1
        token = self.token

        def fire():
            self.pending_out -= 1
            if text:
                self.port.rx_put(text, exclusive=urc)
            if done and token == self.token:
                self.inflight = None
            if then:
                then()
        self.sim.at(t - self.sim.now, fire)

    def reply(self, lines=(), final='OK', delay=None, chunks=None, tail=''):
        """ A complete response. chunks: [(number of characters, gap in seconds), ...] splits it; tail: unsolicited text right after it """
        text = ''.join('\r\n%s\r\n' % l for l in list(lines) + ([final] if final is not None else []))
        self.send_chunks(text, delay, chunks, done=True, tail=tail)

    def send_chunks(self, text, delay=None, chunks=None, done=False, tail='', urc=False):
        chunks = list(chunks or [])
        at = self.latency if delay is None else delay
        while chunks and text:
            n, gap = chunks.pop(0)
            n = max(1, n)
            if n >= len(text):
                break
            part, text = text[:n], text[n:]
            self.emit(part, at)
            at += gap
        self.emit(text + tail, at, done=done, urc=urc or bool(tail))

    def prompt(self, text='\r\n> ', delay=None):
        def ready():
            self.inflight = None
        self.mode = 'text'
        self.emit(text, delay, done=True)

    def silent(self, seconds):
        """ No (further) response; the line counts as quiet again after `seconds` """
        token = self.token

        def fire():
            if token == self.token:
                self.inflight = None
        self.sim.at(seconds, fire)

    def quiet(self):
        return self.inflight is None and self.mode == 'cmd' and self.pending_out == 0

    def urc(self, text, delay=0.0, chunks=None, on_emit=None):
        """ Unsolicited text at the first quiet point after `delay` """
        if not text:
            return
        def emit():
            if on_emit:
                on_emit()
            if chunks:
                self.send_chunks(text, 0.0, chunks, urc=True)
            else:
                self.port.rx_put(text, exclusive=True)
        self.sim.at(delay, lambda: self.sim.when(self.quiet, emit))
