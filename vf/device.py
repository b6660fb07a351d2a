# -*- coding: utf-8 -*-
""" A stateful simulated GSM modem.

Profile (dict, all optional; see DEFAULT): the behaviours in which the supported modem families differ. State that the checks
compare against: .cfg (what the modem has been configured to), .store (messages), .sent (messages submitted), .calls, .tones.
Responses and unsolicited output follow 3GPP TS 27.005/27.007 and the captured behaviour of the modems the library supports. """
import re

from . import refpdu
from .wire import Wire

DEFAULT = {
    'family': 'generic',           # generic | huawei | wavecom | zte  (call progress notifications)
    'supports': ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'CVHU', 'COPS', 'CSMP', 'CREG', 'CGMR', 'VTS'),
    'clac': None,                  # None | line | line_space | plain | multi | multi_cr
    'clac_commands': (),
    'err': 'ERROR',                # answer to unsupported commands
    'echo': True,
    'cfun': 1,                     # value, or 'list' for the ZTE format
    'busy_after_cfun': 0,          # number of busy answers after AT+CFUN=1
    'wind': 0,
    'cpin_ok': True,               # does the +CPIN? answer end with OK
    'pin': None,                   # PIN of a locked SIM
    'puk': False,
    'preunlock': 'all',            # commands accepted before unlocking: all | nocfun | none | sms (all but those for messages) | open (every command)
    'pin_error': 'cme',            # before unlocking: cme (always detailed) | cmee (detailed once AT+CMEE=1 was accepted)
    'csca': '+27831234567',
    'csca_toa': 145,
    'csca_missing': 'ok',          # answer to AT+CSCA? without a number: ok | cms330 | empty
    'csmp_clears': False,
    'busy': {},                    # command -> number of SIM busy answers
    'cpms': '("ME","MT","SM","SR"),("ME","MT","SM","SR"),("ME","MT","SM","SR")',
    'memories': (('ME', 'MT', 'SM', 'SR'),) * 3,
    'current': ('SM', 'SM', 'SM'),
    'cpms_ok': True,
    'manufacturer': 'ACME',
    'ussd_mode': None,             # 1: needs AT^USSDMODE=0 first
    'stat_blank': False,           # no status in +CMGR responses (ZTE)
    'ref': 0,                      # reference of the first message sent
    'cmgf_reset': 0,
    'clcc_tail': '',               # optional further parameters of +CLCC lines
    'report_style': 0,             # text mode reports: 0 all fields | 1 no status | 2 no recipient
}

PREUNLOCK = ('ATZ', 'ATE0', 'AT+CFUN?', 'AT+CFUN=1', 'AT+CMEE=1')
STATUS = ('REC UNREAD', 'REC READ', 'STO UNSENT', 'STO SENT')


class Msg(object):
    """ A stored message: kind deliver | report | submit | junk """
    def __init__(self, kind, status, pdu, **kw):
        self.kind, self.status, self.pdu = kind, status, pdu
        self.number = self.text = self.time = self.smsc = self.ref = self.done = self.st = None
        self.__dict__.update(kw)

    def length(self):
        return (len(self.pdu) - 2 * (int(self.pdu[:2], 16) + 1)) // 2 if self.kind != 'junk' else 10


def hexpdu(data):
    return ''.join('%02X' % b for b in bytearray(data[0]))


def deliver(number, text, when, status=0, smsc='+27830000000', kind=None, udh=b''):
    kind = kind or ('gsm7' if refpdu.is_gsm7(text) else 'ucs2')
    return Msg('deliver', status, hexpdu(refpdu.enc_deliver(smsc, number, kind, text, when, udh=udh)), number=number if isinstance(number, str) else number[1], text=text, time=when, smsc=smsc)


def report(ref, number, sent, done, st, status=0, smsc='+27830000000'):
    return Msg('report', status, hexpdu(refpdu.enc_report(smsc, ref, number, sent, done, st)), number=number, ref=ref, time=sent, done=done, st=st, smsc=smsc)


def submit(number, text, status=2, smsc=None):
    kind = 'gsm7' if refpdu.is_gsm7(text) else 'ucs2'
    return Msg('submit', status, hexpdu(refpdu.enc_submit(smsc, 0, number, kind, text)), number=number, text=text, smsc=smsc)


def stamp(t):
    """ time tuple -> text mode time stamp """
    y, mo, d, h, mi, s, q = t
    return '%02d/%02d/%02d,%02d:%02d:%02d%s%02d' % (y % 100, mo, d, h, mi, s, '-' if q < 0 else '+', abs(q))


class Modem(Wire):
    def __init__(self, sim, profile=None, latency=0.01):
        Wire.__init__(self, sim, latency)
        self.p = dict(DEFAULT)
        self.p.update(profile or {})
        self.supports = set(self.p['supports'])
        self.locked = self.p['pin'] is not None
        self.pin_tries = []          # PINs entered
        self.pin_left = 0 if self.p['puk'] else 3
        self.store = {'ME': {}, 'SM': {}, 'SR': {}, 'MT': {}, 'BM': {}}
        self.sent = []               # messages accepted by +CMGS: dicts
        self.deleted = []            # (memory, index) removed by +CMGD
        self.cfg = {'cmee': 0, 'cmgf': self.p['cmgf_reset'], 'cnmi': None, 'clip': 0, 'crc': 0, 'csmp': None, 'cvhu': None, 'cops': None, 'mem': list(self.p['current']),
                    'csca': self.p['csca'], 'cfun': self.p['cfun'], 'wind': self.p['wind'], 'cvoice': None, 'ussdmode': self.p['ussd_mode']}
        self.echo = self.p['echo']
        self.busy = dict(self.p['busy'])
        self.device_busy = 0
        self.faults = []             # [regex, countdown, action]
        self.next_ref = self.p['ref']
        self.on_sent = None          # called with the record of each accepted message (before its confirmation)
        self.after_sent = None       # ... after its confirmation has been put on the line
        self.sent_tail = None        # ... returns unsolicited text that follows its confirmation immediately
        self.awaiting = None
        self.prompt_latency = None
        self.silence = 60.0          # how long the line counts as busy after a command that is not answered
        self.info = {'AT+CGMI': [self.p['manufacturer']], 'AT+CGMM': ['MODEL 1'], 'AT+CGMR': ['11.22.33'], 'AT+CGSN': ['111111111111111'], 'AT+CIMI': ['222222222222222'],
                     'AT+COPS?': ['+COPS: 0,0,"Vodacom-SA",2']}
        self.signal = lambda: (18, 99)
        self.creg = lambda: '+CREG: 0,1'
        self.ussd = []               # queue of actions for AT+CUSD=1: callables(device, string)
        self.ussd_log = []           # strings received
        self.ussd_cancels = 0
        self.calls = {}              # id -> dict
        self.dial_plan = []          # queue of callables(device, call) deciding what happens to a dialled call
        self.dialled = []
        self.hangups = 0
        self.answers = 0
        self.tones = []              # (call id or None, tone)
        self.dtmf_delay = None       # seconds until the result
        self.dtmf_result = None      # final result of the next tone commands
        self.chunker = None          # function(text) -> chunks, for responses

    def restart(self):
        """ The port has been closed; the next connection starts afresh (the SIM keeps its state) """
        self.port = self.inflight = self.awaiting = None
        self.buf, self.mode, self.pending_out = '', 'cmd', 0
        self.cfg.update(cnmi=None, clip=0, crc=0, csmp=None, cvhu=None, cops=None, cvoice=None)

    # ------------------------------------------------------------ faults
    def fault(self, regex, action, nth=0):
        """ The nth (0: first) command from now on that matches regex is answered by action: a final line, a (lines, final) tuple,
        'silent', or a callable(device, command) """
        self.faults.append([re.compile(regex), nth, action])

    def _faulty(self, cmd):
        for i, f in enumerate(self.faults):
            if f[0].search(cmd):
                if f[1] > 0:
                    f[1] -= 1
                    continue
                del self.faults[i]
                a = f[2]
                if callable(a):
                    a(self, cmd)
                elif a == 'silent':
                    self.silent(self.silence)
                elif isinstance(a, tuple):
                    self.answer(a[0], a[1])
                else:
                    self.answer((), a)
                return True
        return False

    # ------------------------------------------------------------ responses
    def answer(self, lines=(), final='OK', tail=''):
        if final and final.startswith('+CM') and self.cfg['cmee'] == 0 and self.p['pin_error'] == 'cmee':
            final = 'ERROR'
        text = ''.join('\r\n%s\r\n' % l for l in list(lines) + ([final] if final is not None else []))
        self.send_chunks(text, None, self.chunker(text) if self.chunker else None, done=final is not None, tail=tail)

    def unsupported(self):
        self.answer((), self.p['err'])

    def has(self, name):
        return name in self.supports

    # ------------------------------------------------------------ commands
    def on_command(self, cmd):
        if self._faulty(cmd):
            return
        if self.device_busy > 0:
            self.device_busy -= 1
            return self.answer((), '+CME ERROR: 515')
        if self.busy.get(cmd, 0) > 0 and not self.locked:
            self.busy[cmd] -= 1
            return self.answer((), '+CME ERROR: 14')
        if self.locked and not cmd.startswith('AT+CPIN') and not self._allowed(cmd):
            if self.p['preunlock'] == 'sms':
                return self.answer((), '+CMS ERROR: %d' % (311 if self.pin_left else 316))
            return self.answer((), '+CME ERROR: %d' % (11 if self.pin_left else 12))
        for regex, fn in HANDLERS:
            m = regex.match(cmd)
            if m:
                return fn(self, *m.groups())
        if cmd in self.info:
            if cmd == 'AT+CGMR' and not self.has('CGMR') or cmd == 'AT+COPS?' and not self.has('COPS'):
                return self.unsupported()
            v = self.info[cmd]
            return self.answer((), v) if isinstance(v, str) else self.answer(v)
        self.unsupported()

    def _allowed(self, cmd):
        pre = self.p['preunlock']
        if pre == 'open':
            return True
        if pre == 'all':
            return cmd in PREUNLOCK
        if pre == 'nocfun':
            return cmd in ('ATZ', 'ATE0', 'AT+CMEE=1')
        if pre == 'sms':
            return not cmd.startswith(('AT+CSCA', 'AT+CPMS', 'AT+CMG', 'AT+CNMI'))
        return cmd == 'AT+CMEE=1' and self.p['pin_error'] == 'cmee'

    def c_atz(self):
        self.echo = self.p['echo']
        self.cfg.update(cmee=0, cmgf=self.p['cmgf_reset'], cnmi=None, clip=0, crc=0)
        self.answer()

    def c_ate(self, v):
        self.echo = v == '1'
        self.answer()

    def c_cfunq(self):
        if not self.has('CFUN'):
            return self.unsupported()
        self.answer(['+CFUN: (0-1,4-7),(0-1)'] if self.cfg['cfun'] == 'list' else ['+CFUN: %s' % self.cfg['cfun']])

    def c_cfun(self, v):
        if not self.has('CFUN'):
            return self.unsupported()
        self.cfg['cfun'] = int(v)
        self.device_busy = self.p['busy_after_cfun']
        self.answer()

    def c_cmee(self, v):
        self.cfg['cmee'] = int(v)
        self.answer()

    def c_cpinq(self):
        state = 'READY' if not self.locked else 'SIM PUK' if self.pin_left == 0 else 'SIM PIN'
        if self.p['cpin_ok']:
            return self.answer(['+CPIN: ' + state])
        self.answer(['+CPIN: ' + state], None)
        self.silent(0.2499)

    def c_cpin(self, pin):
        self.pin_tries.append(pin)
        if not self.locked:
            return self.answer((), '+CME ERROR: 3')
        if self.pin_left == 0:
            return self.answer((), '+CME ERROR: 12')
        if pin != self.p['pin']:
            self.pin_left -= 1
            return self.answer((), '+CME ERROR: 16')
        self.locked, self.pin_left = False, 3
        self.answer()

    def c_clac(self):
        f, cmds = self.p['clac'], list(self.p['clac_commands'])
        if f is None:
            return self.unsupported()
        if f == 'line':
            return self.answer(['+CLAC:' + ','.join(cmds) + ','])
        if f == 'line_space':
            return self.answer(['+CLAC: ' + ','.join(cmds)])
        if f == 'plain':
            return self.answer([','.join(cmds)])
        self.answer([c + ('\r' if f == 'multi_cr' else '') for c in cmds])

    def c_windq(self):
        if not self.has('WIND'):
            return self.unsupported()
        self.answer(['+WIND: %d' % self.cfg['wind']])

    def c_wind(self, v):
        if not self.has('WIND'):
            return self.unsupported()
        self.cfg['wind'] = int(v)
        self.answer()

    def c_zpas(self):
        if not self.has('ZPAS'):
            return self.unsupported()
        self.answer(['+BEARTYPE: "UMTS","CS_PS"'])

    def c_cvoice(self, v):
        if not self.has('^CVOICE'):
            return self.unsupported()
        self.cfg['cvoice'] = int(v)
        self.answer()

    def c_ussdmode(self, v):
        if not self.has('^USSDMODE'):
            return self.unsupported()
        self.cfg['ussdmode'] = int(v)
        self.answer()

    def c_cops(self, v):
        if not self.has('COPS'):
            return self.unsupported()
        self.cfg['cops'] = v
        self.answer()

    def c_cmgf(self, v):
        self.cfg['cmgf'] = int(v)
        self.answer()

    def c_cscaq(self):
        n = self.cfg['csca']
        if n is None:
            if self.p['csca_missing'] == 'cms330':
                return self.answer((), '+CMS ERROR: 330')
            if self.p['csca_missing'] == 'empty':
                return self.answer(['+CSCA: "",129'])
            return self.answer()
        self.answer(['+CSCA: "%s",%d' % (n, self.p['csca_toa'])])

    def c_csca(self, n):
        self.cfg['csca'] = n
        self.answer()

    def c_csmp(self, v):
        if not self.has('CSMP'):
            return self.unsupported()
        self.cfg['csmp'] = tuple(int(x) for x in v.split(','))
        if self.p['csmp_clears']:
            self.cfg['csca'] = None
        self.answer()

    def c_cpmsq(self):
        if not self.has('CPMS'):
            return self.unsupported()
        self.answer(['+CPMS: ' + self.p['cpms']])

    def c_cpms(self, v):
        if not self.has('CPMS'):
            return self.unsupported()
        want = v.split(',')
        mems = []
        if len(want) > len(self.p['memories']):
            return self.answer((), '+CMS ERROR: 302')
        for w, ok in zip(want, self.p['memories']):
            m = re.match(r'"([A-Z]{2})"$', w)
            if not m or m.group(1) not in ok:
                return self.answer((), '+CMS ERROR: 302')
            mems.append(m.group(1))
        for i, m in enumerate(mems):
            self.cfg['mem'][i] = m
        self.answer(['+CPMS: ' + ','.join('%d,50' % len(self.store[m]) for m in self.cfg['mem'][:len(self.p['memories'])])])

    def c_cnmi(self, v):
        if not self.has('CNMI'):
            return self.unsupported()
        self.cfg['cnmi'] = tuple(int(x) for x in v.split(','))
        self.answer()

    def c_clip(self, v):
        if not self.has('CLIP'):
            return self.unsupported()
        self.cfg['clip'] = int(v)
        self.answer()

    def c_crc(self, v):
        if not self.has('CRC'):
            return self.unsupported()
        self.cfg['crc'] = int(v)
        self.answer()

    def c_cvhu(self, v):
        if not self.has('CVHU'):
            return self.unsupported()
        self.cfg['cvhu'] = int(v)
        self.answer()

    # ---- network
    def c_csq(self):
        v = self.signal()
        self.answer((), v) if isinstance(v, str) else self.answer(['+CSQ: %d,%d' % v])

    def c_cregq(self):
        if not self.has('CREG'):
            return self.unsupported()
        v = self.creg()
        self.answer((), v) if not v.startswith('+CREG') else self.answer([v])

    # ---- messages
    def box(self):
        return self.store[self.cfg['mem'][0]]

    def c_cmgr(self, idx):
        m = self.box().get(int(idx))
        if m is None:
            return self.answer((), '+CMS ERROR: 321')
        lines = self._cmgr_lines(m)
        if m.status == 0:
            m.status = 1
        self.answer(lines)

    def _cmgr_lines(self, m):
        if self.cfg['cmgf'] == 0:
            return ['+CMGR: %s,%s,%d' % ('' if self.p['stat_blank'] else m.status, '' if m.kind != 'deliver' or not self.p.get('alpha') else '"%s"' % self.p['alpha'], m.length()), m.pdu]
        if m.kind == 'report':
            style = self.p['report_style']
            to = ',' if style == 2 else '"%s",%d' % (m.number, 145 if m.number.startswith('+') else 129)
            return ['+CMGR: %s,6,%d,%s,"%s","%s",%d' % ('' if style == 1 else '"%s"' % STATUS[m.status], m.ref, to, stamp(m.time), stamp(m.done), m.st)]
        if m.kind == 'submit':
            return ['+CMGR: "%s","%s",' % (STATUS[m.status], m.number), m.text.replace('\n', '\r\n')]
        return ['+CMGR: "%s","%s",%s,"%s"' % (STATUS[m.status], m.number, '"%s"' % self.p['alpha'] if self.p.get('alpha') else '', stamp(m.time)), m.text.replace('\n', '\r\n')]

    def c_cmgl(self, arg):
        if self.cfg['cmgf'] == 0:
            if not re.match(r'[0-4]$', arg):
                return self.answer((), '+CMS ERROR: 302')
            want = None if arg == '4' else int(arg)
        else:
            m = re.match(r'"([A-Z ]+)"$', arg)
            if not m or m.group(1) not in STATUS + ('ALL',):
                return self.answer((), '+CMS ERROR: 302')
            want = None if m.group(1) == 'ALL' else STATUS.index(m.group(1))
        lines = []
        for i, m in sorted(self.box().items()):
            if want is not None and m.status != want:
                continue
            lines += self._cmgl_lines(i, m)
        for m in self.box().values():
            if m.status == 0 and want in (None, 0):
                m.status = 1
        self.answer(lines)

    def _cmgl_lines(self, i, m):
        alpha = '"%s"' % self.p['alpha'] if self.p.get('alpha') else ''
        if self.cfg['cmgf'] == 0:
            return ['+CMGL: %d,%d,%s,%d' % (i, m.status, alpha, m.length())] + list(getattr(m, 'garbage', ())) + [m.pdu]
        if m.kind == 'report':
            return ['+CMGL: %d,"%s",6,%d,"%s",%d,"%s","%s",%d' % (i, STATUS[m.status], m.ref, m.number, 145 if m.number.startswith('+') else 129, stamp(m.time), stamp(m.done), m.st)]
        if m.kind == 'submit':
            return ['+CMGL: %d,"%s","%s",%s,' % (i, STATUS[m.status], m.number, alpha), m.text.replace('\n', '\r\n')]
        return ['+CMGL: %d,"%s","%s",%s,"%s"' % (i, STATUS[m.status], m.number, alpha, stamp(m.time)), m.text.replace('\n', '\r\n')]

    def c_cmgd(self, idx, flag):
        flag = int(flag or 0)
        box = self.box()
        if flag == 0:
            if int(idx) not in box:
                return self.answer((), '+CMS ERROR: 321')
            gone = [int(idx)]
        else:
            stats = {1: (1,), 2: (1, 3), 3: (1, 3, 2), 4: (0, 1, 2, 3)}.get(flag)
            if stats is None:
                return self.answer((), '+CMS ERROR: 302')
            gone = [i for i, m in box.items() if m.status in stats]
        for i in sorted(gone):
            del box[i]
            self.deleted.append((self.cfg['mem'][0], i))
        self.answer()

    def c_cmgs(self, arg):
        if self.cfg['cmgf'] == 0:
            if not re.match(r'\d+$', arg):
                return self.answer((), '+CMS ERROR: 304')
            self.awaiting = ('pdu', int(arg))
        else:
            m = re.match(r'"([^"]+)"(?:,\d+)?$', arg)
            if not m:
                return self.answer((), '+CMS ERROR: 305')
            self.awaiting = ('text', m.group(1))
        self.prompt(delay=self.prompt_latency)

    def on_text(self, text, term):
        kind, arg = self.awaiting
        self.awaiting = None
        if term == '\x1b':
            return self.answer()
        if self._faulty('TEXT'):
            return
        rec = {'mode': kind, 'raw': text, 'arg': arg, 'time': self.sim.now}
        if kind == 'pdu':
            try:
                data = bytes.fromhex(text)
                if re.search(r'\s', text):
                    raise ValueError('blanks in PDU')
                rec.update(refpdu.parse_submit(bytearray(data)))
                if rec['tpdu_len'] != arg:
                    raise refpdu.Bad('announced %d octets, sent %d' % (arg, rec['tpdu_len']))
            except (ValueError, refpdu.Bad) as e:
                rec['error'] = str(e)
                self.sent.append(rec)
                return self.answer((), '+CMS ERROR: 304')
        else:
            rec['text'] = text
            rec['number'] = arg
        rec['ref'] = self.next_ref
        self.next_ref = (self.next_ref + 1) % 256
        self.sent.append(rec)
        if self.on_sent:
            self.on_sent(rec)
        self.answer(['+CMGS: %d' % rec['ref']], tail=self.sent_tail(rec) or '' if self.sent_tail else '')
        if self.after_sent:
            self.after_sent(rec)

    def free_index(self, mem):
        i = 0
        while i in self.store[mem]:
            i += 1
        return i

    def arrive(self, msg, mem, index=None, notify=True, delay=0.0, together=None):
        """ A message or status report arrives; notified as the modem has been configured """
        i = self.free_index(mem) if index is None else index
        self.store[mem][i] = msg
        line = '%s: "%s",%d' % ('+CDSI' if msg.kind == 'report' else '+CMTI', mem, i)
        if notify:
            self.urc('\r\n%s\r\n' % line, delay)
        return i, line

    # ---- USSD
    def c_cusd(self, s):
        if self.cfg['ussdmode'] == 1:
            return self.unsupported()
        self.ussd_log.append(s)
        if not self.ussd:
            return self.answer((), '+CME ERROR: 3')
        self.ussd.pop(0)(self, s)

    def c_cusd2(self):
        self.ussd_cancels += 1
        self.answer()

    # ---- calls
    def new_call(self, direction, number, state):
        i = 1
        while i in self.calls:
            i += 1
        self.calls[i] = {'id': i, 'dir': direction, 'number': number, 'state': state}
        return self.calls[i]

    def c_atd(self, number):
        fam = self.p['family']
        self.dialled.append(number)
        plan = self.dial_plan.pop(0) if self.dial_plan else None
        if isinstance(plan, str):
            return self.answer((), plan) if plan != 'silent' else self.silent(60)
        call = self.new_call(0, number, 2)
        self.last_call = call
        if fam in ('generic', 'huawei'):
            self.answer()
        else:
            self.inflight = None
        if plan:
            plan(self, call)

    def call_started(self, call):
        """ the call is being set up; returns the notification """
        call['hidden'] = False
        return {'huawei': '\r\n^ORIG:%d,%d\r\n' % (call['id'], call.get('type', 0)), 'wavecom': '\r\n+WIND: 5,%d\r\n' % call['id']}.get(self.p['family'], '')

    def call_progress(self, call):
        return {'huawei': '\r\n^CONF:%d\r\n' % call['id'], 'wavecom': '\r\n+WIND: 2\r\n'}.get(self.p['family'], '')

    def call_answered(self, call):
        """ the remote side answers; returns the notification """
        call['state'] = 0
        return {'huawei': '\r\n^CONN:%d,0\r\n' % call['id'], 'wavecom': '\r\nOK\r\n', 'zte': '\r\nCONNECT\r\n'}.get(self.p['family'], '')

    def call_ended(self, call, duration=5, cause='29,16', reason='NO CARRIER'):
        """ the remote side ends or rejects; returns the notification """
        rejected = call['state'] != 0 and call['dir'] == 0
        del self.calls[call['id']]
        return {'huawei': '\r\n^CEND:%d,%d,%s\r\n' % (call['id'], duration, cause), 'wavecom': '\r\n%s\r\n\r\n+WIND: 6,%d\r\n' % (reason, call['id']),
                'zte': '\r\nOK\r\n' if rejected else '\r\nHANGUP: %d\r\n' % call['id']}.get(self.p['family'], '')

    def c_ath(self):
        self.hangups += 1
        gone = sorted(self.calls.values(), key=lambda c: c['id'])
        self.calls.clear()
        self.answer()
        for c in gone:
            text = {'huawei': '\r\n^CEND:%d,%d,29,16\r\n' % (c['id'], 3), 'wavecom': '\r\n+WIND: 6,%d\r\n' % c['id'], 'zte': '\r\nHANGUP: %d\r\n' % c['id']}.get(self.p['family'])
            if text:
                self.urc(text)

    def c_ata(self):
        self.answers += 1
        for c in self.calls.values():
            if c['dir'] == 1 and c['state'] == 4:
                c['state'] = 0
                return self.answer()
        self.answer()

    def c_clcc(self):
        self.answer(['+CLCC: %d,%d,%d,%d,0,"%s",%d' % (c['id'], c['dir'], c['state'], c.get('type', 0), c['number'], 145 if str(c['number']).startswith('+') else 129) + self.p['clcc_tail'] for i, c in sorted(self.calls.items()) if not c.get('hidden')])

    def c_vts(self, rest):
        return self._tones('AT' + rest)

    def _tones(self, cmd):
        out = []
        for part in cmd[2:].split(';'):
            m = re.match(r'\+VTS=([0-9*#A-D])$', part)
            d = re.match(r'\^DTMF=(\d+),([0-9*#A-D])$', part)
            if m and self.has('VTS'):
                out.append((None, m.group(1)))
            elif d and self.has('^DTMF'):
                out.append((int(d.group(1)), d.group(2)))
            else:
                self.tones.append(('bad', cmd))
                return self.unsupported()
        self.tones.append(out)
        self.reply((), self.dtmf_result or 'OK', delay=self.dtmf_delay)


HANDLERS = [(re.compile(r + r'\Z'), fn) for r, fn in [
    ('ATZ', Modem.c_atz), ('ATE([01])', Modem.c_ate), (r'AT\+CFUN\?', Modem.c_cfunq), (r'AT\+CFUN=(\d)', Modem.c_cfun), (r'AT\+CMEE=(\d)', Modem.c_cmee),
    (r'AT\+CPIN\?', Modem.c_cpinq), (r'AT\+CPIN="([^"]*)"', Modem.c_cpin), (r'AT\+CLAC', Modem.c_clac), (r'AT\+WIND\?', Modem.c_windq), (r'AT\+WIND=(\d+)', Modem.c_wind),
    (r'AT\+ZPAS\?', Modem.c_zpas), (r'AT\^CVOICE=(\d)', Modem.c_cvoice), (r'AT\^USSDMODE=(\d)', Modem.c_ussdmode), (r'AT\+COPS=([\d,]+)', Modem.c_cops),
    (r'AT\+CMGF=([01])', Modem.c_cmgf), (r'AT\+CSCA\?', Modem.c_cscaq), (r'AT\+CSCA="([^"]*)"(?:,\d+)?', Modem.c_csca), (r'AT\+CSMP=([\d,]+)', Modem.c_csmp),
    (r'AT\+CPMS=\?', Modem.c_cpmsq), (r'AT\+CPMS=(.*)', Modem.c_cpms), (r'AT\+CNMI=([\d,]+)', Modem.c_cnmi), (r'AT\+CLIP=([01])', Modem.c_clip), (r'AT\+CRC=([01])', Modem.c_crc),
    (r'AT\+CVHU=(\d)', Modem.c_cvhu), (r'AT\+CSQ', Modem.c_csq), (r'AT\+CREG\?', Modem.c_cregq), (r'AT\+CMGR=(\d+)', Modem.c_cmgr), (r'AT\+CMGL=(.+)', Modem.c_cmgl),
    (r'AT\+CMGD=(\d+)(?:,(\d+))?', Modem.c_cmgd), (r'AT\+CMGS=(.+)', Modem.c_cmgs), (r'AT\+CUSD=1,"([^"]*)",15', Modem.c_cusd), (r'AT\+CUSD=2', Modem.c_cusd2),
    (r'ATD([^;]+);', Modem.c_atd), ('ATH', Modem.c_ath), ('ATA', Modem.c_ata), (r'AT\+CLCC', Modem.c_clcc), (r'AT((?:\+VTS|\^DTMF)=.*)', Modem.c_vts)]]
