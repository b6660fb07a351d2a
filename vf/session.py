# -*- coding: utf-8 -*-
""" Mixed sessions: every feature of the library on one modem object, with a model of what the user should observe (C45, C46) """
from hypothesis import strategies as st

from . import device, gens, msgs, profiles
from .core import Violation, require, equal

FAM = sorted(profiles.FAMILIES)
T0 = (2024, 2, 29, 23, 59, 58, 8)


class CallbackError(Exception):
    """ raised by a user's callback """


def done_time(n):
    return (2024, 3, 1 + n // 86400, n // 3600 % 24, n // 60 % 60, n % 60, 8)


def number_of(rep):
    t = rep.timeFinalized
    return (t.day - 1) * 86400 + t.hour * 3600 + t.minute * 60 + t.second


class Session(object):
    def __init__(self, rig, fam, labels, latency=0.01, name='', profile=None):
        self.rig, self.sim, self.exc = rig, rig.sim, rig.exc
        self.labels, self.latency, self.name = labels, latency, name
        self.sms, self.reports, self.rings, self.fatal = [], [], [], []     # what the callbacks were called with
        self.raising = None                  # the number of the message or report whose callback raises
        self.want_sms, self.want_reports = [], []
        self.kept = []                       # [SentSms, reference]
        self.n = 0
        self.hangups = self.answers = self.cancels = 0
        self.attach(fam, profile)
        self.modem = rig.modem(incomingCallCallbackFunc=self.on_ring, smsReceivedCallbackFunc=self.on_sms, smsStatusReportCallback=self.on_report)
        self.modem.fatalErrorCallback = self.on_fatal

    # ---- the user's callbacks
    def on_sms(self, sms):
        self.sms.append((sms.number, sms.text))
        self.maybe_raise(int(sms.text.split()[-1]))

    def on_report(self, rep):
        n = number_of(rep)
        self.reports.append((rep.reference, rep.deliveryStatus, n))
        self.maybe_raise(n)

    def maybe_raise(self, n):
        if self.raising == n:
            self.raising = None
            raise CallbackError('raised by the callback')

    def on_ring(self, call):
        self.rings.append((call, call.number, call.ringCount))

    def on_fatal(self, e):
        self.fatal.append(e)

    # ---- the modem behind the port
    def attach(self, fam, profile=None):
        """ Another modem is attached to the port """
        p = dict({'echo': False}, **profiles.FAMILIES[fam])
        drop, cpms = profile or ((), None)
        p['supports'] = tuple(x for x in p.get('supports', device.DEFAULT['supports']) if x not in drop)
        if cpms is not None:
            p['cpms'], p['memories'] = profiles.CPMS[cpms]
            p['current'] = tuple(m[0] for m in p['memories'])
        self.fam = fam
        self.d = device.Modem(self.sim, p, self.latency)
        self.family = self.d.p['family']
        self.mems = self.d.p['memories'][0]
        self.store = dict((m, set()) for m in self.d.store)
        self.sent = 0
        self.hangups = self.answers = self.cancels = 0

    def connect(self, **kw):
        self.rig.device = self.d
        self.modem.connect(**kw)

    def text(self):
        self.n += 1
        return self.n

    # ---- events
    def arrival(self, kind, which, body, mem, notify=True, line=None):
        """ A message or report arrives; returns its storage, its index, and the notification """
        d = self.d
        m = self.mems[mem % len(self.mems)]
        index = 100 + self.text()
        if kind == 'report':
            ref = self.kept[which % len(self.kept)][1] if self.kept else 200 + which
            code = 0 if body % 3 else 0x40
            msg = device.report(ref, '+2783000', T0, done_time(index), code)
            if notify:
                self.want_reports.append((ref, code, index))
                for k in self.kept:
                    if k[1] == ref:
                        k[2] = k[0].DELIVERED if code == 0 else k[0].FAILED
        else:
            msg = device.deliver('+2784%03d' % which, ('arrival %d' if notify else 'offline %d') % index, T0)
            if notify:
                self.want_sms.append(('+2784%03d' % which, 'arrival %d' % index))
        if not notify:
            self.store[m].add(index)
        return m, index, d.arrive(msg, m, index, notify=notify and line is None)[1]

    # ---- operations
    def step(self, op, what, during=(), check=True):
        d = self.d
        what = '%s%s' % (self.name, what)
        self.what = what
        if op[0] == 'dial' and self.family in ('wavecom', 'zte'):
            during = ()                      # output that precedes the modem's answer to the dial command is its response
        if op[0] == 'process' or op[0] == 'list' and (op[4] or self.modem.smsTextMode):
            during = ()                      # a message that has just arrived may be listed (and deleted) before its notification is handled
        for t, kind, which, body, mem in during:
            self.sim.at(t, lambda kind=kind, which=which, body=body, mem=mem: self.arrival(kind, which, body, mem))
            self.labels.add('arrival during ' + op[0])
        getattr(self, 'op_' + op[0])(what, *op[1:])
        self.sim.sleep(max([0.0] + [x[0] for x in during]) + 3)
        if check:
            self.check(what)

    def check(self, what):
        d, m = self.d, self.modem
        equal(m.alive, True, what + ': alive')
        equal(sorted(self.sms), sorted(self.want_sms), what + ': messages passed to the callback')
        equal(sorted(self.reports), sorted(self.want_reports), what + ': reports passed to the callback')
        equal({x: sorted(d.store[x]) for x in d.store if d.store[x]}, {x: sorted(self.store[x]) for x in self.store if self.store[x]}, what + ': messages left in the modem')
        require(not d.overlaps, '{0}: commands overlapped: {1}', what, d.overlaps[:3])
        equal(sorted(c.number for c in m.activeCalls.values()), [], what + ': active calls')
        equal((d.hangups, d.answers, d.ussd_cancels), (self.hangups, self.answers, self.cancels), what + ': hang-ups, answers and session releases sent')
        equal(len(d.sent), self.sent, what + ': messages submitted')
        for sms, ref, status in self.kept:
            equal(sms.status, status, '%s: status of message %d' % (what, ref))
        equal(d.cfg['cmgf'], int(m.smsTextMode), what + ': +CMGF setting')

    def error(self, what, kind, fn, *args, **kw):
        try:
            r = fn(*args, **kw)
        except kind as e:
            return e
        raise Violation('%s: no %s, but %r' % (what, kind.__name__, r))

    def op_send(self, what, number, size, how, ok):
        from props.c21 import reassemble
        d, m = self.d, self.modem
        text = 'msg %d ' % self.text() + 'x' * (size if not m.smsTextMode else min(size, 100))
        if how == 'refused':
            d.fault('^TEXT$', '+CMS ERROR: 500')
            e = self.error(what, self.exc.CmsError, m.sendSms, number, 'refused')
            equal(e.code, 500, what + ': error code')
            self.labels.add('sending refused')
            return
        mark = len(d.sent)
        codes = []
        if how == 'wait':
            index = 100 + self.text()

            def after(rec):
                if size > 150 and not m.smsTextMode and len(d.sent) - mark < parts:
                    return
                d.after_sent = None
                code = 0 if ok else 0x41
                codes.append(code)
                self.sim.at(0.5, lambda: d.arrive(device.report(rec['ref'], number, T0, done_time(index), code), self.mems[ok % len(self.mems)], index))
            d.after_sent = after
        parts = 1 if len(text) <= 160 else (len(text) + 152) // 153
        if how == 'timeout':
            self.error(what, self.exc.TimeoutException, m.sendSms, number, text, waitForDeliveryReport=True, deliveryTimeout=2)
            self.labels.add('no delivery report')
            self.sent += parts
        else:
            sms = m.sendSms(number, text, **({'waitForDeliveryReport': True, 'deliveryTimeout': 15} if how == 'wait' else {}))
            self.sent += parts
            equal((sms.number, sms.text, sms.reference), (number, text, d.sent[-1]['ref']), what + ': SentSms')
            self.kept = [k for k in self.kept if k[1] != sms.reference]
            self.kept.append([sms, sms.reference, sms.ENROUTE if not codes else sms.DELIVERED if codes[0] == 0 else sms.FAILED])
            self.labels.add('sent, with report' if how == 'wait' else 'sent')
        for code in codes:                   # whether the callback is told about it, too, is not specified
            self.reports = [r for r in self.reports if r[2] != index]
        equal([x[:2] for x in reassemble(d.sent[mark:])], [(number, text)], what + ': message as received')

    def op_arrive(self, what, kind, which, body, mem):
        self.arrival(kind, which, body, mem)
        self.labels.add('arrival of a ' + kind)

    def op_raise(self, what, events, which):
        """ Several arrive in one burst, and the callback raises for one of them; what becomes of that one in the modem is not specified """
        got = [self.arrival(*e, line=True) for e in events]
        m, index, _ = got[which % len(got)]
        self.raising = index
        self.d.urc(''.join('\r\n%s\r\n' % g[2] for g in got))
        self.sim.sleep(3)
        equal(self.raising, None, what + ': callbacks not called')
        self.d.store[m].pop(index, None)
        self.labels.add('callback raises' if len(got) == 1 else 'callback raises in a burst')

    def op_ussd(self, what, string, mode, before, then):
        d, m = self.d, self.modem
        if mode == 'error':
            d.ussd = [lambda dev, s: dev.answer((), '+CME ERROR: 30')]
            self.error(what, self.exc.CmeError, m.sendUssd, string)
            return
        if mode == 'silent':
            d.ussd = [lambda dev, s: dev.answer()]
            self.error(what, self.exc.TimeoutException, m.sendUssd, string, responseTimeout=2)
            self.labels.add('no USSD answer')
            return
        texts = ['answer %d' % self.text(), 'answer %d' % self.text()]

        def act(text, n):
            line = '+CUSD: %d,"%s",15' % (n, text)

            def go(dev, s):
                if before:
                    dev.answer([line])
                else:
                    dev.answer()
                    dev.sim.at(0.3, lambda: dev.urc('\r\n%s\r\n' % line))
            return go
        d.ussd = [act(texts[0], 1 if then else 0), act(texts[1], 0)]
        mark = len(d.ussd_log)
        r = m.sendUssd(string)
        equal((r.message, r.sessionActive), (texts[0], bool(then)), what + ': USSD answer')
        if then == 'reply':
            r = r.reply('1')
            equal((r.message, r.sessionActive), (texts[1], False), what + ': USSD answer to the reply')
        elif then == 'cancel':
            r.cancel()
            self.cancels += 1
        equal(d.ussd_log[mark:], [string] + (['1'] if then == 'reply' else []), what + ': USSD strings')
        d.ussd = []
        self.labels.add('USSD')

    def op_dial(self, what, number, outcome, tones, local):
        d, m, rig = self.d, self.modem, self.rig
        notified = self.family != 'generic'
        seen = []
        updates = lambda: [(c is call, a, b) for c, a, b in seen]
        if outcome == 'refused' and self.family in ('generic', 'huawei'):
            d.dial_plan = ['+CME ERROR: 30']
            self.error(what, self.exc.CmeError, m.dial, number)
            self.labels.add('dialling refused')
            return
        wait = 0.1 if notified else 1.3
        calls = []

        def plan(dev, call):
            calls.append(call)

            def go():
                dev.urc(dev.call_started(call))
                if outcome == 'answered':
                    self.sim.at(wait, lambda: dev.urc(dev.call_answered(call)))
                elif outcome == 'rejected':
                    self.sim.at(wait, lambda: dev.urc(dev.call_ended(call)))
            self.sim.at(self.latency + 0.05, go)
        d.dial_plan = [plan]
        call = m.dial(number, callStatusUpdateCallbackFunc=lambda c: seen.append((c, c.answered, c.active))) # possibly called before dial() has returned
        equal((call.number, d.dialled[-1]), (number, number), what + ': number dialled')
        self.sim.sleep(wait + 1.6)
        if outcome == 'rejected':
            equal((call.answered, call.active), (False, False), what + ': rejected call (answered, active)')
            equal(updates(), [(True, False, False)], what + ': status callbacks')
            self.labels.add('rejected')
            return
        if outcome == 'answered':
            equal((call.answered, call.active), (True, True), what + ': answered call (answered, active)')
            if tones:
                mark = len(d.tones)
                call.sendDtmfTone(tones)
                equal(d.tones[mark:], [[(call.id if self.family == 'huawei' else None, t) for t in tones]], what + ': tones')
            self.labels.add('answered')
        else:
            equal((call.answered, call.active), (False, True), what + ': call (answered, active)')
            self.labels.add('given up')
        if local or outcome != 'answered' or not notified:
            call.hangup()
            self.hangups += 1
            self.sim.sleep(1.5)
            equal(updates()[:1], [(True, True, True)] if outcome == 'answered' else updates()[:1], what + ': status callbacks')
        else:
            d.urc(d.call_ended(calls[0]))
            self.sim.sleep(1.0)
            equal(updates(), [(True, True, True), (True, False, False)], what + ': status callbacks')
        equal((call.answered, call.active), (False, False), what + ': ended call (answered, active)')

    def op_ring(self, what, number, rings, action, local):
        d = self.d
        c = d.new_call(1, number, 4)
        mark = len(self.rings)
        if not d.cfg['clip']:
            number = ''
        for i in range(rings):
            d.urc(('\r\n+CRING: VOICE\r\n' if d.cfg['crc'] else '\r\nRING\r\n') + ('\r\n+CLIP: "%s",%d\r\n' % (number, 145 if number[0] == '+' else 129) if number else ''))
            self.sim.sleep(1.0)
        got = self.rings[mark:]
        equal([(x[1], x[2]) for x in got], [(number or None, i + 1) for i in range(rings)], what + ': rings announced')
        call = got[0][0]
        require(all(x[0] is call for x in got), '{0}: the same call is announced with several objects', what)
        equal((call.ringing, call.answered, call.active), (True, False, True), what + ': (ringing, answered, active)')
        if action == 'answer':
            call.answer()
            self.answers += 1
            equal((call.answered, c['state']), (True, 0), what + ': answered')
        if local or self.family == 'generic':
            call.hangup()
            self.hangups += 1
        else:
            d.urc(d.call_ended(c))
        self.sim.sleep(1.0)
        equal((call.ringing, call.answered, call.active), (False, False, False), what + ': (ringing, answered, active) at the end')
        self.labels.add('incoming call')

    def stored(self, mem, count, status=1):
        """ puts messages into the SIM without a notification """
        m = self.mems[mem % len(self.mems)]
        out = []
        for _ in range(count):
            i = 100 + self.text()
            self.d.store[m][i] = device.deliver('+2785', 'stored %d' % i, T0, status)
            self.store[m].add(i)
            out.append((i, 'stored %d' % i))
        return m, out

    def op_list(self, what, mem, count, status, delete):
        m, new = self.stored(mem, count)
        d, modem = self.d, self.modem
        unread = [x[1] for x in new] if status else []
        if status:
            for i, _ in new:
                d.store[m][i].status = 0
        want = [d.store[m][i].text for i in sorted(self.store[m]) if not status or d.store[m][i].status == 0]
        got = modem.listStoredSms(memory=m, delete=delete, **({'status': 0} if status else {}))
        equal([x.text for x in got if x.text is not None and not x.text.startswith('arrival')], want, what + ': messages listed')
        require(not status or set(unread) <= set(want), '{0}: model', what)
        if delete:
            gone = [i for i in self.store[m] if d.store[m].get(i) is None]
            self.store[m] -= set(gone)
            equal([t for t in want if t in [x.text for x in d.store[m].values()]], [], what + ': listed messages that are still in the modem')
            equal(len(gone), len(want), what + ': number of messages deleted')
        self.labels.add('listed')

    def op_process(self, what, count, unread):
        """ messages that were not announced are delivered by processing the stored ones """
        m = self.d.cfg['mem'][0]
        if m not in self.mems:
            return
        mem = self.mems.index(m)
        self.stored(mem, count, 0 if unread else 1)
        box = self.d.store[m]
        todo = [i for i in sorted(self.store[m]) if not unread or box[i].status == 0]
        self.want_sms += [(box[i].number, box[i].text) for i in todo]
        self.modem.processStoredSms(unreadOnly=unread)
        self.store[m] -= set(todo)
        self.labels.add('processed')

    def op_read(self, what, mem, delete):
        m, new = self.stored(mem, 1)
        i, text = new[0]
        equal(self.modem.readStoredSms(i, m).text, text, what + ': message read')
        if delete:
            self.modem.deleteStoredSms(i, m)
            self.store[m].discard(i)
        else:
            self.error(what, self.exc.CmsError, self.modem.deleteStoredSms, 99, m)
        self.labels.add('read')

    def op_mode(self, what, textmode):
        self.modem.smsTextMode = textmode
        equal(self.d.cfg['cmgf'], int(textmode), what + ': +CMGF setting')
        self.labels.add('text mode' if textmode else 'PDU mode')

    def op_info(self, what):
        m = self.modem
        equal((m.signalStrength, m.networkName, m.imsi, m.smsc), (18, 'Vodacom-SA', '222222222222222', self.d.cfg['csca']), what + ': signal, network, IMSI, SMSC')
        equal(m.waitForNetworkCoverage(), 18, what + ': waitForNetworkCoverage')

    def op_fault(self, what, kind):
        d, m = self.d, self.modem
        if kind == 'silent':
            d.silence = 5.1
            d.fault('^AT.CSQ$', 'silent')
            self.error(what, self.exc.TimeoutException, lambda: m.signalStrength)
            d.silence = 60.0
            self.labels.add('a command times out')
        elif kind == 'busy':
            d.busy['AT+CSQ'] = 3
            equal(m.signalStrength, 18, what + ': signal strength')
            self.labels.add('busy')
        else:
            d.fault('^AT.CSQ$', kind)
            self.error(what, self.exc.CommandError, lambda: m.signalStrength)


number = st.sampled_from(['+27820001234', '0820001234', '+1', '112'])
arrive = st.tuples(st.sampled_from(['message', 'message', 'report']), st.integers(0, 5), st.integers(0, 5), st.integers(0, 2))
op = st.one_of(
    st.tuples(st.just('send'), number, st.sampled_from([0, 20, 300]), st.sampled_from(['plain', 'plain', 'wait', 'timeout', 'refused']), st.integers(0, 1)),
    arrive.map(lambda a: ('arrive',) + a), st.tuples(st.just('raise'), st.lists(arrive, min_size=1, max_size=3), st.integers(0, 2)),
    st.tuples(st.just('ussd'), st.sampled_from(['*101#', '1', '*120*1#']), st.sampled_from(['ok', 'ok', 'ok', 'error', 'silent']), st.booleans(), st.sampled_from([None, None, 'reply', 'cancel'])),
    st.tuples(st.just('dial'), number, st.sampled_from(['answered', 'answered', 'rejected', 'given up', 'refused']), st.sampled_from(['', '1', '12#*A']), st.booleans()),
    st.tuples(st.just('ring'), st.sampled_from(['+27820001234', '0820001234', '']), st.integers(1, 3), st.sampled_from(['answer', 'none']), st.booleans()),
    st.tuples(st.just('list'), st.integers(0, 2), st.integers(0, 3), st.booleans(), st.booleans()),
    st.tuples(st.just('process'), st.integers(0, 3), st.booleans()), st.tuples(st.just('read'), st.integers(0, 2), st.booleans()),
    st.tuples(st.just('mode'), st.booleans()), st.tuples(st.just('info')), st.tuples(st.just('fault'), st.sampled_from(['silent', 'busy', 'ERROR', '+CME ERROR: 30', '+CMS ERROR: 500'])))
during = st.one_of(st.just(()), st.just(()), st.lists(st.tuples(st.sampled_from([0.0, 0.005, 0.012, 0.03, 0.2, 0.6, 1.5]), st.sampled_from(['message', 'report']), st.integers(0, 5), st.integers(0, 5), st.integers(0, 2)), min_size=1, max_size=3).map(tuple))


class NoDevice(object):
    """ a port that can not be opened """
    SerialException = IOError

    def attach(self, port):
        raise IOError('could not open the port')


FRAGMENTS = ['\r\nRING\r\n+C', '\r\n+CRING: VOICE\r\n\r\n+CLIP: "+2789",145\r\n\r', 'RIN', '\r\n+CRING: VOICE\r\n\r\n+CLIP: "+27', '\r\n^RSSI:20\r\nRING\r\n+', 'x']
TRANSIENT = ['^AT.CNMI=', '^AT.CPMS=.$', '^AT.CLIP=', '^AT.CRC=', '^AT.CLAC', '^AT.WIND.$', '^AT.ZPAS', '^AT.CSCA.$', '^AT.COPS=', '^AT.CSMP=', '^AT.CVHU', '^AT.CMEE', '^AT.CFUN.$']


class Reconnecting(Session):
    auto = False

    def on_fatal(self, e):
        Session.on_fatal(self, e)
        if self.auto:
            self.auto = False
            self.d.restart()
            self.connect()

    def lose(self, what):
        del self.fatal[:]
        self.d.port.fail_read = self.rig.shims['serial'].SerialException('device disconnected')
        self.sim.sleep(3)
        equal(len(self.fatal), 1, what + ': fatal errors reported')

    def op_reconnect(self, what, how, arg, swap, offline):
        d, m, exc = self.d, self.modem, self.exc
        rings = len(self.rings)
        if how == 'close':
            m.close()
        elif how == 'lost':
            self.lose(what)
            if arg % 2:
                m.close()
        elif how == 'fragment':
            d.port.rx_put(FRAGMENTS[arg % len(FRAGMENTS)])
            self.sim.sleep(0.5)
            if arg % 2:
                m.close()
            else:
                self.lose(what)
            rings = len(self.rings)
        elif how == 'command':
            d.silence = 30.0
            d.fault('^AT.CSQ$', 'silent')
            got = []

            def ask():
                try:
                    got.append(m.signalStrength)
                except exc.TimeoutException:
                    got.append('timeout')
            t = self.rig.spawn(ask)
            self.sim.sleep(1)
            self.lose(what)
            if arg % 2:
                t.join()
                m.close()
            t.join()
            equal(got, ['timeout'], what + ': outcome of the command')
            d.silence = 60.0
        elif how == 'callback':
            self.auto = True
            if arg % 2 and not m.smsTextMode:
                i, l = d.arrive(device.deliver('+2784', 'offline', T0), self.mems[0], 99, notify=False)
                d.store[self.mems[0]].pop(i)
            self.lose(what)
            self.sim.sleep(25)
        elif how == 'unopened':
            m.close()
            self.rig.device = NoDevice()
            try:
                m.connect()
            except IOError:
                pass
            else:
                raise Violation('%s: connected although the port can not be opened' % what)
            equal(m.alive, False, what + ': alive')
        elif how == 'pin':
            m.close()
            d.restart()
            d.p['pin'], d.locked, d.pin_left = '1234', True, 3
            self.error(what, exc.PinRequiredError if arg % 2 else exc.IncorrectPinError, self.connect, **({} if arg % 2 else {'pin': '4321'}))
            m.close()
        elif how == 'transient':
            m.close()
            d.restart()
            d.fault(TRANSIENT[arg % len(TRANSIENT)], '+CME ERROR: 100')
            try:
                self.connect()
            except exc.CommandError:
                pass
            del d.faults[:]
            m.close()
        elif how == 'twice':
            m.close()
            d.restart()
            self.connect()
            m.close()
        if how != 'callback':
            equal(m.alive, False, what + ': alive while disconnected')
            if swap and how != 'pin':
                textmode = d.cfg['cmgf']
                self.attach(*swap)
                self.kept = []
                self.labels.add('another modem attached')
            else:
                d.restart()
            for which, mem in offline:
                self.arrival('message', which, 0, mem, notify=False)
                self.labels.add('messages while disconnected')
            self.connect(**({'pin': '1234'} if how == 'pin' else {}))
            self.sim.sleep(1)
        require(len(self.rings) == rings, '{0}: a call is announced that rang before', what)
        d = self.d
        equal(d.echo, False, what + ': echo')
        if self.d.has('CNMI'):
            equal(d.cfg['cnmi'] and d.cfg['cnmi'][:2], (2, 1), what + ': +CNMI setting')
        equal((d.cfg['clip'], d.cfg['crc']), (int(d.has('CLIP')), int(d.has('CLIP') and d.has('CRC'))), what + ': caller ID and extended ring format')
        equal(m.smsc, d.cfg['csca'], what + ': SMSC number')
        self.labels.add('reconnected: ' + how)


modem = st.tuples(st.sampled_from(FAM), st.one_of(st.none(), st.tuples(st.sampled_from([(), (), ('CRC',), ('CLIP',)]), st.one_of(st.none(), st.integers(0, len(profiles.CPMS) - 1)))))
reconnect = st.tuples(st.just('reconnect'), st.sampled_from(['close', 'lost', 'fragment', 'fragment', 'command', 'callback', 'unopened', 'pin', 'transient', 'transient', 'twice']), st.integers(0, 12),
                      st.one_of(st.none(), st.none(), modem), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 2)), max_size=2))
