# -*- coding: utf-8 -*-
""" C21: two-step operations are atomic against other threads """
from hypothesis import strategies as st
from vf import device
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, dense

T0 = (2024, 2, 29, 23, 59, 58, 8)
MEMS = ('ME', 'SM', 'SR')


def reassemble(recs):
    """ What the recipients' phones make of the submitted PDUs: {(number, text): [references of last parts]} """
    out, open_ = [], {}
    for rec in recs:
        require('error' not in rec, 'the modem cannot make sense of a message: {0} ({1!r})', rec.get('error'), rec['raw'][:200])
        if rec['mode'] == 'text':
            out.append((rec['number'], rec['text'], rec['ref']))
            continue
        number = ('+' if rec['da']['ton'] == 1 else '') + rec['da']['value']
        cat = [bytes(x[1]) for x in (rec['udh'] or []) if x[0] in (0, 8)]
        if not cat:
            out.append((number, rec['text'], rec['ref']))
            continue
        key = (number, cat[0][:-1])
        parts = open_.setdefault(key, {})
        n = cat[0][-1]
        require(n not in parts, 'two parts {0} with the same reference for {1}', n, number)
        parts[n] = rec
        if len(parts) == cat[0][-2]:
            last = parts[max(parts)]
            out.append((number, ''.join(parts[i]['text'] for i in sorted(parts)), last['ref']))
            del open_[key]
    require(not open_, 'incomplete messages: {0}', sorted(open_))
    return out


def run(case):
    textmode, programs, arrivals, latency, sched, trace = case
    rig = Rig(lambda sim: device.Modem(sim, {'echo': False}, latency), None, trace)
    d = rig.device
    labels = set()
    problems = []
    static = {}
    for m in MEMS:
        for i in range(2):
            k = 'static %s %d' % (m, i)
            static[m, 40 + i] = k
            d.store[m][40 + i] = device.deliver('+2782000', k, T0, 1)
    got, reports, sent = [], [], []

    def main():
        modem = rig.modem(smsReceivedCallbackFunc=got.append, smsStatusReportCallback=reports.append)
        modem.smsTextMode = textmode
        modem.connect()
        d.deleted = []
        rig.arm(sched)
        want, base = [], rig.sim.now

        def arrive(n, mem, rep):
            # status reports and messages are stored in any of the memories
            if rep:
                m = device.report(n, '+2783000', T0, T0, 0)
            else:
                m = device.deliver('+2784000', 'arrival %d' % n, T0)
            d.arrive(m, mem)

        for n, (t, mem, rep) in enumerate(arrivals):
            rig.sim.at(t, lambda n=n, mem=mem, rep=rep: arrive(n, mem, rep))

        def user(t):
            for k, op in enumerate(programs[t]):
                try:
                    step(t, k, op)
                except Violation:
                    raise
                except Exception as e:
                    problems.append('%s raised %s: %s' % (op[0], type(e).__name__, e))

        def step(t, k, op):
            if op[0] == 'send':
                text = ('%d-%d ' % (t, k)) + 'x' * op[2]
                sms = modem.sendSms(op[1], text)
                sent.append((op[1], text, sms.reference))
            elif op[0] == 'signal':
                s = modem.signalStrength
                if s != 18:
                    problems.append('signal strength %r' % s)
            elif op[0] == 'read':
                sms = modem.readStoredSms(40 + op[2], op[1])
                if sms.text != static[op[1], 40 + op[2]]:
                    problems.append('message read from %s: %r' % (op[1:], sms.text))
            elif op[0] == 'list':
                msgs = modem.listStoredSms(memory=op[1])
                texts = [m.text for m in msgs if m.text is not None]
                have = [x for x in texts if x.startswith('static')]
                need = [v for (m, i), v in sorted(static.items()) if m == op[1]]
                if have != need:
                    problems.append('static messages listed in %s: %r' % (op[1], have))
                for x in texts:
                    if x.startswith('arrival') and arrivals[int(x.split()[1])][1] != op[1]:
                        problems.append('%r listed in %s' % (x, op[1]))
            elif op[0] == 'delete':
                i = 60 + t * 10 + k
                modem.deleteStoredSms(i, op[1])
            elif op[0] == 'purge' and op[2]:
                modem.deleteMultipleStoredSms(op[2], op[1])
            elif op[0] == 'purge':
                texts = [m.text for m in modem.listStoredSms(memory=op[1], delete=True)]
                if not set(texts) <= set(['victim'] + [v for (m, i), v in static.items() if m == op[1]]):
                    problems.append('%r listed in %s' % (texts, op[1]))
        for t, prog in enumerate(programs):
            for k, op in enumerate(prog):
                if op[0] == 'delete':
                    for m in MEMS:                       # the same index in the other memories must survive
                        d.store[m][60 + t * 10 + k] = device.deliver('+2782000', 'victim', T0, 1)
        threads = [rig.spawn(lambda t=t: user(t), 'user-%d' % t) for t in range(len(programs))]
        for t in threads:
            t.join()
        rig.sim.sleep(30)
        modem.close()
    rig.run(main)
    rig.deaths()
    require(not problems, '{0}', '; '.join(problems))
    require(not d.overlaps, 'commands overlapped: {0}', d.overlaps[:3])
    equal(sorted(reassemble(d.sent)), sorted(sent), 'messages received by the recipients')
    equal(sorted(g.text for g in got), sorted('arrival %d' % n for n, a in enumerate(arrivals) if not a[2]), 'received messages passed to the callback')
    equal(sorted(g.reference for g in reports), sorted(n for n, a in enumerate(arrivals) if a[2]), 'status reports passed to the callback')
    dels = {(op[1], 60 + t * 10 + k) for t, prog in enumerate(programs) for k, op in enumerate(prog) if op[0] == 'delete'}
    left = {(m, i) for m in MEMS for i in d.store[m]}
    victims = {(m, i) for m in MEMS for (x, i) in dels}
    ops = set(op[0] for p in programs for op in p)
    purged = set(op[1] for p in programs for op in p if op[0] == 'purge')
    equal(sorted(left), sorted(k for k in set(static) | (victims - dels) if k[0] not in purged), 'messages left in the modem')
    labels |= set('op ' + o for o in ops)
    if arrivals:
        labels.add('arrivals in %d memories' % len(set(a[1] for a in arrivals)))
    if rig.sim.preempted:
        labels.add('preempted')
    if not arrivals and len(programs) < 2:
        return []
    return sorted(labels)


mem = st.sampled_from(MEMS)
op = st.one_of(st.tuples(st.just('send'), st.sampled_from(['+2781', '+2782', '0833']), st.sampled_from([0, 20, 160, 320])), st.tuples(st.just('signal')),
               st.tuples(st.just('read'), mem, st.integers(0, 1)), st.tuples(st.just('list'), mem), st.tuples(st.just('delete'), mem),
               st.tuples(st.just('purge'), mem, st.sampled_from([0, 1, 2, 4])))
arrival = st.tuples(st.one_of(st.just(0.0), st.integers(0, 200).map(lambda n: n * 0.004)), mem, st.booleans())


def gen(trace=None):
    def g():
        return st.tuples(st.booleans() if not trace else st.just(False), st.lists(st.lists(op, min_size=1, max_size=3), min_size=2, max_size=3), st.lists(arrival, max_size=4),
                         st.sampled_from([0.01, 0.0, 0.05]), dense(10, 40 if not trace else 250), st.just(trace)).map(fix)
    return g


def fix(t):
    # a memory that is emptied is used for nothing else
    gone = [o[1] for p in t[1] for o in p if o[0] == 'purge'][:1]
    if gone:
        other = lambda m: MEMS[(MEMS.index(m) + 1) % 3] if m == gone[0] else m
        t = (t[0], [[o[:1] + (gone[0],) + o[2:] if o[0] == 'purge' else o[:1] + (other(o[1]),) + o[2:] if o[0] in ('read', 'list', 'delete') else o for o in p] for p in t[1]],
             [(a[0], other(a[1]), a[2]) for a in t[2]]) + t[3:]
    if t[0]:                                             # text mode: single messages of up to 160 characters, no listing of reports
        progs = [[(o[0], o[1], min(o[2], 100)) if o[0] == 'send' else o for o in p] for p in t[1]]
        return (t[0], progs) + t[2:]
    return t


def enum(tier):
    pair = [(('send', '+2781', 20), ('signal',)), (('send', '+2781', 320), ('send', '+2781', 320)), (('read', 'ME', 0), ('read', 'SM', 0)), (('list', 'ME'), ('delete', 'SM')), (('purge', 'SR', 1), ('read', 'SM', 0)), (('purge', 'ME', 4), ('list', 'SM')), (('purge', 'ME', 0), ('delete', 'SM'))]
    for a, b in pair:
        for g1 in range(0, 40):
            for tm in (False, True):
                if tm and a[0] == 'send' and a[2] > 100:
                    continue
                yield (tm, [[a], [b]], [], 0.01, {'pre': [[g1, 0]], 'quiet': True, 'urc': True}, None)
                if a[:2] == ('purge', 'SR'):
                    continue
                yield (tm, [[a], [b]], [(0.01, 'SM', False), (0.02, 'SR', True)], 0.01, {'pre': [[g1, 0]], 'quiet': True, 'urc': True}, None)
    # a notified message being fetched, disturbed at each point by another handler or thread that uses another memory
    for g1 in range(0, 60):
        for rep in (False, True):
            for tm in (False, True):
                for pick in (0, 1, 2):
                    yield (tm, [[('signal',)], [('signal',)]], [(0.0, 'SM', rep), (0.0, 'ME', not rep)], 0.01, {'pre': [[g1, pick]], 'quiet': True, 'urc': True}, None)
                yield (tm, [[('read', 'ME', 0), ('list', 'ME')]], [(0.0, 'SM', rep)], 0.01, {'pre': [[g1, 0]], 'quiet': True, 'urc': True}, None)
                yield (tm, [[('read', 'ME', 0), ('list', 'ME')]], [(0.005, 'SM', rep), (0.03, 'SR', rep)], 0.01, {'pre': [[g1, 0], [3, 0]], 'quiet': True, 'urc': True}, None)


SUBS = [Sub('atomic', run, gen(), quick=2400, thorough=60000, enum=enum, shards=7, rule='at least two threads or a notification'),
        Sub('fine', run, gen('line'), quick=1200, thorough=25000, shards=7, rule='at least two threads or a notification; preemption between source lines')]
