# -*- coding: utf-8 -*-
""" C25: waiting for a delivery report ends with its own report or a timeout """
from hypothesis import strategies as st
from vf import device, gens, msgs
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules, dense

MEMS = ('ME', 'SM', 'SR')
TIMES = [(2024, 2, 29, 23, 59, 58, 8), (2013, 3, 8, 15, 2, 16, -20)]


def run(case):
    textmode, ref0, threads, strays, latency, sched = case
    rig = Rig(lambda sim: device.Modem(sim, {'echo': False, 'ref': ref0}, latency))
    d, exc = rig.device, rig.exc
    labels = set()
    got, results = [], []
    plan = {}                          # text -> (limit or None, report delay or None, together, code, mem)
    log = {}                           # text -> [ref, confirmed at, report arrived at]
    reports = []                       # (ref, text or None, code, number)
    slack = 1.5 + 60 * latency

    def main():
        modem = rig.modem(smsStatusReportCallback=got.append)
        modem.smsTextMode = textmode
        modem.connect()
        rig.arm(sched)

        def arrive(ref, text, code, mem):
            n = len(reports)
            number = '+2782%05d' % n
            i, line = d.arrive(device.report(ref, number, TIMES[n % 2], TIMES[(n + 1) % 2], code), mem, 100 + n, notify=False)
            reports.append((ref, text, code, number))
            return '\r\n%s\r\n' % line

        def key(rec):
            k = rec['text'][:8]
            return k if k in plan else None

        def tail(rec):
            k = key(rec)
            log[k] = [rec['ref'], rig.sim.now, None]
            limit, delay, together, code, mem, stray, dup = plan[k]
            out = ''
            if stray is not None:              # a report for something else arrives first
                out += arrive((rec['ref'] + stray) % 256, None, code, mem)
            if delay is not None and together:
                log[k][2] = rig.sim.now
                out += arrive(rec['ref'], k, code, mem) + (arrive(rec['ref'], k, code, mem) if dup else '')
                labels.add('report with the confirmation')
            return out if together else out

        def after(rec):
            k = key(rec)
            limit, delay, together, code, mem, stray, dup = plan[k]
            if delay is not None and not together:
                def go():
                    log[k][2] = rig.sim.now
                    d.urc(arrive(rec['ref'], k, code, mem) + (arrive(rec['ref'], k, code, mem) if dup else ''))
                rig.sim.at(latency + delay, go)
        d.sent_tail, d.after_sent = tail, after

        def worker(items):
            for text, number, limit, delay, together, code, mem, stray, pause, dup in items:
                rig.sim.sleep(pause)
                kw = {} if limit is None else {'waitForDeliveryReport': True, 'deliveryTimeout': limit}
                try:
                    r = modem.sendSms(number, text, **kw)
                except Exception as e:
                    r = e
                results.append((text, number, limit, r, rig.sim.now))
        ts = []
        for n, items in enumerate(threads):
            named = []
            for m, (number, limit, delay, together, code, mem, stray, pause, dup) in enumerate(items):
                text = 'msg %02d%02d' % (n, m)
                plan[text] = (limit, delay, together, code, mem, stray, dup)
                named.append((text, number, limit, delay, together, code, mem, stray, pause, dup))
            ts.append(rig.spawn(lambda named=named: worker(named), 'sender%d' % n))
        for at, ref, code, mem in strays:
            rig.sim.at(at, lambda ref=ref, code=code, mem=mem: d.urc(arrive(ref, None, code, mem)))
        for t in ts:
            t.join()
        rig.sim.sleep(30)
        equal(modem.signalStrength, 18, 'signal strength')
        d.sent_tail = d.after_sent = None
        modem.close()
    rig.run(main)
    rig.deaths()
    waited = {}                        # number of the reports that ended a wait
    optional = set()
    for text, number, limit, r, end in results:
        ref, at, rep = log[text]
        what = 'message %r with reference %d' % (text, ref)
        mine = [x for x in reports if x[1] == text]
        alien = [x for x in reports if x[0] == ref and x[1] is None]     # a stray report with the very same reference
        if limit is None:
            require(not isinstance(r, Exception), '{0}: {1!r}', what, r)
            continue
        if alien:
            optional.update(x[3] for x in mine + alien)
            labels.add('stray report with the reference')
            continue
        if isinstance(r, Exception):
            require(isinstance(r, exc.TimeoutException), '{0}: {1!r}', what, r)
            require(rep is None or rep + slack > at + limit, '{0}: TimeoutException although the report arrived {1:.2f} s after the confirmation (limit {2} s)', what, rep and rep - at, limit)
            require(end - at >= limit - 1e-6, '{0}: TimeoutException after {1:.3f} s, limit {2} s', what, end - at, limit)
            require(end - at <= limit + slack, '{0}: TimeoutException after {1:.3f} s, limit {2} s', what, end - at, limit)
            labels.add('timeout')
            if rep is not None and rep < at + limit:
                optional.update(x[3] for x in mine)
            elif rep is not None:
                labels.add('late report')
        else:
            require(rep is not None and rep <= at + limit + slack and rep <= end, '{0}: returned without its report', what)
            require(end <= rep + slack, '{0}: returned {1:.2f} s after its report', what, end - rep)
            require(r.report is not None, '{0}: returned without a report attached', what)
            equal((r.number, r.text, r.reference), (number, text, ref), what + ': returned object')
            require((r.report.reference, r.report.deliveryStatus) == (ref, mine[0][2]) and r.report.number in [x[3] for x in mine], '{0}: report {1} {2} {3}', what, r.report.reference, r.report.number, r.report.deliveryStatus)
            if len(mine) > 1:
                labels.add('report repeated')
            equal(r.status, r.DELIVERED if mine[0][2] == 0 else r.FAILED, what + ': status')
            waited[mine[0][3]] = 1
            labels.add('report')
    # every report nobody was waiting for went to the callback, once
    seen = sorted(x.number for x in got if x.number not in optional)
    equal(seen, sorted(x[3] for x in reports if x[3] not in waited and x[3] not in optional), 'reports passed to the callback')
    equal(sum(len(d.store[m]) for m in MEMS), 0, 'reports left in the modem')
    require(not d.overlaps, 'commands overlapped: {0}', d.overlaps[:3])
    if any(x[1] is None for x in reports):
        labels.add('other reports')
    if sum(1 for t in threads if any(i[1] is not None for i in t)) > 1:
        labels.add('several threads wait')
    if rig.sim.preempted:
        labels.add('preempted')
    return sorted(labels)


@st.composite
def gen(draw):
    ref0 = draw(st.sampled_from([0, 254, 100]))
    code = st.one_of(st.sampled_from([0, 0, 68, 0x20, 1]), st.sampled_from([0, 0, 68, 0x20, 1]), st.integers(0, 255))
    mem = st.sampled_from(MEMS)
    item = st.tuples(gens.number(3, 12), st.sampled_from([15, 2, 0.5, 15, 5, None]), st.sampled_from([None, 0.0, 0.0, 0.02, 0.3, 1.0, 4.0, 20.0]), st.booleans(), code, mem,
                     st.sampled_from([None, None, None, -1, 100, 7]), st.sampled_from([0.0, 0.0, 0.01, 2.0]), st.sampled_from([False] * 5 + [True]))
    threads = draw(st.one_of(st.lists(st.lists(item, min_size=1, max_size=4), min_size=1, max_size=1), st.lists(st.lists(item, min_size=1, max_size=2), min_size=2, max_size=3)))
    strays = draw(st.lists(st.tuples(st.sampled_from([0.0, 0.02, 0.1, 0.4, 1.0, 3.0]), st.one_of(st.integers(90, 99), st.integers(0, 255)), code, mem), max_size=3))
    return (draw(st.booleans()), ref0, threads, strays, draw(st.sampled_from([0.01, 0.0, 0.03])), draw(st.one_of(schedules(), dense())))


SUBS = [Sub('wait', run, gen, quick=2800, thorough=70000, shards=7, rule='every case; the labels say what happened')]
