# -*- coding: utf-8 -*-
""" C29: DTMF tones are sent in order, only in an answered call """
from hypothesis import strategies as st
from vf import device, profiles
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules

FAM = sorted(profiles.FAMILIES)
ERRORS = ['+CME ERROR: 30', '+CME ERROR: 3', '+CME ERROR: 1234', '+CME ERROR: 4', '+CME ERROR: 0', '+CMS ERROR: 3', '+CMS ERROR: 30', 'ERROR', '+CME ERROR: 300', '+CMS ERROR: 500']


def expect_error(exc, final):
    if final in ('+CME ERROR: 30', '+CME ERROR: 3'):
        return exc.InterruptedException, final
    return exc.CmeError if '+CME' in final else exc.CmsError if '+CMS' in final else exc.CommandError, final


def run(case):
    families, ops, latency, sched = case
    make = lambda sim, fam: device.Modem(sim, dict({'echo': False}, **profiles.FAMILIES[fam]), latency)
    rig = Rig(lambda sim: make(sim, families[0]))
    exc = rig.exc
    labels = set()

    def main():
        pairs = []
        ringing = {}
        for i, fam in enumerate(families):
            d = rig.device if i == 0 else make(rig.sim, fam)
            rig.device = d
            m = rig.modem(incomingCallCallbackFunc=lambda call, i=i: ringing.__setitem__(i, call))
            rig.modem_mod.Call.dtmfSupport = False
            m.connect()
            if fam != 'generic':
                require(rig.modem_mod.Call.dtmfSupport is True, 'Call.dtmfSupport is {0} after connecting to {1}', rig.modem_mod.Call.dtmfSupport, fam)
            pairs.append((m, d, fam, []))
        rig.arm(sched)
        if len(set(d.p['family'] for _, d, _, _ in pairs)) > 1:
            labels.add('several modem families')

        def issued(x):
            return sum(1 for _, c in x.commands if c != 'AT+CLCC')      # a generic modem is polled for the state of calls

        for n, op in enumerate(ops):
            k, which = op[0], op[1] % len(pairs)
            m, d, fam, calls = pairs[which]
            family = d.p['family']
            what = 'step %d %s (modem %d, %s)' % (n, k, which, fam)
            if k == 'dial':
                if calls and not calls[-1][2] == 'answered' or len(calls) > 2:
                    continue

                def plan(dev, call):
                    def go():
                        dev.urc(dev.call_started(call))
                        if op[2]:
                            rig.sim.at(0.6, lambda: dev.urc(dev.call_answered(call)))
                    rig.sim.at(latency + 0.05, go)
                d.dial_plan = [plan]
                c = m.dial('+2782%d' % n)
                rig.sim.sleep(3)
                equal(c.dtmfSupport, fam != 'generic', what + ': dtmfSupport of the call')
                calls.append([c, d.last_call, 'answered' if op[2] else 'dialling'])
                require(c.answered == bool(op[2]), '{0}: answered: {1}', what, c.answered)
            elif k == 'ring':
                if calls and calls[-1][2] != 'answered' or len(calls) > 2:
                    continue
                ringing.clear()
                c = d.new_call(1, '+2783%d' % n, 4)
                d.urc('\r\n+CRING: VOICE\r\n\r\n+CLIP: "%s",145\r\n' % c['number'])
                rig.sim.sleep(1)
                require(which in ringing, '{0}: not announced', what)
                if op[2]:
                    ringing[which].answer()
                    c['state'] = 0
                equal(ringing[which].dtmfSupport, fam != 'generic', what + ': dtmfSupport of the call')
                calls.append([ringing[which], c, 'answered' if op[2] else 'ringing'])
            elif k == 'end':
                live = [c for c in calls if c[2] != 'ended']
                if not live or family == 'generic' and (op[2] or len(live) > 1):      # a hang-up ends all calls, which it does not report
                    continue
                if op[2] and family != 'generic':
                    c = live[op[2] % len(live)]
                    if c[0].id != c[1]['id'] or family == 'zte' and c[2] == 'dialling':
                        continue
                    d.urc(d.call_ended(c[1]))
                    rig.sim.sleep(0.5)
                    c[2] = 'ended'
                else:
                    live[-1][0].hangup()
                    rig.sim.sleep(1)
                    for c in live:
                        c[2] = 'ended'
                labels.add('a call ends')
            elif k == 'race':
                # the remote party hangs up just before the tones are sent: whether the library knows it in time or not, the command must not
                # seem to have succeeded
                if family not in ('huawei', 'wavecom') or len(calls) != 1 or calls[0][2] != 'answered' or calls[0][0].id != calls[0][1]['id']:
                    continue
                c = calls[0]
                sent = [issued(x) for _, x, _, _ in pairs]
                d.dtmf_result = op[4]
                if op[5]:                            # another command is in progress; the call ends as soon as it is done
                    text = d.call_ended(c[1])
                    d.fault(r'^AT\+CSQ', lambda dev, cmd: rig.sim.at(1.0, lambda: dev.answer(['+CSQ: 18,99'], tail=text)))
                    rig.spawn(lambda m=m: m.signalStrength)
                    rig.sim.sleep(0.1)
                    sent[which] += 1
                    labels.add('tones wait for another command')
                else:
                    d.urc(d.call_ended(c[1]))
                    rig.sim.sleep(op[2])
                try:
                    c[0].sendDtmfTone(op[3])
                except exc.InterruptedException as e:
                    cause = e.cause
                    require(isinstance(cause, exc.CmeError) and cause.code == int(op[4][11:]), '{0}: cause {1!r}', what, cause)
                    require(issued(d) == sent[which] + 1, '{0}: InterruptedException, but no command was sent', what)
                    labels.add('interrupted by the end of the call' + ('' if c[0].active else ', which is known already'))
                except exc.InvalidStateException:
                    equal([issued(x) for _, x, _, _ in pairs], sent, what + ': commands sent')
                except exc.CommandError as e:
                    raise Violation('%s: %r for %s' % (what, e, op[4]))
                else:
                    raise Violation('%s: no error' % what)
                d.dtmf_result = None
                rig.sim.sleep(1)
                if c[0].active:
                    c[0].hangup()
                    rig.sim.sleep(1)
                c[2] = 'ended'
                labels.add('the call ends at the same time')
            else:
                if not calls:
                    continue
                c = calls[op[2] % len(calls)]
                tones, final, slow = op[3], op[4], op[5]
                mark, sent = len(d.tones), [issued(x) for _, x, _, _ in pairs]
                d.dtmf_result = final
                d.dtmf_delay = slow * (5 + len(tones)) / 8.0
                ordered = None
                if c[2] != 'answered':
                    try:
                        c[0].sendDtmfTone(tones)
                    except exc.InvalidStateException as e:
                        require(not isinstance(e, exc.InterruptedException), '{0}: {1!r}', what, e)
                    else:
                        raise Violation('%s: tones accepted in a call that is %s' % (what, c[2]))
                    equal([issued(x) for _, x, _, _ in pairs], sent, what + ': commands sent')
                    labels.add('not answered')
                    continue
                try:
                    r = c[0].sendDtmfTone(tones)
                    require(final is None, '{0}: no error although the modem answered {1}', what, final)
                except exc.TimeoutException:
                    raise Violation('%s: timeout although %d tones took only %g s' % (what, len(tones), d.dtmf_delay))
                except (exc.CommandError, exc.InvalidStateException) as e:
                    require(final is not None, '{0}: {1!r}', what, e)
                    kind, text = expect_error(exc, final)
                    require(isinstance(e, kind), '{0}: {1!r} for {2}', what, e, final)
                    if kind is exc.InterruptedException:
                        cause = e.cause
                        require(isinstance(cause, exc.CmeError) and cause.code == int(final[11:]), '{0}: cause {1!r} for {2}', what, cause, final)
                        labels.add('interrupted')
                    elif kind is not exc.CommandError:
                        equal(e.code, int(final[11:]), what + ': error code')
                        labels.add('other error')
                    else:
                        require(type(e) is exc.CommandError, '{0}: {1!r}', what, e)
                        labels.add('other error')
                d.dtmf_result = None
                d.dtmf_delay = None
                after = [issued(x) for _, x, _, _ in pairs]
                equal(after, [s + (i == which) for i, s in enumerate(sent)], what + ': commands sent')
                equal(d.tones[mark:], [[(c[0].id if family == 'huawei' else None, t) for t in tones]], what + ': tones')
                if final is None:
                    labels.add('played')
                    if slow > 5:
                        labels.add('long transmission')
                    if len(tones) > 1:
                        labels.add('several tones')
                    if c[0].id > 1 and family == 'huawei':
                        labels.add('call id 2 or 3')
        for m, d, fam, calls in pairs:
            m.close()
    rig.run(main)
    rig.deaths()
    return sorted(labels)


@st.composite
def gen(draw):
    families = draw(st.lists(st.sampled_from(FAM), min_size=1, max_size=3))
    tones = st.one_of(st.text(alphabet='0123456789*#ABCD', min_size=1, max_size=8), st.text(alphabet='0123456789*#ABCD', min_size=1, max_size=60))
    which = st.integers(0, 2)
    op = st.one_of(st.tuples(st.sampled_from(['dial', 'ring']), which, st.sampled_from([1, 1, 1, 0])),
                   st.tuples(st.just('end'), which, st.integers(0, 3)),
                   st.tuples(st.just('race'), which, st.sampled_from([0.0, 0.0, 0.01, 0.001]), tones, st.sampled_from(ERRORS[:2]), st.booleans()),
                   st.tuples(st.just('tones'), which, st.integers(0, 2), tones, st.one_of(st.none(), st.none(), st.sampled_from(ERRORS)), st.integers(0, 7)),
                   st.tuples(st.just('tones'), which, st.integers(0, 2), tones, st.one_of(st.none(), st.none(), st.sampled_from(ERRORS)), st.integers(0, 7)))
    ops = [('dial' if draw(st.booleans()) else 'ring', i, 1) for i in range(len(families))] + draw(st.lists(op, min_size=1, max_size=10))
    return families, ops, draw(st.sampled_from([0.01, 0.0, 0.1])), draw(schedules())


SUBS = [Sub('tones', run, gen, quick=3000, thorough=80000, shards=7, rule='at least one attempt to send tones')]
