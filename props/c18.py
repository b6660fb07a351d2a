# -*- coding: utf-8 -*-
""" C18: connect() sets up any modem of the supported families """
from hypothesis import strategies as st
from vf import gens, device, profiles
from vf.core import Sub, Violation, require, equal
from vf.rig import Rig, schedules

RATES = (115200, 9600, 460800, 300, 2400)
PREFERRED = ('ME', 'SM', 'SR')


def check_state(d, smsc_before):
    cfg = d.cfg
    equal(d.echo, False, 'echo')
    if d.has('CFUN') and cfg['cfun'] != 'list':
        equal(cfg['cfun'], 1, '+CFUN setting')
    equal(cfg['cmgf'], 0, '+CMGF setting')
    equal(cfg['csca'], smsc_before, 'SMSC number')
    if d.has('CSMP'):
        require(cfg['csmp'] is not None and cfg['csmp'][0] & 0x20, 'delivery reports are not requested: +CSMP is {0}', cfg['csmp'])
    usable = d.has('CPMS') and d.p['memories'] and all(d.p['memories'])
    if usable:
        # storages of the preferred kinds are selected wherever the modem has one
        if all(any(m in PREFERRED for m in mems) for mems in d.p['memories']):
            for i, mems in enumerate(d.p['memories']):
                require(cfg['mem'][i] in mems and cfg['mem'][i] in PREFERRED, 'storage {0} of {1} selected', cfg['mem'][i], mems)
        if d.has('CNMI'):
            require(cfg['cnmi'] is not None and cfg['cnmi'][1] == 1 and len(cfg['cnmi']) > 3 and cfg['cnmi'][3] == 2, 'message notifications: +CNMI is {0}', cfg['cnmi'])
    if d.has('CLIP'):
        equal(cfg['clip'], 1, 'caller ID')
        if d.has('CRC'):
            equal(cfg['crc'], 1, 'extended ring format')
    listed = d.p['clac'] is not None
    if d.has('WIND') and (not listed or '+WIND' in d.p['clac_commands']):
        equal(cfg['wind'], 50, '+WIND setting')
    if listed and d.has('^USSDMODE') and '^USSDMODE' in d.p['clac_commands']:
        equal(cfg['ussdmode'], 0, '^USSDMODE setting')
    if listed and d.has('^CVOICE') and '^CVOICE' in d.p['clac_commands']:
        equal(cfg['cvoice'], 0, '^CVOICE setting')
    return usable and d.has('CNMI')


def run(case):
    profile, latency, noise, chunk, sched = case
    rig = Rig(lambda sim: device.Modem(sim, profile, latency), sched)
    d = rig.device
    if chunk:
        d.chunker = lambda text: [(chunk[0], chunk[1])] * 40
    labels = set()

    def main():
        got = []
        # (the rate is one of several, in the order of the cases)
        where = ('/dev/ttyUSB%d' % len(noise), RATES[int(latency * 1000) % len(RATES)])
        modem = rig.modem(*where, smsReceivedCallbackFunc=got.append)
        for t, line in noise:
            rig.sim.at(t, lambda line=line: rig.sim.when(lambda: d.port is not None and d.quiet(), lambda: d.port.rx_put('\r\n%s\r\n' % line, exclusive=True)))
        modem.connect()
        equal(modem.alive, True, 'alive')
        equal(d.opened, where, 'port and baud rate')
        equal(d.pin_tries, [], 'PINs entered')
        receives = check_state(d, profile.get('csca', device.DEFAULT['csca']))
        require(not d.overlaps, 'commands overlapped: {0}', d.overlaps)
        # basic operations
        rig.sim.sleep(2)
        equal(modem.signalStrength, 18, 'signal strength')
        sms = modem.sendSms('+27821111111', 'Hello {there} @')
        require(len(d.sent) == 1 and 'error' not in d.sent[0], 'message sent: {0}', d.sent)
        equal((d.sent[0]['text'], d.sent[0]['da']['value']), ('Hello {there} @', '27821111111'), 'message sent')
        equal(sms.reference, d.sent[0]['ref'], 'reference')
        equal(modem.smsc, d.cfg['csca'], 'SMSC number reported')
        if receives:
            mem = d.cfg['mem'][0]
            d.arrive(device.deliver('+27822222222', 'Hi', (2024, 2, 29, 23, 59, 58, -14)), mem)
            rig.sim.sleep(6 + 40 * latency + (chunk[1] * 60 if chunk else 0))
            require(len(got) == 1 and (got[0].text, got[0].number) == ('Hi', '+27822222222'), 'message received: {0}', [(g.text, g.number) for g in got])
            equal(d.store[mem], {}, 'messages left in the modem')
            labels.add('receives')
        modem.close()
    rig.run(main)
    rig.deaths()
    for k in ('CFUN', 'CPMS', 'CNMI', 'CLIP', 'CRC', 'CSMP', 'COPS'):
        if not d.has(k):
            labels.add('no ' + k)
    labels.add('clac %s' % profile.get('clac'))
    labels.add('busy') if profile.get('busy') else None
    labels.add('echo') if profile.get('echo') else None
    labels.add('CPIN without OK') if profile.get('cpin_ok') is False else None
    labels.add('SMSC lost') if profile.get('csmp_clears') and profile.get('csca') else None
    return sorted(labels)


latency = st.one_of(st.just(0.01), st.sampled_from([0.0, 0.001, 0.1, 0.2, 0.24]))
noise = st.lists(st.tuples(st.integers(0, 300).map(lambda n: n * 0.0173), st.sampled_from(['+WIND: 4', '^BOOT:1,0,0,0,20', '^RSSI:20', '^MODE:5,4', '+CREG: 1', '^SIMST:1', '+PACSP1'])), max_size=3)
chunk = st.one_of(st.none(), st.none(), st.tuples(st.integers(1, 9), st.sampled_from([0.0, 0.003])))


def gen():
    return st.tuples(profiles.profile(), latency, noise, chunk, schedules()).map(
        lambda t: (t[0], min(t[1], 0.1) if t[3] else t[1], t[2], t[3], t[4]))


def enum(tier):
    for name, p in sorted(profiles.FAMILIES.items()):
        for csca in ('+27831234567', None):
            for cfun in (0, 1, 4, 'list'):
                for echo in (True, False):
                    yield (dict(p, csca=csca, cfun=cfun, echo=echo), 0.01, [], None, {})
    for clac in (None, 'line', 'line_space', 'plain', 'multi', 'multi_cr'):
        for off in profiles.OPTIONAL:                 # one feature toggled at a time
            base = set(device.DEFAULT['supports']) ^ {off}
            cmds = tuple(('' if s[0] == '^' else '+') + s for s in sorted(base)) + ('D', '+CSQ')
            yield ({'supports': tuple(sorted(base)), 'clac': clac, 'clac_commands': cmds}, 0.01, [], None, {})
            yield ({'supports': tuple(sorted(base)), 'clac': clac, 'clac_commands': cmds[::-1], 'err': 'COMMAND NOT SUPPORT'}, 0.01, [], None, {})
    for c in profiles.CPMS:
        yield ({'cpms': c[0], 'memories': c[1], 'current': tuple(m[0] for m in c[1])}, 0.01, [], None, {})
    for c in profiles.CPMS_NONE:
        yield ({'cpms': c, 'memories': (), 'current': ('SM',)}, 0.01, [], None, {})


SUBS = [Sub('profiles', run, gen, quick=3000, thorough=60000, enum=enum, shards=6, rule='capability profiles; every connect counts')]
