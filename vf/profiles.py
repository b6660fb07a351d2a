# -*- coding: utf-8 -*-
""" Generated capability profiles of simulated modems, and the profiles of the supported families """
from hypothesis import strategies as st

OPTIONAL = ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'CVHU', 'COPS', 'CSMP', 'CREG', 'CGMR', 'WIND', 'ZPAS', '^CVOICE', '^USSDMODE', 'VTS', '^DTMF')
FILLER = ('&C', '&D', 'E', 'D', 'A', 'H', 'S0', '+CSQ', '+CMGS', '+CMGF', '+CUSD', '$QCCLR', '^SYSINFO', '%V', '\\S')

# (text of the +CPMS=? answer, memories)
CPMS = [('("ME","MT","SM","SR"),("ME","MT","SM","SR"),("ME","MT","SM","SR")', (('ME', 'MT', 'SM', 'SR'),) * 3),
        ('(("SM","BM","SR"),("SM"))', (('SM', 'BM', 'SR'), ('SM',))),
        ('("SM"),("SM"),("SM")', (('SM',),) * 3),
        ('("SM","SR"),("SM")', (('SM', 'SR'), ('SM',))),
        ('("SM")', (('SM',),)),
        ('("SM","ME"),("SM","ME"),("SM")', (('SM', 'ME'), ('SM', 'ME'), ('SM',))),
        ('("MT","SM"),("MT"),("MT")', (('MT', 'SM'), ('MT',), ('MT',))),
        ('("MT"),("MT"),("MT")', (('MT',),) * 3)]
CPMS_NONE = ['(),(),()', '(),()', '()']

FAMILIES = {
    'huawei': {'family': 'huawei', 'clac': 'line', 'clac_commands': ('&C', 'D', '+CSQ', '^CVOICE', '^DTMF', '^ECIOCFG'), 'manufacturer': 'huawei',
               'supports': ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'CVHU', 'COPS', 'CSMP', 'CREG', 'CGMR', '^CVOICE', '^DTMF')},
    'huawei_multi': {'family': 'huawei', 'clac': 'multi_cr', 'clac_commands': ('&C', 'D', '+CSQ', '^DTMF', '^USSDMODE', '^CVOICE'), 'manufacturer': 'huawei', 'err': 'COMMAND NOT SUPPORT',
                     'ussd_mode': 1, 'supports': ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'CVHU', 'COPS', 'CSMP', 'CREG', 'CGMR', '^CVOICE', '^DTMF', '^USSDMODE')},
    'huawei_branded': {'family': 'huawei', 'clac': 'plain', 'clac_commands': ('&C', 'D', '^DTMF', '+CSQ'), 'manufacturer': 'Vodafone',
                       'supports': ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'CVHU', 'COPS', 'CSMP', 'CREG', 'CGMR', '^CVOICE', '^DTMF')},
    'huawei_named': {'family': 'huawei', 'clac': None, 'manufacturer': 'huawei',
                     'supports': ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'CVHU', 'COPS', 'CSMP', 'CREG', 'CGMR', '^CVOICE', '^DTMF')},
    'wavecom': {'family': 'wavecom', 'clac': None, 'manufacturer': ' WAVECOM MODEM', 'cpin_ok': False, 'cpms': CPMS[1][0], 'memories': CPMS[1][1], 'busy_after_cfun': 2,
                'supports': ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'COPS', 'CSMP', 'CREG', 'WIND', 'VTS')},
    'wavecom_clac': {'family': 'wavecom', 'clac': 'multi', 'clac_commands': ('&C', 'D', '+VTS', '+WIND', '+CSQ'), 'manufacturer': 'WAVECOM MODEM', 'wind': 50,
                     'supports': ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'COPS', 'CSMP', 'CREG', 'WIND', 'VTS')},
    'zte': {'family': 'zte', 'clac': None, 'manufacturer': 'ZTE INCORPORATED', 'preunlock': 'none', 'csmp_clears': True, 'stat_blank': True,
            'supports': ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'CVHU', 'COPS', 'CSMP', 'CREG', 'CGMR', 'ZPAS', 'VTS')},
    'zte_clac': {'family': 'zte', 'clac': 'multi', 'clac_commands': ('&C', 'D', '+ZPAS', '+CSQ', '+VTS'), 'manufacturer': 'ZTE INCORPORATED', 'cfun': 'list', 'csmp_clears': True,
                 'supports': ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'CVHU', 'COPS', 'CSMP', 'CREG', 'CGMR', 'ZPAS', 'VTS')},
    'generic': {'family': 'generic', 'clac': None, 'manufacturer': 'ACME'},
    'generic_clac': {'family': 'generic', 'clac': 'line_space', 'clac_commands': ('+VTS', 'D', '+CSQ'), 'manufacturer': 'ACME', 'err': '+CME ERROR: 100'},
}


def profile():
    """ arbitrary combinations of the optional behaviours """
    def build(t):
        supports, clac, filler, order, kw = t
        cmds = [('' if s[0] == '^' else '+') + s for s in supports] + list(filler)
        cmds = sorted(cmds, key=lambda c: (hash_(c) ^ order, c))
        p = dict(kw)
        cp = p.pop('cpms_kind')
        p.update(supports=tuple(supports), clac=clac, clac_commands=tuple(cmds) if len(cmds) > 1 else tuple(cmds) + ('&C', 'D'), cpms=cp[0], memories=cp[1])
        p['current'] = tuple(m[(order >> 2 * i) % len(m)] if m else 'SM' for i, m in enumerate(cp[1])) or ('SM',)
        return p
    base = ('CFUN', 'CNMI', 'CLIP', 'CRC', 'CPMS', 'CVHU', 'COPS', 'CSMP', 'CREG', 'CGMR', 'VTS')
    # mostly the usual commands with a few toggled, sometimes any subset
    toggles = st.lists(st.sampled_from(OPTIONAL), max_size=4, unique=True)
    supports = st.one_of(toggles.map(lambda t: tuple(sorted(set(base) ^ set(t)))), st.lists(st.sampled_from(OPTIONAL), unique=True).map(lambda l: tuple(sorted(l))))
    kw = st.fixed_dictionaries({
        'err': st.sampled_from(['ERROR', 'ERROR', 'COMMAND NOT SUPPORT', '+CME ERROR: 100', '+CME ERROR: 4', '+CMS ERROR: 303']),
        'echo': st.booleans(), 'cfun': st.sampled_from([1, 1, 0, 4, 5, 'list']), 'busy_after_cfun': st.sampled_from([0, 0, 1, 3]),
        'wind': st.sampled_from([0, 50, 63]), 'cpin_ok': st.booleans(),
        'csca': st.sampled_from(['+27831234567', '0831234567', None, '+1']), 'csca_toa': st.sampled_from([145, 129]),
        'csca_missing': st.sampled_from(['ok', 'cms330', 'empty']), 'csmp_clears': st.booleans(),
        'busy': st.dictionaries(st.sampled_from(['AT+CSCA?', 'AT+CPMS=?', 'AT+CMGF=0', 'AT+CNMI=2,1,0,2', 'AT+CPIN?']), st.integers(1, 3), max_size=2),
        'cpms_kind': st.one_of(st.sampled_from(CPMS), st.sampled_from(CPMS), st.sampled_from(CPMS_NONE).map(lambda c: (c, ()))),
        'manufacturer': st.sampled_from(['ACME', 'huawei', 'Huawei', 'ZTE INCORPORATED', 'QUALCOMM']),
        'cmgf_reset': st.sampled_from([0, 1])})
    return st.tuples(supports, st.sampled_from([None, 'line', 'line_space', 'plain', 'multi', 'multi_cr']), st.lists(st.sampled_from(FILLER), max_size=5, unique=True),
                     st.integers(0, 255), kw).map(build)


def hash_(s):
    h = 0
    for c in s:
        h = (h * 31 + ord(c)) % 256
    return h
