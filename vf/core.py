# -*- coding: utf-8 -*-
""" Basic vocabulary shared by the property modules: violations, sub-checks, case serialisation """
import base64, datetime, json


class Violation(Exception):
    """ The property does not hold for the current case """
    def __init__(self, msg, key=None):
        super(Violation, self).__init__(msg)
        self.key = key


class HarnessError(Exception):
    """ The machinery itself is at fault (never reported as a violation) """


class Hang(BaseException):
    """ A case did not end within its (very generous) wall-clock guard """


def require(cond, msg, *args, **kw):
    if not cond:
        raise Violation(msg.format(*args) if args else msg, kw.get('key'))


def equal(got, want, what):
    if got != want or type(got) is bool and type(want) is not bool:
        raise Violation('{0}: got {1!r}, expected {2!r}'.format(what, got, want))


class Sub(object):
    """ One executable form of (part of) a property.

    run(case) executes one case; it raises Violation, or returns a true value if the case was non-trivial (optionally a
    list/tuple of label strings). strategy: zero-argument function returning a Hypothesis strategy of plain-data cases.
    enum: function(tier) returning an iterable of cases that are always executed.
    """
    def __init__(self, name, run, strategy=None, quick=0, thorough=None, enum=None, rule='', guard=60, shards=4):
        self.name = name
        self.run = run
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.enum = enum
        self.rule = rule
        self.guard = guard
        self.shards = shards


# ------------------------------------------------------------------ plain-data <-> JSON
def _enc(o):
    if o is None or isinstance(o, (bool, int, float)):
        return o
    if isinstance(o, str):
        try:
            o.encode('utf-8')
            return o
        except UnicodeEncodeError:
            return {'__s': [ord(c) for c in o]}
    if isinstance(o, (bytes, bytearray)):
        return {'__b': base64.b16encode(bytes(o)).decode('ascii'), 't': 'a' if isinstance(o, bytearray) else 'b'}
    if isinstance(o, tuple):
        return {'__t': [_enc(x) for x in o]}
    if isinstance(o, list):
        return [_enc(x) for x in o]
    if isinstance(o, dict):
        return {'__d': [[_enc(k), _enc(v)] for k, v in o.items()]}
    if isinstance(o, datetime.timedelta):
        return {'__td': [o.days, o.seconds, o.microseconds]}
    raise TypeError('case is not plain data: %r' % (o,))


def _dec(o):
    if isinstance(o, list):
        return [_dec(x) for x in o]
    if isinstance(o, dict):
        if '__s' in o:
            return ''.join(chr(c) for c in o['__s'])
        if '__b' in o:
            b = base64.b16decode(o['__b'])
            return bytearray(b) if o['t'] == 'a' else b
        if '__t' in o:
            return tuple(_dec(x) for x in o['__t'])
        if '__d' in o:
            return dict((_dec(k), _dec(v)) for k, v in o['__d'])
        if '__td' in o:
            return datetime.timedelta(*o['__td'])
    return o


def dumps(case):
    return json.dumps(_enc(case))


def loads(s):
    return _dec(json.loads(s))
