# -*- coding: utf-8 -*-
""" Loads the code under test from the repository's working tree.

fresh(shims) executes the packages gsmmodem and gsmtermlib anew with the given stand-in modules visible under their import
names ('serial', 'threading', 'time', ...), and returns a namespace of the resulting modules; nothing stays in sys.modules.
Source is compiled once per process, from the files as they are now (no byte code is read or written). """
import importlib.abc, importlib.machinery, os, sys, types

from .runner import REPO

ROOTS = {'gsmmodem': REPO, 'gsmtermlib': os.path.join(REPO, 'tools')}
_code = {}


def _compile(path):
    c = _code.get(path)
    if c is None:
        with open(path, 'rb') as f:
            c = _code[path] = compile(f.read(), path, 'exec', dont_inherit=True)
    return c


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_compile(self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in ROOTS:
            return None
        base = os.path.join(ROOTS[top], *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(name, _Loader(f), origin=f, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        if os.path.exists(base + '.py'):
            spec = importlib.machinery.ModuleSpec(name, _Loader(base + '.py'), origin=base + '.py')
            spec.has_location = True
            return spec
        return None


_finder = _Finder()


class Namespace(object):
    def __init__(self, mods):
        self._mods = mods

    def __getitem__(self, name):
        return self._mods[name]


def _purge():
    return {n: sys.modules.pop(n) for n in list(sys.modules) if n.split('.')[0] in ROOTS}


def fresh(shims=None, names=('gsmmodem', 'gsmmodem.pdu', 'gsmmodem.modem', 'gsmmodem.util', 'gsmmodem.exceptions',
                             'gsmmodem.serial_comms'), also=None):
    """ also: function called while the shims are installed (to import further modules / run scripts); its result is returned """
    shims = dict(shims or {})
    if 'serial' not in shims:
        shims['serial'] = plain_serial()
    saved, old = {}, _purge()
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    for n, m in shims.items():
        saved[n] = sys.modules.get(n)
        sys.modules[n] = m
    try:
        mods = {}
        for n in names:
            __import__(n)
            mods[n] = sys.modules[n]
        extra = also() if also else None
        for n in list(sys.modules):
            if n.split('.')[0] in ROOTS:
                mods[n] = sys.modules[n]
    finally:
        _purge()
        sys.modules.update(old)
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
    ns = Namespace(mods)
    return (ns, extra) if also else ns


def plain_serial():
    m = types.ModuleType('serial')

    class SerialException(IOError):
        pass

    class Serial(object):
        def __init__(self, *a, **k):
            raise SerialException('no port here')
    m.Serial, m.SerialException = Serial, SerialException
    return m


_plain = []


def plain():
    """ A shared instance for the pure functions (PDU codec, util): loaded once per process """
    if not _plain:
        _plain.append(fresh())
    return _plain[0]


def copies(ns, value):
    """ value copied in every way an application would copy it, with the modules of ns importable for pickle """
    import copy
    import pickle
    yield 'copy', copy.copy(value)
    yield 'deep copy', copy.deepcopy(value)
    old = _purge()
    sys.modules.update(ns._mods)
    try:
        for protocol in (0, 2, pickle.HIGHEST_PROTOCOL):
            yield 'pickle %d' % protocol, pickle.loads(pickle.dumps(value, protocol))
    finally:
        _purge()
        sys.modules.update(old)
