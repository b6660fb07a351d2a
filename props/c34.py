# -*- coding: utf-8 -*-
""" C34: the completion trie behaves as a string-keyed dictionary """
import itertools
from hypothesis import strategies as st
from vf import load
from vf.core import Sub, Violation, require, equal

_m = []
SMALL = ['', 'a', 'ab', 'abc', 'b', 'ba', 'ac']


def trie():
    if not _m:
        _m.append(load.fresh(names=('gsmtermlib.trie',))['gsmtermlib.trie'])
    return _m[0].Trie()


def compare(t, model, probes, what):
    equal(len(t), len(model), what + ': length')
    equal(sorted(t.keys()), sorted(model), what + ': keys')
    try:
        listed = list(t)
    except RuntimeError as e:
        raise Violation('%s: iteration failed: %r' % (what, e))
    equal(sorted(listed), sorted(model), what + ': iteration')
    for k in set(probes) | set(model):
        here = k in model
        equal(k in t, here, '%s: membership of %r' % (what, k))
        try:
            v = t[k]
        except KeyError:
            require(not here, '{0}: {1!r} not found', what, k)
        else:
            require(here and v is model[k], '{0}: {1!r} has value {2!r}, expected {3!r}', what, k, v, model.get(k, 'none'))
        require(t.get(k) is model.get(k), '{0}: get({1!r}) is {2!r}', what, k, t.get(k))
        dflt = object()
        require(t.get(k, dflt) is model.get(k, dflt), '{0}: get({1!r}, default) is {2!r}', what, k, t.get(k, dflt))


def run(case):
    ops, probes = case
    t, model, labels = trie(), {}, set()
    if not len(ops):
        compare(t, model, probes, 'empty')
    for n, (op, k) in enumerate(ops):
        what = 'after %s' % ', '.join('%s %r' % o for o in ops[:n + 1])
        if op == 'del':
            try:
                del t[k]
            except KeyError:
                require(k not in model, '{0}: KeyError', what)
                labels.add('missing key deleted')
            else:
                require(k in model, '{0}: no KeyError for a missing key', what)
                del model[k]
                labels.add('deleted')
        else:
            v = [n] if op == 'set' else None
            labels.add('replaced' if k in model else 'added')
            if op == 'none':
                labels.add('value None')
            t[k] = v
            model[k] = v
        if any(a != b and b.startswith(a) for a in model for b in model):
            labels.add('a key is the beginning of another')
        compare(t, model, probes, what)
    return sorted(labels) if len(ops) > 1 else []


def enum(tier):
    ops = [(o, k) for o in ('set', 'del') for k in SMALL]
    for n in range(1, 5 if tier == 'quick' else 6):
        for seq in itertools.product(ops, repeat=n):
            if seq[0][0] == 'set':
                yield (list(seq), SMALL)


key = st.one_of(st.text(alphabet='ab', max_size=4), st.text(alphabet='ab', max_size=4), st.sampled_from(['', 'AT', 'AT+C', 'AT+CMGF', 'AT+CMGS', 'AT+CM', '+CMGF=?', 'ATZ', 'help', 'ls', 'lscat', 'exit']), st.text(alphabet='abc', min_size=4, max_size=12), st.text(max_size=6))


@st.composite
def histories(draw, max_ops=40):
    pool = draw(st.lists(key, min_size=1, max_size=10, unique=True))
    pool += [k[:draw(st.integers(0, len(k)))] for k in pool] + [k + draw(st.sampled_from(['a', 'b', '=', '?'])) for k in pool]
    op = st.tuples(st.sampled_from(['set', 'set', 'set', 'del', 'del', 'none']), st.one_of(st.sampled_from(pool), st.sampled_from(pool), key))
    return draw(st.lists(op, min_size=1, max_size=max_ops)), pool


def gen():
    return st.tuples(histories(), st.lists(key, max_size=4)).map(lambda t: (t[0][0], t[0][1] + t[1]))


SUBS = [Sub('histories', run, gen, quick=8000, thorough=200000, enum=enum, shards=7, rule='at least two operations')]
