# -*- coding: utf-8 -*-
""" C35: trie prefix queries agree with filtering all keys """
import itertools, os
from hypothesis import strategies as st
from vf.core import Sub, Violation, require, equal
from props import c34


def compare(t, model, prefixes, what, labels):
    for p in prefixes:
        with_p = [k for k in model if k.startswith(p)]
        equal(sorted(t.keys(p)), sorted(with_p), '%s: keys(%r)' % (what, p))
        want = os.path.commonprefix(with_p)
        equal(t.longestCommonPrefix(p), want, '%s: longestCommonPrefix(%r)' % (what, p))
        if with_p:
            labels.add('prefix of %s keys' % (len(with_p) if len(with_p) < 3 else 'many'))
            if len(want) > len(p):
                labels.add('common prefix is longer')
            if p in model and len(with_p) > 1:
                labels.add('the prefix is a key itself')
        else:
            labels.add('prefix of none')
    want = os.path.commonprefix(list(model))
    equal(t.longestCommonPrefix(), want, what + ': longestCommonPrefix()')


def run(case):
    ops, prefixes = case
    t, model, labels = c34.trie(), {}, set()
    for n, (op, k) in enumerate(ops):
        what = 'after %s' % ', '.join('%s %r' % o for o in ops[:n + 1])
        if op == 'del':
            try:
                del t[k]
            except KeyError:
                pass
            if model.pop(k, None):
                labels.add('after deletions')
        else:
            t[k] = model[k] = [n]
        compare(t, model, sorted(set(prefixes) | set(k[:i] for k in model for i in range(len(k) + 1))), what, labels)
    return sorted(labels)


def enum(tier):
    ops = [(o, k) for o in ('set', 'del') for k in c34.SMALL]
    for n in range(1, 5 if tier == 'quick' else 6):
        for seq in itertools.product(ops, repeat=n):
            if seq[0][0] == 'set':
                yield (list(seq), c34.SMALL + ['abd', 'aba', 'c'])


def gen():
    return st.tuples(c34.histories(25), st.lists(c34.key, max_size=4)).map(lambda t: (t[0][0], t[0][1] + t[1]))


SUBS = [Sub('histories', run, gen, quick=8000, thorough=200000, enum=enum, shards=7, rule='every case makes queries on a non-trivial set of keys')]
