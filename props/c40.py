# -*- coding: utf-8 -*-
""" C40: the terminal's listings and help show the command table """
import re
from hypothesis import strategies as st
from vf import load, term
from vf.core import Sub, Violation, require, equal
from vf.term import TermRig, Line
from props.c36 import CATEGORIES

_t = []


def table():
    if not _t:
        ns = load.fresh(names=('gsmtermlib.atcommands',))
        _t.append(dict(ns['gsmtermlib.atcommands'].ATCOMMANDS))
    return _t[0]


def squeeze(text):
    return re.sub(r'\s+', ' ', text).strip()


def listed(lines, what):
    """ COMMAND - name, one per line """
    out = []
    for l in lines:
        if l.strip() and not l.startswith(term.PROMPT):
            m = re.match(r'(\S+)\s+- (.*)$', l)
            require(m, '{0}: the line {1!r}', what, l)
            out.append((m.group(1), m.group(2).strip()))
    return out


def syntax_of(key, typed):
    """ how a command is written: its values separated by commas, or by | if they are alternatives for a single one """
    values = table()[key][2] or ()
    sign = '=' if values and ('+' in key or key == 'ATS0') else ''
    return squeeze(typed + sign + (',' if len(table()[key]) < 6 else '|').join(v for v, d in values))


def run_tab(case):
    """ the completion key: the syntax of a command, or the commands that can complete the line """
    lines, color = case
    t = table()
    labels = set()
    with TermRig(Line) as rig:
        d, s = rig.device, rig.screen

        def main():
            rig.start(useColor=color)
            for line in lines:
                rig.type(line)
                s.done = []
                rig.press(term.TAB)
                rig.alive('after the completion key on %r' % line)
                out = [l for l in s.done if not l.startswith(term.PROMPT)]
                text = squeeze(' '.join(out))
                key = line.strip().upper()
                found = [k for k in t if k.startswith(key)]
                if key.endswith('=') and key[:-1] in t or found == [key]:
                    key = key.rstrip('=')
                    if len(t[key]) > 2:
                        require(text.lower().endswith(syntax_of(key, key).lower()), 'the completion key on {0!r} shows {1!r}, the syntax is {2!r}', line, text, syntax_of(key, key))
                        labels.add('syntax')
                elif len(found) > 1:
                    names = text.split('...')[0].split()
                    require(set(names) <= set(found) and len(names) == len(set(names)), 'the completion key on {0!r} lists {1}', line, names)
                    if len(found) <= 20:
                        equal(sorted(names), sorted(found), 'commands listed by the completion key on %r' % line)
                        labels.add('listed')
                    else:
                        m = re.search(r'(\d+) more', text)
                        require(names and m and len(names) + int(m.group(1)) == len(found), 'the completion key on {0!r} shows {1!r}; {2} commands match', line, text, len(found))
                        labels.add('many')
                equal(d.raw, '', 'sent for %r' % line)
                rig.press(term.HOME, *[term.DELETE] * 40)
        rig.run(main)
    return sorted(labels)


def gen_tab():
    def cut(a):
        k, n, flip, tail = a
        return cased((k[:max(1, n % (len(k) + 1))] if n >= 0 else k, flip)) + tail
    line = st.tuples(st.sampled_from(sorted(table())), st.one_of(st.just(-1), st.integers(1, 12)), st.sampled_from([0, 0, 1, 6, 21]), st.sampled_from(['', '', '', '=', ' '])).map(cut)
    return st.tuples(st.lists(line, min_size=1, max_size=8), st.booleans())


def enum_tab(tier):
    seen, group = set(), []
    for k in sorted(table()):
        for s in [k[:n] for n in range(1, len(k) + 1)] + [k + '=']:
            if s not in seen:
                seen.add(s)
                group.append(s)
        if len(group) > 20:
            yield (group, False)
            group = []
    yield (group, True)


def run(case):
    lines, color = case
    t = table()
    labels = set()
    with TermRig(Line) as rig:
        d, s = rig.device, rig.screen

        def main():
            rig.start(useColor=color)
            for form, arg in lines:
                line = form % arg if '%s' in form else form
                s.done = []
                rig.type(line)
                s.done = []
                rig.press(term.ENTER)
                rig.alive('after %r' % line)
                equal(d.raw, '', 'sent for %r' % line)
                require(not s.odd, '{0!r}: odd control sequences {1}', line, s.odd)
                low = line.strip().lower()
                out = s.done + ([s.current()] if not s.current().startswith(term.PROMPT) else [])
                if s.done and s.done[0].startswith(term.PROMPT + line):
                    out = s.done[1:]
                text = squeeze('\n'.join(out))
                if low == 'lscat':
                    equal(sorted(l.strip() for l in out if l.strip()), sorted(CATEGORIES), 'categories listed')
                    labels.add('categories')
                elif low == 'ls':
                    equal(sorted(listed(out, line)), sorted((k, squeeze(h[1]) if False else h[1].strip()) for k, h in t.items()), 'commands listed')
                    labels.add('all')
                elif low.startswith('ls '):
                    cat = low[3:].strip()
                    want = sorted((k, h[1].strip()) for k, h in t.items() if h[0].lower() == cat)
                    equal(sorted(listed(out, line)), want, 'commands listed for %r' % arg)
                    labels.add('category')
                elif low == 'help':
                    for word in ('ls', 'lscat', 'load', 'TAB', 'help', '??'):
                        require(word in text, 'general help does not mention {0}: {1}', word, text)
                    labels.add('general')
                else:
                    key = arg.strip().upper()
                    if key not in t:
                        require('no help' in text.lower() and arg.strip() in text, '{0!r}: no word that there is no help: {1!r}', line, text[:300])
                        labels.add('unknown')
                        continue
                    h = t[key]
                    require(squeeze(h[1]) in text and h[0] in text, '{0!r}: name {1!r} and category {2!r} are not shown: {3!r}', line, h[1], h[0], text[:300])
                    require(arg.strip() in text or key in text, '{0!r}: the command is not shown', line)
                    for k, other in t.items():
                        if k != key and len(other) > 4 and len(other[4]) > 60 and (len(h) <= 4 or squeeze(other[4]) not in squeeze(h[4])):
                            require(squeeze(other[4]) not in text, '{0!r}: the description of {1} is shown', line, k)
                    labels.add('known')
                    if len(h) > 2:
                        require(text.rsplit('Command Syntax:', 1)[-1].strip().lower() == syntax_of(key, key).lower(), '{0!r}: the syntax is {1!r}, shown as {2!r}', line, syntax_of(key, key), text[-200:])
                        require(squeeze(h[4]) in text, '{0!r}: the description is not shown: {1!r}', line, text[:500])
                        labels.add('detailed')
                        for value, desc in (h[2] or ()):
                            require(squeeze(value) in text and squeeze(desc or '') in text, '{0!r}: value {1!r} ({2!r}) is not shown: {3!r}', line, value, desc, text[:600])
                        for value, desc in (h[3] or ()):
                            require(squeeze(value) in text and squeeze(desc or '') in text, '{0!r}: response value {1!r} ({2!r}) is not shown: {3!r}', line, value, desc, text[:600])
                        if h[2]:
                            syntax = text.rsplit('Command Syntax:', 1)[-1]
                            at = -1
                            for value, desc in h[2]:
                                i = syntax.find(squeeze(value), at + 1)
                                require(i > at, '{0!r}: the syntax {1!r} does not give {2!r} in its place', line, syntax, value)
                                at = i
        rig.run(main)
    return sorted(labels)


FORMS = ['?%s', '%s??', '%s=??', 'help %s', 'HELP %s', 'help  %s', 'Help %s']


def cased(a):
    s, flip = a
    return s if not flip else s.lower() if flip == 1 else ''.join(c.lower() if (flip >> (i % 5)) & 1 else c for i, c in enumerate(s))


def gen():
    names = st.tuples(st.sampled_from(sorted(table())), st.sampled_from([0, 0, 1, 6, 21])).map(cased)
    unknown = st.sampled_from(['AT+NOPE', 'xy', 'AT+', 'at+c', 'AT', 'hello', 'AT+CMGSX', '123']).filter(lambda s: s.upper() not in table())
    helps = st.tuples(st.sampled_from(FORMS), st.one_of(names, names, names, unknown))
    cats = st.tuples(st.sampled_from(['ls %s', 'LS %s']), st.tuples(st.sampled_from(CATEGORIES), st.sampled_from([0, 1, 6])).map(cased))
    fixed = st.sampled_from([('ls', ''), ('lscat', ''), ('help', ''), ('LSCAT', ''), ('Ls', ''), ('HELP', '')])
    return st.tuples(st.lists(st.one_of(helps, helps, cats, fixed), min_size=1, max_size=8), st.booleans())


def enum(tier):
    keys = sorted(table())
    for i in range(0, len(keys), 10):
        for form in FORMS[:4]:
            yield ([(form, k) for k in keys[i:i + 10]], False)
            yield ([(form, cased((k, 1 if form == '?%s' else 21))) for k in keys[i:i + 10]], False)
    yield ([('ls', ''), ('lscat', ''), ('help', '')] + [('ls %s', c) for c in CATEGORIES], False)


SUBS = [
    Sub('syntax', run_tab, None, 0, enum=enum_tab, rule='the completion key on every prefix of every command', guard=120),
    Sub('suggestions', run_tab, gen_tab, 200, 4000, rule='the completion key showed the syntax or the suggestions', guard=120),
    Sub('every', run, None, 0, enum=enum, rule='help for every known command in four forms, and every listing', guard=120),
    Sub('mixed', run, gen, 300, 4000, rule='at least one listing or help', guard=120),
]
