# -*- coding: utf-8 -*-
""" C41: command scripts are sent line by line """
import os
import shutil
import tempfile
from hypothesis import strategies as st
from vf import term
from vf.core import Sub, Violation, require, equal
from vf.rig import schedules
from vf.term import TermRig, Line
from props.c36 import local


def meaning(lines, files, depth=()):
    """ what a script sends; None if it contains a line whose treatment is not specified """
    out = []
    for l in lines:
        s = l.strip()
        if not s or s[0] == '#':
            continue
        if s.lower().startswith('load ') and os.path.realpath(s[5:].strip()) in files:
            name = os.path.realpath(s[5:].strip())      # (the same script by whatever name)
            if name in depth:
                continue
            sub = meaning(files[name], files, depth + (name,))
            if sub is None:
                return None
            out += sub
            continue
        kind = local(s)
        if kind is None:
            return None
        if not kind:
            out.append(s)
    return out


def run(case):
    scripts, seps, before, mode, sched = case
    labels = set()
    folder = os.path.realpath(tempfile.mkdtemp(prefix='vf-load'))
    try:
        # (file names are replaced in the scripts)
        paths = [os.path.join(folder, 's%d.txt' % i) for i in range(len(scripts))]
        os.mkdir(os.path.join(folder, 'd'))
        os.symlink(paths[0], os.path.join(folder, 'd', 'link'))
        names = {'%0': paths[0], '%1': paths[-1], '%2': folder + '/./s0.txt', '%3': folder + '//d/../s0.txt', '%4': folder + '/d/link', '%5': os.path.relpath(paths[0]), '%6': os.path.relpath(paths[-1])}

        def named(l):
            for k, v in names.items():
                l = l.replace(k, v)
            return l
        files = {p: [named(l) for l in s] for p, s in zip(paths, scripts)}
        for (p, lines), sep in zip(files.items(), seps):
            with open(p, 'wb') as f:
                f.write(sep[0].join(lines).encode('ascii') + (sep[0].encode() if sep[1] else b''))
        answers = {'ok': ('OK', []), 'silent': ('silent', []), 'error': ('ERROR', []), 'lines': ('OK', ['+X: 1'])}
        with TermRig(lambda sim: Line(sim, lambda c: answers[mode]), sched) as rig:
            d = rig.device

            def main():
                rig.start()
                for form, which in before:
                    name = named(which) if isinstance(which, str) else paths[which % len(paths)] if which is not None else os.path.join(folder, 'none')
                    want = meaning(['load ' + name], files) if which is not None else []
                    if want is None:
                        return
                    start = d.raw
                    rig.screen.done = []
                    rig.type(form % name)
                    rig.press(term.ENTER)
                    rig.sim.sleep(1)
                    name = os.path.realpath(name)
                    rig.alive('after loading %r' % files.get(name))
                    equal(d.raw[len(start):], ''.join(s + '\r' for s in want), 'sent for the script %r' % (files.get(name),))
                    if which is None:
                        require('none' in rig.screen.all() and 'not found' in rig.screen.all().lower(), 'no word about the missing file: {0!r}', rig.screen.all()[-200:])
                    labels.add('missing' if which is None else 'lines' if len(want) > 1 else 'line' if want else 'nothing to send')
                    if any('load' in l for l in files.get(name, ())):
                        labels.add('nested')
                start = d.raw
                rig.type('AT+END')
                rig.press(term.ENTER)
                equal(d.raw[len(start):], 'AT+END\r', 'sent for a line afterwards')
            rig.run(main)
    finally:
        shutil.rmtree(folder)
    return sorted(labels)


def gen():
    char = st.sampled_from([chr(c) for c in range(32, 127) if chr(c) != '%'])
    command = st.one_of(st.sampled_from(['AT', 'ATZ', 'AT+CMGF=1', 'AT+CPIN="0000"', 'AT+CSQ', 'at+cops?', 'AT+CNMI=2,1,0,2', 'text  with  blanks', 'AT+CMGS=?x', 'A/', 'AT#x', 'AT # not a comment']), st.text(char, min_size=1, max_size=12))
    plain = st.tuples(st.sampled_from(['', '', '', ' ', '\t', '   ']), command, st.sampled_from(['', '', '', ' ', '\t '])).map(''.join)
    other = st.sampled_from(['', ' ', '# comment', '#AT+CSQ', '  # indented', '#', 'help', 'ls', '?AT+CSQ', 'AT+CSQ??', 'lscat', 'load %1', 'load %1', 'load %0', 'load %2', 'load %3', 'load %4', 'load %5', 'LOAD  %6', 'load %4', 'load /nonexistent/file'])
    script = st.lists(st.one_of(plain, plain, plain, other), max_size=8)
    sep = st.tuples(st.sampled_from(['\n', '\n', '\r\n', '\n\n']), st.booleans())
    load = st.tuples(st.sampled_from(['load %s', 'load %s', 'LOAD %s', 'load  %s ', ' Load %s']), st.sampled_from([0, 0, 0, 1, None, '%2', '%4', '%5']))
    return st.tuples(st.lists(script, min_size=1, max_size=2), st.tuples(sep, sep), st.lists(load, min_size=1, max_size=3), st.sampled_from(['ok', 'ok', 'silent', 'error', 'lines']), schedules(max_pre=3))


SUBS = [Sub('scripts', run, gen, 800, 16000, rule='at least one script was loaded', guard=120)]
