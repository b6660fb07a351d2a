# -*- coding: utf-8 -*-
""" Runs the sub-checks of a property: enumerated cases and Hypothesis search, in forked workers; writes evidence, replay
files and the VIOLATION / KNOWN-FINDING lines. Exit status 0: held; 1: violation; anything else: error of the machinery. """
import argparse, hashlib, importlib, json, multiprocessing, multiprocessing.connection, os, random, shutil, signal, sys, tempfile, time, traceback, zlib

from .core import Violation, HarnessError, Hang, dumps, loads

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SHRINK_SECONDS = 45


class _StopShrinking(BaseException):
    pass


def _from_repo(tb):
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def execute(sub, case):
    """ Runs one case. Returns the (truthy if non-trivial) result; raises Violation or HarnessError """
    def onalarm(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, sub.guard)
    try:
        return sub.run(case)
    except (Violation, HarnessError):
        raise
    except RecursionError:
        raise Violation('unbounded recursion in the code under test: ' + _tail())
    except Exception as e:
        if _from_repo(e.__traceback__):
            raise Violation('unexpected exception from the code under test: ' + _tail())
        if isinstance(e, (TypeError, AttributeError, ValueError, LookupError)) and not isinstance(getattr(e, 'obj', None), type(os)):
            # a check stumbled over what it was given (say None where a list is due); never seen where the property holds
            raise Violation('the check cannot make sense of a result of the code under test: ' + traceback.format_exc().strip().splitlines()[-1])
        raise HarnessError(traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _tail():
    lines = traceback.format_exc().strip().splitlines()
    where = [l.strip() for l in lines if REPO in l]
    return '{0} [{1}]'.format(lines[-1], where[-1] if where else '?')


class Item(object):
    def __init__(self, prop, subidx, kind, shard, nshards, seed, count, tier):
        self.prop, self.subidx, self.kind, self.shard, self.nshards = prop, subidx, kind, shard, nshards
        self.seed, self.count, self.tier = seed, count, tier


def _load(prop):
    return importlib.import_module('props.' + prop.lower())


def _work(item, conn):
    res = {'sub': item.subidx, 'evals': 0, 'nt': 0, 'hashes': [], 'labels': {}, 'samples': [], 'violation': None,
           'error': None, 'known': {}}
    def onterm(signum, frame):
        raise SystemExit()
    signal.signal(signal.SIGTERM, onterm)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)                 # whatever the code under test prints
    os.close(null)
    try:
        sys.setrecursionlimit(3000)
        mod = _load(item.prop)
        known = set(k for k, _ in known_findings(item.prop))
        sub = mod.SUBS[item.subidx]
        hashes = set()
        state = {'best': None, 'since': None}

        def one(case):
            res['evals'] += 1
            try:
                r = execute(sub, case)
            except Violation as v:
                if v.key is not None and v.key in known:
                    res['known'][v.key] = res['known'].get(v.key, 0) + 1
                    return
                r = None
                enc = dumps(case)
                if state['best'] is None or len(enc) <= len(state['best'][0]):
                    state['best'] = (enc, str(v))
                if state['since'] is None:
                    state['since'] = time.time()
                elif time.time() - state['since'] > SHRINK_SECONDS:
                    raise _StopShrinking()
                raise
            except Hang:
                state['best'] = (dumps(case), 'the case did not end within %d s' % sub.guard)
                raise _StopShrinking()
            if r:
                h = zlib.crc32(repr(case).encode('utf-8', 'surrogatepass')) | (len(repr(case)) << 32)
                if h not in hashes:
                    hashes.add(h)
                    if len(res['samples']) < 3 or (len(hashes) & (len(hashes) - 1)) == 0 and len(res['samples']) < 12:
                        res['samples'].append(case)
                if not isinstance(r, bool) and isinstance(r, (list, tuple, set)):
                    for l in r:
                        res['labels'][l] = res['labels'].get(l, 0) + 1

        try:
            if item.kind == 'enum':
                for i, case in enumerate(sub.enum(item.tier)):
                    if i % item.nshards == item.shard:
                        try:
                            one(case)
                        except Violation:
                            break
            else:
                import hypothesis
                from hypothesis import settings, HealthCheck, Phase, Verbosity

                @hypothesis.seed(item.seed)
                @settings(max_examples=item.count, deadline=None, database=None, report_multiple_bugs=False,
                          suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet, print_blob=False,
                          phases=(Phase.generate, Phase.shrink))
                @hypothesis.given(sub.strategy())
                def test(case):
                    one(case)
                try:
                    test()
                except Violation:
                    pass
                except hypothesis.errors.Flaky:
                    if state['best'] is None:
                        raise
                except BaseExceptionGroup:
                    if state['best'] is None:
                        raise
        except _StopShrinking:
            pass
        if state['best'] is not None:
            res['violation'] = state['best']
        res['hashes'] = list(hashes)
        res['samples'] = [repr(s)[:600] for s in res['samples'][:12]]
    except BaseException:
        res['error'] = traceback.format_exc()
    try:
        conn.send(res)
        conn.close()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def known_findings(prop):
    """ [(key, text)] of the findings recorded (not repaired) for this property """
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('finding: '):
                    parts = dict(p.split('=', 1) for p in line[9:].split(' ', 2)[:2])
                    if parts['property'] == prop:
                        out.append((parts['key'], line[9:].split(' ', 2)[2].strip()))
    return out


def _run_items(items, nproc):
    ctx = multiprocessing.get_context('fork')
    pending, running, results = list(items), [], []
    stop_subs = set()
    while pending or running:
        while pending and len(running) < nproc:
            item = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(item, b))
            p.daemon = True
            p.start()
            b.close()
            running.append((p, a, item))
        ready = multiprocessing.connection.wait([a for _, a, _ in running])
        for tup in list(running):
            p, a, item = tup
            if a in ready:
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                p.join(5)
                running.remove(tup)
                if r is None:
                    r = {'sub': item.subidx, 'evals': 0, 'nt': 0, 'hashes': [], 'labels': {}, 'samples': [], 'violation': None,
                         'error': 'worker died (exit %r)' % p.exitcode, 'known': {}}
                results.append(r)
                if r['violation']:
                    pending = []          # one violation is enough; finish what is running
                    for (q, c, it) in running:
                        q.terminate()
                        q.join(5)
                        if q.is_alive():
                            q.kill()
                    running = []
                    break
    return results


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--procs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--labels', action='store_true')
    args = ap.parse_args(argv)
    t0 = time.time()
    os.chdir(VERIF)
    try:
        mod = _load(args.prop)
    except Exception:
        traceback.print_exc()
        return 3
    if args.replay:
        return replay(mod, args)

    items = []
    for idx, sub in enumerate(mod.SUBS):
        if args.sub and sub.name != args.sub:
            continue
        if sub.enum:
            n = min(args.procs, sub.shards if args.tier == 'quick' else args.procs)
            for s in range(n):
                items.append(Item(args.prop, idx, 'enum', s, n, args.seed, 0, args.tier))
        if sub.strategy:
            total = int((sub.quick if args.tier == 'quick' else sub.thorough) * args.scale)
            n = max(1, min(args.procs, sub.shards if args.tier == 'quick' else args.procs * 2))
            for s in range(n):
                seed = int(hashlib.sha256(('%d/%s/%s/%d' % (args.seed, args.prop, sub.name, s)).encode()).hexdigest()[:12], 16)
                items.append(Item(args.prop, idx, 'gen', s, n, seed, max(1, total // n), args.tier))
    # interleave sub-checks so that all of them start early
    scratch = tempfile.tempdir = tempfile.mkdtemp(prefix='vf-%s-' % args.prop)
    try:
        results = _run_items(items, args.procs)
    finally:
        tempfile.tempdir = None
        shutil.rmtree(scratch, ignore_errors=True)

    per, errors, viol, known = {}, [], None, {}
    for r in results:
        d = per.setdefault(mod.SUBS[r['sub']].name, {'evaluations': 0, 'hashes': set(), 'labels': {}, 'samples': []})
        d['evaluations'] += r['evals']
        d['hashes'].update(r['hashes'])
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        d['samples'].extend(r['samples'][:4])
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
        if r['error']:
            errors.append((mod.SUBS[r['sub']].name, r['error']))
        if r['violation'] and (viol is None or len(r['violation'][0]) < len(viol[1][0])):
            viol = (mod.SUBS[r['sub']].name, r['violation'])
    findings = known_findings(args.prop)
    for key, text in findings:
        print('KNOWN-FINDING: property=%s %s: %s' % (args.prop, key, text))
    evals = sum(d['evaluations'] for d in per.values())
    dist = sum(len(d['hashes']) for d in per.values())
    samples = []
    for name, d in sorted(per.items()):
        samples.extend('%s: %s' % (name, s) for s in d['samples'][:4])
    ev = {'property': args.prop, 'tier': args.tier if args.tier in ('quick', 'thorough') else 'quick', 'seed': args.seed,
          'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': evals, 'distinct_nontrivial': dist,
                       'rule': ' | '.join('%s: %s' % (s.name, s.rule) for s in mod.SUBS), 'samples': samples[:24],
                       'per_check': {n: {'evaluations': d['evaluations'], 'distinct_nontrivial': len(d['hashes']),
                                         'labels': dict(sorted(d['labels'].items()))} for n, d in sorted(per.items())},
                       'known_finding_hits': known},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if viol else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', args.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    if viol:
        name, (enc, msg) = viol
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (args.prop, name))
        with open(path, 'w') as f:
            json.dump({'property': args.prop, 'sub': name, 'message': msg, 'case': json.loads(enc)}, f, indent=1)
        print('sub-check %s: %s' % (name, msg))
        print('case: %s' % (repr(loads(enc))[:1500],))
        print('replay with: bash check.sh %s --replay %s' % (args.prop, path))
        print('VIOLATION property=%s replay=%s' % (args.prop, path))
        return 1
    if errors:
        for name, e in errors[:1]:
            sys.stderr.write('HARNESS ERROR in %s/%s (%d in all):\n%s\n' % (args.prop, name, len(errors), e[:600] + ' ... ' + e[-1200:] if len(e) > 1800 else e))
        return 3
    print('%s %s seed=%d: held on %d cases (%d distinct non-trivial) in %.1f s' % (
        args.prop, args.tier, args.seed, evals, dist, time.time() - t0))
    if args.labels:
        for n, d in sorted(per.items()):
            print('  %s: %d evals, %d non-trivial' % (n, d['evaluations'], len(d['hashes'])))
            for k, v in sorted(d['labels'].items()):
                print('      %-40s %d' % (k, v))
    return 0


def replay(mod, args):
    with open(args.replay) as f:
        data = json.load(f)
    sub = [s for s in mod.SUBS if s.name == data['sub']][0]
    case = loads(json.dumps(data['case']))
    print('case: %r' % (case,))
    try:
        r = execute(sub, case)
    except Violation as v:
        print('reproduced: %s' % v)
        print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
        return 1
    except Hang:
        print('reproduced: no end within %d s' % sub.guard)
        print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
        return 1
    print('held (result %r)' % (r,))
    return 0
