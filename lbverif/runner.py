"""Runs the checks of one property, in forked workers, and reports."""
from __future__ import annotations

import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from lbverif import core
from lbverif.core import Ctx, PROPS, Skip, Violation, spec_key

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LBVERIF_REPO', '/repo')
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
WORKERS = int(os.environ.get('LBVERIF_WORKERS', '8'))


class CaseHang(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseHang()


def load_known(pid):
    """finding: {json} lines of the known-findings file for `pid`."""
    out = []
    try:
        lines = open(KNOWN, encoding='utf-8').read().splitlines()
    except FileNotFoundError:
        return out
    for line in lines:
        if line.startswith('finding: '):
            entry = json.loads(line[len('finding: '):])
            if entry['property'] == pid:
                out.append(entry)
    return out


def in_repo(tb):
    """Whether a traceback passes through the code under test, and where."""
    frames = [f for f in traceback.extract_tb(tb)
              if f.filename.startswith(os.path.join(REPO, 'lambeq'))]
    return frames[-1] if frames else None


def classify(exc):
    """(is_violation, message, signature) for an exception from a case."""
    if isinstance(exc, Violation):
        return True, str(exc), exc.sig
    if isinstance(exc, AssertionError) and in_repo(exc.__traceback__) is None:
        return False, traceback.format_exc(), None
    frame = in_repo(exc.__traceback__)
    if frame is not None:
        where = f'{os.path.relpath(frame.filename, REPO)}:{frame.name}'
        return (True, f'unexpected {type(exc).__name__}: {exc} (raised in '
                f'{where}, line {frame.lineno})',
                f'exc:{type(exc).__name__}:{where}')
    return False, ''.join(traceback.format_exception(exc)), None


def run_case(chk, spec, ctx):
    """Run one case with the hang guard.  Propagates the failure."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(chk.hang)
    try:
        chk.fn(spec, ctx)
    except CaseHang:
        raise Violation(f'the case did not finish within {chk.hang} s',
                        'hang') from None
    finally:
        signal.alarm(0)


def seed_for(seed, pid, name, shard):
    h = hashlib.sha256(f'{seed}/{pid}/{name}/{shard}'.encode()).digest()
    return int.from_bytes(h[:6], 'big')


def worker(pid, chk, shard, nshards, tier, seed, known, soft_deadline):
    """Body of a forked child: returns a plain result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45 if tier == 'quick' else 120

    total = chk.quick if tier == 'quick' else chk.thorough
    total = int(total * float(os.environ.get('LBVERIF_SCALE', '1')))
    n = max(1, total // nshards)
    st = {'evals': 0, 'keys': set(), 'labels': collections.Counter(),
          'samples': [], 'known': collections.Counter(), 'truncated': False,
          'violation': None, 'error': None, 'first': None}
    sseed = seed_for(seed, pid, chk.name, shard)
    known_sigs = {k['sig'] for k in known if k.get('check') == chk.name}
    random.seed(sseed)
    try:
        import numpy
        numpy.random.seed(sseed % 2**32)
    except ImportError:
        pass
    fails = []
    scratch = tempfile.mkdtemp(prefix=f'lbverif-{pid}-')
    os.chdir(scratch)
    if chk.init:
        chk.init()

    def body(spec):
        if not fails and time.time() > soft_deadline:
            st['truncated'] = True
            return
        ctx = Ctx()
        if not fails:
            st['evals'] += 1
        try:
            run_case(chk, spec, ctx)
        except Skip:
            if not fails:
                st['labels']['skipped: too big for the reference'] += 1
            return
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            viol, msg, sig = classify(e)
            if viol and sig is not None and sig in known_sigs:
                st['known'][sig] += 1
                return
            fails.append((viol, msg, sig, spec))
            raise
        if fails:
            return
        key = spec_key(spec)
        for lb in ctx.labels:
            st['labels'][lb] += 1
        if ctx.is_nontrivial:
            if key not in st['keys']:
                st['keys'].add(key)
                if len(st['samples']) < 3:
                    s = json.dumps(spec, default=str)
                    if len(s) > 40:
                        st['samples'].append(s[:700])

    test = given(chk.strategy())(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink),
                    report_multiple_bugs=False, print_blob=False)(test)
    test = hypothesis.seed(sseed)(test)
    try:
        test()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if fails:
            viol, msg, sig, spec = fails[-1]
            rec = {'check': chk.name, 'spec': spec, 'msg': msg, 'sig': sig}
            if viol:
                st['violation'] = rec
            else:
                st['error'] = rec
        else:
            st['error'] = {'check': chk.name,
                           'msg': ''.join(traceback.format_exception(e))}
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    st['keys'] = sorted(st['keys'])
    st['labels'] = dict(st['labels'])
    st['known'] = dict(st['known'])
    return st


def one_spec(pid, chk, spec):
    """Run one saved spec in this process: None, or (viol, msg, sig)."""
    scratch = tempfile.mkdtemp(prefix=f'lbverif-{pid}-')
    cwd = os.getcwd()
    os.chdir(scratch)
    random.seed(0)
    try:
        import numpy
        numpy.random.seed(0)
        if chk.init:
            chk.init()
        run_case(chk, spec, Ctx())
    except Skip:
        return None
    except Exception as e:
        return classify(e)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return None


def fork_call(fn, out):
    """Fork; the child writes pickle(fn()) to `out`.  Returns the pid."""
    sys.stdout.flush()
    sys.stderr.flush()
    child = os.fork()
    if child:
        return child
    code = 0
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        log = os.open(out + '.log', os.O_WRONLY | os.O_CREAT, 0o600)
        os.dup2(log, 2)
        res = fn()
        with open(out + '.tmp', 'wb') as f:
            pickle.dump(res, f)
        os.rename(out + '.tmp', out)
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        try:
            sys.stderr.flush()
        finally:
            os._exit(code)


def load_prop(pid):
    importlib.import_module(f'lbverif.props.{pid.lower()}')
    return PROPS[pid]


def save_replay(pid, rec):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(
        d, f"{pid}-{rec['check']}-{spec_key(rec['spec'])}.json")
    with open(path, 'w') as f:
        json.dump({'property': pid, **rec}, f, indent=1, default=str)
    return path


def run(pid, tier, seed):
    t0 = time.time()
    budget = 560 if tier == 'quick' else 3600 * 3
    p = load_prop(pid)
    known = load_known(pid)
    tmp = tempfile.mkdtemp(prefix='lbverif-run-')
    tasks = []
    for chk in p.checks.values():
        nsh = chk.shards if tier == 'quick' else max(chk.shards, WORKERS)
        for s in range(nsh):
            tasks.append((chk, s, nsh))
    # saved failing inputs of past runs, as plain regression cases
    regress = []
    rp = os.path.join(HERE, 'regress', pid + '.jsonl')
    if os.path.exists(rp):
        for line in open(rp):
            if line.strip():
                regress.append(json.loads(line))

    def do_regress():
        out = []
        for r in regress:
            chk = p.checks.get(r['check'])
            if chk is None:
                continue
            out.append((r, one_spec(pid, chk, r['spec'])))
        return out

    def do_known():
        return [(k, one_spec(pid, p.checks[k['check']], k['spec']))
                for k in known]

    queue = []
    if regress:
        queue.append(('regress', None, do_regress))
    if known:
        queue.append(('known', None, do_known))
    for chk, s, nsh in tasks:
        queue.append((f'{chk.name}#{s}', chk,
                      lambda chk=chk, s=s, nsh=nsh: worker(
                          pid, chk, s, nsh, tier, seed, known, t0 + budget)))
    results, running, errors = {}, {}, []
    pending = collections.deque(queue)
    stop_at = None
    hard = t0 + budget + 200
    while pending or running:
        while pending and len(running) < WORKERS and stop_at is None:
            name, chk, fn = pending.popleft()
            out = os.path.join(tmp, str(len(results) + len(running))
                               + '-' + name.replace('/', '_'))
            running[fork_call(fn, out)] = (name, out)
        if stop_at is not None:
            pending.clear()
            if not running:
                break
        done, status = os.waitpid(-1, os.WNOHANG)
        if done == 0:
            now = time.time()
            if (stop_at and now > stop_at) or now > hard:
                for c in running:
                    try:
                        os.kill(c, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                for c in list(running):
                    try:
                        os.waitpid(c, 0)
                    except ChildProcessError:
                        pass
                    name, out = running.pop(c)
                    if now > hard:
                        errors.append(f'{name}: out of time')
                break
            time.sleep(0.02)
            continue
        if done not in running:
            continue
        name, out = running.pop(done)
        if os.path.exists(out):
            results[name] = pickle.load(open(out, 'rb'))
        else:
            log = ''
            if os.path.exists(out + '.log'):
                log = open(out + '.log', errors='replace').read()[-3000:]
            errors.append(f'{name}: worker died (status {status})\n{log}')
            continue
        r = results[name]
        if (isinstance(r, dict) and r['violation'] and stop_at is None
                and not os.environ.get('LBVERIF_ALL')):
            stop_at = time.time() + 3

    violations, known_seen = [], []
    evals, keys, labels = 0, set(), collections.Counter()
    samples, per_check, excluded = [], {}, collections.Counter()
    truncated = []
    for name, r in results.items():
        if name == 'regress':
            for rec, res in r:
                evals += 1
                if res is not None:
                    viol, msg, sig = res
                    if sig and any(k['sig'] == sig and k['check']
                                   == rec['check'] for k in known):
                        continue
                    if viol:
                        violations.append({'check': rec['check'],
                                           'spec': rec['spec'],
                                           'msg': msg, 'sig': sig})
                    else:
                        errors.append(f'regress: {msg}')
            continue
        if name == 'known':
            for k, res in r:
                evals += 1
                if res is not None and not res[0]:
                    errors.append(f'known: {res[1]}')
                elif res is not None and res[2] == k['sig']:
                    known_seen.append(k)
                elif res is not None:
                    violations.append({'check': k['check'],
                                       'spec': k['spec'],
                                       'msg': res[1], 'sig': res[2]})
            continue
        cname = name.split('#')[0]
        evals += r['evals']
        keys.update((cname, k) for k in r['keys'])
        for lb, c in r['labels'].items():
            labels[f'{cname}:{lb}'] += c
        pc = per_check.setdefault(cname, [0, 0])
        pc[0] += r['evals']
        pc[1] += len(r['keys'])
        samples += [f'{cname}: {s}' for s in r['samples'][:1]]
        excluded.update(r['known'])
        if r['truncated']:
            truncated.append(name)
        if r['violation']:
            violations.append(r['violation'])
        if r['error']:
            errors.append(f"{name}: {r['error'].get('msg')}\n"
                          f"spec: {json.dumps(r['error'].get('spec'), default=str)[:2000]}")
    shutil.rmtree(tmp, ignore_errors=True)

    seen = set()
    uniq = []
    for v in violations:
        k = (v['check'], v['sig'] or v['msg'][:80])
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(keys),
            'rule': ' | '.join(f'{c.name}: {c.rule}'
                               for c in p.checks.values())[:6000],
            'samples': samples[:24],
            'per_check': {c: {'cases': v[0], 'nontrivial': v[1]}
                          for c, v in sorted(per_check.items())},
            'classes': dict(sorted(labels.items())[:200]),
            'excluded_known_findings': dict(excluded),
            'regression_cases': len(regress),
            'truncated_by_budget': truncated[:20],
        },
        'assumptions': p.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(uniq),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)

    for k in known_seen:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f'{pid} {tier} seed={seed}: {evals} cases, {len(keys)} distinct '
          f'non-trivial, {ev["wall_s"]} s')
    for v in uniq:
        rpath = save_replay(pid, v)
        print(f"  {v['check']}: {v['msg'][:1500]}")
        print(f"  spec: {json.dumps(v['spec'], default=str)[:1500]}")
        print(f'VIOLATION property={pid} replay={rpath}')
    if uniq:
        return 1
    if errors:
        for e in errors:
            print('HARNESS ERROR', e, file=sys.stderr)
        return 3
    return 0


def replay(path):
    rec = json.load(open(path))
    p = load_prop(rec['property'])
    res = one_spec(rec['property'], p.checks[rec['check']], rec['spec'])
    if res is None:
        print('the case passes')
        return 0
    print(res[1])
    if not res[0]:
        return 3
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1
