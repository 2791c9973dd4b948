"""Explorer: enumerates a check's cases on 8 processes, records violations,
writes evidence and replay files.

A check module has  ID, LEVEL, RULE, ASSUMPTIONS  and  cases(tier), a generator
of (key, fn): key names the case, fn(ctx) explores it on the real code and
calls ctx.fail(...) when the property is broken there.  A case that raises is a
violation too: every case is one the documentation says must work."""
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import signal
import sys
import tempfile
import time
import traceback

from mc.endless import Endless

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(HERE, 'replays')
EVIDENCE = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')
MAX_VIOLATIONS = 25         # per worker, then it stops
MAX_HANGS = 2               # likewise
CASE_CPU = 180              # seconds of CPU one case may use; none uses a tenth of it


class Hang(BaseException):
    """The code under test used far more CPU than any case needs."""


def _on_alarm(sig, frame):
    raise Hang()


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.states = self.transitions = self.traces = 0
        self.skipped = {}
        self.bounds = {}
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.hangs = 0
        self.slowest = (0.0, '')
        self.key = ''

    # --- counting
    def state(self, n=1):
        self.states += n

    def op(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def skip(self, why, n=1):
        self.skipped[why] = self.skipped.get(why, 0) + n

    def bound(self, name, value):
        self.bounds[name] = max(value, self.bounds.get(name, value))

    # --- verdicts
    def fail(self, what, sub=''):
        key = f'{self.key}{"#" + sub if sub else ""}'
        if all(v['key'] != key for v in self.violations):
            self.violations.append({'key': key, 'what': str(what)[:2000]})

    def expect(self, ok, what, sub=''):
        if not ok:
            self.fail(what() if callable(what) else what, sub)
        return ok


def run_case(ctx, key, fn):
    ctx.key = key
    start = time.process_time()
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        fn(ctx)
    except Hang:
        ctx.hangs += 1
        ctx.fail(f'no answer after {CASE_CPU} s of CPU time')
    except MemoryError:
        ctx.fail('ran out of memory')
    except RecursionError:
        ctx.fail('unbounded recursion: ' + traceback.format_exc()[-600:])
    except Endless as e:
        ctx.fail(f'endless reading: {e}')
    except Exception:
        ctx.fail('unexpected exception:\n' + traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.slowest = max(ctx.slowest, (round(time.process_time() - start, 1), key[:120]))


def worker(mod, tier, seed, shard, shards, deadline, only, cell, out, extra=0):
    signal.signal(signal.SIGPROF, _on_alarm)
    lim = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    ctx = Ctx(tier, seed)
    rng = random.Random(seed * 1000 + shard)
    ncases = 0
    capped = None
    want = set(rng.randrange(1, 400) for _ in range(3)) if only is None else {0}
    try:
        for i, (key, fn) in enumerate(mod.cases(tier)):
            if only is not None:
                if key != only:
                    continue
            elif i % shards != shard:
                continue
            raw = key.encode('utf8', 'replace')[:len(cell) - 8]
            cell[:8] = len(raw).to_bytes(8, 'little')
            cell[8:8 + len(raw)] = raw
            before = ctx.transitions
            run_case(ctx, key, fn)
            if ncases in want or ncases == 0:
                ctx.samples.append(f'{key} ({ctx.transitions - before} operations)')
            ncases += 1
            if len(ctx.violations) >= MAX_VIOLATIONS or ctx.hangs >= MAX_HANGS:
                capped = 'too many violations'
                break
            if time.time() > deadline:
                capped = f'time limit, after case {i}'
                break
    except Exception:
        ctx.key = ctx.key or 'case generator'
        ctx.fail('the case generator failed (a class the documentation allows '
                 'cannot be defined?):\n' + traceback.format_exc()[-1500:], 'generator')
    res = {k: getattr(ctx, k) for k in (
        'states', 'transitions', 'traces', 'skipped', 'bounds', 'outcomes',
        'samples', 'violations', 'slowest')}
    res.update(cases=ncases, capped=capped)
    with open(out, 'w') as f:
        json.dump(res, f)


def explore(mod, tier, seed, only=None, shards=None, budget=None):
    """Run every case on `shards` processes; return the merged result."""
    shards = 1 if only is not None else (shards or getattr(mod, 'SHARDS', None) or min(8, os.cpu_count() or 1))
    deadline = time.time() + (budget or (300 if tier == 'quick' else 820))
    tmp = tempfile.mkdtemp(prefix='mc-')
    procs = []
    for s in range(shards):
        cell = mmap.mmap(-1, 4096)
        out = os.path.join(tmp, f'{s}.json')
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                worker(mod, tier, seed, s, shards, deadline, only, cell, out)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        procs.append((pid, cell, out))
    total = {'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0,
             'skipped': {}, 'bounds': {}, 'outcomes': {}, 'samples': [],
             'violations': [], 'capped': [], 'slowest': [0.0, '']}
    hard = deadline + 70
    for pid, cell, out in procs:
        status = None
        while True:
            done, st = os.waitpid(pid, os.WNOHANG)
            if done:
                status = st
                break
            if time.time() > hard:
                os.kill(pid, signal.SIGKILL)
            time.sleep(0.02)
        try:
            with open(out) as f:
                res = json.load(f)
            os.remove(out)
        except (OSError, ValueError):
            n = int.from_bytes(cell[:8], 'little')
            key = cell[8:8 + n].decode('utf8', 'replace')
            total['violations'].append({
                'key': key, 'what': f'the process exploring this case died (wait status {status})'})
            continue
        total['slowest'] = max(total['slowest'], res['slowest'])
        for k in ('states', 'transitions', 'traces', 'cases'):
            total[k] += res[k]
        for k in ('skipped', 'outcomes'):
            for n, c in res[k].items():
                total[k][n] = total[k].get(n, 0) + c
        for n, c in res['bounds'].items():
            total['bounds'][n] = max(c, total['bounds'].get(n, c))
        total['samples'].extend(res['samples'])
        total['violations'].extend(res['violations'])
        if res['capped']:
            total['capped'].append(res['capped'])
    os.rmdir(tmp)
    seen, uniq = set(), []
    for v in total['violations']:
        if v['key'] not in seen:
            seen.add(v['key'])
            uniq.append(v)
    total['violations'] = uniq
    return total


def known_findings(prop):
    """Open findings of a property: {key: description}."""
    res = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith(f'finding: property={prop} key='):
                    key, _, desc = line.split(' key=', 1)[1].partition(' :: ')
                    res[key.strip()] = desc.strip()
    except OSError:
        pass
    return res


def write_replay(prop, v, tier, seed):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1(v['key'].encode('utf8', 'replace')).hexdigest()[:12]
    path = os.path.join(REPLAYS, f'{prop}-{h}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'key': v['key'],
                   'what': v['what'],
                   'replay': f'./check {prop} --replay {path}'}, f, indent=1)
    return path


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='explore only the case with this key')
    ap.add_argument('--replay', help='re-run the case of a replay file')
    ap.add_argument('--shards', type=int)
    args = ap.parse_args(argv)
    prop = args.property
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    only = args.only
    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        tier, only = r['tier'], r['key'].split('#')[0]
    level, assumptions, rule = 'model_checking', [], ''
    try:
        mod = importlib.import_module(f'checks.{prop.lower()}')
        level = getattr(mod, 'LEVEL', level)
        assumptions = getattr(mod, 'ASSUMPTIONS', [])
        rule = getattr(mod, 'RULE', '')
        total = explore(mod, tier, seed, only, args.shards)
    except Exception:
        total = {'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0, 'skipped': {},
                 'bounds': {}, 'outcomes': {}, 'samples': [], 'capped': ['import failed'],
                 'slowest': [0.0, ''],
                 'violations': [{'key': 'import', 'what':
                     'the library cannot be loaded or its documented types cannot be '
                     'defined:\n' + traceback.format_exc()[-1500:]}]}
    known = known_findings(prop)
    hits, bad = {}, []
    for v in total['violations']:
        if v['key'] in known:
            hits[v['key']] = known[v['key']]
        else:
            bad.append(v)
    wall = time.time() - t0
    exhaustive = not total['capped'] and only is None
    cov = {
        'cases': total['cases'],
        'exhaustive': exhaustive,
        'bounds': total['bounds'],
        'outcomes': total['outcomes'],
        'excluded': total['skipped'],
        'samples': sorted(total['samples'])[:12] or ['(none)'],
        'rule': rule,
        'slowest_case': '%s s CPU: %s' % tuple(total['slowest']),
    }
    if level == 'fault_enumeration':
        cov.update(evaluations=total['transitions'], distinct_nontrivial=total['states'])
    else:
        cov.update(states=total['states'], transitions=total['transitions'],
                   traces_validated_against_impl=total['traces'])
    if total['capped']:
        cov['capped'] = total['capped']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': assumptions, 'wall_s': round(wall, 2),
          'violations': len(bad)}
    if only is None:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for key, desc in sorted(hits.items()):
        print(f'KNOWN-FINDING: property={prop} {desc} [{key}]')
    print(f'{prop} {tier}: cases={total["cases"]} states={total["states"]} '
          f'transitions={total["transitions"]} traces={total["traces"]} '
          f'outcomes={total["outcomes"]} skipped={total["skipped"]} '
          f'{"EXHAUSTIVE within bounds" if exhaustive else "NOT exhaustive: %s" % total["capped"]} '
          f'wall={wall:.1f}s')
    for v in bad[:20]:
        path = write_replay(prop, v, tier, seed)
        print(f'VIOLATION property={prop} replay={path}')
        print('  case: ' + v['key'][:300])
        print('  ' + v['what'].replace('\n', '\n  '))
    if len(bad) > 20:
        print(f'  ... and {len(bad) - 20} more')
    sys.stdout.flush()
    return 1 if bad else 0
