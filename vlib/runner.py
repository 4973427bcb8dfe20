"""Drives one check: worker processes generate and run cases, the first failing case is shrunk and saved, evidence is written.

Parent:  check.py C01 [--tier quick|thorough] [--replay FILE]
Worker:  python -m vlib.runner --worker C01 <shard json>      (started by the parent, one JSON object per stdout line)
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import re
import resource
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NWORK = int(os.environ.get('VERIF_WORKERS', '8'))
MEM = 6 << 30


class Hang(BaseException):
    pass


class Outcome:
    """problems: list of str; sig: None for a trivial case, else a hashable description of what was exercised;
    labels: classes the case falls into (counted); n: evaluations made for this case"""
    __slots__ = ('problems', 'sig', 'labels', 'n')

    def __init__(self, problems=(), sig=None, labels=(), n=1):
        self.problems, self.sig, self.labels, self.n = list(problems), sig, list(labels), n


def category(msg):
    """what has to stay the same while shrinking"""
    s = re.sub(r"'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"", "'_'", msg)
    s = re.sub(r'\b[0-9a-f]{6,}\b', '#', s)
    s = re.sub(r'[-+]?\d+(\.\d+)?(e[-+]?\d+)?', '#', s)
    s = re.sub(r'(#[,.;: ]*)+', '#', s)
    return s[:70]


def cats(problems):
    return {category(p) for p in problems}


# ------------------------------------------------------------------------------------------------ worker
class Ctx:
    def __init__(self, check, shard, work):
        self.check, self.shard, self.dir = check, shard, work
        self.deadline = None
        self.limit = 60

    def guarded(self, case):
        """run one case under a time limit; anything unexpected from the harness itself is a harness error (raised)"""
        def onalarm(*a):
            raise Hang()
        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(self.limit)
        try:
            return self.check.run(case, self)
        except Hang:
            return Outcome([f"the case did not finish within {self.limit} s"], sig='hang')
        finally:
            signal.alarm(0)


def load(cid):
    sys.path.insert(0, HERE) if HERE not in sys.path else None
    return importlib.import_module('checks.' + cid.lower()).CHECK


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


def emit(o):
    sys.__stdout__.write(json.dumps(o) + '\n')
    sys.__stdout__.flush()


def worker(cid, shard):
    mem = shard.get('mem', MEM)
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from . import prog
    prog.quiet()
    real = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    work = tempfile.mkdtemp(prefix=f"verif-{cid}-", dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    ev, sigs, labels, samples = 0, set(), collections.Counter(), []
    try:
        check = load(cid)
        ctx = Ctx(check, shard, work)
        check.setup(ctx)
        t0 = time.time()
        deadline = t0 + shard.get('cap', 120)
        done = 0
        if 'cases' in shard:
            src = ((None, c) for c in shard['cases'])
        else:
            src = ((i, None) for i in range(shard['lo'], shard['hi']))
        for i, case in src:
            if time.time() > deadline:
                labels['(stopped by the time limit)'] += 1
                break
            seed = None
            if case is None:
                seed = f"{shard['seed']}/{cid}/{shard['name']}/{i}"
                case = check.case(seed, shard)
                if case is None:
                    continue
            out = ctx.guarded(case)
            done += 1
            ev += out.n
            for l in out.labels:
                labels[l] += 1
            if out.sig is not None:
                if isinstance(out.sig, (list, set, frozenset)):
                    sigs.update(digest(s) for s in out.sig)
                else:
                    sigs.add(digest(out.sig))
                if len(samples) < 2 and not out.problems and 'cases' not in shard:
                    t = json.dumps(case)
                    samples.append(case if len(t) < 1500 else {'seed': seed, 'truncated': t[:1200]})
            if out.problems:
                emit({'found': {'case': case, 'problems': out.problems[:20], 'seed': seed}})
                from .shrink import shrink
                want = cats(out.problems)
                ctx.limit = 20

                def fails(c):
                    try:
                        o = ctx.guarded(c)
                    except Exception:
                        return None
                    return o.problems if cats(o.problems) & want else None
                small, probs, tried = shrink(case, fails, check, time.time() + shard.get('shrink_s', 45))
                emit({'violation': {'case': small, 'problems': (probs or out.problems)[:20], 'seed': seed, 'shrink_steps': tried}})
                break
        emit({'done': {'evaluations': ev, 'cases': done, 'sigs': sorted(sigs), 'labels': labels, 'samples': samples,
                       'wall': round(time.time() - t0, 2)}})
    except Exception:
        emit({'error': traceback.format_exc()})
    finally:
        shutil.rmtree(work, ignore_errors=True)
        sys.stdout = real


# ------------------------------------------------------------------------------------------------ parent
def worker_env(shard):
    env = dict(os.environ)
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[k] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPATH'] = os.path.join(REPO, 'src')
    env.pop('TZ', None)
    env.update(shard.get('env') or {})
    return env


def spawn(cid, shard):
    p = subprocess.Popen([sys.executable, '-m', 'vlib.runner', '--worker', cid], cwd=HERE, env=worker_env(shard),
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    p.stdin.write(json.dumps(shard).encode())
    p.stdin.close()
    os.set_blocking(p.stdout.fileno(), False)
    p.buf = b''
    p.shard = shard
    return p


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def split(shards, seed, tier):
    """cut each shard into pieces so that the workers stay busy"""
    out = []
    for s in shards:
        s = dict(s)
        s['seed'] = seed
        s['tier'] = tier
        n = s.pop('n')
        k = min(s.pop('pieces', NWORK), max(1, n))
        for j in range(k):
            lo, hi = n * j // k, n * (j + 1) // k
            if hi > lo:
                out.append(dict(s, lo=lo, hi=hi))
    return out


class Findings:
    """known-findings.txt: lines 'fixed: property=.. ..' (informative) and 'finding: property=<id> key=<category> <what fails>'"""

    def __init__(self, cid):
        self.items = []
        p = os.path.join(HERE, 'known-findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == cid:
                    self.items.append((m.group(2), m.group(3)))


def run_parent(cid, tier, seed):
    t0 = time.time()
    check = load(cid)
    shards = check.shards(tier)
    jobs = []
    corpus = []
    cdir = os.path.join(HERE, 'corpus', cid)
    if os.path.isdir(cdir):
        for f in sorted(os.listdir(cdir)):
            d = json.load(open(os.path.join(cdir, f)))
            corpus.append(d)
    groups = {}
    for d in corpus:
        groups.setdefault(json.dumps(d.get('env') or {}, sort_keys=True), []).append(d['case'])
    for k, cs in groups.items():
        jobs.append({'name': 'corpus', 'seed': seed, 'tier': tier, 'cases': cs, 'env': json.loads(k)})
    jobs += split(shards, seed, tier)
    cap = check.cap(tier)
    for j in jobs:
        j.setdefault('cap', cap)
    hard = t0 + check.hard(tier)
    live, queue = [], list(jobs)
    sel = selectors.DefaultSelector()
    tot = {'evaluations': 0, 'cases': 0}
    sigs, labels, samples = set(), collections.Counter(), []
    found = viol = error = None
    found_t = None
    per_shard = collections.Counter()

    def finish(p):
        sel.unregister(p.stdout)
        live.remove(p)
        err = p.stderr.read()
        rc = p.wait()
        p.stderr.close()
        return rc, err

    def handle(p, o):
        nonlocal found, viol, error, found_t
        if 'found' in o and found is None:
            found = dict(o['found'], env=p.shard.get('env') or {}, shard=p.shard['name'], pid=p.pid)
            found_t = time.time()
        elif 'violation' in o and found is not None and found['pid'] == p.pid:
            viol = dict(o['violation'], env=p.shard.get('env') or {}, shard=p.shard['name'])
        elif 'error' in o:
            error = error or o['error']
        elif 'done' in o:
            d = o['done']
            p.finished = True
            tot['evaluations'] += d['evaluations']
            tot['cases'] += d['cases']
            per_shard[p.shard['name']] += d['cases']
            sigs.update(d['sigs'])
            labels.update(d['labels'])
            if len(samples) < 4 and d['samples']:
                samples.append(d['samples'][0])

    while live or queue:
        while queue and len(live) < NWORK and found is None and error is None:
            p = spawn(cid, queue.pop(0))
            p.finished = False
            live.append(p)
            sel.register(p.stdout, selectors.EVENT_READ, p)
        for key, _ in sel.select(timeout=0.5):
            p = key.data
            try:
                chunk = os.read(p.stdout.fileno(), 1 << 16)
            except BlockingIOError:
                continue
            if not chunk:
                rc, err = finish(p)
                if not p.finished and error is None and (found is None or found['pid'] == p.pid) and viol is None:
                    msg = f"worker for shard {p.shard['name']} ended with status {rc}\n{err.decode(errors='replace')[-2000:]}"
                    if found is None:
                        error = msg
                continue
            p.buf += chunk
            *lines, p.buf = p.buf.split(b'\n')
            for line in lines:
                handle(p, json.loads(line))
        if found is not None:
            queue.clear()
            for p in list(live):
                if p.pid != found['pid'] or viol is not None or time.time() > found_t + 75:
                    kill(p)
                    finish(p)
        if error is not None and found is None:
            for p in list(live):
                kill(p)
                finish(p)
            break
        if time.time() > hard:
            labels['(stopped by the overall time limit)'] += 1
            queue.clear()
            for p in list(live):
                kill(p)
                finish(p)
    if error is not None and found is None:
        print(f"{cid}: harness error\n{error}")
        return 2
    res = viol or found
    findings = Findings(cid)
    rc = 0
    if res is not None:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', f"{cid}-{digest(json.dumps(res['case']))}.json")
        json.dump({'property': cid, 'env': res['env'], 'shard': res['shard'], 'seed': res['seed'], 'problems': res['problems'],
                   'case': res['case']}, open(path, 'w'), indent=1)
        for p in res['problems'][:8]:
            print('  ' + p[:600])
        print(f"VIOLATION property={cid} replay={path}")
        rc = 1
    for key, what in findings.items:
        print(f"KNOWN-FINDING: property={cid} {what}")
    evid = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['evaluations'], 'distinct_nontrivial': len(sigs), 'rule': check.rule, 'samples': samples,
            'cases_per_group': dict(per_shard), 'classes': dict(sorted(labels.items(), key=lambda x: -x[1])[:80]),
        },
        'assumptions': check.assumptions, 'violations': 1 if rc else 0, 'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', f".{cid}.tmp")
    json.dump(evid, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', f"{cid}.json"))
    print(f"{cid} {tier}: {tot['evaluations']} evaluations, {len(sigs)} distinct non-trivial, {time.time() - t0:.1f} s, "
          f"{'VIOLATED' if rc else 'held'}")
    return rc


def replay(cid, path):
    d = json.load(open(path))
    shard = {'name': 'replay', 'seed': 0, 'tier': 'quick', 'cases': [d['case']], 'env': d.get('env') or {}, 'shrink_s': 0}
    p = spawn(cid, shard)
    os.set_blocking(p.stdout.fileno(), True)
    rc = 0
    for line in p.stdout.read().splitlines():
        o = json.loads(line)
        if 'error' in o:
            print(o['error'])
            return 2
        if 'found' in o:
            rc = 1
            for q in o['found']['problems']:
                print('  ' + q[:1000])
    p.wait()
    if rc:
        print(f"VIOLATION property={cid} replay={path}")
    else:
        print(f"{cid}: the case passes")
    return rc


def main(argv):
    if argv[:1] == ['--worker']:
        worker(argv[1], json.loads(sys.stdin.read()))
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('cid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    os.chdir(HERE)
    if a.replay:
        return replay(a.cid, a.replay)
    return run_parent(a.cid, a.tier, a.seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
