"""C14 - output depends only on the current specification, not on process history."""
import copy
import json
import random

from checks.c13 import redata
from vlib import gen, hist
from vlib import schema as S
from vlib.base import SLOWBAR, Check, features, fix_time
from vlib.runner import Outcome
from vlib.shrink import generic_candidates, program_candidates, specs

B = {'nobj': (0, 5), 'rows': (1, 6), 'nchan': (1, 3), 'p_attr': 0.35, 'collide': 0.6, 'nofmt': (0, 2), 'window': 0.25}


def twist(v, rnd, p=0.4, key=None):
    """the same shape of value with values that are equal to or easily confused with the original ones"""
    if isinstance(v, dict):
        if '$ref' in v or '$enumv' in v or '$arr' in v or '$dtype' in v:
            return v
        return {k: twist(x, rnd, p, k) if k not in ('dtype', 'shape', 'fill', 'kind', 'layout', '$np', 'tz', '$dt', 'fold') else x
                for k, x in v.items()}
    if isinstance(v, list):
        return [twist(x, rnd, p) for x in v]
    if rnd.random() > p:
        return v
    if isinstance(v, bool):
        return rnd.choice((int(v), float(v), not v))
    if isinstance(v, int):
        return rnd.choice((float(v), v + 1, bool(v) if v in (0, 1) else -v, {'$np': 'int64', 'v': v} if abs(v) < 2**62 else v, str(v)))
    if isinstance(v, float):
        if v != v:
            return v              # JSON has only one NaN
        if v == int(v) if abs(v) < 1e9 else False:
            return rnd.choice((int(v), -v, {'$np': 'float32', 'v': v}, True))
        return rnd.choice((-v, 0, 1, 0.0, -0.0))
    if isinstance(v, str):
        return rnd.choice((v.upper(), v.lower(), v + ' ', v[::-1], v))
    return v


def twin(pr, rnd):
    """another program that uses the same names with other references, types, copy numbers and values"""
    q = copy.deepcopy(pr)
    ops = []
    for op in q['ops']:
        if op[0] == 'add':
            kw = op[4]
            for k in list(kw):
                if k in ('name', 'set_name', 'data', 'channels', 'cast_dtype', 'dataset_name', 'origin_reference'):
                    continue
                kw[k] = twist(kw[k], rnd)
                if isinstance(kw[k], (int, float, str)) and rnd.random() < 0.1:
                    del kw[k]
            if op[2] == 'origin' and rnd.random() < 0.6:
                kw['origin_reference'] = rnd.choice((0, 1, 2, 5, 127, 128, 300))
            if 'name' in kw and rnd.random() < 0.1 and op[2] != 'channel':
                kw['name'] = rnd.choice(('A', 'B', 'CHAN', '0'))
            if op[2] not in ('origin', 'channel', 'frame') and rnd.random() < 0.2:
                dup = copy.deepcopy(op)
                dup[3] = op[3] + 'd'
                ops.append(dup)
        elif op[0] in ('set', 'setattrs') and rnd.random() < 0.5:
            op = op[:-1] + [twist(op[-1], rnd)]
        elif op[0] == 'nofmt' and rnd.random() < 0.5:
            op = op[:3] + ['OTHER']
        elif op[0] in ('name', 'oref') and rnd.random() < 0.4:
            continue
        elif op[0] == 'write' and op[1].get('data') and rnd.random() < 0.7:
            op = ['write', dict(op[1], data=redata(op[1]['data'], rnd))]
        ops.append(op)
    if rnd.random() < 0.3:
        for s in specs(ops):
            if rnd.random() < 0.4:
                s['dtype'] = rnd.choice(('float32', 'float64', 'uint8', 'int16', '>f8'))
                s['fill'] = {'lin': [0, 1]}
    if rnd.random() < 0.25:
        q['sul'] = dict(q.get('sul') or {}, max_record_length=rnd.choice((20, 64, 512, 8192)))
    if rnd.random() < 0.2:
        q['hc'] = not q.get('hc')
    return dict(q, ops=ops)


def other_opts(w, rnd, n):
    o = {k: copy.deepcopy(v) for k, v in w.items() if k not in ('from', 'to', 'pathlib')}
    if rnd.random() < 0.5:
        a = rnd.randint(0, n - 1)
        b = rnd.randint(a + 1, n)
        if rnd.random() < 0.8:
            o['from'] = a
        if rnd.random() < 0.8:
            o['to'] = b
    if o.get('data') and o['data']['kind'] in ('dict', 'struct', 'h5') and rnd.random() < 0.5:
        o['data'] = redata(o['data'], rnd)
        if len({s['shape'][0] for _, s in o['data']['sets']}) == 1 and all(x and '/' not in x and len(x) < 50 for x, _ in o['data']['sets']) and rnd.random() < 0.3:
            o['data']['kind'] = rnd.choice(('dict', 'struct', 'h5'))
        if rnd.random() < 0.15:
            o['data']['sets'] = o['data']['sets'][1:]
    if rnd.random() < 0.3:
        o['ichunk'] = rnd.choice((1, 2, 3))
    if rnd.random() < 0.05:
        o['ichunk'] = 0
    return o


def retype(spec, rnd):
    new = rnd.choice(('float32', 'float64', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int8', '>f8', '>f4', '>i2', '<u4'))
    spec['dtype'] = new
    if len(spec['shape']) > 1 and rnd.random() < 0.2:
        spec['shape'][1] += rnd.choice((1, 2))
    spec['fill'] = {'lin': [rnd.randint(0, 9), 1]} if spec['shape'][0] * (spec['shape'] + [1])[1] < 100 else {'vals': [rnd.randint(0, 99) for _ in range(9)]}


def retyped(pr, rnd):
    q = copy.deepcopy(pr)
    for s in specs(q['ops']):
        if rnd.random() < 0.8:
            retype(s, rnd)
    return q


def changes(pr, upto, rnd):
    """a few things that can be changed and changed back"""
    out = []
    adds = [op for op in pr['ops'][:upto] if op[0] == 'add']
    by = {op[3]: op for op in adds}
    frames = [op for op in adds if op[2] == 'frame' and op[4].get('index_type') is not None and isinstance(op[4].get('channels'), list)]
    if frames and rnd.random() < 0.4:       # what values determined when writing are taken from
        f = rnd.choice(frames)
        k = rnd.choice(('units', 'units', 'index_min', 'index_max', 'spacing', 'direction'))
        if k == 'units':
            i = f[4]['channels'][0].get('$ref') if f[4]['channels'] and isinstance(f[4]['channels'][0], dict) else None
            if i in by:
                out.append(['attr', i, 'units', rnd.choice(('m', 'ft', 's', '0.1 in')), None])
        else:
            out.append(['attr', f[3], k, 'DECREASING' if k == 'direction' else rnd.choice((3.5, 3, 0)),
                        rnd.choice((None, 'ft', 'm')) if k != 'direction' else None])
    for _ in range(rnd.randint(1, 3)):
        if not adds:
            break
        op = rnd.choice(adds)
        r = rnd.random()
        if r < 0.25:
            out.append(['name', op[3], rnd.choice(('EXC', 'A', 'B', 'CHAN', 'LONGER-NAME-THAN-BEFORE'))])
        elif r < 0.4:
            out.append(['oref', op[3], rnd.choice((0, 1, 2, 127, 128, 300))])
        elif op[2] == 'channel' and r < 0.6:
            out.append(['cast', op[3], rnd.choice(('float32', 'float64', 'uint8', 'int16'))])
        elif op[2] == 'channel' and r < 0.7:
            out.append(['dsname', op[3], rnd.choice(('EXC', 'A', 'unused1'))])
        else:
            cand = [a for a in S.KINDS[op[2]].attrs if (op[4].get(a.kw) is not None or not a.multi) and a.t in hist.EXC_VALUES]
            if cand:
                a = rnd.choice(cand)
                v = hist.EXC_VALUES[a.t]
                out.append(['attr', op[3], a.attr, [v] if a.multi and not isinstance(v, list) else v, 'ft' if a.units and rnd.random() < 0.3 else None])
    return out


TOUCH = ('obname', 'copy_number', 'origin_reference', 'attributes', 'parent', 'name')


def activities(pr, rnd, pos):
    """something that may happen at a position of the program"""
    w = pr['ops'][-1][1]
    n = min([s['shape'][0] for s in specs(pr['ops'])] or [1])
    r = rnd.random()
    ids = [op[3] for op in pr['ops'][:pos] if op[0] == 'add']
    if r < 0.35:
        return ['write', other_opts(w, rnd, n)]
    if r < 0.65:
        return ['exc', changes(pr, pos, rnd), other_opts(w, rnd, n) if rnd.random() < 0.5 else w]
    if r < 0.75:
        return ['fault', rnd.random(), w, rnd.random() < 0.3, rnd.choice(('io', 'pack', 'text', 'data'))]
    if r < 0.85 and ids:
        return ['touch', rnd.choice(ids), [rnd.choice(TOUCH) for _ in range(3)]]
    if r < 0.9:
        return ['gc']
    return ['prog', fix_time(twin(pr, rnd)), rnd.random() < 0.5]


class C14(Check):
    id = 'C14'
    quick = 2
    factor = 18
    rule = ('Each case: a generated program with fixed creation times, executed (a) alone in a fresh process (forked from one that has only '
            'imported the library; in group `process` a new interpreter with another hash seed) and (b) in a process with a history: '
            'up to 4 other programs before it - twins with the same names but other origins, copies, types (1/1.0/True/"1") and values, '
            'twins sharing the argument objects, unrelated and high-compatibility ones - and, between its own steps, writes with '
            'other windows and data, changes that are written and then taken back (names, origin references, casts, '
            'data-set names, attribute values and units), writes failing at a random library call, property reads, other files being '
            'built and written. Both have to end alike: the same bytes or a refusal. Non-trivial: the program wrote a file and '
            'something happened before that; distinct by case.')
    profiles = {
        'twins': (420, {}, {**B}),
        'rewrite': (420, {}, {**B, 'index': 0.7, 'window': 0.5}),
        'between': (420, SLOWBAR, {**B, 'later': 0.5, 'rename': 0.4, 'reassign': 0.3}),
        'reuse': (160, {}, {**B, 'nobj': (0, 1), 'nofmt': (0, 0), 'ichunk': 0.5}),
        'multi': (120, {}, {**B, 'nlf': (2, 3), 'nframes': (1, 2), 'nobj': (0, 3)}),
        'hc': (100, {}, {**B, 'hc': 1.0, 'nobj': (0, 3)}),
        'process': (16, {}, {**B, 'nobj': (2, 8)}),
    }

    def setup(self, ctx):
        import dliswriter  # noqa: F401
        import h5py        # noqa: F401
        import gc
        gc.freeze()

    def case(self, seed, shard):
        rnd = random.Random(seed + '/c14')
        pr = fix_time(gen.case(seed, shard['prof']))
        g = shard['name']
        pre, mid = [], []
        n = len(pr['ops'])
        if g == 'reuse':        # short-lived files with the same names and other data: addresses and names come back
            for _ in range(rnd.randint(3, 8)):
                pre.append(['prog', fix_time(retyped(pr, rnd)), False])
            for _ in range(rnd.randint(1, 3)):
                o = copy.deepcopy(pr['ops'][-1][1])
                for s in specs(o):
                    retype(s, rnd)
                mid.append([n - 1, ['write', o]])
        elif g != 'rewrite' or rnd.random() < 0.2:
            for _ in range(rnd.randint(1, 4)):
                r = rnd.random()
                if r < 0.55:
                    pre.append(['prog', fix_time(twin(pr, rnd)), rnd.random() < 0.3])
                elif r < 0.7:
                    pre.append(['prog', copy.deepcopy(pr), True])
                elif r < 0.85:
                    pre.append(['prog', fix_time(gen.case(f"{seed}/o{_}", dict(shard['prof'], hc=0.3))), False])
                else:
                    pre.append(['gc'])
        if g == 'rewrite':
            w = pr['ops'][-1][1]
            k = min([s['shape'][0] for s in specs(pr['ops'])] or [1])
            if w.get('data') and w['data']['kind'] in ('dict', 'struct', 'h5') and w['data']['sets'] and rnd.random() < 0.12:
                # what an earlier write had, this one does not
                mid.append([n - 1, ['write', copy.deepcopy(w)]])
                i = rnd.randrange(len(w['data']['sets']))
                if rnd.random() < 0.3:
                    w.pop('data')
                elif len(w['data']['sets']) > 1 or w['data']['kind'] == 'dict':
                    del w['data']['sets'][i]
            for _ in range(rnd.randint(1, 3)):
                mid.append([n - 1, ['write', other_opts(w, rnd, k)] if rnd.random() < 0.6 else activities(pr, rnd, n - 1)])
        elif g not in ('twins', 'reuse') or rnd.random() < 0.2:
            for _ in range(rnd.randint(1, 5)):
                pos = rnd.choice((n - 1, n - 1, rnd.randint(0, n - 1)))
                mid.append([pos, activities(pr, rnd, pos)])
        c = {'prog': pr, 'pre': pre, 'mid': mid}
        if g == 'process':
            c['hash'] = rnd.randint(1, 1000)
        return c

    def shrinkers(self):
        def lists(case):
            for k in ('pre', 'mid'):
                v = case.get(k) or []
                for i in range(len(v)):
                    yield {**case, k: v[:i] + v[i + 1:]}
            for i, (pos, a) in enumerate(case.get('mid') or []):
                if a[0] == 'exc' and len(a[1]) > 1:
                    for j in range(len(a[1])):
                        yield {**case, 'mid': case['mid'][:i] + [[pos, ['exc', a[1][:j] + a[1][j + 1:], a[2]]]] + case['mid'][i + 1:]}

        def keep_last_write(case):
            for c in program_candidates(case):
                if c['prog']['ops'] and c['prog']['ops'][-1][0] == 'write':
                    yield c
        return [lists, keep_last_write]

    def run(self, case, ctx):
        pr = case['prog']
        if not pr['ops'] or pr['ops'][-1][0] != 'write':
            return Outcome([], None, [])
        pr = fix_time(copy.deepcopy(pr))
        case = dict(case, prog=pr)
        labels = features(pr)
        for a in (case.get('pre') or []):
            labels.append('before: ' + a[0] + (' sharing arguments' if a[0] == 'prog' and a[2] else ''))
        for _, a in (case.get('mid') or []):
            labels.append('between: ' + a[0])
        fresh = {'prog': pr}
        if case.get('hash') is not None:
            a = hist.subprocessed(fresh, ctx.dir, 'fresh', case['hash'])
        else:
            a = hist.forked(fresh, ctx.dir, 'fresh')
        b = hist.forked(case, ctx.dir, 'history')
        d = hist.diff(a, b)
        if a['result'][0] == 'raised':
            labels.append('refused: ' + a['result'][2])
        return Outcome([d] if d else [], json.dumps(case) if a['result'][0] == 'ok' and (case.get('pre') or case.get('mid')) else None, labels)


CHECK = C14()
