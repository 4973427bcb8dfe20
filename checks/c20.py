"""C20 - a rejected call leaves no trace in later files."""
import copy
import json
import random

from checks.c14 import C14, other_opts, twin
from vlib import gen, hist
from vlib import schema as S
from vlib.base import Check, features, fix_time, op_name
from vlib.runner import Outcome
from vlib.shrink import program_candidates, specs

B = {'nobj': (0, 6), 'rows': (1, 5), 'nchan': (1, 3), 'p_attr': 0.3, 'collide': 0.7, 'nofmt': (0, 1), 'sets': 0.4, 'origin_first': 0.7}
OBJ = {'$py': 'object'}
# values an attribute of the type cannot take
BAD = {
    'text': (OBJ, 5, 1.5, {'$py': 'bytes'}), 'ident': (OBJ, 5, ['a', 'b']), 'num': ('abc', OBJ, {'$py': 'complex'}),
    'int': ('abc', OBJ, 1.5, {'$py': 'type'}), 'flag': ('abc', OBJ), 'status': (7, 'abc', OBJ, -1, 0.5), 'dtime': ('not a date', OBJ, '2020-13-45'),
    'dtnum': ('not a date', OBJ), 'props': ('NOPE', OBJ, 5), 'dim': ('abc', 1.5, OBJ), 'mixed': (OBJ, {'$py': 'set'}), 'eort': (5, OBJ),
    'objref': ('abc', OBJ, 5),
}


def bad_value(a, rnd):
    t = a.t
    if t.startswith('enum:'):
        v = rnd.choice(('NOPE', OBJ, 5, 'x'))
    elif t.startswith('soft:'):
        v = rnd.choice((OBJ, 5))
    elif t.startswith('ref:'):
        v = rnd.choice(('abc', OBJ, 5, {'$ref': 'WRONG'}))
    else:
        v = rnd.choice(BAD[t])
    if a.multi:
        good = {'num': 1.0, 'text': 'ok', 'mixed': 1, 'props': 'AVERAGED', 'dim': 2}.get(t)
        r = rnd.random()
        if r < 0.4:
            v = [v]
        elif r < 0.8 and good is not None:
            v = [good, v] if rnd.random() < 0.7 else [good, good, v]
    elif rnd.random() < 0.1 and t not in ('eort',):
        v = [v, v]
    r = rnd.random()
    if r < 0.15:
        v = {rnd.choice(('$setup', '$dict')): {'value': v}}
    elif r < 0.25 and a.units:
        v = {rnd.choice(('$setup', '$dict')): {'units': 'm', 'value': v}}
    return v


def good_kw(kind, refs, rnd):
    """some attributes with acceptable values"""
    kw = {}
    for a in S.KINDS[kind].attrs:
        if rnd.random() < 0.3 and a.kw not in ('channels', 'file_id', 'dimension', 'axis'):
            v = {'text': 'GOOD', 'ident': 'GOOD', 'num': 2.5, 'int': 2, 'status': 1, 'dtnum': 3.0, 'mixed': 'good', 'eort': 'GOOD'}.get(a.t)
            if v is None and a.t.startswith('ref:') and refs.get(a.t[4:]):
                v = {'$ref': rnd.choice(refs[a.t[4:]])}
            if v is not None:
                kw[a.kw] = [v] if a.multi else v
    return kw


def bad_add(pr, pos, rnd, n):
    """an add_* call that should be refused, for a position of the program"""
    before = [op for op in pr['ops'][:pos] if op[0] == 'add']
    lfs = [op[1] for op in pr['ops'][:pos] if op[0] == 'lf']
    if not lfs:
        return None
    lf = rnd.choice(lfs)
    mine = [op for op in before if op[1] == lf]
    refs = {}
    for op in mine:
        refs.setdefault(op[2], []).append(op[3])
    kind = rnd.choice(sorted(S.KINDS)) if rnd.random() < 0.5 or not mine else rnd.choice(mine)[2]
    kw = good_kw(kind, refs, rnd)
    used = [op[4] for op in mine if op[2] == kind and isinstance(op[4].get('name'), str)]
    later = [op[4] for op in pr['ops'][pos:] if op[0] == 'add' and op[1] == lf and op[2] == kind and isinstance(op[4].get('name'), str)]
    pick = rnd.choice(later) if later and rnd.random() < 0.5 else rnd.choice(used) if used and rnd.random() < 0.6 else None
    kw['name'] = pick['name'] if pick else f"BAD-{n}"
    if pick and pick.get('set_name') is not None:
        kw['set_name'] = pick['set_name']
    elif rnd.random() < 0.3:
        kw['set_name'] = rnd.choice(('BADSET', 'S0', 'S0-B', f"{lf}-B"))
    if kind == 'channel' and rnd.random() < 0.5:
        kw['data'] = {'$arr': {'dtype': 'float32', 'shape': [3], 'fill': {'lin': [0, 1]}}}
        if pick and pick.get('dataset_name') and rnd.random() < 0.5:
            kw['dataset_name'] = pick['dataset_name']
    if kind == 'frame':
        kw['channels'] = [{'$ref': c} for c in refs.get('channel', [])[:2]] or 'none'
    if kind == 'origin' and rnd.random() < 0.5:
        kw['origin_reference'] = rnd.choice((None, 77, 0, 1))
    r = rnd.random()
    if r < 0.06:
        kw['name'] = rnd.choice((5, None, OBJ, {'$py': 'bytes'}))
    elif r < 0.10:
        kw['origin_reference'] = rnd.choice(('abc', 1.5, OBJ))
    elif r < 0.12:
        kw['no_such_argument'] = 1
    elif r < 0.15:
        kw['set_name'] = rnd.choice((5, OBJ, 1.5))
    elif kind == 'frame' and r < 0.45:
        kw['channels'] = rnd.choice(([], 'abc', OBJ, [5], [{'$ref': c} for c in refs.get('channel', [])[:1]] + ['x'], {'$tuple': []}))
    elif kind == 'channel' and r < 0.30:
        kw['data'] = rnd.choice(([1, 2, 3], 'abc', OBJ, 5))
    elif kind == 'channel' and r < 0.40:
        kw['cast_dtype'] = rnd.choice(({'$dtype': 'complex64'}, {'$dtype': 'dt:<U5'}, {'$dtype': 'int64'}, {'$dtype': 'bool_'}, OBJ))
    elif kind == 'channel' and r < 0.45 and used:
        kw['dataset_name'] = rnd.choice(used).get('dataset_name') or rnd.choice(used)['name']
    elif kind == 'origin' and r < 0.3:
        kw['origin_reference'] = 0
        if any(op[2] == 'origin' and op[4].get('origin_reference') not in (None, 0) for op in mine[:1]):
            return None
    else:
        a = rnd.choice([q for q in S.KINDS[kind].attrs if q.kw != 'file_id'])
        if a.units and rnd.random() < 0.12:
            v = kw.get(a.kw, {'num': 1.0, 'int': 1}.get(a.t))
            if v is None:
                return None
            kw[a.kw] = {rnd.choice(('$setup', '$dict')): {'value': v, 'units': rnd.choice((5, OBJ))}}
        elif rnd.random() < 0.06:
            kw[a.kw] = {'$dict': {'value': None, 'nonsense': 3}}
        else:
            kw[a.kw] = bad_value(a, rnd)
            wrong = [op[3] for op in before if not a.t.endswith(':' + op[2])]
            kw[a.kw] = rewrong(kw[a.kw], rnd.choice(wrong) if wrong else None)
        if rnd.random() < 0.3:                     # the order in which the arguments are given
            x = list(kw.items())
            rnd.shuffle(x)
            kw = dict(x)
    return ['add', lf, kind, f"bad{n}", kw]


def rewrong(v, oid):
    if isinstance(v, dict):
        if v.get('$ref') == 'WRONG':
            return {'$ref': oid} if oid else OBJ
        return {k: rewrong(x, oid) for k, x in v.items()}
    if isinstance(v, list):
        return [rewrong(x, oid) for x in v]
    return v


def bad_op(pr, pos, rnd, n):
    r = rnd.random()
    adds = [op for op in pr['ops'][:pos] if op[0] == 'add']
    if r < 0.72 or not adds:
        return bad_add(pr, pos, rnd, n)
    op = rnd.choice(adds)
    if r < 0.86:
        a = rnd.choice([q for q in S.KINDS[op[2]].attrs])
        v = bad_value(a, rnd)
        if isinstance(v, dict) and ('$setup' in v or '$dict' in v):
            v = v.get('$setup') or v.get('$dict')
            v = v['value']
        v = rewrong(v, None)
        return ['set', op[3], a.attr, 'value', v] if rnd.random() < 0.7 else ['setattrs', op[3], {a.attr: v}]
    if r < 0.89:
        a = rnd.choice([q for q in S.KINDS[op[2]].attrs])
        return ['set', op[3], a.attr, 'units', rnd.choice((5, OBJ))]
    if r < 0.91:
        return ['setattrs', op[3], {'no_such_attribute': 1}]
    if r < 0.93:
        return ['oref', op[3], rnd.choice(('abc', None, 1.5, -1, 2**30, True))]
    if r < 0.955:
        return bad_simple(op, adds, pr, pos, rnd)
    if r < 0.97:
        return ['lf', f"badlf{n}", rnd.choice(({'fh_id': 'x' * 66}, {'fh_id': 5}, {'fh_sequence_number': -1}, {'fh_sequence_number': 'x'},
                                               {'fh_identifier': 'AB'}, {'fh_sequence_number': 10**11}, {'nonsense': 1}))]
    return ['nofmt', op[1], op[3], rnd.choice((5, OBJ, [1, 2]))]


def bad_simple(op, adds, pr, pos, rnd):
    """assignments to things other than the value and the units of an attribute"""
    r = rnd.random()
    if r < 0.4:
        a = rnd.choice(S.KINDS[op[2]].attrs)
        return ['direct', op[3], a.attr, rnd.choice((5, 'abc', None, {'$ref': op[3]}))]
    if r < 0.55:
        ch = [x for x in adds if x[2] == 'channel']
        if ch:
            return ['cast', rnd.choice(ch)[3], rnd.choice(('int64', 'complex64', 'bool_', 'dt:<U5', 'no such type'))]
    if r < 0.7:
        og = [x for x in adds if x[2] == 'origin']
        if og:
            return ['fsn', rnd.choice(og)[3], rnd.choice((7, 'abc', OBJ, 0, -1))]
    lfs = [x[1] for x in pr['ops'][:pos] if x[0] == 'lf']
    return ['hdr', rnd.choice(lfs), {rnd.choice(('header_id', 'sequence_number', 'no_such', 'identifier')): rnd.choice((OBJ, 'x' * 70, -5, 10**11, None))}]


def bad_write(pr, pos, rnd):
    """a write that should fail (or not), as an activity"""
    w = pr['ops'][-1][1]
    n = min([s['shape'][0] for s in specs(pr['ops'])] or [1])
    o = copy.deepcopy({k: v for k, v in w.items() if k != 'pathlib'})
    r = rnd.random()
    if r < 0.22:
        return ['fault', rnd.random(), o, rnd.random() < 0.4, rnd.choice(('io', 'pack', 'text', 'data'))]
    if r < 0.30:
        o['where'] = rnd.choice(('dir', 'full'))
    elif r < 0.40:
        o.update(where='size', limit=rnd.choice((0, 1, 79, 80, 100, 200, rnd.randint(80, 3000))))
    elif r < 0.48:
        o.update(rnd.choice(({'from': n + 1}, {'to': n + 50}, {'from': 1, 'to': 1}, {'from': -3}, {'from': 'x'}, {'to': 0}, {'ichunk': 0}, {'ichunk': -1},
                             {'ichunk': 'x'}, {'ochunk': 3}, {'ochunk': 'x'}, {'ochunk': 100.5})))
    elif r < 0.70 and o.get('data') and o['data'].get('sets'):
        s = o['data']['sets']
        j = rnd.randrange(len(s))
        k = rnd.random()
        if k < 0.25:
            del s[j]
        elif k < 0.45:
            s[j][1] = dict(s[j][1], shape=[s[j][1]['shape'][0] + 1] + s[j][1]['shape'][1:])
        elif k < 0.65:
            s[j][1] = dict(s[j][1], dtype=rnd.choice(('complex64', 'int64', 'bool', 'S3', 'float16')), fill={'zero': 1})
        elif k < 0.8:
            s[j][1] = dict(s[j][1], shape=s[j][1]['shape'][:1] + [2, 2], fill={'zero': 1})
        else:
            s[j][1] = dict(s[j][1], shape=s[j][1]['shape'][:1] + [s[j][1]['shape'][-1] + 1 if len(s[j][1]['shape']) > 1 else 2], fill={'zero': 1})
        if o['data']['kind'] == 'struct':
            m = s[0][1]['shape'][0] if s else 1
            for x in s:
                x[1] = dict(x[1], shape=[m] + x[1]['shape'][1:])
    elif r < 0.75:
        o['data'] = {'kind': 'py', 'v': rnd.choice(('object', 'list', 'bytes'))}
    elif r < 0.92:
        adds = [op for op in pr['ops'][:pos] if op[0] == 'add']
        ch = []
        for _ in range(rnd.randint(1, 2)):
            if not adds:
                break
            op = rnd.choice(adds)
            k = rnd.random()
            if k < 0.3:
                ch.append(['name', op[3], rnd.choice(('\u00d8', 'x' * 300, 'B\u00e9'))])
            elif k < 0.5:
                ch.append(['oref', op[3], rnd.choice((12345, 2**30 + 5, -1))])
            elif op[2] == 'channel':
                ch.append(rnd.choice((['dsname', op[3], 'no such data'], ['cast', op[3], 'int8'], ['cast', op[3], 'float32'])))
            else:
                cand = [a for a in S.KINDS[op[2]].attrs if op[4].get(a.kw) is not None and a.t in ('text', 'ident', 'int')]
                if cand:
                    a = rnd.choice(cand)
                    v = {'text': '\u00d8', 'ident': 'y' * 300, 'int': 2**31}[a.t]
                    ch.append(['attr', op[3], a.attr, ['ok', v] if a.multi else v, None])
        return ['exc', ch, o]
    else:
        return ['write', other_opts(w, rnd, n)]
    return ['write', o]


def bad_write_opts(pr, rnd):
    """options of a write that fails because of what it is given"""
    for _ in range(20):
        a = bad_write(pr, len(pr['ops']) - 1, rnd)
        if a[0] == 'write' and 'where' not in a[1]:
            return a[1]
    return dict(pr['ops'][-1][1], ichunk=0)


def splice(pr, rnd, mid):
    ops = pr['ops']
    for n in range(rnd.randint(1, 6)):
        pos = rnd.randint(1, len(ops) - 1)
        b = bad_op(pr, pos, rnd, n)
        if b is not None:
            ops.insert(pos, ['bad', b])
            for m in mid:
                if m[0] >= pos:
                    m[0] += 1


class C20(Check):
    id = 'C20'
    quick = 2
    factor = 18
    rule = ('Each case: a generated program with fixed creation times into which 1-6 calls that should be refused are spliced - add_* of '
            'all 22 kinds with one bad argument among good ones (every attribute; name, set, origin reference, data, cast type, data-set '
            'name, channel list, unknown argument), reusing names and sets of objects made before or after it, rejected '
            'assignments, rejected logical files and payloads - and failing writes (missing or impossible data, bad windows and '
            'chunk sizes, unwritable targets, size limit at a random byte, encoding or I/O failing or interrupted at a random call, '
            'a bad name/reference/cast/value put in and taken back, writes of unfinished specifications); in group `earlier` these '
            'happen to 1-3 other files of the process, made before. The final file must be '
            'byte-identical to that of the same program without all calls that raised, in a fresh process. Non-trivial: at least one call or '
            'write was refused and a file was written; distinct by case.')
    profiles = {
        'calls': (900, {}, {**B}),
        'writes': (420, {}, {**B, 'index': 0.6, 'window': 0.4, 'nobj': (0, 3)}),
        'both': (300, {}, {**B}),
        'multi': (150, {}, {**B, 'nlf': (2, 3), 'nobj': (0, 3)}),
        'hc': (120, {}, {**B, 'hc': 1.0}),
        'earlier': (260, {}, {**B, 'nobj': (1, 4)}),
    }
    setup = C14.setup

    def case(self, seed, shard):
        rnd = random.Random(seed + '/c20')
        pr = fix_time(gen.case(seed, shard['prof']))
        g = shard['name']
        ops = pr['ops']
        mid, pre = [], []
        if g == 'earlier':            # other files of the process, with calls and writes that fail; this one is undisturbed
            for j in range(rnd.randint(1, 3)):
                other = fix_time(twin(pr, rnd) if rnd.random() < 0.75 else gen.case(f"{seed}/e{j}", shard['prof']))
                if other['ops'] and other['ops'][-1][0] == 'write':
                    if rnd.random() < 0.5:
                        other['ops'].insert(len(other['ops']) - 1, ['bad', ['write', dict(bad_write_opts(other, rnd))]])
                    splice(other, rnd, [])
                    if rnd.random() < 0.4:
                        other['ops'].pop()
                pre.append(['prog', other, rnd.random() < 0.3])
            return {'prog': pr, 'pre': pre, 'mid': []}
        if g != 'calls':
            for _ in range(rnd.randint(1, 3)):
                pos = rnd.choice((len(ops) - 1, len(ops) - 1, rnd.randint(0, len(ops) - 1)))
                mid.append([pos, bad_write(pr, pos, rnd)])
        if g != 'writes':
            splice(pr, rnd, mid)
        return {'prog': pr, 'mid': mid}

    def shrinkers(self):
        def last_is_write(case):
            for c in program_candidates(case):
                if c['prog']['ops'] and c['prog']['ops'][-1][0] == 'write':
                    yield c

        def no_mid(case):
            for k in ('mid', 'pre'):
                v = case.get(k) or []
                for i in range(len(v)):
                    yield {**case, k: v[:i] + v[i + 1:]}
            for i, a in enumerate(case.get('pre') or []):
                for c in program_candidates({'prog': a[1]}):
                    yield {**case, 'pre': case['pre'][:i] + [['prog', c['prog'], a[2]]] + case['pre'][i + 1:]}
        return [no_mid, last_is_write]

    def run(self, case, ctx):
        pr = case['prog']
        if not pr['ops'] or pr['ops'][-1][0] != 'write':
            return Outcome([], None, [])
        pr = fix_time(copy.deepcopy(pr))
        labels = features(pr)
        b = hist.forked({'prog': pr, 'pre': case.get('pre'), 'mid': case.get('mid')}, ctx.dir, 'history')
        if b['result'][0] == 'died':
            return Outcome([f"the history died: {b['result'][1]}"], None, labels)
        ref = b['refusals']
        clean = dict(pr, ops=[(op[1] if op[0] == 'bad' else op) for i, op in enumerate(pr['ops']) if i not in ref])
        a = hist.forked({'prog': clean}, ctx.dir, 'fresh')
        refused = 0
        for i, op in enumerate(pr['ops']):
            if op[0] == 'bad':
                what = op_name(op[1]) if op[1][0] != 'set' else 'set'
                labels.append(f"{what}: {'refused, ' + ref[i] if i in ref else 'accepted'}")
                refused += i in ref
        for op in (op for p in case.get('pre') or [] for op in p[1]['ops'] if op[0] == 'bad'):
            labels.append('in an earlier file: ' + op_name(op[1]))
            refused += 1
        for k, e in b['trace']:
            labels.append(f"{k}: {'failed, ' + e if e else 'done'}")
            refused += e is not None
        d = hist.diff(a, b, 'the program without the refused calls', 'the one with them')
        ok = a['result'][0] == 'ok' and refused
        if a['result'][0] == 'raised':
            labels.append('refused at the end: ' + a['result'][2])
        return Outcome([d] if d else [], json.dumps(case) if ok else None, labels)


CHECK = C20()
