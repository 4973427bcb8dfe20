"""C17 - high-compatibility mode enforces its restrictions and never leaks."""
import contextlib
import copy
import json
import logging
import os
import random
import re
import warnings

import numpy as np

from vlib import gen, model, prog, reader
from vlib import schema as S
from vlib.base import Check, describe, execute, features, fix_time, unset
from vlib.runner import Outcome
from vlib.shrink import program_candidates

HC = {'hc': 1.0, 'nobj': (0, 5), 'p_attr': 0.35, 'nofmt': (0, 1), 'rows': (3, 9), 'nchan': (1, 3), 'nframes': (1, 2), 'window': 0.1}
SAFE = re.compile('[A-Z0-9_-]+')
BADNAMES = ('lower', 'Depth', 'TWO WORDS', 'A.B', 'A/B', 'X ', ' X', 'A\n', 'A+B', 'x', '#', 'A(1)', 'A\tB', "A'", '~', 'A,B', 'a-1')
BADUNITS = ('ohm.m', 'M', 'furlong', 'metres', 'S/M', 'm ', '%', 'FT')
BADENUM = ('BAD', 'borehole-depth', 'Sond', 'x', 'Well ', 'RIG')
NEAR = {'eq': 'EquipmentType', 'loc': 'EquipmentLocation', 'index_type': 'FrameIndexType', 'units': 'Unit', 'unit': 'Unit'}


def near(v):
    """values easily taken for a standard one"""
    return (v[:-1], v + 's', v + 'X', v.lower(), v.upper(), v.swapcase(), v.title(), v + ' ', ' ' + v, v.replace('-', '_'), v.replace('-', ' '), v[1:],
            v.replace('-', ''), v + '-', v + '\n', v * 2)


def vocabulary():
    out = []
    for kind, cls in NEAR.items():
        std = set(S.ENUM_VALUES[cls])
        seen = set()
        for v in S.ENUM_VALUES[cls]:
            for x in near(v):
                if x.strip() and x not in std and x not in seen:
                    seen.add(x)
                    out.append((kind, x))
    out.sort()
    random.Random(17).shuffle(out)
    return out


VOCABULARY = vocabulary()
PROBES = ('name', 'units', 'attr-units', 'index', 'eq', 'loc', 'sul', 'fh', 'signed', 'cast', 'orphan', 'shared', 'spacing', 'old-name',
          'old-units', 'old-rename', 'number')


class C17(Check):
    id = 'C17'
    rule = ('(a) generated specifications within the restrictions, built and written inside the context: every name, unit, enumerated value, '
            'channel data type, channel-to-frame relation, index spacing and default file-set number of the decoded file is checked; '
            '(b) the same with one breach - a name of any object, set identifier or header id, signed data or cast, a channel in no '
            'or two frames, an unevenly spaced index, a foreign unit of a channel or any attribute, index type, equipment type or location; at '
            'creation, wrapped or assigned later; group `vocab` goes through near misses of every standard unit, index type, equipment type and location - which has to raise inside and has to be written, with a warning that the '
            'unbroken specification does not cause, outside; (c) histories of nested contexts (context manager, decorator, exit stack, manually set '
            'flag) left normally, by library errors and by other exceptions, with 17 kinds of probes in between whose outcome '
            'has to follow the mode. Non-trivial: all; distinct by case.')
    profiles = {
        'valid': (250, {}, {**HC}),
        'valid-multi': (80, {}, {**HC, 'nlf': (2, 3), 'origins': (1, 3)}),
        'breach': (900, {}, {**HC, 'nobj': (0, 3), 'p_attr': 0.2}),
        'breach-multi': (150, {}, {**HC, 'nobj': (0, 2), 'p_attr': 0.2, 'nlf': (2, 2)}),
        'modes': (700, {}, {}),
    }

    def shards(self, tier):
        out = super().shards(tier)
        out.append({'name': 'vocab', 'n': len(VOCABULARY) * (1 if tier == 'quick' else 4),
                    'prof': {**HC, 'nobj': (0, 1), 'p_attr': 0.2, 'nframes': (1, 1), 'nchan': (1, 2), 'index': 1.0}})
        return out

    # ------------------------------------------------------------------------------------------ generation
    def case(self, seed, shard):
        rnd = random.Random(seed + '/c17')
        if shard['name'] == 'modes':
            return {'history': self.history(rnd, 0)}
        pr = fix_time(gen.case(seed, shard['prof']))
        if shard['name'] == 'vocab':
            kind, v = VOCABULARY[int(seed.rsplit('/', 1)[1]) % len(VOCABULARY)]
            for _ in range(300):
                b = self.breach(pr, rnd, (kind if kind != 'unit' else 'attr-units',))
                if b:
                    return {'prog': pr, 'breach': dict(b, value=v)}
            return {'prog': pr}
        if shard['name'].startswith('valid'):
            return {'prog': pr}
        for _ in range(30):
            b = self.breach(pr, rnd)
            if b:
                return {'prog': pr, 'breach': b}
        return {'prog': pr}

    def history(self, rnd, depth):
        out = []
        for _ in range(rnd.randint(1, 5 if depth == 0 else 3)):
            if rnd.random() < (0.55 if depth < 4 else 0):
                out.append(['with', rnd.choice(('cm', 'cm', 'deco', 'stack', 'manual-on', 'manual-off')), self.history(rnd, depth + 1),
                            rnd.choice(('', '', 'Exception', 'KeyboardInterrupt', 'SystemExit', 'library', 'write', 'GeneratorExit'))])
            else:
                out.append(['probe', rnd.choice(PROBES)])
        if rnd.random() < 0.7:
            out.append(['probe', rnd.choice(PROBES)])
        return out

    def breach(self, pr, rnd, kinds=None):
        adds = [(i, op) for i, op in enumerate(pr['ops']) if op[0] == 'add']
        chans = [op for _, op in adds if op[2] == 'channel']
        frames = [op for _, op in adds if op[2] == 'frame']
        k = rnd.choice(kinds or ('name', 'name', 'rename', 'sul', 'fh', 'signed', 'signed', 'cast', 'orphan', 'shared', 'spacing', 'spacing', 'units',
                        'attr-units', 'attr-units', 'index_type', 'eq', 'loc'))
        bad = rnd.choice(BADNAMES)
        how = rnd.choice(('kw', 'setup', 'dict', 'later', 'later', 'setattrs'))
        if k in ('name', 'rename'):
            return {'tag': k, 'oid': rnd.choice(adds)[1][3], 'value': bad}
        if k == 'sul':
            return {'tag': k, 'value': bad}
        if k == 'fh':
            return {'tag': k, 'lf': rnd.choice([op[1] for op in pr['ops'] if op[0] == 'lf']), 'value': bad}
        inf = [c for c in chans if any({'$ref': c[3]} in f[4]['channels'] for f in frames if isinstance(f[4].get('channels'), list))]
        if k in ('signed', 'cast'):
            return inf and {'tag': k, 'oid': rnd.choice(inf)[3], 'value': rnd.choice(('int8', 'int16', 'int32', '>i2', '>i4', 'i1', '<i4'))}
        if k == 'orphan':
            lf = rnd.choice(frames)[1]
            same = [c[3] for c in inf if c[1] == lf]
            return {'tag': k, 'lf': lf, 'data': rnd.random() < 0.5, 'like': rnd.choice(same) if same and rnd.random() < 0.6 else None,
                    'before': rnd.random() < 0.6}
        if k == 'shared':
            c = rnd.choice(inf) if inf else None
            return c and {'tag': k, 'lf': c[1], 'oid': c[3]}
        if k == 'spacing':
            f = rnd.choice(frames)
            return {'tag': k, 'oid': f[3], 'value': rnd.choice((0.06, -0.06, 0.3, 2.0, -1.0, 50.0)), 'at': rnd.randint(0, 20),
                    'dtype': rnd.choice(('float64', 'float32', 'float64', '>f8', '<f4')), 'start': rnd.choice((0.0, 100.0, -5.0)),
                    'index_type': rnd.choice(S.ENUM_VALUES['FrameIndexType']), 'user': rnd.choice((None, None, 1, 0.5, {'$dict': {'value': 1.0, 'units': 'm'}}))}
        if k == 'units':
            c = rnd.choice(chans)
            return {'tag': 'attr', 'oid': c[3], 'attr': 'units', 'value': rnd.choice(BADUNITS), 'how': how}
        if k == 'index_type':
            m = model.Model(dict(pr, ops=pr['ops'][:-1])).run()
            indexed = [f[3] for f in frames if m.o[f[3]].get('index_type')]
            return indexed and {'tag': 'attr', 'oid': rnd.choice(indexed), 'attr': 'index_type', 'value': rnd.choice(BADENUM), 'how': how}
        if k in ('eq', 'loc'):
            return {'tag': 'equip', 'lf': frames[0][1], 'attr': {'eq': 'eq_type', 'loc': 'location'}[k], 'value': rnd.choice(BADENUM), 'how': how}
        if k == 'attr-units':
            cands = []
            for _, op in adds:
                for a in S.KINDS[op[2]].attrs:
                    if a.units and a.t in ('num', 'int', 'flag', 'mixed', 'dtnum') and a.attr != 'file_set_number' and not a.nd and not (
                            a.multi and op[4].get(a.kw) is None):
                        cands.append((op, a))
            if not cands:
                return None
            op, a = rnd.choice(cands)
            return {'tag': 'unit', 'oid': op[3], 'attr': a.kw, 'value': rnd.choice(BADUNITS), 'how': how, 'num': a.t}
        return None

    def apply(self, pr, b):
        """the program with the breach; None when it does not apply"""
        pr = copy.deepcopy(pr)
        ops, w = pr['ops'][:-1], pr['ops'][-1]
        add = {op[3]: op for op in ops if op[0] == 'add'}
        k = b['tag']
        if 'oid' in b and b['oid'] not in add:
            return None
        x = add.get(b.get('oid'))
        if k == 'name':
            if x[2] == 'channel' and unset(x[4].get('dataset_name')):
                x[4]['dataset_name'] = model.Model(dict(pr, ops=ops)).run().o[b['oid']].dsname
            x[4]['name'] = b['value']
            ops = [op for op in ops if not (op[0] == 'name' and op[1] == b['oid'])]
        elif k == 'rename':
            ops.append(['name', b['oid'], b['value']])
        elif k == 'sul':
            pr['sul'] = dict(pr['sul'], set_identifier=b['value'])
        elif k == 'fh':
            for op in ops:
                if op[0] == 'lf' and op[1] == b['lf']:
                    op[2]['fh_id'] = b['value']
        elif k in ('signed', 'cast', 'spacing'):
            w[1].pop('from', None)
            w[1].pop('to', None)
            m = model.Model(dict(pr, ops=ops)).run()
            if k == 'spacing':
                fr = m.o[b['oid']]
                cid = fr.refs('channels')[0]
            else:
                cid = b['oid']
            if cid not in add:
                return None
            spec = find_spec(m.o[cid], w)
            if spec is None:
                return None
            n = spec['shape'][0]
            c = add[cid]
            ops = [op for op in ops if not (op[0] == 'cast' and op[1] == cid)]
            if k == 'spacing':
                if n < 3 or n == 3 and abs(b['value']) < 0.1:       # of two steps neither deviates much from the median
                    return None
                for q in ('dimension', 'element_limit', 'axis', 'cast_dtype'):
                    c[4].pop(q, None)
                v, vals = b['start'], []
                for i in range(n):
                    vals.append(v)
                    v += 1.0 + (b['value'] if i == b['at'] % (n - 1) else 0.0)
                spec.update(dtype=b['dtype'], shape=[n], fill={'vals': vals})
                x[4]['index_type'] = b['index_type']
                if b.get('user') is None:
                    x[4].pop('spacing', None)
                else:               # what the user says about it does not make it uniform
                    x[4]['spacing'] = b['user']
                # all other frames listing it would have to agree on its rows: it is in one frame only
            elif k == 'signed':
                c[4].pop('cast_dtype', None)
                spec.update(dtype=b['value'], fill={'lin': [1, 1]} if n * spec_width(spec) < 120 else {'zero': 1})
            else:
                c[4]['cast_dtype'] = b['value'] if b['value'].startswith('int') else 'dt:' + b['value']
                spec.update(fill={'lin': [1, 1]} if n * spec_width(spec) < 120 else {'zero': 1})
        elif k == 'orphan':
            kw = {'name': 'ORPHAN-X'}
            if b['data'] and not ((w[1].get('data') or {}).get('kind') in ('struct', 'h5')):
                kw['data'] = {'$arr': {'dtype': 'uint8', 'shape': [2], 'fill': {'zero': 1}}}
            sn = [op[4].get('set_name') for op in ops if op[0] == 'add' and op[1] == b['lf'] and op[2] == 'channel']
            if sn and sn[0]:
                kw['set_name'] = sn[0]
            at = len(ops)
            if b.get('like') in add:       # named as a channel that is in a frame
                kw['name'] = add[b['like']][4]['name']
                kw['dataset_name'] = 'orphan-data'
                if b.get('before'):
                    at = ops.index(add[b['like']])
            ops.insert(at, ['add', b['lf'], 'channel', 'orphan', kw])
        elif k == 'shared':
            kw = {'name': 'FRAME-X', 'channels': [{'$ref': b['oid']}]}
            sn = [op[4].get('set_name') for op in ops if op[0] == 'add' and op[1] == b['lf'] and op[2] == 'frame']
            if sn and sn[0]:
                kw['set_name'] = sn[0]
            ops.append(['add', b['lf'], 'frame', 'framex', kw])
        elif k == 'equip':
            kw = {'name': 'EQ-X', 'set_name': 'EQ-' + b['lf']}
            ops.append(['add', b['lf'], 'equipment', 'eqx', kw])
            put(ops, ops[-1], b['attr'], b['value'], b['how'], {'eq_type': '_type'}.get(b['attr'], b['attr']))
        elif k == 'attr':
            ops = [op for op in ops if not (op[0] in ('set',) and op[1] == b['oid'] and op[2] == b['attr'])]
            put(ops, x, b['attr'], b['value'], b['how'], b['attr'])
        elif k == 'unit':
            a = [q for q in S.KINDS[x[2]].attrs if q.kw == b['attr']][0]
            old = x[4].get(b['attr'])
            if isinstance(old, dict) and ('$setup' in old or '$dict' in old):
                old = old.get('$setup', old.get('$dict')).get('value')
            if b['how'] == 'later':
                if old is None:
                    x[4][b['attr']] = 1
                ops.append(['set', b['oid'], a.attr, 'units', b['value']])
            else:
                v = {'$dict' if b['how'] == 'dict' else '$setup': {'value': 1 if old is None else old, 'units': b['value']}}
                x[4][b['attr']] = v
        return dict(pr, ops=ops + [w])

    def shrinkers(self):
        return [program_candidates, shorter_history]

    # ------------------------------------------------------------------------------------------ execution
    def run(self, case, ctx):
        if 'history' in case:
            return self.modes(case['history'], ctx)
        pr = case['prog']
        if not pr['ops'] or pr['ops'][-1][0] != 'write':
            return Outcome([], None, [])
        b = case.get('breach')
        labels = []
        pr = dict(fix_time(copy.deepcopy(pr)), hc=True)
        problems = []
        r, e = execute(pr, ctx.dir)
        r.cleanup()
        problems += leak('writing inside the context')
        if e is not None:
            return Outcome(problems, None, features(pr) + ['refused: ' + type(e.exc).__name__])
        try:
            f = reader.parse(r.writes[-1][2])
            m = model.Model(pr).run()
        except reader.FormatError:
            return Outcome(problems, None, labels + ['not parsable'])
        problems += restrictions(f, m, r.writes[-1][0])
        if not b:
            return Outcome(problems, json.dumps(case), features(pr))
        broken = self.apply(pr, b)
        if broken is None:
            return Outcome(problems, json.dumps(case), features(pr) + ['breach does not apply'])
        labels.append('breach: ' + b['tag'] + (' ' + b['how'] if 'how' in b else ''))
        r, e = execute(broken, ctx.dir)
        r.cleanup()
        problems += leak('a refusal inside the context')
        if e is None:
            problems.append(f"high-compatibility mode accepted and wrote a breach: {b}")
        # outside: accepted with a warning
        with Warnings() as w0:
            r0, e0 = execute(dict(pr, hc=False), ctx.dir)
            r0.cleanup()
        with Warnings() as w1:
            r1, e1 = execute(dict(broken, hc=False), ctx.dir)
            r1.cleanup()
        if e0 is None:
            if e1 is not None:
                problems.append(f"outside the context a breach was refused: {b}: {describe(e1.exc)}")
            elif not set(w1.got) - set(w0.got):
                problems.append(f"outside the context a breach was accepted without a warning: {b}")
            labels.append('accepted outside' if e1 is None else 'refused outside')
        return Outcome(problems, json.dumps(case), labels + features(pr), n=4)

    def modes(self, hist, ctx):
        problems, labels = [], set()
        env = Probes(ctx)

        def state(depth_mode, trail):
            problems.extend(f"{' / '.join(trail)}: {p}" for p in [env.run('name', depth_mode)] if p)

        def do(items, mode, trail):
            for it in items:
                if problems:
                    return
                if it[0] == 'probe':
                    labels.add(f"probe {it[1]} {'inside' if mode else 'outside'}")
                    p = env.run(it[1], mode)
                    if p:
                        problems.append(f"{' / '.join(trail) or 'top level'}: {p}")
                else:
                    _, how, body, end = it
                    labels.add(f"{how}, left by {end or 'the end'}")
                    t = trail + [f"{how}{' left by ' + end if end else ''}"]
                    self.within(how, end, lambda md: do(body, md, t), mode, ctx, env)
                    state(mode, trail + [f"after {t[-1]}"])
        do(hist, False, [])
        if not problems:
            state(False, ['at the end'])
        reset()
        return Outcome(problems, json.dumps(hist), sorted(labels))

    def within(self, how, end, body, mode, ctx, env):
        """run body in one more level of context; body gets the mode that must hold"""
        from dliswriter import high_compatibility_mode
        excs = {'Exception': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'GeneratorExit': GeneratorExit}

        def inner(md):
            body(md)
            if end in excs:
                raise excs[end]('left')
            if end == 'library':
                env.zone('library raises for this name', strict=md)
            if end == 'write':
                env.file(orphan=True)
        try:
            if how == 'cm':
                with high_compatibility_mode():
                    inner(True)
            elif how == 'deco':
                try:
                    from dliswriter import high_compatibility_mode_decorator as deco
                except ImportError:
                    return
                deco(inner)(True)
            elif how == 'stack':
                with contextlib.ExitStack() as s:
                    s.enter_context(high_compatibility_mode())
                    inner(True)
            else:
                cfg = config()
                if cfg is None:
                    return
                old = cfg.high_compat_mode
                cfg.high_compat_mode = how == 'manual-on'
                try:
                    inner(how == 'manual-on')
                finally:
                    cfg.high_compat_mode = old
        except BaseException as e:
            if type(e).__name__ == 'Hang':
                raise
            if end == '' :
                raise


def shorter_history(case):
    if 'history' in case:
        for h in shorter(case['history']):
            yield {'history': h}


def shorter(h):
    n = len(h)
    if n > 1:
        yield h[:n // 2]
        yield h[n // 2:]
    for i in range(n):
        yield h[:i] + h[i + 1:]
        if h[i][0] == 'with':
            yield h[:i] + h[i][2] + h[i + 1:]
            if h[i][3]:
                yield h[:i] + [h[i][:3] + ['']] + h[i + 1:]
            for b in shorter(h[i][2]):
                yield h[:i] + [h[i][:2] + [b, h[i][3]]] + h[i + 1:]


def put(ops, x, kw, v, how, attr):
    """one attribute value in one of the accepted ways"""
    if how == 'kw':
        x[4][kw] = v
    elif how in ('setup', 'dict'):
        x[4][kw] = {'$' + how: {'value': v}}
    elif how == 'later':
        x[4].pop(kw, None)
        ops.append(['set', x[3], attr, 'value', v])
    else:
        x[4].pop(kw, None)
        ops.append(['setattrs', x[3], {attr: v}])


def spec_width(s):
    n = 1
    for q in s['shape'][1:]:
        n *= q
    return n


def find_spec(ch, w):
    """the array spec (to be changed in place) of a channel's data"""
    if ch.dsname in ch.lf.data:
        return ch.lf.data[ch.dsname]
    for n, s in (w[1].get('data') or {'sets': []})['sets']:
        if n == ch.dsname:
            return s
    return None


def config():
    try:
        from dliswriter.configuration import global_config
        global_config.high_compat_mode
        return global_config
    except (ImportError, AttributeError):
        return None


def reset():
    c = config()
    if c is not None:
        c.high_compat_mode = False


def leak(after):
    """the mode must be off now"""
    from dliswriter import DLISFile
    try:
        DLISFile().add_logical_file().add_zone('lower case')
    except Exception as e:
        reset()
        return [f"after {after} the restrictions are still in force outside of it: {describe(e)}"]
    return []


class Warnings(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.got = []

    def emit(self, rec):
        with contextlib.suppress(Exception):
            self.got.append(rec.getMessage())

    def __enter__(self):
        self.lg = logging.getLogger('dliswriter')
        self.lg.addHandler(self)
        self.cw = warnings.catch_warnings(record=True)
        self.rec = self.cw.__enter__()
        warnings.simplefilter('always')
        return self

    def __exit__(self, *a):
        self.lg.removeHandler(self)
        self.cw.__exit__(*a)
        self.got += [str(r.message) for r in self.rec]


class Probes:
    """small breaches whose outcome shows the mode"""

    def __init__(self, ctx):
        from dliswriter import DLISFile
        self.path = os.path.join(ctx.dir, 'probe.dlis')
        self.df = DLISFile()
        self.lf = self.df.add_logical_file()
        self.origin = self.lf.add_origin('O', file_set_number=1)
        self.old = self.lf.add_zone('OLD')
        self.axis = self.lf.add_axis('AX', spacing=1)
        self.n = 0

    def zone(self, name, strict):
        from dliswriter import DLISFile
        return DLISFile().add_logical_file().add_zone(name)

    def file(self, signed=False, cast=False, orphan=False, shared=False, spacing=False):
        from dliswriter import DLISFile
        df = DLISFile()
        lf = df.add_logical_file()
        lf.add_origin('O', file_set_number=1)
        x = np.array([0., 1., 5., 6.]) if spacing else np.arange(4.)
        c = lf.add_channel('C', data=x)
        d = lf.add_channel('D', data=np.arange(4, dtype=np.int16 if signed else np.uint8), cast_dtype=np.int32 if cast else None)
        kw = {'index_type': 'BOREHOLE-DEPTH'} if spacing else {}
        lf.add_frame('F', channels=(c, d), **kw)
        if orphan:
            lf.add_channel('X', data=np.arange(4.))
        if shared:
            lf.add_frame('G', channels=(d,))
        df.write(self.path, output_chunk_size=1 << 14)

    def run(self, kind, mode):
        """-> None or what is wrong"""
        from dliswriter import DLISFile
        self.n += 1
        n = self.n
        if kind == 'number':
            o = [DLISFile().add_logical_file()]
            got = [o[0].add_origin(f"O{i}").file_set_number.value for i in range(3)]
            if mode and got != [1, 2, 3]:
                return f"default file-set numbers {got} in high-compatibility mode"
            if not mode and got == [1, 2, 3]:
                return "default file-set numbers 1, 2, 3 outside of high-compatibility mode"
            return None
        f = {
            'name': lambda: DLISFile().add_logical_file().add_zone('lower case'),
            'units': lambda: DLISFile().add_logical_file().add_channel('C', units='furlong'),
            'attr-units': lambda: DLISFile().add_logical_file().add_axis('A', spacing={'value': 1, 'units': 'furlong'}),
            'index': lambda: self.index(n),
            'eq': lambda: DLISFile().add_logical_file().add_equipment('E', eq_type='bad'),
            'loc': lambda: DLISFile().add_logical_file().add_equipment('E', location='bad'),
            'sul': lambda: DLISFile(set_identifier='lower case'),
            'fh': lambda: DLISFile().add_logical_file(fh_id='lower case'),
            'signed': lambda: self.file(signed=True), 'cast': lambda: self.file(cast=True), 'orphan': lambda: self.file(orphan=True),
            'shared': lambda: self.file(shared=True), 'spacing': lambda: self.file(spacing=True),
            'old-name': lambda: self.lf.add_zone('lower case'),
            'old-units': lambda: setattr(self.axis.spacing, 'units', 'furlong'),
            'old-rename': lambda: self.rename(),
        }[kind]
        with Warnings() as w:
            try:
                f()
                exc = None
            except Exception as e:
                exc = e
        if mode and exc is None:
            return f"a breach ({kind}) did not raise in high-compatibility mode"
        if not mode and exc is not None:
            return f"a breach ({kind}) was refused outside of high-compatibility mode: {describe(exc)}"
        if not mode and not w.got:
            return f"a breach ({kind}) caused no warning outside of high-compatibility mode"
        return None

    def index(self, n):
        from dliswriter import DLISFile
        lf = DLISFile().add_logical_file()
        c = lf.add_channel('C', data=np.arange(3.))
        lf.add_frame('F', channels=(c,), index_type='BAD')

    def rename(self):
        """an object made earlier gets a bad name and is written"""
        from dliswriter import DLISFile
        df = DLISFile()
        lf = df.add_logical_file()
        lf.add_origin('O', file_set_number=1)
        c = lf.add_channel('C', data=np.arange(3.))
        lf.add_frame('F', channels=(c,))
        c.name = 'lower case'
        df.write(self.path, output_chunk_size=1 << 14)


def restrictions(f, m, opts):
    """what must be true of every file built and written in high-compatibility mode"""
    P = []
    if not SAFE.fullmatch(f.sul.ident_field.rstrip(' ')):
        P.append(f"set identifier {f.sul.ident_field!r}")
    units = set(S.ENUM_VALUES['Unit'])
    for n, lf in enumerate(f.logical_files):
        h = lf.header
        i = h.val('ID')
        if not i or not SAFE.fullmatch(i[0].rstrip(' ')):
            P.append(f"logical file {n}: header id {i}")
        used = {}
        for s in lf.sets:
            if s.type == 'FILE-HEADER':
                continue
            for o in s.objects:
                if not SAFE.fullmatch(o.name.name):
                    P.append(f"logical file {n}: {s.type} named {o.name.name!r}")
                for lab in s.template:
                    a = o.get(lab.label if hasattr(lab, 'label') else lab)
                    if a is not None and a.units and a.units not in units:
                        P.append(f"logical file {n}: {s.type} {o.name.name!r}: {a.label} in {a.units!r}")
                for t, lab, e in (('CHANNEL', 'UNITS', 'Unit'), ('FRAME', 'INDEX-TYPE', 'FrameIndexType'), ('EQUIPMENT', 'TYPE', 'EquipmentType'),
                                  ('EQUIPMENT', 'LOCATION', 'EquipmentLocation')):
                    if s.type == t:
                        v = o.val(lab)
                        if v and v[0] not in S.ENUM_VALUES[e]:
                            P.append(f"logical file {n}: {t} {o.name.name!r}: {lab} {v[0]!r}")
                if s.type == 'CHANNEL':
                    rc = o.val('REPRESENTATION-CODE')
                    if rc and rc[0] in (12, 13, 14):
                        P.append(f"logical file {n}: channel {o.name.name!r} has signed integers (code {rc[0]})")
                    used.setdefault(o.name.key(), 0)
                if s.type == 'FRAME':
                    for ref in o.val('CHANNELS') or []:
                        used[ref.key()] = used.get(ref.key(), 0) + 1
        for k, c in used.items():
            if c != 1:
                P.append(f"logical file {n}: channel {k} is in {c} frames")
        for fr in (lf.objs('FRAME') or []):
            if fr.val('INDEX-TYPE'):
                rows = [x.data for kind, x in lf.items if kind == 'fdata' and x.ref.key() == fr.name.key()]
                try:
                    lay = reader.frame_layout(lf, fr)
                except reader.FormatError:
                    continue
                ch, rc, k = lay[0]
                dt = np.dtype(reader.NP_OF_RC[rc])
                x = np.array([np.frombuffer(r[:dt.itemsize], dtype=dt)[0] for r in rows]).astype(float)
                if len(x) > 2:
                    d = np.diff(x)
                    md = np.median(d)
                    if not np.all(np.isfinite(d)) or (np.abs(d - md) > 0.04 * abs(md)).any():
                        P.append(f"logical file {n}: index of frame {fr.name.name!r} is not uniformly spaced: {x[:8]}")
        nums = [o.val('FILE-SET-NUMBER') for o in lf.objs('ORIGIN')]
        mlf = m.lfs[n] if n < len(m.lfs) else None
        if mlf is not None:
            for sn, objs in mlf.sets.get('origin', {}).items():
                for j, o in enumerate(objs):
                    if o.get('file_set_number') is None:
                        got = [x for s in lf.sets if s.type == 'ORIGIN' and (s.name or None) == (sn or None) for x in s.objects]
                        if j < len(got) and got[j].val('FILE-SET-NUMBER') != [j + 1]:
                            P.append(f"logical file {n}: default file-set number of origin {j + 1} is {got[j].val('FILE-SET-NUMBER')}")
    return P


CHECK = C17()
