"""C11 - all data sources are equivalent, and the row window selects exactly its rows."""
import copy
import random

from vlib import gen, model, prog
from vlib import schema as S
from vlib.base import Check, describe, execute, features, fix_time, op_name
from vlib.runner import Outcome
from vlib.shrink import native

B = {'p_attr': 0.25, 'nobj': (0, 2), 'sources': ('dict',), 'window': 0.0, 'ichunk': 0.0, 'rows': (1, 9), 'nchan': (1, 5), 'dsname': 0.3,
     'ochunk': None}
KINDS = ('inline', 'dict', 'struct', 'h5', 'mixed')


class C11(Check):
    id = 'C11'
    exceptions_count = True
    rule = ('Each case is a generated specification with its channel data given as a dict, and 4-6 variants of it that supply the same '
            'data otherwise: inline, dict, structured array, HDF5 file (nested groups, with or without leading slash, chunked, '
            'compressed), or part inline part dict; with the default or new dataset names (given at creation or set later), sets in '
            'frame order, shuffled or reversed, extra unused sets (other row counts, unsupported types, more dimensions), one set shared by '
            'channels with equal data, other memory layouts and byte orders, any input chunk size, and either the row window or '
            'arrays sliced beforehand without a window. All files must be byte-identical. Non-trivial: every variant that was '
            'written; distinct by (program, variant).')
    quick = 5
    profiles = {
        'one': (330, {}, {**B}),
        'regular': (200, {}, {**B, 'cast': 0.1, 'collide': 0.3}),
        'frames': (160, {}, {**B, 'nframes': (2, 3), 'nchan': (1, 3)}),
        'index': (120, {}, {**B, 'index': 1.0, 'nchan': (1, 3)}),
        'multi': (90, {}, {**B, 'nlf': (2, 3), 'nchan': (1, 2)}),
        'hc': (40, {}, {**B, 'hc': 1.0}),
        'plain': (200, {}, {**B, 'cast': 0.0, 'layouts': False, 'dsname': 0.0, 'native': 1.0, 'nchan': (2, 4), 'extra_ds': 0.0, 'index': 0.1}),
        'rows': (40, {}, {**B, 'rows': (30, 200), 'nchan': (1, 3)}),
    }

    def case(self, seed, shard):
        rnd = random.Random(seed + '/c11')
        pr = fix_time(gen.case(seed, shard['prof']))
        data = pr['ops'][-1][1].get('data')
        if data and not pr.get('hc') and rnd.random() < 0.35 and len(data['sets']) > 1:         # equal data in two sets
            by = {}
            for s in data['sets']:
                by.setdefault(s[1]['shape'][0], []).append(s)
            grp = [g for g in by.values() if len(g) > 1]
            if grp:
                a, b = rnd.sample(rnd.choice(grp), 2)
                if a[1]['shape'] == b[1]['shape'] and not native(a[1]['dtype']).startswith('float'):      # casts stay defined
                    b[1] = dict(a[1])
        rows = [s['shape'][0] for _, s in (data or {'sets': []})['sets'] if not _.startswith('unused')]
        n = min(rows) if rows else 1
        w = None
        if rnd.random() < 0.65:
            a = rnd.randint(0, n - 1)
            b = rnd.randint(a + 1, n)
            w = [a if rnd.random() < 0.8 else None, b if rnd.random() < 0.8 else None]
        vs = []
        for j in range(rnd.randint(4, 6)):
            k = KINDS[j] if j < 4 else rnd.choice(KINDS)
            v = {'kind': k, 'seed': rnd.randrange(10**6), 'names': rnd.choice(('default', 'given', 'later', 'shared')),
                 'order': rnd.choice(('frame', 'frame', 'shuffled', 'reversed')), 'presliced': bool(w) and rnd.random() < 0.4,
                 'extras': rnd.choice((0, 0, 1, 3)), 'relayout': rnd.random() < 0.5}
            if rnd.random() < 0.6:
                v['ichunk'] = max(1, rnd.choice((1, 2, 3, n - 1, n, n + 1, 1000)))
            if rnd.random() < 0.25:       # nothing but another kind of source
                v.update(names='default', relayout=False, extras=0)
            for o, q in (('align', 0.25), ('strided', 0.25), ('ro', 0.2)):
                if k == 'struct' and rnd.random() < q:
                    v[o] = True
            if k == 'h5':
                v['chunked'] = rnd.choice((None, None, True, 'gzip'))
                v['ext'] = rnd.choice(('h5', 'hdf5', 'H5'))
                v['pathlib'] = rnd.random() < 0.3
            vs.append(v)
        return {'prog': pr, 'window': w, 'variants': vs}

    def run(self, case, ctx):
        pr = fix_time(copy.deepcopy(case['prog']))
        if not pr['ops'] or pr['ops'][-1][0] != 'write':
            return Outcome([], None, [])
        labels = features(pr)
        w = case.get('window') or [None, None]
        opts = {k: v for k, v in pr['ops'][-1][1].items() if k in ('data', 'ochunk')}
        base = dict(pr, ops=pr['ops'][:-1] + [['write', dict(opts, **{'from': w[0], 'to': w[1]})]])
        r, e = execute(base, ctx.dir)
        r.cleanup()
        if e is not None:
            if case.get('window'):
                labels.append('base refused')
            return Outcome([f"a valid specification was refused: {op_name(e.op)}: {describe(e.exc)}"], 'refused', labels)
        opts0, _, raw0 = r.writes[-1]
        m = model.Model(base).run()
        problems = self.mine(self.compare(raw0, m, opts0, pr.get('hc')))
        sig = set()
        n = 1
        for v in case['variants']:
            t = self.transform(pr, opts, w, v)
            if t is None:
                continue
            n += 1
            what = {k: x for k, x in v.items() if x not in (None, False, 0) and k != 'seed'}
            r, e = execute(t, ctx.dir)
            r.cleanup()
            if e is not None:
                problems.append(f"refused with another data source: {op_name(e.op)}: {describe(e.exc)} ({what}, window {w})")
                continue
            raw = r.writes[-1][2]
            labels += [f"{v['kind']}{' presliced' if v.get('presliced') else (' window' if case.get('window') else '')}",
                       f"names {v['names']}", f"order {v['order']}"]
            sig.add((repr(base)[:20000], repr(v)))
            if raw != raw0:
                d = next((i for i, (x, y) in enumerate(zip(raw, raw0)) if x != y), min(len(raw), len(raw0)))
                problems.append(f"the file with {what} differs from the one with a dict (window {w}): {len(raw)} and {len(raw0)} bytes, first "
                                f"difference at offset {d}")
        return Outcome(problems, sig or None, labels, n=n)

    def transform(self, pr, opts, w, v):
        """the same specification with its data supplied in another way; None when that is not possible"""
        rnd = random.Random(v['seed'])
        ops = copy.deepcopy(pr['ops'][:-1])
        m = model.Model(dict(pr, ops=ops)).run()
        src = dict((n, s) for n, s in (opts.get('data') or {'sets': []})['sets'])
        chans = []           # (oid, lf, spec), in frame order
        for lf in m.lfs:
            for fr in lf.objs('frame'):
                for oid in fr.refs('channels'):
                    if any(c[0] == oid for c in chans):
                        continue
                    ds = m.o[oid].dsname
                    if ds not in src:
                        return None
                    chans.append((oid, lf.lid, src[ds]))
        inline = {'inline': lambda i: True, 'mixed': lambda i: rnd.random() < 0.5}.get(v['kind'], lambda i: False)
        names, given, late, isin = {}, {}, [], {}
        used = {}
        for i, (oid, lid, spec) in enumerate(chans):
            isin[oid] = inline(i)
            if v['names'] == 'default':
                names[oid] = m.o[oid].dsname
                continue
            nm = f"set{i}"
            if rnd.random() < 0.6:
                nm = rnd.choice((f"grp{i % 2}/set{i}", f"/abs{i}", f"a b {i}", f"/x/y{i % 2}/z{i}", f"0{i}0{i}0", f"n.{i}"))
            if v['names'] == 'shared' and not isin[oid]:
                k = repr(spec)
                if k in used:
                    nm = used[k]
                used[k] = nm
                late.append(['dsname', oid, nm])
            elif v['names'] == 'later' and not isin[oid]:
                late.append(['dsname', oid, nm])
            else:
                given[oid] = nm
            names[oid] = nm
        if v['kind'] == 'mixed' and v['names'] == 'default' and len({names[o] for o, _, _ in chans}) < len(chans):
            return None
        new = {}
        for oid, lid, spec in chans:
            s = dict(spec)
            if v.get('presliced'):
                a = prog.base_array(spec)[w[0] or 0:w[1]]
                s = {'dtype': spec['dtype'], 'shape': list(a.shape), 'fill': {'hex': a.tobytes().hex()}}
                if 'layout' in spec:
                    s['layout'] = spec['layout']
            if v.get('relayout'):
                s['layout'] = rnd.choice(prog.LAYOUTS)
                b = native(s['dtype'])
                s['dtype'] = rnd.choice((b, '>' + gen.CODE[b], '<' + gen.CODE[b]))
            new[oid] = s
        for op in ops:
            if op[0] == 'add' and op[2] == 'channel' and op[3] in new:
                kw = op[4]
                if op[3] in given:
                    kw['dataset_name'] = given[op[3]]
                elif v['names'] in ('later', 'shared') and op[3] in names and not isin[op[3]]:
                    kw.pop('dataset_name', None)
                if isin[op[3]]:
                    kw['data'] = {'$arr': new[op[3]]}
        ops += late
        wr = {k: x for k, x in opts.items() if k != 'data'}
        if not v.get('presliced'):
            wr.update({'from': w[0], 'to': w[1]})
        if v.get('ichunk'):
            wr['ichunk'] = v['ichunk']
        rest = [(oid, lid, spec) for oid, lid, spec in chans if not isin[oid]]
        if rest:
            kind = 'dict' if v['kind'] == 'mixed' else v['kind']
            sets = []
            seen = set()
            for oid, _, _ in rest:
                if names[oid] not in seen:
                    seen.add(names[oid])
                    sets.append([names[oid], new[oid]])
            if v['order'] == 'reversed':
                sets.reverse()
            elif v['order'] == 'shuffled':
                rnd.shuffle(sets)
            rows = {s['shape'][0] for _, s in sets}
            if kind == 'struct' and (len(rows) > 1 or not all(0 < len(x) < 200 for x, _ in sets)):
                return None
            if kind == 'h5':
                ns = [x for x, _ in sets]
                norm = [x.strip('/') for x in ns]
                if len(set(norm)) < len(norm) or not all(plain_h5(x) for x in ns) or \
                        any(a != b and (b + '/').startswith(a + '/') for a in norm for b in norm):
                    return None
            for i in range(v.get('extras') or 0):
                sh = [next(iter(rows)) if kind == 'struct' or rnd.random() < 0.5 else rnd.randint(1, 12)]
                sh += rnd.choice(([], [], [2], [2, 2]))
                e = [f"extra{i}", {'dtype': rnd.choice(('float32', 'uint8', 'int64', 'complex128', 'bool')), 'shape': sh, 'fill': {'zero': 1}}]
                sets.insert(rnd.randint(0, len(sets)), e)
            d = {'kind': kind, 'sets': sets}
            for o in ('align', 'strided', 'ro', 'chunked', 'ext', 'pathlib'):
                if v.get(o):
                    d[o] = v[o]
            wr['data'] = d
        return dict(pr, ops=ops + [['write', wr]])


def plain_h5(n):
    return bool(n) and '\0' not in n and '//' not in n and not n.endswith('/') and not any(p in ('', '.', '..') for p in n.strip('/').split('/'))


CHECK = C11()
