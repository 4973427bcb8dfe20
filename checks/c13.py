"""C13 - frame index metadata is truthful for the rows written."""
from vlib import model
from vlib.base import NOW, SLOWBAR, Check, execute, features, refused
from vlib.runner import Outcome

B = {'nobj': (0, 0), 'kinds': [], 'p_attr': 0.2, 'nofmt': (0, 0), 'origins': (1, 1), 'index': 0.85, 'layouts': True, 'rename': 0,
     'later': 0.05, 'long': 0.0, 'orphan': 0}


class C13(Check):
    id = 'C13'
    rule = ('Programs from the random generator, biased to index channels: every dtype, ramps, nearly uniform ramps on both sides of '
            'the tolerance, steps, constants, up-and-down, random, extremes and non-finite values, 1..40 rows (or 1000..65537), casts, row windows, '
            'input chunks, user-supplied bounds/spacing/direction, 1-3 frames; and two or three successive writes of one file with '
            'different windows or data. Statistics are recomputed from the model rows. Non-trivial: a frame with an index type and '
            'at least two rows written. Distinct by program.')
    profiles = {
        'index': (2000, {}, {**B, 'nframes': (1, 2), 'nchan': (1, 2), 'rows': (1, 14), 'window': 0.5, 'ichunk': 0.4}),
        'tolerance': (600, {}, {**B, 'nframes': (1, 1), 'nchan': (1, 1), 'rows': (2, 40), 'spacing': 'near', 'window': 0.2, 'index': 1.0}),
        'far': (400, {}, {**B, 'nframes': (1, 1), 'nchan': (1, 1), 'rows': (2, 12), 'spacing': 'far', 'window': 0.2, 'index': 1.0}),
        'user': (400, {}, {**B, 'nframes': (1, 2), 'nchan': (1, 2), 'rows': (1, 8), 'index_user': 0.6}),
        'multi': (300, SLOWBAR, {**B, 'nlf': (1, 3), 'nframes': (1, 2), 'nchan': (1, 2), 'rows': (1, 8), 'window': 0.3}),
        'huge': (90, {}, {**B, 'nframes': (1, 1), 'nchan': (1, 1), 'huge': 1.0, 'index': 1.0, 'window': 0.4, 'ichunk': 0.5,
                          'index_user': 0.1}),
        'rewrite': (800, {}, {**B, 'nframes': (1, 2), 'nchan': (1, 2), 'rows': (3, 12), 'index_user': 0.1}),
    }

    def case(self, seed, shard):
        from vlib import gen
        import random
        pr = gen.case(seed, shard['prof'])
        if shard['name'] == 'rewrite':
            rnd = random.Random(f"{seed}/rw")
            w = pr['ops'][-1][1]
            n = min([s['shape'][0] for s in frame_specs(pr)] or [1])
            for _ in range(rnd.randint(1, 2)):
                w2 = {k: v for k, v in w.items() if k not in ('from', 'to')}
                r = rnd.random()
                if r < 0.75:
                    a = rnd.randint(0, n - 1)
                    b = rnd.randint(a + 1, n)
                    if rnd.random() < 0.8:
                        w2['from'] = a
                    if rnd.random() < 0.8:
                        w2['to'] = b
                if w.get('data') and w['data']['kind'] in ('dict', 'struct', 'h5') and rnd.random() < 0.5:
                    w2['data'] = redata(w['data'], rnd)
                pr['ops'].append(['write', w2])
        return {'prog': pr}

    def interesting(self, pr, m):
        ok = False
        for op in pr['ops']:
            if op[0] == 'write':
                for l in m.lfs:
                    for fr in l.objs('frame'):
                        if fr.get('index_type') or any(s[0] == 'write' for s in pr['ops'][:-1]):
                            ok = True
        return super().interesting(pr, m) if ok else None

    def run(self, case, ctx):
        pr = case['prog']
        labels = features(pr)
        r, e = execute(pr, ctx.dir)
        try:
            if e is not None and not r.writes:
                return Outcome([], None, labels + ['refused: ' + type(e.exc).__name__])
            m = model.Model(pr).run(r.status)
            now = NOW()
            problems = []
            for k, (opts, _, raw) in enumerate(r.writes):
                problems += [f"write {k + 1}: {p}" for p in self.mine(self.compare(raw, m, opts, pr.get('hc'), now))]
            if len(r.writes) > 1:
                labels.append('several writes')
            return Outcome(problems, self.interesting(pr, m), labels)
        finally:
            r.cleanup()


def frame_specs(pr):
    from vlib.base import specs
    return list(specs(pr))


def redata(src, rnd):
    """other values and another number of rows under the same names"""
    by_n = {}
    d = dict(src, sets=[])
    for n, s in src['sets']:
        k = s['shape'][0]
        if k not in by_n:
            by_n[k] = rnd.choice((k, max(1, k - 1), k + 2))
        fill = s['fill']
        r = rnd.random()
        if r < 0.6:
            st = rnd.choice((1, 2, 3)) * (1 if s['dtype'].lstrip('<>=')[:1] == 'u' or rnd.random() < 0.6 else -1)
            fill = {'lin': [rnd.randint(0, 50), st]} if st > 0 or s['dtype'].lstrip('<>=')[:1] != 'u' else fill
        elif r < 0.8:
            fill = {'vals': [rnd.randint(0, 100) for _ in range(7)]}
        d['sets'].append([n, dict(s, shape=[by_n[k]] + s['shape'][1:], fill=fill)])
    if src['kind'] == 'struct':
        k0 = min(by_n.values())
        for x in d['sets']:
            x[1] = dict(x[1], shape=[k0] + x[1]['shape'][1:])
    return d


CHECK = C13()
