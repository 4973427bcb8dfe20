"""C08 - a frame's channel descriptors match the layout of its data records."""
import random

from vlib import gen
from vlib.base import Check
from vlib.model import plain

B = {'nobj': (0, 1), 'p_attr': 0.3, 'nofmt': (0, 1), 'rows': (1, 4), 'origins': (1, 1), 'rename': 0.05}


class C08(Check):
    id = 'C08'
    exceptions_count = True
    rule = ('Programs from the random generator, biased to channels: 1-3 frames x 1-7 channels of every dtype with casts (at creation '
            'or later), scalar and 2-D widths 1..300, declared dimensions and element limits, axes, channels shared between frames, '
            'four kinds of source. Each listed channel\'s code, DIMENSION and ELEMENT-LIMIT are compared with the data written and '
            'every record\'s length with the layout a reader derives from the file alone. Group `nearmiss` declares dimensions and element limits that nearly fit (also on channels outside of all frames): they may be refused, a written file has to be right. '
            'Group `odd`: one or two of the unusual or impossible things of C12; what is written all the same is judged by itself. Non-trivial: a frame with data. '
            'Distinct by program.')
    quick = 5
    profiles = {
        'mixed': (1500, {}, {**B, 'nframes': (1, 3), 'nchan': (1, 7), 'width': (1, 6), 'cast': 0.4}),
        'wide': (500, {}, {**B, 'nframes': (1, 1), 'nchan': (1, 4), 'bigwidth': 0.5, 'width': (1, 20), 'cast': 0.5}),
        'mega': (14, {}, {**B, 'nframes': (1, 1), 'nchan': (1, 2), 'mega': 0.7, 'rows': (1, 3), 'scalar': 0.2, 'nobj': (0, 0), 'nofmt': (0, 0), 'maxlen': 'large'}),
        'shared': (500, {}, {**B, 'nframes': (2, 4), 'nchan': (1, 3), 'shared_channel': 0.7, 'share_ds': 0.3, 'cast': 0.3}),
        'latecast': (500, {}, {**B, 'nframes': (1, 2), 'nchan': (2, 5), 'cast': 0.95, 'later': 0.6}),
        'nearmiss': (500, {}, {**B, 'nframes': (1, 1), 'nchan': (1, 4), 'width': (1, 6), 'cast': 0.3, 'orphan': 0.5}),
        'odd': (300, {}, {**B, 'nframes': (1, 2), 'nchan': (1, 4), 'nobj': (0, 1)}),
        'multi': (200, {}, {**B, 'nlf': (2, 3), 'nframes': (1, 2), 'nchan': (1, 4), 'cast': 0.5}),
    }

    def case(self, seed, shard):
        if shard['name'] == 'odd':
            return self.odd_case(seed, shard)
        pr = gen.case(seed, shard['prof'])
        if shard['name'] == 'nearmiss':
            nearmiss(pr, random.Random(seed + '/nm'))
            return {'prog': pr, 'invalid': True}
        return {'prog': pr}

    def run(self, case, ctx):
        if case.get('odd'):
            return self.decodable(case['prog'], ctx)
        out = self.run_prog(case['prog'], ctx)
        if case.get('invalid'):          # declarations that contradict the data or each other may be refused
            out.problems = [p for p in out.problems if 'a valid specification was refused' not in p]
            if out.sig == 'refused':
                out.sig = None
        return out


def miss(d, rnd):
    """something like the dimension d"""
    d = list(d)
    r = rnd.random()
    if r < 0.15:
        return d
    if r < 0.3:
        return d + [rnd.choice((1, 2, 7))]
    if r < 0.4:
        return [rnd.choice((1, 1, 2))] + d
    if r < 0.5:
        return d[:-1] or [max(1, d[0] - 1)]
    if r < 0.6:
        return d[::-1]
    i = rnd.randrange(len(d))
    d[i] = max(1, d[i] + rnd.choice((-1, -1, 1, 3, 100)))
    if rnd.random() < 0.4:
        d.append(rnd.choice((1, 2, 50, 1000)))
    return d


def nearmiss(pr, rnd):
    from vlib.shrink import specs
    by = {}
    for op in pr['ops']:
        if op[0] == 'write' and op[1].get('data'):
            by.update({n: s for n, s in op[1]['data']['sets']})
    for op in pr['ops']:
        if op[0] == 'add' and op[2] == 'channel' and rnd.random() < 0.7:
            kw = op[4]
            s = (kw.get('data') or {}).get('$arr') or by.get(str(plain(kw.get('dataset_name') or kw['name'])))
            d = list(s['shape'][1:]) or [1] if s else [rnd.randint(1, 6) for _ in range(rnd.randint(1, 3))]
            r = rnd.random()
            kw.pop('axis', None)
            kw.pop('dimension', None)
            kw.pop('element_limit', None)
            if r < 0.7:
                kw['element_limit'] = miss(d, rnd)
            if r > 0.6 or rnd.random() < 0.3:
                kw['dimension'] = d if rnd.random() < 0.5 else miss(d, rnd)
    return pr


CHECK = C08()
