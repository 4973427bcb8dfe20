"""C07 - object identity is unique and every reference resolves in its logical file."""
import json
import random
from collections import Counter

from vlib import gen, model
from vlib.base import Check
from vlib.runner import Outcome

B = {'nframes': (1, 2), 'nchan': (1, 4), 'rows': (1, 3), 'window': 0.05, 'ichunk': 0.05, 'layouts': False, 'collide': 0.85,
     'rename': 0.3, 'orefs': 0.4, 'origins': (1, 3), 'sets': 0.4, 'reassign': 0.4, 'nofmt': (0, 3)}


class C07(Check):
    id = 'C07'
    exceptions_count = True
    rule = ('Programs from the random generator, biased to identity: names drawn from a pool of seven so that objects of one type '
            'collide (also across named sets, renames and late origin changes), several origins with arbitrary references, objects '
            'with chosen origins, objects defined before their origin, dense reference graphs in every referencing attribute, several '
            'logical files, crowds of up to 258 objects of one name with references into them (group `crowd`; a refusal is fine there). All identities must be unique, all references must decode to the identity of the model\'s target. '
            'Group `odd`: one or two of the unusual or impossible things of C12; what is written all the same is judged by itself. '
            'Non-trivial: two objects of one type share a name, or some attribute refers to another object. Distinct by program.')
    profiles = {
        'graph': (1500, {}, {**B, 'nobj': (3, 12), 'p_attr': 0.5}),
        'refs': (700, {}, {**B, 'nobj': (4, 12), 'p_attr': 0.8, 'kinds': ['group', 'splice', 'calibration', 'process', 'path', 'tool',
                                                                          'computation', 'parameter', 'long_name', 'zone']}),
        'origins': (500, {}, {**B, 'nobj': (1, 6), 'origins': (2, 5), 'origin_first': 0.4, 'orefs': 0.7, 'later': 0.5}),
        'multi': (400, {}, {**B, 'nlf': (2, 4), 'nobj': (1, 6), 'origin_first': 0.6}),
        'frames': (300, {}, {**B, 'nframes': (2, 4), 'nchan': (1, 2), 'nobj': (0, 2), 'rows': (1, 5), 'collide': 1.0, 'nofmt': (0, 1)}),
        'crowd': (60, {}, {**B, 'nobj': (0, 3), 'nframes': (1, 1), 'nchan': (1, 2), 'later': 0, 'rename': 0, 'reassign': 0, 'nofmt': (0, 0)}),
        'hc': (200, {}, {**B, 'hc': 1.0, 'nobj': (1, 8)}),
        'odd': (300, {}, {**B, 'nobj': (1, 8)}),
    }

    def case(self, seed, shard):
        if shard['name'] == 'odd':
            return self.odd_case(seed, shard)
        pr = gen.case(seed, shard['prof'])
        if shard['name'] == 'crowd':
            crowd(pr, random.Random(seed + '/crowd'))
        return {'prog': pr}

    def run(self, case, ctx):
        out = super().run(case, ctx)
        if out.problems and out.sig == 'refused' and not self.resolvable(case['prog']):
            return Outcome([], None, out.labels + ['refused: unknown origin or too many copies'])
        return out

    def resolvable(self, pr):
        """whether every object has an origin of its logical file and a copy number that can be written"""
        m = model.Model(pr).run()
        for lf in m.lfs:
            origins = {o.oref for o in lf.objs('origin')}
            names = Counter((k, o.name) for k in lf.sets for o in lf.objs(k))
            if any(o.oref not in origins for o in lf.all()) or max(names.values()) > 256:
                return False
        return True

    def interesting(self, pr, m):
        t = json.dumps(pr, sort_keys=True)
        names = [(l.lid, k, o.name) for l in m.lfs for k in l.sets for o in l.objs(k)]
        return t if len(set(names)) < len(names) or t.count('$ref') > 3 else None


def crowd(pr, rnd):
    """many objects of one name (copy numbers up to and beyond what fits), and references to some of them"""
    n = rnd.choice((5, 60, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258))
    lf = next(op[1] for op in pr['ops'] if op[0] == 'lf')
    kind = rnd.choice(('zone', 'zone', 'comment', 'axis', 'parameter', 'long_name', 'channel', 'group', 'no_format'))
    if kind in ('channel',) and pr.get('hc'):
        kind = 'zone'
    sets = [None] if any(op[0] == 'add' and op[2] == kind and op[1] == lf for op in pr['ops']) else [None, 'CROWD']
    ops = []
    for i in range(n):
        kw = {'name': 'CR'}
        s = rnd.choice(sets) if rnd.random() < 0.1 else None
        if s:
            kw['set_name'] = s
        if kind == 'axis':
            kw['axis_id'] = f"I{i}"
        ops.append(['add', lf, kind, f"crowd{i}", kw])
    own = sorted({0, n - 1, *[i for i in (1, 126, 127, 128, 129, 254, 255) if i < n], *[rnd.randrange(n) for _ in range(4)]})
    ops.append(['add', lf, 'group', 'crowdg', {'name': 'CROWD-GROUP', 'object_list': [{'$ref': f"crowd{i}"} for i in own]}])
    if kind == 'group':
        ops[-1][4]['group_list'] = ops[-1][4].pop('object_list')
    at = [i for i, op in enumerate(pr['ops']) if op[0] == 'add' and op[2] == 'origin' and op[1] == lf][0] + 1
    if rnd.random() < 0.5:
        at = len(pr['ops']) - 1
    pr['ops'][at:at] = ops


CHECK = C07()
