"""C18 - frames and logical files are isolated from one another."""
import copy
import random

from vlib import gen, reader
from vlib.base import Check, describe, execute, features, fix_time
from vlib.runner import Outcome

B = {'rows': (1, 7), 'layouts': False, 'nofmt': (0, 3), 'p_attr': 0.3, 'collide': 0.8}


class C18(Check):
    id = 'C18'
    exceptions_count = True
    rule = ('Programs from the random generator, biased to isolation: 2-5 logical files built interleaved (all up front or one after '
            'another) with colliding object and channel names, equal dataset names, 1-4 frames each with different numbers of rows, '
            'named and default sets, several origins; inventories, references, rows and numbering of each logical file are compared '
            'with the model of that logical file alone. A second group makes logical files share a set (same type and name) and '
            'demands that this is refused. Non-trivial: at least two frames or two logical files. Distinct by program.')
    quick = 4
    profiles = {
        'logical-files': (1300, {}, {**B, 'nlf': (2, 4), 'nframes': (1, 2), 'nchan': (1, 3), 'nobj': (0, 5), 'origin_first': 0.7,
                                     'origins': (1, 2)}),
        'frames': (700, {}, {**B, 'nframes': (2, 5), 'nchan': (1, 4), 'nobj': (0, 2), 'window': 0.2, 'ichunk': 0.5}),
        'both': (400, {}, {**B, 'nlf': (2, 5), 'nframes': (1, 4), 'nchan': (1, 2), 'nobj': (0, 2), 'sources': ('inline', 'dict')}),
        'shared-set': (900, {}, {**B, 'nlf': (2, 3), 'nframes': (1, 1), 'nchan': (1, 2), 'nobj': (1, 4), 'p_attr': 0.2}),
    }

    def case(self, seed, shard):
        pr = gen.case(seed, shard['prof'])
        c = {'prog': pr}
        if shard['name'] == 'shared-set':
            rnd = random.Random(f"{seed}/share")
            adds = {}
            for i, op in enumerate(pr['ops']):
                if op[0] == 'add':
                    adds.setdefault(op[2], {}).setdefault(op[1], []).append(i)
            kinds = [k for k, d in adds.items() if len(d) > 1]
            k = rnd.choice(kinds)
            a, b = rnd.sample(sorted(adds[k]), 2)
            i, j = rnd.choice(adds[k][a]), rnd.choice(adds[k][b])
            nm = rnd.choice((None, 'SHARED', 'X'))
            for x in (i, j):
                kw = {q: v for q, v in pr['ops'][x][4].items() if q != 'set_name'}
                if nm is not None:
                    kw['set_name'] = nm
                pr['ops'][x] = pr['ops'][x][:4] + [kw]
            c['shared'] = [k, nm]
        elif sum(op[0] == 'lf' for op in pr['ops']) > 1:
            rnd = random.Random(f"{seed}/alone")
            if rnd.random() < 0.4:
                fix_time(pr)
                c['alone'] = rnd.random()
        return c

    def run(self, case, ctx):
        if not case.get('shared'):
            out = super().run(case, ctx)
            if case.get('alone') is not None and not out.problems:
                out.problems += self.alone(copy.deepcopy(case['prog']), case['alone'], ctx)
                out.labels.append('logical file written alone')
            return out
        pr = case['prog']
        k, nm = case['shared']
        lfs = {op[1] for op in pr['ops'] if op[0] == 'add' and op[2] == k and op[4].get('set_name') == nm}
        r, e = execute(pr, ctx.dir)
        try:
            if e is not None or len(lfs) < 2:
                return Outcome([], repr(pr), features(pr) + [f'shared {k} set: refused'])
            # accepted: only all right when nothing is cross-contaminated
            from vlib import model
            m = model.Model(pr).run(r.status)
            o, _, raw = r.writes[-1]
            ps = self.mine(self.compare(raw, m, o))
            if ps:
                ps = [f"the {k} set {nm!r} is shared by logical files {sorted(lfs)}: " + p for p in ps]
            else:
                ps = []
            return Outcome(ps, repr(pr), features(pr) + [f'shared {k} set: kept apart'])
        finally:
            r.cleanup()

    def alone(self, pr, which, ctx):
        """the records of a logical file written in a storage unit of its own are the same"""
        fix_time(pr)
        lfs = [op[1] for op in pr['ops'] if op[0] == 'lf']
        if len(lfs) < 2 or pr['ops'][-1][0] != 'write':
            return []
        k = int(which * len(lfs))
        mine, ops = {lfs[k]}, []
        for op in pr['ops']:
            if op[0] == 'write' or op[0] in ('lf', 'add', 'nofmt', 'set', 'setattrs', 'name', 'oref', 'cast', 'dsname', 'fsn', 'touch', 'hdr') and op[1] in mine:
                if op[0] == 'add':
                    mine.add(op[3])
                ops.append(op)
            elif op[0] not in ('lf', 'add', 'nofmt', 'set', 'setattrs', 'name', 'oref', 'cast', 'dsname', 'fsn', 'touch', 'hdr'):
                return []
        recs = []
        for q in (pr, dict(pr, ops=ops)):
            r, e = execute(q, ctx.dir)
            try:
                if e is not None:
                    recs.append(describe(e.exc))
                    continue
                out, n = [], -1
                for x in reader.DlisFile(r.writes[-1][2]).records:
                    n += x.eflr and x.type == 0
                    if n == (k if not recs else 0):
                        out.append(x.key())
                recs.append(sorted(x for x in out if x[0]) + [x for x in out if not x[0]])
            except reader.FormatError as e:
                recs.append(f"undecodable: {e}")
            finally:
                r.cleanup()
        if recs[0] != recs[1]:
            a, b = recs
            if isinstance(a, list) and isinstance(b, list):
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                a, b = (f"{len(x)} records, #{i} {x[i][2][:80]!r}" if i < len(x) else f"{len(x)} records" for x in (a, b))
            return [f"logical file {k} differs when it is written alone: {a} and {b}"]
        return []


CHECK = C18()
