"""C09 - each logical file has the mandated order."""
import random

from vlib import gen
from vlib.base import Check

B = {'nframes': (1, 2), 'nchan': (1, 2), 'rows': (1, 2), 'layouts': False, 'p_attr': 0.15, 'window': 0, 'ichunk': 0.1}


class C09(Check):
    id = 'C09'
    rule = ('Programs from the random generator, biased to order: objects of all types added in random order before and after the '
            'origin(s), 1-4 origins in one or several sets, named sets of every type, 1-4 logical files built interleaved, header '
            'identifiers and sequence numbers of every width, no-format data added at any time. The order grammar is checked over '
            'the decoded records and the header and origin fields against the model. '
            'Group `odd`: one or two of the unusual or impossible things of C12; what is written all the same is judged by itself. Non-trivial: a set besides the mandatory ones, '
            'or more than one origin or logical file. Distinct by program.')
    quick = 5
    profiles = {
        'order': (1500, {}, {**B, 'nobj': (2, 12), 'sets': 0.6, 'origin_first': 0.5, 'origins': (1, 4), 'nofmt': (0, 4)}),
        'multi': (700, {}, {**B, 'nlf': (2, 5), 'nobj': (0, 6), 'sets': 0.5, 'origin_first': 0.5, 'origins': (1, 3)}),
        'small': (600, {}, {**B, 'nobj': (0, 2), 'sets': 0.2, 'maxlen': 'small'}),
        'origin-attrs': (300, {}, {**B, 'nobj': (0, 3), 'p_attr': 0.8, 'kinds': ['origin', 'comment'], 'origins': (1, 3)}),
        'header': (400, {}, {**B, 'nobj': (0, 2), 'nlf': (1, 2), 'nofmt': (0, 1)}),
        'odd': (300, {}, {**B, 'nobj': (0, 4), 'nlf': (1, 2)}),
        'hc': (300, {}, {**B, 'hc': 1.0, 'nobj': (0, 8), 'sets': 0.5, 'nlf': (1, 2)}),
    }

    def case(self, seed, shard):
        if shard['name'] == 'odd':
            return self.odd_case(seed, shard)
        pr = gen.case(seed, shard['prof'])
        if shard['name'] == 'header':
            header(pr, random.Random(seed + '/hdr'))
        return {'prog': pr}


def like(s, rnd):
    """the identifier or another one easily taken for it"""
    return rnd.choice((s, s.upper(), s.lower(), s.swapcase(), s + ' ', ' ' + s, s.strip(), s[:-1], s + '0', 'OTHER', s[::-1],
                       s.ljust(65)[:65], s + '\0', (s * 70)[:65], (s or 'x') * 66, s.replace('-', '_')))


def header(pr, rnd):
    """header fields changed after the logical file was made, with or without the origin following: refused or consistent"""
    for op in list(pr['ops']):
        if op[0] != 'lf' or rnd.random() < 0.2:
            continue
        fid = op[2].get('fh_id', 'FILE-HEADER')
        if rnd.random() < 0.7 and not fid.strip():
            fid = op[2]['fh_id'] = rnd.choice(('Run 1', 'File-A', 'x'))
        org = [o[3] for o in pr['ops'] if o[0] == 'add' and o[2] == 'origin' and o[1] == op[1]]
        late = []
        new = like(fid, rnd)
        r = rnd.random()
        if r < 0.7:
            late.append(['hdr', op[1], {'header_id': new}])
        if r < 0.25 or r > 0.6:
            late.append(['set', org[0], 'file_id', 'value', new if rnd.random() < 0.6 else like(new, rnd)])
        if rnd.random() < 0.3:
            late.append(['hdr', op[1], {'sequence_number': rnd.choice((1, 2, 10, 99, 9999999999, 12345678))}])
        rnd.shuffle(late)
        for x in late:
            lo = max(i for i, o in enumerate(pr['ops']) if o is op or (o[0] == 'add' and o[3] == org[0]))
            pr['ops'].insert(rnd.randint(lo + 1, len(pr['ops']) - 1), x)


CHECK = C09()
