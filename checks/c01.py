"""C01 - label, visible records and segments are well-formed."""
import random

from vlib import gen, model, oracle, reader
from vlib.base import EASTERN, Check, execute, features
from vlib.runner import Outcome
from vlib.sweep import boundary_lens, sweep_prog, uvari_len

B = {'p_attr': 0.3, 'layouts': False}
SMALL = list(range(20, 66, 2))


class C01(Check):
    id = 'C01'
    rule = ('(a) sweeps: files with no-format records of exactly chosen body lengths - every length up to three segment capacities '
            'for each maximum record length 20..64, and lengths k*(max-8)+d, |d| <= 14, for random maximum lengths up to 16384, and explicitly formatted records with texts of '
            'neighbouring lengths - with payload bytes that imitate pad counts; (b) label variants: every width of sequence number, set identifier and maximum '
            'length, given directly or as an object; (c) random programs with random maximum record lengths. The strict framing '
            'parser (label fields, visible record format/length, exact tiling by segments, attribute bits, pad counts) and the '
            'configured label fields decide. Group `odd`: one or two of the unusual or impossible things of C12; what is written all the same is judged by itself. Non-trivial: the file has a record spanning several segments or a padded segment; '
            'counted distinct by (maximum length, segment lengths and pad counts) of the decoded file.')
    quick = 8
    profiles = {
        'random': (700, {}, {**B, 'nobj': (0, 5), 'nofmt': (0, 4), 'payload': (0, 200), 'rows': (1, 8), 'width': (1, 12)}),
        'small': (500, EASTERN, {**B, 'nobj': (0, 5), 'nofmt': (0, 4), 'payload': (0, 100), 'rows': (1, 8), 'maxlen': 'small'}),
        'big': (100, {}, {**B, 'nobj': (0, 5), 'nofmt': (0, 3), 'payload': (0, 40000), 'long': 0.3, 'bigwidth': 0.4}),
        'mega': (16, {}, {**B, 'nobj': (0, 1), 'nofmt': (1, 2), 'mega': 0.6, 'rows': (1, 2), 'nchan': (1, 2), 'maxlen': 'large'}),
        'label': (500, {}, {**B, 'nobj': (0, 0), 'kinds': [], 'nofmt': (0, 0), 'rows': (1, 1), 'p_attr': 0.0}),
        'hc': (60, {}, {**B, 'hc': 1.0, 'nobj': (0, 4)}),
        'odd': (300, {}, {**B, 'nobj': (0, 2), 'nofmt': (0, 2), 'rows': (1, 4)}),
        'multi': (150, {}, {**B, 'nlf': (2, 4), 'nobj': (0, 2), 'nofmt': (0, 2)}),
    }

    def shards(self, tier):
        out = super().shards(tier)
        out.append({'name': 'sweep-small', 'n': len(SMALL) * (4 if tier == 'quick' else 12)})
        out.append({'name': 'sweep-text', 'n': 200 if tier == 'quick' else 3000})
        out.append({'name': 'sweep', 'n': 900 if tier == 'quick' else 16000})
        return out

    def case(self, seed, shard):
        rnd = random.Random(seed)
        if shard['name'] == 'sweep-small':
            i = int(seed.rsplit('/', 1)[1])
            m = SMALL[i % len(SMALL)]
            part = i // len(SMALL)
            lens = list(range(4, 3 * (m - 8) + 30))
            rnd.shuffle(lens)
            return {'sweep': {'maxlen': m, 'lens': lens, 'fill': (None, 1, 0, 255, 2, 12)[part % 6], 'text': part % 4 == 3}}
        if shard['name'] == 'sweep-text':
            m = rnd.randrange(20, 200, 2) if rnd.random() < 0.6 else rnd.randrange(20, 16386, 2)
            k0 = rnd.choice((0, 1, m, 2 * m, rnd.randint(0, 4 * m)))
            lens = [max(0, k0 + rnd.randint(-20, 20)) for _ in range(20)]
            return {'texts': {'m': m, 'lens': lens}}
        if shard['name'] == 'sweep':
            r = rnd.random()
            m = rnd.choice(gen.MAXLENS) if r < 0.3 else (rnd.randrange(20, 400, 2) if r < 0.7 else rnd.randrange(20, 16386, 2))
            count = 24 if m < 1000 else 6
            lens = boundary_lens(m, rnd, count)
            return {'sweep': {'maxlen': m, 'lens': lens, 'fill': rnd.choice((None, 1, 2, 0, 255)), 'rows': rnd.randint(1, 3),
                              'dtype': rnd.choice(('uint8', 'uint16', 'float64')),
                              'width': rnd.choice((None, None, rnd.randint(1, 40), max(1, m - 8 - rnd.randint(0, 16))))}}
        if shard['name'] == 'odd':
            return self.odd_case(seed, shard)
        c = {'prog': gen.case(seed, shard['prof'])}
        return c

    def run(self, case, ctx):
        lens = texts = None
        if 'sweep' in case:
            pr = sweep_prog(**case['sweep'])
            lens = [max(4, n) for n in case['sweep']['lens']]
        elif 'texts' in case:
            pr = text_prog(**case['texts'])
            texts = case['texts']['lens']
        elif case.get('odd'):
            return self.decodable(case['prog'], ctx)
        else:
            pr = case['prog']
        labels = features(pr)
        r, e = execute(pr, ctx.dir)
        try:
            if e is not None:
                return Outcome([], None, labels + ['refused: ' + type(e.exc).__name__])
            return self.examine(pr, r.writes[-1][2], labels, lens, texts)
        finally:
            r.cleanup()

    def examine(self, pr, raw, labels, lens, texts=None):
        try:
            sul, vrs, segs = reader.parse_framing(raw)
            recs = reader.reassemble(segs)
        except reader.FormatError as e:
            return Outcome([str(e)] if e.layer in ('SUL', 'VR', 'SEG') else [], 'broken', labels)
        m = model.Model({'sul': pr['sul'], 'ops': []})
        problems = []
        c = oracle.Cmp(type('F', (), {'sul': sul})(), m, {})
        c.sul()
        problems += [p.msg for p in c.P]
        if max(n for _, n in vrs) > m.sul['max']:
            problems.append(f"a visible record of {max(n for _, n in vrs)} bytes, the configured maximum is {m.sul['max']}")
        # a pad count agrees with the contents when what remains is the record: where its length is known, check it
        if texts is not None:
            got = [len(r.body) for r in recs if r.eflr and r.body[1:9] == b'\x07COMMENT']
            base = [g - k - uvari_len(k) for g, k in zip(got, texts)]
            if len(got) == len(texts) and len(set(base)) > 1:
                j = [x != y for x, y in zip(base, base[1:] + base[:1])].index(True)
                problems.append(f"explicitly formatted records with texts of {texts[j]} and {texts[(j + 1) % len(texts)]} characters "
                                f"have {got[j]} and {got[(j + 1) % len(texts)]} bytes besides the flagged padding")
        if lens is not None:
            got = [len(r.body) for r in recs if not r.eflr and r.type == 1]
            if got != lens and len(got) == len(lens):
                j = [x != y for x, y in zip(got, lens)].index(True)
                problems.append(f"no-format record {j}: {got[j]} bytes besides the flagged padding, {lens[j]} expected")
        sig = None
        if any(s.pad for s in segs) or any(r.nseg > 1 for r in recs):
            t = [(s.length, s.pad, s.eflr, s.pred, s.succ) for s in segs if s.pad or s.pred or s.succ]
            sig = sorted({(sul.max, x) for x in t})
        labels = labels + [l for l, c in (('padded segment', any(s.pad for s in segs)), ('pad > 1', any(s.pad > 1 for s in segs)),
                                          ('record in several segments', any(r.nseg > 1 for r in recs)),
                                          ('record in >= 4 segments', any(r.nseg > 3 for r in recs))) if c]
        return Outcome(problems, sig, labels)


def text_prog(m, lens):
    pr = sweep_prog(m, [])
    w = pr['ops'].pop()
    for i, k in enumerate(lens):
        pr['ops'].append(['add', 'L', 'comment', f"k{i}", {'name': 'K', 'set_name': f"S{i:03d}",
                                                         'text': [chr(65 + i % 26) * k if k < 50 else {'$rep': [chr(65 + i % 26), k]}]}])
    pr['ops'].append(w)
    return pr


CHECK = C01()
