"""C02 - segmentation is lossless, ordered and correctly bracketed."""
import copy
import random

from vlib import gen, reader, tap
from vlib.base import SLOWBAR, Check, execute, features, fix_time
from vlib.runner import Outcome
from vlib.sweep import boundary_lens, sweep_prog

B = {'p_attr': 0.4, 'layouts': False}
REF = 16384


class C02(Check):
    id = 'C02'
    rule = ('Each case writes one specification with two to four maximum record lengths (the smallest ones, lengths that put a '
            'segment boundary near the end of some record, random ones up to 16384): random programs with long texts, wide frames and '
            'large payloads, and sweeps of exactly chosen body lengths around multiples of the segment capacity. The records '
            'reassembled from each file must have the same number, order, bodies, types and explicit/indirect flags at every length, '
            'must equal the sequence handed to the writer (recorded by a wrapper around the writer\'s input), and their segments must '
            'be bracketed. Non-trivial: some record of the file spans several segments; distinct by (maximum length, body length).')
    quick = 7
    profiles = {
        'random': (700, {}, {**B, 'nobj': (0, 5), 'nofmt': (0, 4), 'payload': (0, 300), 'rows': (1, 8), 'width': (1, 12)}),
        'long': (120, SLOWBAR, {**B, 'nobj': (0, 5), 'nofmt': (0, 3), 'payload': (0, 30000), 'long': 0.3, 'bigwidth': 0.4}),
        'mega': (12, {}, {**B, 'nobj': (0, 1), 'nofmt': (1, 2), 'mega': 0.7, 'rows': (1, 2), 'nchan': (1, 2), 'maxlen': 'large', 'window': 0}),
        'multi': (100, {}, {**B, 'nlf': (2, 3), 'nobj': (0, 3), 'nofmt': (0, 3)}),
    }

    def shards(self, tier):
        out = super().shards(tier)
        out.append({'name': 'sweep', 'n': 2500 if tier == 'quick' else 30000})
        return out

    def case(self, seed, shard):
        rnd = random.Random(seed)
        if shard['name'] == 'sweep':
            m = rnd.randrange(20, 120, 2) if rnd.random() < 0.7 else rnd.randrange(120, 16386, 2)
            lens = boundary_lens(m, rnd, 20 if m < 1000 else 5)
            return {'sweep': {'maxlen': m, 'lens': lens, 'rows': rnd.randint(1, 3), 'dtype': rnd.choice(('uint8', 'float64')),
                              'width': rnd.choice((None, rnd.randint(1, 40), max(1, m - 8 - rnd.randint(0, 16))))},
                    'max': [m, REF]}
        pr = fix_time(gen.case(seed, shard['prof']))
        if shard['name'] == 'mega':
            return {'prog': pr, 'max': [rnd.choice((256, 500, 1000, 2048, 8190, 16382)), REF]}
        maxes = [rnd.choice((20, 22, 24, 26, 28, 30, 32, 36, 40, 46)), REF]
        if rnd.random() < 0.5:
            maxes.append(rnd.randrange(20, 300, 2))
        if rnd.random() < 0.4:
            maxes.append(('near', rnd.random(), rnd.randint(-14, 14), rnd.randint(1, 5)))
        return {'prog': pr, 'max': maxes}

    def run(self, case, ctx):
        base = sweep_prog(**case['sweep']) if 'sweep' in case else case['prog']
        problems, sig, labels = [], set(), features(base)
        ref = None
        tapped = False
        lens = []
        for mx in case['max']:
            if isinstance(mx, (list, tuple)):
                if not lens:
                    continue
                n = sorted(lens)[min(len(lens) - 1, int(mx[1] * len(lens)))]
                mx = max(20, min(REF, (n // mx[3] + mx[2]) // 2 * 2 + 8))
            if not 20 <= mx <= REF or mx % 2:
                continue
            pr = fix_time(copy.deepcopy(base))
            pr['sul']['max_record_length'] = mx
            for op in pr['ops']:
                if op[0] == 'write':
                    op[1].pop('ochunk', None)
                    op[1].pop('ochunk_float', None)
            given = []
            r, e = execute(pr, ctx.dir)
            try:
                if e is not None:
                    labels.append('refused: ' + type(e.exc).__name__)      # C15's business
                    continue
                raw = r.writes[-1][2]
            finally:
                r.cleanup()
            try:
                sul, vrs, segs = reader.parse_framing(raw)
                recs = reader.reassemble(segs)
            except reader.FormatError as x:
                problems.append(f"maximum record length {mx}: {x}")
                continue
            keys = [(bytes(x.body), x.eflr, x.type) for x in recs]
            lens = [len(k[0]) for k in keys]
            for x in recs:
                if x.nseg > 1:
                    sig.add((mx, len(x.body)))
            if not tapped and tap.available():
                tapped = True
                want = None
                with tap.tapped(given):
                    r, e = execute(pr, ctx.dir)
                    r.cleanup()
                if e is None and r.writes[-1][2] == raw:      # the tap has not got in the way
                    want = tap.bodies(given)
                labels.append('compared with the records given to the writer' if want is not None else 'tap unusable')
                if want is not None:
                    d = diff(want, keys)
                    if d:
                        problems.append(f"maximum record length {mx}, against the records given to the writer: {d}")
            if ref is None:
                ref = (mx, keys)
            else:
                d = diff(ref[1], keys)
                if d:
                    problems.append(f"maximum record length {mx} against {ref[0]}: {d}")
        return Outcome(problems, sig or None, labels, n=len(case['max']))


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        for k, w in ((1, 'explicit/indirect flag'), (2, 'record type')):
            if x[k] != y[k]:
                return f"record {i}: {w} {y[k]!r} instead of {x[k]!r}"
        p = next((j for j, (u, v) in enumerate(zip(x[0], y[0])) if u != v), min(len(x[0]), len(y[0])))
        return f"record {i}: body of {len(y[0])} bytes instead of {len(x[0])}, they differ at offset {p}"
    if len(a) != len(b):
        return f"{len(b)} records instead of {len(a)}"
    return None


CHECK = C02()
