"""C15 - writability never hinges on byte-size coincidences."""
import random

from vlib import gen, model
from vlib.base import NOW, SLOWBAR, Check, execute, features, refused
from vlib.runner import Outcome
from vlib.sweep import boundary_lens, sweep_prog

ALL_MAX = list(range(20, 16386, 2))


class C15(Check):
    id = 'C15'
    exceptions_count = True
    rule = ('(a) every even maximum record length 20..16384, each with no-format records of body lengths 4..40 and k*(max-8)+d, '
            '|d| <= 14, frames of one to a few bytes per record or as wide as the record, short object names; (b) every pair of '
            'maximum length 20..64 and body length up to four segment capacities; (c) random small specifications: frames of one '
            '1-byte channel, empty and tiny payloads, one-character names, origin references of 1, 2 and 4 bytes, records many '
            'times the capacity, up to five logical files. A refusal of such a valid specification is a violation; the file must decode to the model. '
            'Non-trivial: every case; distinct by (maximum length, body lengths).')
    quick = 6
    profiles = {
        'tiny': (900, {}, {'nobj': (0, 1), 'p_attr': 0.05, 'nofmt': (0, 5), 'payload': (0, 14), 'rows': (1, 3), 'nchan': (1, 2),
                           'width': (1, 2), 'origins': (1, 1), 'collide': 0.9, 'maxlen': 'small'}),
        'mixed': (500, {}, {'nobj': (0, 6), 'p_attr': 0.4, 'nofmt': (0, 4), 'payload': (0, 400), 'rows': (1, 4)}),
        'multi': (150, SLOWBAR, {'nlf': (2, 5), 'nobj': (0, 2), 'p_attr': 0.1, 'nofmt': (0, 3), 'payload': (0, 40), 'rows': (1, 3), 'nchan': (1, 2),
                                 'width': (1, 2), 'maxlen': 'mixed'}),
        'mega': (20, {}, {'nobj': (0, 1), 'nofmt': (1, 2), 'mega': 0.7, 'rows': (1, 2), 'nchan': (1, 2), 'maxlen': 'large'}),
        'huge': (40, {}, {'nobj': (0, 2), 'nofmt': (1, 3), 'payload': (0, 200000), 'long': 0.6, 'maxlen': 'small', 'bigwidth': 0.8}),
    }

    def shards(self, tier):
        out = super().shards(tier)
        k = 1 if tier == 'quick' else 6
        out.append({'name': 'every-max', 'n': len(ALL_MAX) * k})
        out.append({'name': 'pairs', 'n': 23 * 3 * (1 if tier == 'quick' else 8)})
        return out

    def case(self, seed, shard):
        rnd = random.Random(seed)
        i = int(seed.rsplit('/', 1)[1])
        if shard['name'] == 'every-max':
            m = ALL_MAX[i % len(ALL_MAX)]
            lens = boundary_lens(m, rnd, 14 if m < 600 else 4, (1, 1, 2, 3))
            if m < 5000 or rnd.random() < 0.3:
                lens += [m - 8 + d for d in (-12, -1, 0, 1, 11, 12)]
            return {'sweep': {'maxlen': m, 'lens': lens, 'rows': rnd.randint(1, 3),
                              'dtype': rnd.choice(('uint8', 'uint8', 'int16', 'float32', 'float64')),
                              'width': rnd.choice((None, None, rnd.randint(1, 12), max(1, min(m, 3000) - 8 - rnd.randint(0, 16)))),
                              'origin_ref': rnd.choice((None, None, 0, 127, 128, 16384))}}
        if shard['name'] == 'pairs':
            m = 20 + 2 * (i % 23)
            lens = list(range(4, 4 * (m - 8) + 16))
            rnd.shuffle(lens)
            return {'sweep': {'maxlen': m, 'lens': lens, 'rows': 1, 'text': (i // 23) % 3 == 1,
                              'name': 'N' * rnd.choice((1, 1, 2, 5, 11, 12, 13, 30))}}
        return {'prog': gen.case(seed, shard['prof'])}

    def run(self, case, ctx):
        pr = sweep_prog(**case['sweep']) if 'sweep' in case else case['prog']
        labels = features(pr) if 'sweep' not in case else ['sweep']
        r, e = execute(pr, ctx.dir)
        try:
            if e is not None:
                return Outcome([refused(e)], 'refused', labels)
            m = model.Model(pr).run(r.status)
            opts, _, raw = r.writes[-1]
            ps = self.compare(raw, m, opts, pr.get('hc'), NOW())
            # the writing succeeded; it must also have worked: framing and content of the records as specified
            problems = [p.msg for p in ps if 'C15' in p.tags or 'C16' in p.tags or 'C01' in p.tags or 'C02' in p.tags]
            sig = repr(case['sweep']) if 'sweep' in case else repr(pr)
            return Outcome(problems, sig, labels)
        finally:
            r.cleanup()


CHECK = C15()
