"""C16 - no-format payloads come back exactly, in order, under their object."""
from vlib.base import SLOWBAR, Check

B = {'nframes': (1, 1), 'nchan': (1, 1), 'rows': (1, 2), 'nobj': (0, 2), 'p_attr': 0.1, 'layouts': False}


class C16(Check):
    id = 'C16'
    exceptions_count = True
    rule = ('Programs from the random generator, biased to no-format data: 1-12 payloads (bytes, bytearray, text) over 1-4 NO-FORMAT '
            'objects in arbitrary interleaving, lengths 0..13 and around every segment boundary, many times the visible record '
            'capacity, contents imitating pad bytes, every kind of maximum record length, several logical files. Payload, order and '
            'object are compared with the model. Non-trivial: at least one payload. Distinct by program.')
    quick = 7
    profiles = {
        'mixed': (1600, {}, {**B, 'nofmt': (1, 12), 'payload': (0, 60)}),
        'small-vr': (1200, {}, {**B, 'nofmt': (1, 10), 'payload': (0, 120), 'maxlen': 'small'}),
        'big': (200, {}, {**B, 'nofmt': (1, 4), 'payload': (0, 40000), 'long': 0.5}),
        'mega': (40, {}, {**B, 'nobj': (0, 1), 'nofmt': (1, 3), 'mega': 0.8, 'rows': (1, 2), 'nchan': (1, 1), 'maxlen': 'large', 'scalar': 1.0}),
        'multi': (300, SLOWBAR, {**B, 'nlf': (2, 3), 'nofmt': (1, 5), 'payload': (0, 40)}),
        'identity': (400, {}, {**B, 'nofmt': (2, 8), 'collide': 0.9, 'origins': (1, 3), 'orefs': 0.6, 'rename': 0.5,
                               'kinds': ['no_format'], 'nobj': (1, 4), 'sets': 0.5}),
    }

    def interesting(self, pr, m):
        return super().interesting(pr, m) if any(l.nofmt for l in m.lfs) else None


CHECK = C16()
