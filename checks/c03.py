"""C03 - channel data round-trips bit-exactly, one numbered record per row."""
from vlib.base import EASTERN, SLOWBAR, Check

BASE = {'nobj': (0, 1), 'p_attr': 0.15, 'nofmt': (0, 1), 'sets': 0.1, 'long': 0.01, 'index': 0.15, 'rename': 0.03, 'origins': (1, 1)}


class C03(Check):
    id = 'C03'
    exceptions_count = True
    rule = ('Programs from the random generator, biased to data: 1-4 frames x 1-6 channels of every dtype, scalar or 2-D, native / '
            'little / big endian, eight memory layouts, casts, four kinds of source, row windows, input chunk sizes; values are '
            'drawn as arbitrary bit patterns, special patterns (NaN payloads, infinities, signed zeros, integer extremes) or ramps. '
            'The decoded records are compared bit for bit with the rows of the model. Non-trivial: the file holds at least one '
            'frame-data record. Distinct by the whole program.')
    profiles = {
        'mixed': (1700, {}, {**BASE, 'nframes': (1, 3), 'nchan': (1, 5), 'rows': (1, 12), 'cast': 0.35, 'special': 0.9}),
        'endian': (700, SLOWBAR, {**BASE, 'nframes': (1, 1), 'nchan': (1, 4), 'rows': (1, 40), 'cast': 0.3, 'special': 1.0,
                                  'sources': ('struct', 'h5'), 'ichunk': 0.7, 'window': 0.4}),
        'wide': (350, {}, {**BASE, 'nframes': (1, 2), 'nchan': (1, 8), 'rows': (1, 6), 'width': (1, 300), 'bigwidth': 0.3,
                           'maxlen': 'small'}),
        'long': (160, EASTERN, {**BASE, 'nframes': (1, 2), 'nchan': (1, 3), 'rows': (100, 700), 'ichunk': 0.9, 'window': 0.3}),
        'exact': (350, {}, {**BASE, 'sources': ('struct',), 'exact': 1.0, 'dsname': 0.0, 'special': 0.9, 'cast': 0.1, 'orphan': 0,
                            'nchan': (1, 4), 'rows': (1, 30), 'ichunk': 0.6, 'window': 0.4}),
        'huge': (70, {}, {**BASE, 'nframes': (1, 2), 'nchan': (1, 2), 'huge': 0.7, 'rows': (1, 300), 'nobj': (0, 0), 'nofmt': (0, 0),
                          'ichunk': 0.6, 'window': 0.4, 'special': 0.8}),
        'mega': (24, {}, {**BASE, 'nframes': (1, 2), 'nchan': (1, 2), 'mega': 0.6, 'rows': (1, 4), 'scalar': 0.2, 'nobj': (0, 0), 'nofmt': (0, 0),
                          'maxlen': 'large', 'special': 0.8}),
        'casts': (700, {}, {**BASE, 'nframes': (1, 2), 'nchan': (2, 6), 'rows': (1, 20), 'cast': 1.0, 'ichunk': 0.5}),
    }


CHECK = C03()
