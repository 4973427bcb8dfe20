"""C05 - metadata fidelity."""
from vlib import schema as S
from vlib.base import EASTERN, INDIA, Check

NODATA = {'nframes': (1, 1), 'nchan': (1, 3), 'rows': (1, 3), 'nofmt': (0, 1), 'window': 0.05, 'ichunk': 0.05, 'layouts': False}


class C05(Check):
    id = 'C05'
    exceptions_count = True
    rule = ('Programs from the random generator, biased to metadata: every settable attribute of every object type, values from '
            'each accepted domain (numbers incl. extremes and numpy scalars, text incl. empty and long, aware and naive date-times '
            'under several TZ settings, enumeration members and their values, nested lists, references), assigned at creation, as '
            'AttrSetup, dict, tuple, or later, or reassigned. Every decoded attribute is compared with the model; unassigned ones '
            'must be absent or hold a documented default. Non-trivial: some attribute is set. Distinct by the whole program.')
    quick = 6
    profiles = {
        'rich': (1500, {}, {**NODATA, 'nobj': (1, 10), 'p_attr': 0.5}),
        'tz': (450, EASTERN, {**NODATA, 'nobj': (1, 8), 'p_attr': 0.5, 'kinds': ['zone', 'message', 'origin', 'parameter', 'process',
                                                                                'calibration_measurement', 'comment', 'tool']}),
        'tz2': (250, INDIA, {**NODATA, 'nobj': (1, 8), 'p_attr': 0.6, 'kinds': ['zone', 'message', 'origin', 'calibration_measurement']}),
        'full': (400, {}, {**NODATA, 'nobj': (1, 6), 'p_attr': 0.95, 'units': 0.7}),
        'later': (600, {}, {**NODATA, 'nobj': (2, 9), 'p_attr': 0.4, 'later': 0.8, 'reassign': 0.7, 'rename': 0.4, 'orefs': 0.4}),
        'channels': (500, {}, {**NODATA, 'nframes': (1, 3), 'nchan': (1, 5), 'nobj': (0, 3), 'orphan': 0.4, 'p_attr': 0.7,
                               'index_user': 0.5, 'layouts': True}),
        'hc': (200, {}, {**NODATA, 'hc': 1.0, 'nobj': (1, 8), 'p_attr': 0.6}),
    }


CHECK = C05()
