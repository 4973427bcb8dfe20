"""C04 - every explicitly formatted record decodes under the RP66 component grammar."""
from vlib.base import EASTERN, Check

NODATA = {'nframes': (1, 1), 'nchan': (1, 2), 'rows': (1, 2), 'nofmt': (0, 1), 'window': 0, 'ichunk': 0.05, 'layouts': False}


class C04(Check):
    id = 'C04'
    rule = ('Programs from the random generator, biased to metadata: every object type, attribute subsets from none to all, value '
            'counts 0..300, nested values, units, named sets, later reassignment, long texts. Every explicitly formatted record is '
            'decoded by the strict component parser (set, template with unique labels, objects with at most the template\'s '
            'attributes, counts equal to values, defined codes, absent marks). In group `odd` one or two unusual or impossible things (the ways of C12) are put in; what is written all the same is '
            'decoded likewise. Non-trivial: at least one attribute beyond the '
            'mandatory ones is set. Distinct by the whole program.')
    quick = 4
    profiles = {
        'rich': (1500, {}, {**NODATA, 'nobj': (1, 10), 'p_attr': 0.5}),
        'full': (500, EASTERN, {**NODATA, 'nobj': (1, 6), 'p_attr': 0.95, 'units': 0.8, 'later': 0.1}),
        'sparse': (700, {}, {**NODATA, 'nobj': (3, 14), 'p_attr': 0.12, 'empty_lists': 0.4, 'later': 0.6}),
        'long': (300, {}, {**NODATA, 'nobj': (1, 5), 'p_attr': 0.5, 'long': 0.4, 'maxlen': 'mixed'}),
        'hc': (200, {}, {**NODATA, 'hc': 1.0, 'nobj': (1, 8), 'p_attr': 0.5}),
        'empties': (400, {}, {**NODATA, 'nobj': (2, 8), 'p_attr': 0.7, 'empty_lists': 0.9}),
        'odd': (700, {}, {**NODATA, 'nobj': (2, 8), 'p_attr': 0.5}),
    }


CHECK = C04()
