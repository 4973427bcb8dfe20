"""C12 - fail-closed: a write either raises or yields a faithful, well-formed file."""
import copy
import json
import random

from checks.c17 import find_spec
from vlib import gen, model, oracle
from vlib import schema as S
from vlib.base import NOW, SLOWBAR, Check, describe, execute, features, op_name
from vlib.runner import Outcome
from vlib.shrink import program_candidates, specs

B = {'nobj': (0, 4), 'rows': (1, 6), 'nchan': (1, 3), 'p_attr': 0.3, 'nofmt': (0, 1), 'long': 0.0, 'empty_lists': 0.1}
MUST, FAITH, PARSE = 'must raise', 'raise or be faithful', 'raise or be decodable'
OBJ = {'$py': 'object'}
LONG = (256, 257, 258, 300, 511, 512, 513, 767, 1000, 16384 + 5, 65536 + 3)
NONASCII = ('\u00e9', '\u00d8l', 'na\u00efve', '\u4e2d', 'x\x80', '\u00ff', 'A\u0100', '\ud800', 'deg\u00b0')
BADTYPES = ('int64', 'uint64', 'float16', 'complex64', 'complex128', 'bool', 'S4', 'U3', '>i8', '<u8', '>f2', 'longdouble', 'M8[s]', 'm8[s]',
            'object', 'V3')
# what each way of being invalid does to a program; registered with its verdict
WAYS = {}


def way(verdict, weight=1):
    def deco(f):
        WAYS[f.__name__.replace('_', ' ').strip()] = (verdict, weight, f)
        return f
    return deco


class Ctx:
    """what the injectors work with"""

    def __init__(self, pr, rnd):
        self.pr, self.rnd = pr, rnd
        self.ops = pr['ops']
        self.w = self.ops[-1][1]
        self.m = model.Model(dict(pr, ops=self.ops[:-1])).run()
        self.adds = [op for op in self.ops if op[0] == 'add']
        self.by = {op[3]: op for op in self.adds}

    def put(self, *ops):
        """just before the final write"""
        self.ops[-1:-1] = [list(o) for o in ops]

    def frames(self):
        return [o for lf in self.m.lfs for o in lf.objs('frame') if o.refs('channels')]

    def chans(self):
        """(frame, channel) of channels that are in a frame"""
        return [(f, self.m.o[c]) for f in self.frames() for c in f.refs('channels')]

    def spec(self, ch):
        return find_spec(ch, self.ops[-1])

    def pick(self, seq):
        seq = list(seq)
        return self.rnd.choice(seq) if seq else None

    def obj(self, kinds=None):
        return self.pick(o for lf in self.m.lfs for o in lf.all() if kinds is None or o.kind in kinds)

    def attr(self, types, settable_units=False):
        """(operation adding an object, attribute) for some attribute of one of the types that is not entangled with others"""
        c = []
        for op in self.adds:
            for a in S.KINDS[op[2]].attrs:
                if a.t in types and a.kw not in gen.CONSTRAINED.get(op[2], ()) and a.kw not in ('file_id', 'file_set_number') and (
                        not settable_units or a.units) and (op[2], a.kw) != ('frame', 'channels'):
                    c.append((op, a))
        return self.pick(c)

    def assign(self, op, a, v, units=None):
        """give the attribute a value in some way"""
        rnd = self.rnd
        later = [x for x in self.ops if x[0] in ('set', 'setattrs') and x[1] == op[3] and (x[2] == a.attr or isinstance(x[2], dict) and a.attr in x[2])]
        if later or rnd.random() < 0.4:
            if rnd.random() < 0.6 and units is None:
                self.put(['set', op[3], a.attr, 'value', v])
            elif units is not None and rnd.random() < 0.5:
                self.put(['set', op[3], a.attr, 'value', v], ['set', op[3], a.attr, 'units', units])
            else:
                self.put(['setattrs', op[3], {a.attr: {'$setup': dict({'value': v}, **({'units': units} if units is not None else {}))}}])
        elif units is not None:
            op[4][a.kw] = {rnd.choice(('$setup', '$dict')): {'value': v, 'units': units}}
        else:
            op[4][a.kw] = {rnd.choice(('$setup', '$dict')): {'value': v}} if rnd.random() < 0.3 else v

    def noopts(self):
        for k in ('from', 'to'):
            self.w.pop(k, None)

    def rep(self, n, c='A'):
        return {'$rep': [c, n]}


# ------------------------------------------------------------------------------------------------ data
@way(MUST, 3)
def row_counts(c):
    f = c.pick(f for f in c.frames() if len(f.refs('channels')) > 1)
    if f is None or (c.w.get('data') or {}).get('kind') == 'struct':
        return None
    ch = c.m.o[c.pick(f.refs('channels'))]
    s = c.spec(ch)
    if s is None:
        return None
    n = s['shape'][0]
    new = c.pick({1, n + 1, n - 1, 2 * n, n + 7, 2, 0} - {n, -1})
    s['shape'] = [new] + s['shape'][1:]
    if c.rnd.random() < 0.7:
        c.noopts()
    if sum(1 for g, x in c.chans() if x.dsname == ch.dsname) > 1:
        return None           # might be the only data set of another frame
    return True


@way(MUST, 3)
def data_type(c):
    x = c.pick(x for x in c.chans() if x[1].cast is None)
    s = x and c.spec(x[1])
    if not s:
        return None
    t = c.pick(BADTYPES)
    k = (c.w.get('data') or {}).get('kind')
    if k == 'h5' and (t in ('U3', 'object', 'M8[s]', 'm8[s]', 'V3')):
        return None
    s['dtype'] = t
    s['fill'] = {'zero': 1} if t in ('M8[s]', 'm8[s]', 'V3', 'S4', 'U3', 'object') else {'lin': [0, 1]}
    s.pop('layout', None)
    return True


@way(MUST, 2)
def cast_type(c):
    x = c.pick(c.chans())
    if not x:
        return None
    t = c.pick(('int64', 'uint64', 'float16', 'complex64', 'bool_', 'dt:S4', 'dt:>i8', 'dt:M8[s]', 'longdouble', 'object_', 'str_'))
    op = c.by[x[1].oid]
    c.ops[:] = [o for o in c.ops if not (o[0] == 'cast' and o[1] == op[3])]
    if c.rnd.random() < 0.5:
        op[4]['cast_dtype'] = {'$dtype': t}
    else:
        c.put(['cast', op[3], t])
    return True


@way(MUST, 2)
def dimensions(c):
    x = c.pick(c.chans())
    s = x and c.spec(x[1])
    if not s:
        return None
    n = s['shape'][0]
    tail = s['shape'][1:]
    s['shape'] = c.pick(([n] + (tail or [2]) + [2], [n, 1, 1], [n, 2, 1], [n, 1, 2, 3], [n, 2, 2, 1]))
    s['fill'] = {'zero': 1}
    s.pop('layout', None)
    for q in ('dimension', 'element_limit', 'axis'):
        if c.rnd.random() < 0.7:
            c.by[x[1].oid][4].pop(q, None)
    return True


@way(MUST)
def scalar_data(c):
    x = c.pick(c.chans())
    s = x and c.spec(x[1])
    if not s or (c.w.get('data') or {}).get('kind') == 'struct':
        return None
    s['shape'] = []
    s['fill'] = {'zero': 1}
    s.pop('layout', None)
    return True


@way(MUST, 3)
def missing_data_set(c):
    x = c.pick(c.chans())
    if not x:
        return None
    ch = x[1]
    r = c.rnd.random()
    foreign = [n for lf in c.m.lfs if lf is not ch.lf for n in lf.data if n not in ch.lf.data]
    if r < 0.5 and foreign:
        n = c.pick(foreign)            # only another logical file has data of that name
        c.ops[:] = [o for o in c.ops if not (o[0] == 'dsname' and o[1] == ch.oid)]
        c.put(['dsname', ch.oid, n])
        return None if any(x == n for x, _ in (c.w.get('data') or {'sets': []})['sets']) else True
    if r < 0.3:
        c.ops[:] = [o for o in c.ops if not (o[0] == 'dsname' and o[1] == ch.oid)]
        c.put(['dsname', ch.oid, c.pick(('no such data', 'x', ch.dsname + ' ', ch.dsname.upper() + 'X'))])
        return None if any(n == c.ops[-2][2] for n, _ in (c.w.get('data') or {'sets': []})['sets']) or c.ops[-2][2] in ch.lf.data else True
    if ch.dsname in ch.lf.data:
        for op in c.adds:
            if op[1] == ch.lf.lid and 'data' in op[4] and c.m.o[op[3]].dsname == ch.dsname:
                del op[4]['data']
        if any(n == ch.dsname for n, _ in (c.w.get('data') or {'sets': []})['sets']):
            return None
        return True
    src = c.w['data']
    if src['kind'] == 'h5' and r > 0.75 and not any('/' in x or x in ('', '.') for x in (ch.dsname, ch.name)):
        # a data set of that name elsewhere
        if c.rnd.random() < 0.5:
            c.put(['dsname', ch.oid, c.pick(('no such group/', 'g/h/')) + ch.dsname])
        else:
            src['sets'] = [[('deeper/' + s[0]) if s[0] == ch.dsname else s[0], s[1]] for s in src['sets']]
        return True
    src['sets'] = [s for s in src['sets'] if s[0] != ch.dsname]
    if not src['sets']:
        if src['kind'] == 'struct' or c.rnd.random() < 0.5:
            del c.w['data']
    return True


@way(MUST)
def no_data(c):
    if not any(c.spec(x[1]) and x[1].dsname not in x[1].lf.data for x in c.chans()):
        return None
    if c.rnd.random() < 0.4:
        c.w.pop('data', None)
    else:
        c.w['data'] = {'kind': 'py', 'v': c.pick(('list', 'object', 'bytes', 'set', 'nparr', 'type'))}
    return True


@way(FAITH)
def no_rows(c):
    f = c.pick(c.frames())
    if f is None:
        return None
    for cid in f.refs('channels'):
        s = c.spec(c.m.o[cid])
        if s is None:
            return None
        s['shape'] = [0] + s['shape'][1:]
        s.pop('layout', None)
    c.noopts()
    return True


@way(FAITH)
def no_width(c):
    x = c.pick(c.chans())
    s = x and c.spec(x[1])
    if not s:
        return None
    s['shape'] = [s['shape'][0], 0]
    s.pop('layout', None)
    for q in ('dimension', 'element_limit', 'axis'):
        c.by[x[1].oid][4].pop(q, None)
    return True


@way(FAITH, 2)
def window(c):
    n = c.pick(s['shape'][0] for s in specs(c.ops)) or 1
    c.noopts()
    c.w.update(c.pick(({'from': n}, {'from': n + 1}, {'to': n + 1}, {'from': 0, 'to': n + 100}, {'from': -1}, {'from': -n}, {'to': -1},
                       {'from': 1, 'to': 1}, {'from': 2, 'to': 1}, {'to': 0}, {'from': -2, 'to': -1}, {'from': n - 1, 'to': n + 1})))
    return True


@way(PARSE)
def window_type(c):
    c.w.update(c.pick(({'from': 'x'}, {'to': 'x'}, {'from': 1.5}, {'to': [1]}, {'from': True})))
    return True


@way(FAITH)
def chunks(c):
    mx = c.pr['sul'].get('max_record_length', 8192)
    c.w.update(c.pick(({'ichunk': 0}, {'ichunk': -1}, {'ichunk': 'x'}, {'ichunk': 1.5}, {'ochunk': -5}, {'ochunk': mx - 1}, {'ochunk': 19},
                       {'ochunk': mx + 0.5}, {'ochunk': 'x'}, {'ichunk': 10**9})))
    if 'ochunk' in c.w:
        c.w.pop('ochunk_float', None)
    return True


@way(FAITH, 2)
def channel_layout(c):
    """dimension or element limit that disagree with the data"""
    x = c.pick(c.chans())
    if not x:
        return None
    op = c.by[x[1].oid]
    op[4].pop('axis', None)
    c.ops[:] = [o for o in c.ops if not (o[0] in ('set', 'setattrs') and o[1] == op[3])]
    v = c.pick(([1], [2], [3], [5], [2, 2], [1, 1], [128], [16384], 4))
    op[4][c.pick(('dimension', 'element_limit', 'dimension'))] = v
    return True


@way(FAITH)
def representation_code(c):
    """a code set by hand that may disagree with the data"""
    x = c.pick(c.chans())
    if not x:
        return None
    c.put(['set', x[1].oid, 'representation_code', 'value', c.pick((2, 7, 12, 13, 14, 15, 16, 17, 18, 19, 20, 0, 28, 255, 256, 'x'))])
    return True


# ------------------------------------------------------------------------------------------------ names and texts
@way(MUST, 3)
def long_name(c):
    o = c.obj()
    n = c.pick(LONG)
    for op in c.ops:
        if op[0] == 'add' and op[3] == o.oid and c.rnd.random() < 0.6 and not any(x[0] == 'name' and x[1] == o.oid for x in c.ops):
            op[4]['name'] = c.rep(n)
            if op[2] == 'channel' and not op[4].get('dataset_name'):
                op[4]['dataset_name'] = o.dsname
            return True
    c.put(['name', o.oid, 'B' * n])
    return True


@way(MUST, 2)
def long_set_name(c):
    op = c.pick(c.adds)
    n = c.pick(LONG)
    old, lf, kind = op[4].get('set_name'), op[1], op[2]
    for q in c.adds:
        if q[1] == lf and q[2] == kind and q[4].get('set_name') == old and (q is op or c.rnd.random() < 0.5):
            q[4]['set_name'] = c.rep(n, 'S')
    return True


@way(MUST, 3)
def long_ident(c):
    x = c.attr(('ident',))
    if not x:
        return None
    c.assign(x[0], x[1], c.rep(c.pick(LONG), 'I'))
    return True


@way(MUST, 3)
def long_units(c):
    x = c.attr(('num', 'int'), True)
    if not x:
        return None
    c.assign(x[0], x[1], [1] if x[1].multi else 1, units=c.rep(c.pick(LONG), 'u'))
    return True


@way(MUST)
def long_channel_units(c):
    x = c.pick(op for op in c.adds if op[2] == 'channel')
    if not x:
        return None
    a = [a for a in S.KINDS['channel'].attrs if a.kw == 'units'][0]
    c.assign(x, a, c.rep(c.pick(LONG), 'u'))
    return True


@way(MUST, 2)
def long_header(c):
    r = c.rnd.random()
    lf = c.pick(op for op in c.ops if op[0] == 'lf')
    if r < 0.3:
        lf[2]['fh_id'] = 'H' * c.pick((66, 67, 100, 300))
    elif r < 0.5:
        lf[2]['fh_identifier'] = c.pick(('AB', '12', 'X' * 300))
    elif r < 0.7:
        lf[2]['fh_sequence_number'] = c.pick((10**10, 10**12, 99999999999))
    elif r < 0.85:
        c.pr['sul'] = dict(c.pr['sul'], set_identifier='S' * c.pick((61, 62, 80, 200)))
    else:
        c.pr['sul'] = dict(c.pr['sul'], sul_sequence_number=c.pick((10000, 12345, 10**6)))
        if 'set_identifier' not in c.pr['sul']:
            c.pr['sul'].pop('obj', None)
    if c.pr['sul'].get('obj') and 'set_identifier' not in c.pr['sul']:
        return None
    return True


@way(MUST, 4)
def non_ascii(c):
    t = c.pick(NONASCII)
    r = c.rnd.random()
    if r < 0.2:
        o = c.obj()
        c.put(['name', o.oid, t])
    elif r < 0.3:
        op = c.pick(c.adds)
        op[4]['set_name'] = t
    elif r < 0.7:
        x = c.attr(('text', 'ident', 'eort', 'mixed'))
        if not x:
            return None
        c.assign(x[0], x[1], c.pick((t, [t], ['ok', t], [t, 'ok'])) if x[1].multi else t)
    elif r < 0.8:
        x = c.attr(('num', 'int'), True)
        if not x:
            return None
        c.assign(x[0], x[1], [1] if x[1].multi else 1, units=t)
    elif r < 0.85:
        c.pick(op for op in c.ops if op[0] == 'lf')[2]['fh_id'] = t
    elif r < 0.89:
        c.pick(op for op in c.ops if op[0] == 'lf')[2]['fh_identifier'] = t[0]
        return t[0] > '\x7f' or None
    elif r < 0.94:
        c.pr['sul'] = dict(c.pr['sul'], set_identifier=t)
    else:
        o = c.obj(('no_format',))
        if o is None:
            return None
        c.put(['nofmt', o.lf.lid, o.oid, t])
    return True


@way(MUST, 2)
def text_type(c):
    """not a text where a text is needed"""
    x = c.attr(('text', 'ident'))
    if not x:
        return None
    v = c.pick((OBJ, {'$py': 'bytes'}, {'$py': 'complex'}, {'$py': 'date'}, {'$py': 'nparr'}, {'$py': 'bytearray'}))
    c.assign(x[0], x[1], [v] if x[1].multi and c.rnd.random() < 0.5 else v)
    return True


@way(PARSE)
def name_type(c):
    o = c.obj()
    c.put(['name', o.oid, c.pick((5, None, 1.5, True, ['a'], '\0', '\n', '\x7f'))])
    return True


# ------------------------------------------------------------------------------------------------ numbers
@way(MUST, 4)
def out_of_range(c):
    big = {18: (-1, -128, 2**30, 2**30 + 1, 2**31, 2**32, 2**64, 3221225472), 16: (-1, 65536, 65537, 2**31, 2**32 + 5, -32768),
           None: (2**31, -2**31 - 1, 2**32, 2**63, -2**63, 2**100), 15: (256, -1, 257, 65536 + 1)}
    x = c.attr(('int', 'flag', 'dim'))
    if not x:
        return None
    op, a = x
    v = c.pick(big[18 if a.t == 'dim' else a.rc])
    if a.t == 'dim':
        v = c.pick((v, [v], [2, v]))
    elif c.rnd.random() < 0.2 and abs(v) < 2**53:
        v = float(v)
    c.assign(op, a, v)
    return True


@way(FAITH, 2)
def mixed_out_of_range(c):
    """integers beyond SLONG among the values that may be numbers or texts"""
    op = c.pick(op for op in c.adds if op[2] in ('parameter', 'axis'))
    if not op:
        return None
    v = c.pick((2**31, -2**31 - 1, 2**40, 2**53 + 1, 2**64, 10**30, 10**400))
    if op[2] == 'axis':
        if op[4].get('coordinates') is not None:
            return None
        op[4]['coordinates'] = {'$tuple': [v]} if c.rnd.random() < 0.3 else c.pick(([v], [1, v], [0.5, v]))
        if any(o.kind != 'axis' and op[3] in json.dumps([o.attrs[k].raw for k in o.attrs if k == 'axis'], default=str)
               for lf in c.m.lfs for o in lf.all()):
            return None
    else:
        for k in ('dimension', 'axis', 'zones'):
            op[4].pop(k, None)
        c.ops[:] = [o for o in c.ops if not (o[0] in ('set', 'setattrs') and o[1] == op[3])]
        op[4]['values'] = c.pick(([v], [1.5, v]))
    return True


@way(FAITH, 2)
def inexact(c):
    """numbers a double cannot hold"""
    x = c.attr(('num',))
    if not x:
        return None
    v = {'$int': str(c.pick((2**53 + 1, 2**63 + 1, -2**53 - 1, 10**400, 2**1024, 3**40)))}
    c.assign(x[0], x[1], [v] if x[1].multi else v)
    return True


@way(MUST, 2)
def number_type(c):
    x = c.attr(('num', 'int'))
    if not x:
        return None
    v = c.pick(('abc', OBJ, {'$py': 'complex'}, {'$py': 'date'}, {'$py': 'bytes'}, '1,5', '', 'nine'))
    c.assign(x[0], x[1], [v] if x[1].multi and c.rnd.random() < 0.5 else v)
    return True


@way(MUST)
def fraction_for_integer(c):
    x = c.attr(('int', 'dim'))
    if not x:
        return None
    v = c.pick((1.5, 0.1, -0.5, {'$np': 'float64', 'v': 2.25}, float('nan'), float('inf')))
    c.assign(x[0], x[1], [v] if x[1].multi else v)
    return True


@way(MUST)
def status(c):
    x = c.attr(('status',))
    if not x:
        return None
    c.assign(x[0], x[1], c.pick((2, -1, 255, 0.5, 'x', OBJ, {'$np': 'float64', 'v': 0.5}, 256)))
    return True


@way(MUST, 2)
def origin_reference(c):
    o = c.obj()
    v = c.pick((-1, -128, 2**30, 2**32, 2**30 + 17, 2**64, 1.5, 'x'))
    if isinstance(v, int) and o.kind == 'origin' and c.rnd.random() < 0.5:
        for op in c.ops:
            if op[0] == 'add' and op[3] == o.oid:
                op[4]['origin_reference'] = v
    else:
        c.put(['oref', o.oid, v])
    return True


@way(FAITH)
def unknown_origin(c):
    o = c.obj()
    if o.kind == 'origin':
        return None
    c.put(['oref', o.oid, c.pick((7, 99, 126, 1000, 20000))])
    return True if c.ops[-2][2] not in {x.oref for x in o.lf.objs('origin')} else None


@way(MUST, 2)
def date_time(c):
    x = c.attr(('dtime', 'dtnum'))
    if not x:
        return None
    v = c.pick(({'$dt': '1899-12-30T23:59:59', 'tz': 0}, {'$dt': '1600-01-01T00:00:00', 'tz': 0}, {'$dt': '2156-01-02T00:00:00', 'tz': 0},
                {'$dt': '9999-12-31T00:00:00', 'tz': 0}, 'not a date', '2020/13/01 00:00:00', '2020/02/30 10:00:00', {'$py': 'date'},
                {'$dt': '1900-01-01T00:00:00', 'tz': 600}, {'$dt': '2155-12-31T23:30:00', 'tz': -60}))
    c.assign(x[0], x[1], v)
    return True


@way(FAITH, 2)
def date_time_fringe(c):
    x = c.attr(('dtime', 'dtnum'))
    if not x:
        return None
    v = c.pick(('1/2/2020', '2020-01-01', '2020/01/01 10:00:00', '2020.1.1 1:2:3', '2020-01-01 10:00:00', '2020/01/01', ''))
    if x[1].t == 'dtnum' and not v:
        return None
    if model.parse_dt(v) is None:
        c.assign(x[0], x[1], v)
        return PARSE
    c.assign(x[0], x[1], v)
    return True


@way(MUST, 2)
def enumerated(c):
    c2 = [(op, a) for op in c.adds for a in S.KINDS[op[2]].attrs if a.t.startswith('enum:') or a.t == 'props']
    x = c.pick(c2)
    if not x:
        return None
    op, a = x
    if (op[2], a.kw) == ('zone', 'domain'):
        op[4].pop('maximum', None)
        op[4].pop('minimum', None)
    v = c.pick(('NOPE', 'after', 'Time', '', 'AVERAGED ', OBJ, 5))
    op[4][a.kw] = [v] if a.multi and c.rnd.random() < 0.6 else v
    return True


# ------------------------------------------------------------------------------------------------ structure
@way(MUST)
def no_origin(c):
    lf = c.pick(c.m.lfs)
    gone = [o.oid for o in lf.objs('origin')]
    c.ops[:] = [o for o in c.ops if not any(isinstance(x, str) and x in gone for x in o[1:4])]
    return None if '"$ref": "origin' in json.dumps(c.ops) else True


@way(MUST)
def no_frames(c):
    lf = c.pick(c.m.lfs)
    gone = [o.oid for o in lf.objs('frame')]
    c.ops[:] = [o for o in c.ops if not any(isinstance(x, str) and x in gone for x in o[1:4])]
    return None if any(json.dumps({'$ref': g}) in json.dumps(c.ops) for g in gone) else True


@way(MUST)
def only_header(c):
    r = c.rnd.random()
    if r < 0.4:
        c.ops[:] = [c.ops[-1]]
        c.w.pop('data', None)
    elif r < 0.7:
        c.ops[:] = [o for o in c.ops if o[0] in ('lf', 'write')]
    else:
        c.put(['lf', 'LX', {}])
        if c.rnd.random() < 0.5:
            c.put(['add', 'LX', 'origin', 'originX', {'name': 'X', 'set_name': 'ONLY-X'}])
    return True


@way(MUST)
def empty_frame(c):
    f = c.pick(op for op in c.adds if op[2] == 'frame')
    f[4]['channels'] = c.pick(([], {'$tuple': []}, None, 'abc', [5], 5, OBJ))
    c.ops[:] = [o for o in c.ops if not (o[0] in ('set', 'setattrs') and o[1] == f[3])]
    return True


@way(FAITH, 2)
def later_channels(c):
    """the channel list of a frame assigned later, also to impossible lists"""
    f = c.pick(op for op in c.adds if op[2] == 'frame')
    ch = [op[3] for op in c.adds if op[2] == 'channel' and op[1] == f[1]]
    oth = [op[3] for op in c.adds if op[2] != 'channel']
    v = c.pick(([], [{'$ref': c.pick(ch)}], [{'$ref': x} for x in ch], [{'$ref': c.pick(ch)}] * 2, [{'$ref': c.pick(oth)}] if oth else [], None, 'x',
                [{'$ref': x} for x in reversed(ch)]))
    c.put(['set', f[3], 'channels', 'value', v])
    return PARSE if v is None or v == 'x' else True


@way(MUST, 2)
def foreign_reference(c):
    """a reference to an object of another logical file, or of another kind"""
    x = c.pick((op, a) for op in c.adds for a in S.KINDS[op[2]].attrs if a.t.startswith('ref:') and a.kw not in gen.CONSTRAINED.get(op[2], ()))
    if not x:
        return None
    op, a = x
    kind = a.t[4:]
    other = c.pick(q[3] for q in c.adds if q[2] == kind and q[1] != op[1])
    wrong = c.pick(q[3] for q in c.adds if q[2] != kind)
    t = other if other and c.rnd.random() < 0.7 else wrong
    if t is None:
        return None
    v = [{'$ref': t}] if a.multi else {'$ref': t}
    if (op[2], a.kw) == ('frame', 'channels'):
        return None
    c.put(['set', op[3], a.attr, 'value', v])
    return True


@way(MUST, 2)
def foreign_channel(c):
    """a frame with a channel of another logical file"""
    f = c.pick(op for op in c.adds if op[2] == 'frame')
    mine = [op[3] for op in c.adds if op[2] == 'channel' and op[1] == f[1]]
    other = c.pick(op[3] for op in c.adds if op[2] == 'channel' and op[1] != f[1])
    if other is None:
        return None
    fr = c.m.o[f[3]]
    if c.rnd.random() < 0.3:
        v = [x for x in fr.refs('channels')]
        v[c.rnd.randrange(len(v))] = other
    else:
        v = [c.rnd.choice(mine)] if c.rnd.random() < 0.5 else list(fr.refs('channels'))
        v.insert(c.rnd.randint(0, len(v)), other)
    if c.rnd.random() < 0.3 and len(c.m.lfs) > 1:
        v = [op[3] for op in c.adds if op[2] == 'channel' and op[1] == c.by[other][1]]     # all of them of the other file
    c.put(['set', f[3], 'channels', 'value', [{'$ref': x} for x in v]])
    return True


@way(FAITH, 2)
def same_names(c):
    """renaming so that objects collide"""
    a = c.obj()
    b = c.pick(o for o in a.lf.objs(a.kind) if o is not a)
    if b is None:
        return None
    c.put(['name', a.oid, c.m.o[b.oid].name], *([['oref', a.oid, b.oref]] if b.oref is not None and a.kind != 'origin' else []))
    return True


@way(FAITH, 2)
def same_data_set(c):
    """another channel, with its own data, given the data-set name of an existing one"""
    x = c.pick(x for x in c.chans() if x[1].dsname in x[0].lf.data) or c.pick(c.chans())
    if not x:
        return None
    fr, ch = x
    s = c.spec(ch)
    if not s:
        return None
    s = copy.deepcopy(s)
    s['fill'] = {'lin': [c.rnd.randint(0, 100), 1]}
    if c.rnd.random() < 0.5:
        s['dtype'] = c.pick(('float32', 'uint16', 'int8', 'float64'))
    kw = {'name': c.pick(('SECOND', ch.name)), 'dataset_name': ch.dsname}
    if ch.dsname in ch.lf.data or c.rnd.random() < 0.5:
        kw['data'] = {'$arr': s}
    refs = [{'$ref': i} for i in fr.refs('channels')]
    refs.insert(c.rnd.randint(1, len(refs)), {'$ref': 'second'})
    c.put(['add', ch.lf.lid, 'channel', 'second', kw], *([['set', fr.oid, 'channels', 'value', refs]] if c.rnd.random() < 0.8 else []))
    return True


@way(FAITH)
def same_origin_reference(c):
    a = c.pick(o for lf in c.m.lfs for o in lf.objs('origin') if o.oref is not None)
    if a is None:
        return None
    c.put(['add', a.lf.lid, 'origin', 'origin2', {'name': c.pick((a.name, 'OTHER-ORIGIN')), 'origin_reference': a.oref, 'file_set_number': 77,
                                                  **({'set_name': 'MORE'} if c.rnd.random() < 0.3 else {})}])
    return True


@way(FAITH, 1)
def many_copies(c):
    """more objects of one name than copy numbers"""
    lf = c.pick(c.m.lfs)
    n = c.pick((255, 256, 257, 258, 300))
    kind = c.pick(('zone', 'comment', 'axis'))
    sn = f"MANY-{lf.lid}"
    c.put(*[['add', lf.lid, kind, f"many{i}", {'name': 'SAME', 'set_name': sn}] for i in range(n)])
    return MUST if n > 256 else True


@way(FAITH, 3)
def empty_list(c):
    x = c.pick((op, a) for op in c.adds for a in S.KINDS[op[2]].attrs if a.multi and (op[2], a.kw) != ('frame', 'channels'))
    if not x:
        return None
    op, a = x
    v = c.pick(([], {'$tuple': []}))
    if a.kw in gen.CONSTRAINED.get(op[2], ()):
        op[4][a.kw] = v
        c.ops[:] = [o for o in c.ops if not (o[0] in ('set', 'setattrs') and o[1] == op[3])]
    else:
        c.assign(op, a, v)
    return True


@way(PARSE, 2)
def nested_lists(c):
    x = c.pick((op, a) for op in c.adds for a in S.KINDS[op[2]].attrs if a.multi and (op[2], a.kw) != ('frame', 'channels') and
               a.t in ('num', 'mixed', 'text', 'props', 'dim'))
    if not x:
        return None
    op, a = x
    one = {'num': 1.0, 'mixed': 'a', 'text': 'a', 'props': 'AVERAGED', 'dim': 1}[a.t]
    op[4][a.kw] = c.pick(([[]], [[], []], [[one], []], [[one, one], [one]], [[[one]], [one]], [one, [one]], [[[]]], {'$tuple': [[one], {'$tuple': []}]}))
    return True


@way(PARSE, 2)
def lists_for_single_values(c):
    x = c.pick((op, a) for op in c.adds for a in S.KINDS[op[2]].attrs if not a.multi and a.kw != 'file_id' and a.t in (
        'num', 'text', 'ident', 'int', 'dtime', 'status', 'eort', 'flag'))
    if not x:
        return None
    op, a = x
    one = {'num': 1.0, 'text': 'a', 'ident': 'a', 'int': 1, 'dtime': {'$dt': '2020-01-01T00:00:00', 'tz': 0}, 'status': 1, 'eort': 'a', 'flag': 1}[a.t]
    c.assign(op, a, c.pick(([one], [], {'$tuple': [one, one]}, [one, one], [[one]])))
    return True


@way(PARSE, 3)
def odd_values(c):
    """values of types no attribute is documented to take"""
    x = c.pick((op, a) for op in c.adds for a in S.KINDS[op[2]].attrs if a.kw != 'file_id' and (op[2], a.kw) != ('frame', 'channels'))
    if not x:
        return None
    op, a = x
    v = c.pick(({'$py': 'set'}, {'$py': 'list'}, {'$py': 'nparr'}, {'$py': 'type'}, {'$py': 'lambda'}, {'$py': 'none'}, {'$py': 'bytearray'},
                {'$np': 'str_', 'v': 'x'}, {'$np': 'bool_', 'v': True}, {'$np': 'float16', 'v': 0.5}, {'$np': 'complex64', 'v': 1.0}, float('nan'),
                {'$np': 'longdouble', 'v': 0.1}, '5', ' 7 ', '1e3', '0x10', {'$dict': {}}, {'$dict': {'value': {'$dict': {}}}}))
    c.assign(op, a, c.pick((v, [v], [v, v])) if a.multi else v)
    return True


@way(FAITH)
def header_fringe(c):
    lf = c.pick(op for op in c.ops if op[0] == 'lf')
    r = c.rnd.random()
    if r < 0.5:
        lf[2].update(c.pick(({'fh_sequence_number': 0}, {'fh_sequence_number': -1}, {'fh_sequence_number': 9999999999}, {'fh_identifier': ' '},
                             {'fh_id': ''}, {'fh_id': ' ' * 65}, {'fh_id': 'x' * 65}, {'fh_identifier': ''})))
    elif r < 0.7:
        c.pr['sul'] = dict(c.pr['sul'], sul_sequence_number=c.pick((0, -1, 9999)))
    else:
        c.pr['sul'] = dict(c.pr['sul'], max_record_length=c.pick((20, 16384, 18, 12, 4, 16386, 16385, 21, 8191, 0, -8, 99999, 32768)))
    if c.pr['sul'].get('obj') and 'set_identifier' not in c.pr['sul']:
        return None
    return True


@way(PARSE)
def header_types(c):
    lf = c.pick(op for op in c.ops if op[0] == 'lf')
    r = c.rnd.random()
    if r < 0.5:
        lf[2].update(c.pick(({'fh_sequence_number': 'x'}, {'fh_sequence_number': 1.5}, {'fh_sequence_number': None}, {'fh_identifier': 5}, {'fh_id': 5},
                             {'fh_id': None}, {'fh_sequence_number': True})))
    else:
        c.pr['sul'] = dict(c.pr['sul'], **c.pick(({'sul_sequence_number': 'x'}, {'sul_sequence_number': 1.5}, {'max_record_length': 'x'},
                                                  {'max_record_length': 100.0}, {'max_record_length': 8192.5}, {'set_identifier': 5},
                                                  {'sul_sequence_number': True})))
    if c.pr['sul'].get('obj') and not isinstance(c.pr['sul'].get('set_identifier'), str):
        return None
    return True


@way(FAITH, 2)
def renamed_channels(c):
    """two channels of one frame get the same name"""
    f = c.pick(f for f in c.frames() if len(f.refs('channels')) > 1)
    if f is None:
        return None
    a, b = c.rnd.sample(f.refs('channels'), 2)
    c.put(['name', a, c.m.o[b].name])
    return True


@way(MUST)
def payload_type(c):
    o = c.obj(('no_format',))
    if o is None:
        return None
    c.put(['nofmt', o.lf.lid, o.oid, c.pick((5, OBJ, None, [1], 1.5))])
    return True


@way(FAITH)
def payload_owner(c):
    """a payload for an object that is not a no-format object of the logical file"""
    lf = c.pick(c.m.lfs)
    o = c.pick(x for l in c.m.lfs if l is not lf for x in l.objs('no_format'))
    if o is None or c.rnd.random() < 0.3:
        o = c.obj()
    if o.kind == 'no_format' and o.lf is lf:
        return None
    c.put(['nofmt', lf.lid, o.oid, 'abc'])
    return MUST


def inject(pr, rnd, names):
    """the program with one invalidity out of the named ones put in"""
    bag = [n for n in names for _ in range(WAYS[n][1])]
    for _ in range(20):
        q = copy.deepcopy(pr)
        try:
            if WAYS[rnd.choice(bag)][2](Ctx(q, rnd)) is not None:
                return q
        except Exception:         # nothing of that kind is left
            continue
    return pr


def with_write(case):
    for c in program_candidates(case):
        ops = c['prog']['ops']
        if ops and ops[-1][0] == 'write':
            yield c


class C12(Check):
    id = 'C12'
    rule = ('A generated valid program with one or two of %d kinds of invalidity put in at a random place and in a random way (constructor argument, '
            'wrapped, assigned later): of the data (rows, types, dimensions, missing, empty, windows, chunk sizes, layout), of names and '
            'texts (too long for their length prefix, not ASCII, not text), of numbers (out of range, inexact, fractions), dates, enumerations, of '
            'the structure (no origin, channels, frames; foreign references, colliding identities, copy numbers beyond 255) and degenerate '
            'ones (empty and nested lists, fringes of the headers). Verdicts: those the property names must raise; where a faithful '
            'encoding exists either it raises or the file is compared in full with the reference model; for values of '
            'undocumented types the file must decode strictly. Valid programs must be faithful. Non-trivial: all; distinct by case.') % len(WAYS)
    profiles = {
        'data': (1100, {}, {**B, 'nchan': (1, 4), 'nobj': (0, 1)}),
        'rest': (1300, {}, {**B}),
        'multi': (250, SLOWBAR, {**B, 'nlf': (2, 3), 'nobj': (0, 3)}),
        'lfs': (120, {}, {**B, 'nlf': (2, 3), 'nobj': (1, 4), 'nofmt': (0, 2)}),
        'two': (250, {}, {**B}),
        'hc': (150, {}, {**B, 'hc': 1.0}),
        'valid': (150, {}, {'nobj': (0, 6)}),
    }
    quick = 11
    DATA = ('row counts', 'data type', 'cast type', 'dimensions', 'scalar data', 'missing data set', 'no data', 'no rows', 'no width', 'window',
            'window type', 'chunks', 'channel layout', 'representation code', 'renamed channels', 'later channels')

    LFS = ('foreign channel', 'foreign reference', 'payload owner', 'same names', 'no origin', 'later channels')

    def case(self, seed, shard):
        rnd = random.Random(seed + '/c12')
        g = shard['name']
        pr = gen.case(seed, shard['prof'])
        if g == 'valid':
            return {'prog': pr, 'ways': []}
        names = [n for n in WAYS if (n in self.DATA) == (g == 'data')] if g in ('data', 'rest') else [n for n in self.LFS if n in WAYS] if g == 'lfs' else list(WAYS)
        bag = [n for n in names for _ in range(WAYS[n][1])]
        done = []
        verdict = None
        tries = 0
        while len(done) < (2 if g == 'two' else 1) and tries < 60:
            tries += 1
            n = rnd.choice(bag)
            q = copy.deepcopy(pr)
            ws = f'{seed}/{tries}'
            try:
                c = Ctx(q, random.Random(ws))
            except Exception:
                break             # the first invalidity confuses the model: one is enough then
            try:
                v = WAYS[n][2](c)
            except (TypeError, AttributeError, IndexError, KeyError):
                v = None          # nothing of that kind is left
            if v is None:
                continue
            v = WAYS[n][0] if v is True else v
            base, pr = pr, q
            done.append(n)
            order = (MUST, PARSE, FAITH)
            verdict = v if verdict is None or order.index(v) < order.index(verdict) else verdict
        if len(done) > 1 and verdict == MUST:
            verdict = PARSE       # the second one may have undone the first
        case = {'prog': pr, 'ways': done, 'verdict': verdict}
        if verdict == MUST:
            case['base'] = base   # what it was put into: reduced instead of the whole, so that it stays in
            case['inject'] = ws
        return case

    def shrinkers(self):
        def reinject(case):
            if 'base' not in case:
                yield from with_write(case)
                return
            for c in with_write({'prog': case['base']}):
                q = copy.deepcopy(c['prog'])
                try:
                    v = WAYS[case['ways'][0]][2](Ctx(q, random.Random(case['inject'])))
                except Exception:
                    continue
                if v is None or (WAYS[case['ways'][0]][0] if v is True else v) != MUST:
                    continue
                yield {**case, 'base': c['prog'], 'prog': q}
        return [reinject]

    def run(self, case, ctx):
        pr = case['prog']
        if not pr['ops'] or pr['ops'][-1][0] != 'write':
            return Outcome([], None, [])
        v = case.get('verdict') or FAITH
        what = ' and '.join(case['ways']) or 'valid'
        labels = []
        r, e = execute(pr, ctx.dir)
        try:
            if e is not None:
                labels += [f"{w}: refused at {'write' if e.op[0] == 'write' else 'construction'}" for w in case['ways'] or ['valid']]
                if e.op[0] == 'write':
                    labels.append('write raised ' + type(e.exc).__name__)
                return Outcome([], json.dumps(case), labels)
            labels += [f"{w}: written" for w in case['ways'] or ['valid']]
            opts, _, raw = r.writes[-1]
            if v == MUST:
                return Outcome([f"{what}: the write returned normally, but the specification cannot be represented: {self.judge(raw, pr, opts, r)}"],
                               None, labels)
            ps = self.judge(raw, pr, opts, r, v == PARSE)
            return Outcome([f"{what}: {p}" for p in ps], json.dumps(case), labels)
        finally:
            r.cleanup()

    def judge(self, raw, pr, opts, r, parse_only=False):
        f, P = oracle.parse_problems(raw)
        if f is None:
            return [p.msg for p in P]
        P = [p.msg for p in oracle.structure(f)]
        if parse_only:
            return P
        try:
            m = model.Model(pr).run(r.status)
        except Exception as e:
            return P + [f"it was accepted, but has no model: {describe(e)}"]
        return [p.msg for p in self.compare(raw, m, opts, pr.get('hc'), NOW())]


CHECK = C12()
