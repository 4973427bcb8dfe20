"""Random construction of valid programs, biased to boundaries.  Everything is drawn from one random.Random so that a case
is identified by its seed; the program itself is what gets shrunk and stored.

A profile is a dict of knobs (see DEFAULT); each check uses its own mixture.
"""
import datetime as _dt
import math
import random

from . import schema as S

DEFAULT = {
    'hc': 0.0,             # probability of high-compatibility mode
    'nlf': (1, 1),         # logical files
    'nframes': (1, 1), 'nchan': (1, 3), 'rows': (1, 5), 'width': (1, 4),
    'nobj': (0, 6),        # other objects per logical file
    'kinds': None,         # restrict to these kinds
    'p_attr': 0.4,         # probability that an attribute gets a value
    'sources': ('inline', 'dict', 'struct', 'h5'),
    'window': 0.15, 'ichunk': 0.3, 'cast': 0.3, 'special': 0.5,
    'index': 0.4, 'nofmt': (0, 2), 'payload': (0, 40), 'maxlen': 'mixed',
    'sets': 0.25,          # probability that an object goes to a named set
    'origins': (1, 2), 'origin_first': 0.85,
    'rename': 0.1, 'later': 0.25, 'reassign': 0.1, 'long': 0.04, 'collide': 0.5, 'orphan': 0.05, 'layouts': True,
    'orefs': 0.15, 'extra_ds': 0.3, 'dsname': 0.25, 'share_ds': 0.05, 'units': 0.4, 'shared_channel': 0.05,
    'ochunk': 'mixed', 'empty_lists': 0.03, 'index_user': 0.2, 'spacing': 'mixed', 'bigwidth': 0.03,
    'exact': 0.2, 'huge': 0.0,
    'mega': 0.0,           # payloads and rows of up to some megabytes
    'native': 0.5, 'scalar': 0.6, 'spice': 0.12,
    'swarm': 0.35,         # share of the programs in which some features are left out altogether
}
# what may be left out: code paths taken only when nothing gets in their way need programs without it
SWARM = ('window', 'ichunk', 'cast', 'special', 'index', 'sets', 'rename', 'later', 'reassign', 'long', 'collide', 'orphan', 'layouts', 'orefs', 'extra_ds',
         'dsname', 'share_ds', 'units', 'shared_channel', 'empty_lists', 'index_user', 'bigwidth', 'exact', 'spice', 'native', 'scalar', 'sources')

DTYPES = ('int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'float32', 'float64')
UDTYPES = ('uint8', 'uint16', 'uint32', 'float32', 'float64')
CODE = {'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4', 'float32': 'f4',
        'float64': 'f8'}
RANGE = {'int8': (-128, 127), 'int16': (-32768, 32767), 'int32': (-2**31, 2**31 - 1), 'uint8': (0, 255),
         'uint16': (0, 65535), 'uint32': (0, 2**32 - 1)}
UNITS = tuple(S.ENUM_VALUES['Unit'])
NONSTD_UNITS = ('ohm.m', 'us/ft', '%', 'M', 'g/cm3', ' ', 'metres')
SAFE = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-'
PRINT = ''.join(chr(i) for i in range(32, 127))
UV_EDGES = (0, 1, 2, 126, 127, 128, 129, 255, 256, 300, 16382, 16383, 16384, 16385, 65535, 65536, 2**24, 2**30 - 2, 2**30 - 1)
HUGE = (1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16382, 16383, 16384, 16385, 16400, 20000, 32767, 32768, 32769, 65535, 65536, 65537)
MEGA = (32768, 65535, 65536, 131072, 2**18, 2**19, 2**20, 2**20 + 2**19, 2**21, 2**20 - 4 * 64, 10**6)
MEGAWIDTHS = (4096, 8191, 8192, 16385, 32767, 32768, 65535, 65536, 65537, 131071, 131072, 131073)
OREF_EDGES = (0, 1, 2, 3, 126, 127, 128, 129, 16383, 16384, 65536, 2**30 - 1)
MAXLENS = (20, 22, 24, 26, 28, 30, 32, 34, 36, 40, 48, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096, 8190, 8192,
           10000, 16380, 16382, 16384)


# contents which code is tempted to treat specially: blanks at the ends, look-alikes of other types, format and escape characters
SPICE = (' x', 'x ', '  x  ', 'a  b', ' ', '  ', '\n', 'x\n', 'a\nb', 'a\r\nb', '\tx', 'x\x00', '\x00', '\x7f', 'a\x00b', '%s', '%d%%', '{}', '{0}', '{x}', '\\', '\\n', '"', "'",
         "''", '"a"', '1', '0', '-1', '+1', '007', '1.0', '1.5', '1e3', '0x1F', '1_000', 'nan', 'NaN', 'inf', '-inf', 'None', 'none', 'null', 'True', 'False', 'true', 'yes',
         '2020/01/01', '2020-01-01 10:00:00', 'a,b', 'a;b', '[1, 2]', '(1,)', '/', '/a', 'a/b', './a', '..', '.', '-', '_', '&', '#', '?', '*', '~', '<a>', '\x1b[0m',
         'abc', 'ABC', 'Abc', 'aBC', 'abc ', 'm', 'M', 'ORIGIN', 'CHANNEL', 'DEFAULT', 'WILDCAT', '0.1 in', 'V1.00', 'RECORD')
SPICE_HC = ('0', '1', '-1', '007', '1E3', 'NAN', 'INF', '-INF', 'NONE', 'NULL', 'TRUE', '-', '_', '--', '-A', 'A-', '_A', 'A_', 'ABC', 'ORIGIN', 'CHANNEL', 'DEFAULT', 'WILDCAT',
            'RECORD', '1_000', '2020-01-01')


class G:
    def __init__(self, rnd, prof=None):
        self.r = rnd
        self.p = dict(DEFAULT)
        self.p.update(prof or {})

    # ---------------------------------------------------------------- basics
    def flip(self, p):
        return self.r.random() < p

    def rng(self, ab):
        return self.r.randint(ab[0], ab[1])

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    # ---------------------------------------------------------------- scalars
    def strlen(self, limit):
        r = self.r.random()
        if self.flip(self.p['long']):
            cands = [n for n in (126, 127, 128, 129, 254, 255, 256, 1000, 8170, 16383, 16384, 16385) if n <= limit]
            return self.pick(cands) if cands else limit
        if r < 0.06:
            return 0
        if r < 0.25:
            return 1
        return self.r.randint(1, min(limit, 12))

    def chars(self, alphabet, n):
        if n > 40:
            c = self.pick(alphabet)
            return {'$rep': [c, n]}
        return ''.join(self.pick(alphabet) for _ in range(n))

    def spice(self, hc=False, limit=255):
        return self.pick(SPICE_HC if hc else SPICE)[:limit]

    def text(self, limit=20000):
        if self.flip(self.p['spice']):
            return self.spice(False, limit)
        n = self.strlen(limit)
        a = PRINT if self.flip(0.9) else ''.join(chr(i) for i in range(128))
        return self.chars(a, n)

    def ident(self, hc=False, minlen=0):
        if self.flip(self.p['spice']):
            return self.spice(hc)
        n = max(minlen, self.strlen(255))
        if hc:
            n = max(1, n)
        s = self.chars(SAFE if hc or self.flip(0.6) else PRINT, n)
        return s

    def name(self):
        hc = self.hc
        if self.flip(self.p['collide']):
            return self.pick(('A', 'B', 'C1', 'A-1', 'CHAN', '0') if hc else ('A', 'B', 'a', 'A ', 'CHAN', '0', 'x.y'))
        if not hc and self.flip(0.02):
            return ''
        if self.flip(0.5):
            self.uniq += 1
            return f"N{self.uniq}"
        s = self.ident(hc, 1)
        return s

    def unit(self):
        if self.hc or self.flip(0.8):
            return self.pick(UNITS)
        return self.pick(NONSTD_UNITS) if self.flip(0.5) else self.ident()

    def integer(self, lo, hi):
        r = self.r.random()
        edges = [e for e in (lo, hi, 0, 1, -1, lo + 1, hi - 1, 127, 128, 255, 256, 32767, 65535) if lo <= e <= hi]
        if r < 0.5:
            return self.pick(edges)
        if r < 0.8:
            return self.r.randint(max(lo, -1000), min(hi, 1000))
        return self.r.randint(lo, hi)

    def flt(self):
        r = self.r.random()
        if r < 0.25:
            return self.pick((0.0, -0.0, 1.0, -1.0, 0.5, 1e-5, -999.25, 3.141592653589793, 1e300, -1e-300, 5e-324,
                              2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 16777217.0, 9007199254740993.0))
        if r < 0.30:
            return self.pick((math.inf, -math.inf, math.nan))
        if r < 0.6:
            return round(self.r.uniform(-1000, 1000), 3)
        return self.r.uniform(-1, 1) * 10.0 ** self.r.randint(-30, 30)

    def num(self):
        """a number exactly representable as a double"""
        r = self.r.random()
        if r < 0.35:
            return self.integer(-2**31, 2**31 - 1)
        if r < 0.40:
            return self.integer(-2**53, 2**53)
        if r < 0.44:
            return self.flip(0.5)
        if r < 0.55:
            t = self.pick(('float64', 'float32', 'int64', 'int32', 'uint8', 'int8', 'uint32', 'float16'))
            if t.startswith('float'):
                return {'$np': t, 'v': self.pick((0.5, -0.0, 1.0, 0.1, -3.25, 1000.0))}
            return {'$np': t, 'v': self.integer(0, 100)}
        return self.flt()

    def dt(self):
        r = self.r.random()
        if r < 0.1:
            y = self.pick((1900, 1901, 1969, 1970, 1999, 2000, 2154, 2155))
        else:
            y = self.r.randint(1905, 2150)
        us = self.pick((0, 1000, 999000, 999400, 999499, 999500, 999999, 500, 499, 1, 123456, 998999, 127000, 128000, 255000, 256000)) \
            if self.flip(0.7) else self.r.randint(0, 999999)
        mo, da = self.r.randint(1, 12), self.r.randint(1, 28)
        if y in (1900, 2155):
            mo = 6
        if self.flip(0.05):
            mo, da = self.pick(((2, 28), (12, 31), (1, 1), (3, 8), (11, 1)))
            if y in (1900, 2155):
                mo = 6
        if (mo, da) == (6, 31):
            da = 30
        h, mi, s = self.r.randint(0, 23), self.r.randint(0, 59), self.pick((0, 59, 30, self.r.randint(0, 59)))
        v = {'$dt': _dt.datetime(y, mo, da, h, mi, s, us).isoformat()}
        if self.flip(0.5):
            v['tz'] = self.pick((0, 60, -60, 330, -480, 765, 840, -720, 1, 1439, -1439))
        elif self.flip(0.1):
            v['fold'] = 1
        return v

    def dtstr(self):
        d = _dt.datetime(self.r.randint(1905, 2150), self.r.randint(1, 12), self.r.randint(1, 28), self.r.randint(0, 23),
                         self.r.randint(0, 59), self.r.randint(0, 59))
        return d.strftime(self.pick(("%Y/%m/%d %H:%M:%S", "%Y.%m.%d %H:%M:%S")))

    # ---------------------------------------------------------------- attribute values
    def count(self):
        r = self.r.random()
        if r < 0.35:
            return 1
        if r < 0.9:
            return self.r.randint(2, 5)
        if r < 0.98:
            return self.r.randint(6, 20)
        return self.pick((126, 127, 128, 129, 300))

    def multi(self, fn, n=None):
        n = n or self.count()
        vals = [fn() for _ in range(n)]
        if n == 1 and self.flip(0.4):
            return vals[0]
        return {'$tuple': vals} if self.flip(0.2) else vals

    def text_nonnum(self):
        return self.pick(('Near', 'Far', 'a b', 'x', 'left', 'N/A', '', '-', '1a', 'deg C', 'true'))

    def mixed1(self):
        """-> a function producing single values of one mixture"""
        k = self.pick(('int', 'float', 'mix', 'text', 'text', 'near', 'numeral'))
        if k == 'near':
            return lambda: self.pick(('1e5', '1E3', 'nan', 'NaN', 'inf', '-inf', 'Infinity', '0x1F', '1,5', '1-2', '1/2', 'e', '.', '+', '-', '1.2.3', ' ', 'True',
                                      'None', '1 2', ' a ', 'a ', '\ta', '1e', '-e5', '12:30', '1j', '5%', "'5'", 'A', 'a'))
        if k == 'numeral':
            return lambda: self.pick(('12', '-7', '0', '-0', '+4', '007', '3.5', '.5', '-0.25', '2.', '0.1', '-0.0', '1.5e3', '1.e-3', '100000', ' 12', '3.5 '))
        if k == 'int':
            return lambda: self.integer(-2**31, 2**31 - 1)
        if k == 'float':
            return lambda: self.flt()
        if k == 'mix':
            return lambda: self.integer(-2**31, 2**31 - 1) if self.flip(0.5) else self.flt()
        return self.text_nonnum

    def ndarr(self, fn, shape):
        if not shape:
            return fn()
        return [self.ndarr(fn, shape[1:]) for _ in range(shape[0])]

    def enum(self, cls, soft):
        vals = S.ENUM_VALUES[cls]
        if soft and not self.hc and self.flip(0.2):
            return self.ident()
        v = self.pick(vals)
        if self.flip(0.3):
            return {'$enumv': f"{cls}:{v}"}
        return v

    def refs(self, L, kind, multi, n=None):
        """references to existing objects of a kind, creating some when there are none"""
        pool = L['objs'].get(kind, [])
        if not pool or self.flip(0.15):
            if len(L['all']) < L['limit'] and kind not in ('frame',):
                self.add_obj(L, kind, depth=1)
                pool = L['objs'].get(kind, [])
        if not pool:
            return None
        if not multi:
            return {'$ref': self.pick(pool)}
        n = n or min(self.count(), 6)
        return [{'$ref': self.pick(pool)} for _ in range(n)]

    def anyref(self, L):
        if not L['all']:
            return None
        return {'$ref': self.pick(L['all'])}

    def value(self, L, kind, a):
        """value of attribute a or None"""
        t = a.t
        if a.multi and t in ('text', 'props', 'mixed') and kind != 'parameter' and self.flip(self.p['empty_lists']):
            return []
        if t == 'text':
            return self.multi(self.text) if a.multi else self.text()
        if t == 'ident':
            if self.hc and (kind, a.attr) in HC_IDENT:
                return self.ident(True)
            return self.ident()
        if t.startswith('enum:') or t.startswith('soft:'):
            if t == 'soft:Unit':
                return self.unit() if self.flip(0.7) else self.enum('Unit', True)
            return self.enum(t[5:], t.startswith('soft'))
        if t == 'props':
            return self.multi(lambda: self.enum('Property', False))
        if t == 'num':
            return self.multi(self.num) if a.multi else self.num()
        if t == 'int':
            if a.rc == 18:
                v = self.pick(UV_EDGES) if self.flip(0.7) else self.integer(0, 2**30 - 1)
                if a.attr == 'file_set_number':
                    v = max(1, v)
            elif a.rc == 16:
                v = self.integer(0, 65535)
            else:
                v = self.integer(-2**31, 2**31 - 1)
            if self.flip(0.1):
                return float(v)
            if self.flip(0.1):
                return {'$np': 'int64', 'v': v}
            return v
        if t == 'flag':
            return self.pick((0, 1, True, False, 1.0))
        if t == 'status':
            return self.pick((0, 1, True, False, 1.0))
        if t == 'dtime':
            return self.dtstr() if self.flip(0.3) else self.dt()
        if t == 'dtnum':
            r = self.r.random()
            return self.dt() if r < 0.4 else (self.dtstr() if r < 0.55 else self.num())
        if t == 'mixed':
            f = self.mixed1()
            return self.multi(f)
        if t == 'dim':
            return [self.pick((1, 2, 3, 127, 128, 16384)) for _ in range(self.r.randint(1, 3))]
        if t.startswith('ref:'):
            return self.refs(L, t[4:], a.multi)
        if t == 'objref':
            if a.multi:
                n = min(self.count(), 6)
                return [self.anyref(L) for _ in range(n)] if L['all'] else None
            return self.anyref(L)
        if t == 'eort':
            if self.flip(0.4):
                return self.refs(L, 'long_name', False)
            return self.text()
        raise KeyError(t)

    def wrap(self, a, v, units_ok=True):
        """add units: -> AttrSetup / dict / plain"""
        if a.units and units_ok and self.flip(self.p['units']):
            k = '$setup' if self.flip(0.7) else '$dict'
            return {k: {'value': v, 'units': self.unit()}}
        if self.flip(0.08):
            return {self.pick(('$setup', '$dict')): {'value': v}}
        return v

    # ---------------------------------------------------------------- objects
    def newid(self, L, kind):
        self.n += 1
        return f"{kind}{self.n}"

    def setname(self, L):
        if not self.flip(self.p['sets']):
            return L['setnames'][0]
        return self.pick(L['setnames'])

    def base_kw(self, L, kind):
        kw = {'name': self.name()}
        sn = self.setname(L)
        if sn is not None and L['id'] == 'L0' and self.own_type and self.flip(0.5):
            sn = S.KINDS[kind].settype
        if sn is not None:
            kw['set_name'] = sn
        if kind != 'origin' and L['orefs'] and self.flip(self.p['orefs']):
            kw['origin_reference'] = self.pick(L['orefs'])
        return kw

    def add_origin(self, L):
        kw = self.base_kw(L, 'origin')
        # which reference the library assigns by default: number of origins so far (next free one)
        if L['orig_plan']:
            ref = L['orig_plan'].pop(0)
            if ref is not None:
                kw['origin_reference'] = ref
        for a in S.KINDS['origin'].attrs:
            if a.attr == 'file_id' or (self.hc and a.attr == 'file_set_number'):
                continue
            if self.flip(self.p['p_attr'] * 0.6):
                kw[a.kw] = self.wrap(a, self.value(L, 'origin', a))
        if 'creation_time' not in kw and self.flip(0.8):
            kw['creation_time'] = {'$dt': '2024-02-29T12:34:56.789000', 'tz': 0}
        if 'file_set_number' not in kw and not self.hc and self.flip(0.9):
            kw['file_set_number'] = 1 + len(L['objs'].get('origin', []))
        return self.emit(L, 'origin', kw)

    def emit(self, L, kind, kw):
        oid = self.newid(L, kind)
        L['ops'].append(['add', L['id'], kind, oid, kw])
        L['objs'].setdefault(kind, []).append(oid)
        L['all'].append(oid)
        return oid

    def add_obj(self, L, kind, depth=0):
        if kind == 'origin':
            return self.add_origin(L)
        if kind == 'channel':
            return self.orphan_channel(L)
        kw = self.base_kw(L, kind)
        later = []
        spec = S.KINDS[kind]
        p = self.p['p_attr'] * (0.5 if depth else 1.0)
        special = getattr(self, 'obj_' + kind, None)
        handled = special(L, kw, p) if special else set()
        for a in spec.attrs:
            if a.kw in handled or not self.flip(p):
                continue
            v = self.value(L, kind, a)
            if v is None:
                continue
            if self.flip(self.p['later']):
                later.append((a, v))
                if self.flip(0.3):                    # overwritten later
                    v2 = self.value(L, kind, a)
                    if v2 is not None:
                        kw[a.kw] = v2
            else:
                kw[a.kw] = self.wrap(a, v)
        oid = self.emit(L, kind, kw)
        for a, v in later:
            self.assign_later(L, oid, a, v)
        for a in S.EXTRA.get(kind, ()):
            if a.t == 'ident' and self.flip(p):
                self.assign_later(L, oid, a, self.ident(self.hc))
        return oid

    def assign_later(self, L, oid, a, v):
        if isinstance(v, list) and self.flip(0.2) and a.multi:
            v = {'$tuple': v}
        op = ['setattrs', oid, {a.attr: self.wrap(a, v)}] if self.flip(0.25) else ['set', oid, a.attr, 'value', v]
        L['late'].append(op)
        if a.units and op[0] == 'set' and self.flip(self.p['units']):
            L['late'].append(['set', oid, a.attr, 'units', self.unit()])

    # kinds with internal constraints: returns the keywords handled here
    def dims_axes(self, L, kw, dims):
        """axes consistent with dims"""
        axes = []
        for d in dims:
            axes.append(self.axis_for(L, d))
        return axes

    def axis_for(self, L, d):
        key = self.pick((None, d))
        pool = L['axes'].setdefault(key, [])
        if pool and self.flip(0.5):
            return {'$ref': self.pick(pool)}
        kw = self.base_kw(L, 'axis')
        for a in S.KINDS['axis'].attrs:
            if a.kw == 'coordinates':
                if key is not None:
                    if d > 300:
                        key = None
                        continue
                    f = self.mixed1()
                    kw['coordinates'] = [f() for _ in range(d)]
            elif self.flip(self.p['p_attr']):
                kw[a.kw] = self.wrap(a, self.value(L, 'axis', a))
        oid = self.emit(L, 'axis', kw)
        L['axes'].setdefault(key, []).append(oid)
        L['fixed_axes'].add(oid)
        return {'$ref': oid}

    def shape(self, n0=None):
        nd = self.pick((1, 1, 1, 2, 2, 3))
        return [n0 or self.r.randint(1, 4)] + [self.r.randint(1, 3) for _ in range(nd - 1)]

    def obj_axis(self, L, kw, p):
        if self.flip(p):
            a = S.KINDS['axis'].attrs[1]
            kw['coordinates'] = self.wrap(a, self.value(L, 'axis', a))
        return {'coordinates'}

    def valued(self, L, kw, p, kind):
        """values / zones / dimension / axis of Parameter and Computation"""
        a = {x.kw: x for x in S.KINDS[kind].attrs}
        nz = None
        if self.flip(p):
            nz = self.r.randint(1, 4)
            z = self.refs(L, 'zone', True, nz)
            if z:
                kw['zones'] = z
            else:
                nz = None
        dims = None
        if self.flip(max(p, 0.5)):
            f = self.num if kind == 'computation' else self.mixed1()
            if kind == 'parameter' and nz is None:
                sh = [1] + ([1] * self.r.randint(0, 2) if self.flip(0.3) else [])
            else:
                sh = self.shape(nz)
            v = self.ndarr(f, sh)
            if sh == [1] and self.flip(0.6):
                v = v[0]
            kw['values'] = self.wrap(a['values'], v)
            if len(sh) > 1 and self.flip(0.4):
                kw['dimension'] = sh[1:]
                dims = sh[1:]
        elif self.flip(p):
            dims = [self.r.randint(1, 5) for _ in range(self.r.randint(1, 2))]
            kw['dimension'] = dims
        if self.flip(p) and dims:
            kw['axis'] = self.dims_axes(L, kw, dims)
        return {'values', 'zones', 'dimension', 'axis'}

    def obj_parameter(self, L, kw, p):
        return self.valued(L, kw, p, 'parameter')

    def obj_computation(self, L, kw, p):
        return self.valued(L, kw, p, 'computation')

    def obj_zone(self, L, kw, p):
        a = {x.kw: x for x in S.KINDS['zone'].attrs}
        dom = self.enum('ZoneDomain', False) if self.flip(p) else None
        if dom is not None:
            kw['domain'] = dom
        d = dom['$enumv'].split(':')[1] if isinstance(dom, dict) else dom
        if d is None:
            fs = [self.pick((self.dt, self.num)) for _ in 'ab']
        elif d == 'TIME':
            fs = [self.pick((self.dt, self.num, self.dtstr))] * 2
            if fs[0] == self.dtstr:
                fs = [self.dt, self.dtstr]
        else:
            fs = [self.num] * 2
        for k, f in zip(('maximum', 'minimum'), fs):
            if self.flip(max(p, 0.3)):
                kw[k] = self.wrap(a[k], f())
        return {'domain', 'maximum', 'minimum'}

    def obj_splice(self, L, kw, p):
        if self.flip(p):
            n = self.r.randint(1, 4)
            z, c = self.refs(L, 'zone', True, n), self.refs(L, 'channel', True, n)
            if z and self.flip(0.8):
                kw['zones'] = z
            if c and self.flip(0.8):
                kw['input_channels'] = c
        return {'zones', 'input_channels'}

    def obj_calibration_coefficient(self, L, kw, p):
        n = self.r.randint(1, 5)
        for a in S.KINDS['calibration_coefficient'].attrs[1:]:
            if self.flip(p):
                kw[a.kw] = self.wrap(a, self.multi(self.num, n))
        return {a.kw for a in S.KINDS['calibration_coefficient'].attrs[1:]}

    def obj_calibration_measurement(self, L, kw, p):
        at = {x.kw: x for x in S.KINDS['calibration_measurement'].attrs}
        sh = self.shape()
        ctl = ('maximum_deviation', 'standard_deviation', 'standard', 'plus_tolerance', 'minus_tolerance')
        used = False
        for k in ctl:
            if self.flip(p):
                v = self.ndarr(self.num, sh)
                kw[k] = self.wrap(at[k], v)
                used = True
        for k in ('measurement', 'reference'):
            if self.flip(p):
                kw[k] = self.wrap(at[k], self.ndarr(self.num, self.shape()))
        dims = None
        if used:
            if len(sh) > 1 and self.flip(0.4):
                dims = sh[1:]
        elif self.flip(p):
            dims = [self.r.randint(1, 5) for _ in range(self.r.randint(1, 2))]
        if dims:
            kw['dimension'] = dims
            if self.flip(p):
                kw['axis'] = self.dims_axes(L, kw, dims)
        return {'dimension', 'axis', 'measurement', 'reference'} | set(ctl)

    def obj_no_format(self, L, kw, p):
        return set()

    # ---------------------------------------------------------------- channels, frames, data
    def chname(self, L):
        """channel names: non-empty"""
        for _ in range(20):
            n = self.name()
            if n:
                return n
        return 'CH'

    def channel_kw(self, L):
        kw = self.base_kw(L, 'channel')
        kw['name'] = self.chname(L)
        for a in S.KINDS['channel'].attrs:
            if a.kw in ('dimension', 'axis', 'element_limit'):
                continue
            if self.flip(self.p['p_attr'] * 0.5):
                v = self.value(L, 'channel', a)
                if v is not None:
                    kw[a.kw] = self.wrap(a, v)
        return kw

    def orphan_channel(self, L):
        """a channel that is in no frame (outside high-compatibility mode)"""
        if self.hc:
            return None
        kw = self.channel_kw(L)
        if self.flip(0.3):
            d = [self.pick((1, 2, 5, 128)) for _ in range(self.r.randint(1, 2))]
            if self.flip(0.5):
                kw['dimension'] = d
            if self.flip(0.5):
                kw['element_limit'] = [x + self.r.randint(0, 3) for x in d]
            if 'dimension' in kw and self.flip(0.3):
                kw['axis'] = self.dims_axes(L, kw, d)
        if self.flip(0.3):
            kw['cast_dtype'] = self.pick(DTYPES)
        return self.emit(L, 'channel', kw)

    def dtype(self):
        base = self.pick(UDTYPES if self.hc else DTYPES)
        r = self.r.random()
        code = CODE[base]
        if r < self.p['native']:
            return base, base
        return base, ('>' if r < 0.8 else '<') + code

    def fill(self, base, shape, cast=None):
        n = 1
        for s in shape:
            n *= s
        if cast and base.startswith('float') and not cast.startswith('float'):
            lo, hi = RANGE[cast]
            vals = [float(max(lo, min(hi, self.r.randint(-300, 300)))) + (self.pick((0.0, 0.5, 0.25)) if hi > 300 else 0.0)
                    for _ in range(min(n, 7))]
            vals = [min(max(v, lo), hi) for v in vals]
            return {'vals': vals or [0.0]}
        r = self.r.random()
        if r < 0.25:
            return {'seed': self.r.randint(0, 2**31 - 1)}
        if r < 0.25 + 0.5 * self.p['special']:
            isz = int(CODE[base][1])
            k = min(n, 8)
            pats = SPECIAL.get(base)
            out = ''.join(self.pick(pats) if pats and self.flip(0.7) else self.r.randbytes(isz).hex() for _ in range(k))
            return {'hex': out}
        if r < 0.8:
            if base.startswith('float'):
                return {'lin': [round(self.r.uniform(-1000, 1000), 2), self.pick((0.5, -0.25, 1.0, 0.1, 10.0))]}
            if base.startswith('u'):
                return {'lin': [self.r.randint(0, 100), self.pick((1, 0))]}
            return {'lin': [self.r.randint(-20, 20), self.pick((1, -1, 0))]}
        return {'vals': [self.r.randint(0, 100) for _ in range(min(n, 5))]}

    def index_fill(self, base, n):
        """regular, nearly regular and irregular index columns"""
        k = self.p['spacing'] if self.p['spacing'] != 'mixed' else self.pick(
            ('uniform', 'uniform', 'uniform', 'near', 'far', 'random', 'const', 'updown', 'steps'))
        if self.hc:
            k = 'uniform'
        isf = base.startswith('float')
        lo, hi = RANGE.get(base, (None, None))
        if n > 1000:
            return self.long_fill(base, n, k)
        if k == 'const':
            return {'vals': [self.pick((0, 5, 100))]}
        if isf:
            a = self.pick((0.0, 100.0, -50.5, 1000.25, 2500.0))
            st = self.pick((0.5, 1.0, -0.5, 0.1, -1.25, 0.1524, 1e-3, 250.0))
            if k == 'uniform':
                if base == 'float32':
                    st = self.pick((0.5, -0.5, 0.25, 1.0, -2.0))
                return {'lin': [a, st]}
            if k == 'near':
                dev = self.pick((0.001, 0.01, 0.02))
                v, out = a, []
                for i in range(n):
                    out.append(v)
                    v += st * (1 + self.r.uniform(-dev, dev))
                return {'vals': out}
            if k == 'far':
                dev = self.pick((0.06, 0.2, 0.9))
                v, out = a, []
                for i in range(n):
                    out.append(v)
                    v += st * (1 + self.pick((-dev, dev, 0)))
                return {'vals': out}
            if k == 'steps':
                v, out = a, []
                for i in range(n):
                    out.append(v)
                    v += self.pick((0.0, abs(st)))
                return {'vals': out if self.flip(0.5) else out[::-1]}
            if k == 'updown':
                return {'vals': [a + (i if i < n / 2 else n - i) for i in range(n)]}
            if self.flip(0.15):
                return {'vals': [self.pick((0.0, 1.0, math.inf, -math.inf, math.nan, 1e308, -1e308, 2.0)) for _ in range(n)]}
            return {'vals': [round(self.r.uniform(-100, 100), 2) for _ in range(n)]}
        # integers
        if k in ('uniform', 'near'):
            span = hi - lo
            st = self.pick((1, -1, 2, 10)) if n * 10 < span // 2 else 1
            if n > 1 and self.flip(0.2):
                st = (span // (n - 1)) * self.pick((1, -1))
            need = abs(st) * (n - 1)
            if need > span:
                return {'vals': [self.r.randint(0, 100) for _ in range(n)]}
            a = self.pick((lo, hi - need, self.r.randint(lo, hi - need)))
            seq = [a + abs(st) * i for i in range(n)]
            return {'vals': seq if st > 0 else seq[::-1]}
        vals = [self.r.randint(lo, hi) if self.flip(0.5) else self.pick((lo, hi, 0, 1, hi - 1)) for _ in range(n)]
        if k in ('far', 'steps'):
            vals.sort(reverse=self.flip(0.5))
        return {'vals': vals}

    def long_fill(self, base, n, k):
        """an index column of a long frame: a ramp, one or a few of its values replaced unless it is to be regular"""
        lo, hi = RANGE.get(base, (-10**9, 10**9))
        st = self.pick((1, -1, 2)) if hi - lo > 4 * n else 0 if hi - lo < n else 1
        a = self.r.randint(0, 100) + 2 * n if st < 0 else min(self.r.randint(0, 100), hi - n * st) if st else 5
        f = {'lin': [a, st]}
        if base.startswith('float') and self.flip(0.4):
            f = {'lin': [float(a), st * 0.5]}
        if k in ('uniform', 'const') and not self.flip(0.3):
            return f
        put = []
        for _ in range(self.pick((1, 1, 2))):
            i = self.pick((0, 1, n - 1, n - 2, n // 2, 1023, 1024, 4095, 4096, self.r.randrange(n), self.r.randrange(n)))
            put.append([i % n, self.pick((lo, hi, 0, 1, a, a + st * i + 1, a + st * n))])
        f['put'] = [x for x in put if lo <= x[1] <= hi]
        return f

    def add_frame(self, L):
        p = self.p
        n = self.rng(p['rows'])
        if self.flip(p['huge']):
            n = self.pick(HUGE)
        if L['frames'] and self.struct:
            n = L['nrows']
        L['nrows'] = n
        nch = self.rng(p['nchan'])
        index = self.flip(p['index'])
        chans = []
        names = set()
        for i in range(nch):
            kw = self.channel_kw(L)
            for _ in range(30):
                if isinstance(kw['name'], dict):
                    kw['name'] = kw['name']['$rep'][0] * kw['name']['$rep'][1]
                if kw['name'] not in names:
                    break
                kw['name'] = self.chname(L)
            else:
                self.uniq += 1
                kw['name'] = f"Q{self.uniq}"
            names.add(kw['name'])
            base, dt = self.dtype()
            cast = None
            if self.flip(p['cast']):
                cast = self.pick(UDTYPES if self.hc else DTYPES)
                if not base.startswith('float') and not cast.startswith('float') and self.flip(0.5):
                    cast = base
            if index and i == 0:
                shape = [n]
                fill = self.index_fill(base, n)
                if cast and base.startswith('float') and not cast.startswith('float'):
                    fill = self.fill(base, shape, cast)
                    if self.hc:
                        cast = None
                        fill = self.index_fill(base, n)
                elif cast and self.hc:
                    cast = None
                elif cast == 'float32' and self.hc:
                    cast = None
            else:
                w = self.rng(p['width'])
                if self.flip(p['bigwidth']):
                    w = self.pick((127, 128, 200, 300))
                if p['mega'] and self.flip(p['mega']):
                    w = self.pick(MEGAWIDTHS)
                shape = [n] if self.flip(p['scalar']) else [n, w]
                fill = self.fill(base, shape, cast)
            spec = {'dtype': dt, 'shape': shape, 'fill': fill}
            if p['layouts'] and self.flip(0.5):
                spec['layout'] = self.pick(('C', 'F', 'strided', 'neg', 'ro', 'offset', 'field', 'wide'))
            dim = shape[1:] or [1]
            if self.flip(0.2):
                kw['dimension'] = dim
            if self.flip(0.2):
                kw['element_limit'] = [d + self.pick((0, 0, 1, 10)) for d in dim] + ([1] if self.flip(0.2) else [])
            if self.flip(p['p_attr'] * 0.3):
                kw['axis'] = self.dims_axes(L, kw, dim)
            if cast and self.flip(0.8):
                kw['cast_dtype'] = self.castspec(cast)
            if self.flip(p['dsname']):
                self.uniq += 1
                ds = self.pick((f"ds{self.uniq}", f"grp{self.uniq}/ds", f"/abs{self.uniq}", f"d s {self.uniq}"))
                kw['dataset_name'] = ds
            inline = L['inline'] if L['inline'] is not None else self.flip(0.5)
            if inline:
                kw['data'] = {'$arr': spec}
                L['has_inline'] = True
            later = []
            if cast and 'cast_dtype' not in kw:
                later.append('cast')
            oid = self.emit(L, 'channel', kw)
            for k in later:
                L['late'].append(['cast', oid, self.castspec(cast)])
            L['chan'][oid] = {'spec': spec, 'inline': inline, 'name': kw['name'], 'ds': kw.get('dataset_name')}
            chans.append(oid)
        if not self.hc and L['frames'] and self.flip(p['shared_channel']):
            # a channel listed in two frames (allowed with a warning) - needs the same number of rows
            cands = [c for f in L['frames'] for c in f['chans']
                     if L['chan'][c]['spec']['shape'][0] == n and L['chan'][c]['name'] not in names]
            if cands:
                chans.append(self.pick(cands))
                names.add(L['chan'][chans[-1]]['name'])
        kw = self.base_kw(L, 'frame')
        for a in S.KINDS['frame'].attrs:
            if a.kw in ('channels', 'index_type', 'direction', 'spacing', 'index_min', 'index_max'):
                continue
            if self.flip(p['p_attr']):
                kw[a.kw] = self.wrap(a, self.value(L, 'frame', a))
        refs = [{'$ref': c} for c in chans]
        later = self.flip(p['later'] * 0.4)
        if later and not self.flip(0.3):
            kw['channels'] = refs[:1]
        else:
            kw['channels'] = refs
            later = False
        if index:
            kw['index_type'] = self.enum('FrameIndexType', True)
        for k in ('spacing', 'index_min', 'index_max'):
            if self.flip(p['index_user']):
                a = [x for x in S.KINDS['frame'].attrs if x.kw == k][0]
                r = self.r.random()
                if r < 0.6:
                    kw[k] = self.wrap(a, self.num())
                elif not self.hc:
                    kw[k] = {'$setup': {'units': self.unit()}}
        if self.flip(p['index_user'] * 0.3):
            kw['direction'] = self.pick(('INCREASING', 'DECREASING', 'x'))
        fid = self.emit(L, 'frame', kw)
        if later:
            L['late'].append(['set', fid, 'channels', 'value', refs])
        L['frames'].append({'id': fid, 'chans': chans, 'n': n, 'names': names})
        return fid

    def castspec(self, cast):
        r = self.r.random()
        if r < 0.7:
            return cast
        return 'dt:' + self.pick(('>', '<', '=')) + CODE[cast]

    def add_nofmt(self, L):
        pool = L['objs'].get('no_format', [])
        if not pool or self.flip(0.3):
            self.add_obj(L, 'no_format')
            pool = L['objs']['no_format']
        lo, hi = self.p['payload']
        r = self.r.random()
        n = self.pick((0, 1, 2, 3, 7, 8, 9, 11, 12, 13)) if r < 0.4 else self.r.randint(lo, hi)
        if self.flip(self.p['long']):
            n = self.pick((255, 256, 1000, 8180, 16380, 20000))
        if self.p['mega'] and self.flip(self.p['mega']):
            n = self.pick(MEGA) + self.pick((-12, -9, -2, -1, 0, 1, 2, 3, 8, 100))
            pl = {'$fill': [self.r.randrange(2**32), n, self.pick(('bytes', 'bytes', 'bytearray', 'str'))]}
        elif self.flip(0.3):
            pl = self.chars(PRINT if self.flip(0.8) else ''.join(chr(i) for i in range(128)), n)
        else:
            b = self.r.randbytes(n) if n < 300 else bytes([self.r.randrange(256)]) * n
            if n and self.flip(0.3):
                b = b[:-1] + bytes([self.pick((0, 1, 2, 3, n & 255, 255, 32))])
            pl = {self.pick(('$bytes', '$bytes', '$bytearray')): b.hex()}
        earlier = [op for op in L['ops'] if op[0] == 'nofmt']
        if earlier and self.flip(0.15):       # the same again, for the same object or another one
            op = self.pick(earlier) if self.flip(0.5) else earlier[-1]
            pl = op[3]
            if self.flip(0.6):
                L['ops'].append(list(op))
                return
        L['ops'].append(['nofmt', L['id'], self.pick(pool), pl])

    # ---------------------------------------------------------------- logical file, program
    def logical_file(self, idx, nlf):
        p = self.p
        lid = f"L{idx}"
        noneok = idx == self.none_lf
        L = {'id': lid, 'ops': [], 'late': [], 'objs': {}, 'all': [], 'frames': [], 'chan': {}, 'axes': {}, 'fixed_axes': set(),
             'limit': p['nobj'][1] + 30, 'orefs': [], 'nrows': None, 'has_inline': False,
             'setnames': ([None] if noneok else []) + [f"S{idx}", f"S{idx}-B"],
             'inline': {'inline': True, 'none': True}.get(self.src, False) if self.src != 'mixed' else None}
        if self.flip(self.p['spice'] * 1.5):     # set names which look like something else
            t = self.pick([x for x in SPICE if x]) if self.flip(0.6) else self.pick(tuple(S.SET_LABELS)) if self.flip(0.8) else ''.join(self.pick(PRINT) for _ in range(self.pick((1, 2, 254))))
            L['setnames'][-1] = t if nlf == 1 else (t + str(idx))[-255:] if self.flip(0.5) else f"{idx}{t}"[:255]
        kw = {}
        if self.flip(0.5):
            n = self.pick((0, 1, 10, 64, 65)) if self.flip(0.3) else self.r.randint(0, 65)
            s = ''.join(self.pick(SAFE if self.hc or self.flip(0.5) else PRINT) for _ in range(max(n, 1 if self.hc else 0)))
            kw['fh_id'] = s
        if self.flip(0.5):
            kw['fh_sequence_number'] = self.pick((1, 2, 9, 10, 99, 12345, 9999999999, 1000000000))
        if self.flip(0.3):
            kw['fh_identifier'] = self.pick('0A9Z-_' if self.hc else '0Aa z~')
        if self.flip(0.1):
            kw['hdr_obj'] = True
        L['ops'].append(['lf', lid, kw])
        no = self.rng(p['origins'])
        plan = []
        for i in range(no):
            plan.append(self.pick(OREF_EDGES) if self.flip(0.4) else None)
        taken, refs = set(), []
        for i, x in enumerate(plan):
            if x is not None and x in taken:
                x = plan[i] = None
            if x is None:
                x = i
                while x in taken:
                    x += 1
            taken.add(x)
            refs.append(x)
        # a later default must not collide with an explicit one chosen later: the library picks the next free reference
        L['orig_plan'] = plan
        L['orefs'] = refs
        first = self.flip(p['origin_first'])
        kinds = list(p['kinds']) if p['kinds'] is not None else [k for k in S.KINDS if k not in ('origin', 'frame', 'channel')]
        steps = ['frame'] * self.rng(p['nframes']) + ['nofmt'] * self.rng(p['nofmt'])
        steps += [self.pick(kinds) for _ in range(self.rng(p['nobj']))] if kinds else []
        if not self.hc and self.flip(p['orphan']):
            steps.append('channel')
        steps += ['origin'] * (no - 1)
        self.r.shuffle(steps)
        if first:
            steps.insert(0, 'origin')
        else:
            steps.insert(self.r.randint(0, len(steps)), 'origin')
        for s in steps:
            if s == 'frame':
                self.add_frame(L)
            elif s == 'nofmt':
                self.add_nofmt(L)
            else:
                self.add_obj(L, s)
        # object renames and forward references
        for oid in L['all']:
            kind = ''.join(c for c in oid if not c.isdigit())
            if self.flip(p['rename']):
                if kind == 'channel':
                    if any(oid in f['chans'] for f in L['frames']):
                        fs = [f for f in L['frames'] if oid in f['chans']]
                        nm = self.chname(L)
                        if isinstance(nm, dict):
                            nm = nm['$rep'][0] * nm['$rep'][1]
                        if any(nm in f['names'] for f in fs):
                            continue
                        for f in fs:
                            f['names'].add(nm)
                        L['late'].append(['name', oid, nm])
                        continue
                    nm = self.chname(L)
                else:
                    nm = self.name()
                if isinstance(nm, dict):
                    nm = nm['$rep'][0] * nm['$rep'][1]
                L['late'].append(['name', oid, nm])
            if kind != 'origin' and self.flip(p['orefs'] * 0.3) and L['orefs']:
                L['late'].append(['oref', oid, self.pick(L['orefs'])])
            if self.flip(p['reassign']) and kind in S.KINDS and kind not in ('origin', 'frame', 'channel'):
                free = [a for a in S.KINDS[kind].attrs if a.t in ('text', 'num', 'ident', 'eort', 'objref') and
                        a.kw not in CONSTRAINED.get(kind, ()) or (a.t.startswith('ref:') and a.kw not in CONSTRAINED.get(kind, ()))]
                if free:
                    a = self.pick(free)
                    n0 = len(L['all'])
                    v = self.late_value(L, kind, a)
                    if v is not None and len(L['all']) == n0:
                        self.assign_later(L, oid, a, v)
        # spread late ops: after the object they touch (here: simply at the end, shuffled but keeping per-object order)
        L['ops'].extend(self.shuffle_late(L['late']))
        return L

    def late_value(self, L, kind, a):
        if a.t.startswith('ref:'):
            pool = L['objs'].get(a.t[4:], [])
            if not pool:
                return None
            return [{'$ref': self.pick(pool)} for _ in range(self.r.randint(1, 4))] if a.multi else {'$ref': self.pick(pool)}
        if a.t == 'eort' and self.flip(0.5):
            pool = L['objs'].get('long_name', [])
            return {'$ref': self.pick(pool)} if pool else None
        if a.t == 'eort':
            return self.text()
        return self.value(L, kind, a)

    def shuffle_late(self, late):
        groups = {}
        for op in late:
            groups.setdefault(op[1], []).append(op)
        keys = [op[1] for op in late]
        self.r.shuffle(keys)
        return [groups[k].pop(0) for k in keys]

    def merge(self, lists):
        """interleave, keeping the order within each list"""
        idx = [0] * len(lists)
        left = [i for i, l in enumerate(lists) for _ in l]
        if self.flip(0.5):
            # bursts
            out = []
            live = [i for i, l in enumerate(lists) if l]
            while live:
                i = self.pick(live)
                for _ in range(self.r.randint(1, 6)):
                    if idx[i] < len(lists[i]):
                        out.append(lists[i][idx[i]])
                        idx[i] += 1
                if idx[i] >= len(lists[i]):
                    live.remove(i)
            return out
        if self.flip(0.5):
            self.r.shuffle(left)
        out = []
        for i in left:
            out.append(lists[i][idx[i]])
            idx[i] += 1
        return out

    def program(self):
        p = self.p
        self.hc = self.flip(p['hc'])
        self.n = 0
        self.uniq = 0
        self.src = self.pick(p['sources'])
        if self.src == 'inline' and self.flip(0.2) and 'dict' in p['sources']:
            self.src = 'mixed'
        self.struct = self.src == 'struct'
        nlf = self.rng(p['nlf'])
        self.none_lf = self.r.randrange(nlf) if self.flip(0.8) else -1
        self.own_type = self.flip(self.p['spice'] * 0.5)
        Ls = [self.logical_file(i, nlf) for i in range(nlf)]
        if self.struct and nlf > 1:
            pass
        ops = self.merge_lfs(Ls)
        prog = {'sul': self.sul(), 'hc': self.hc, 'ops': ops}
        w = self.write_opts(prog, Ls)
        if w is None:
            return None
        prog['ops'] = ops + [['write', w]]
        return prog

    def merge_lfs(self, Ls):
        heads = [L['ops'][:1] for L in Ls]
        rest = [L['ops'][1:] for L in Ls]
        if len(Ls) == 1:
            return heads[0] + rest[0]
        if self.flip(0.5):            # logical files created up front
            return [h[0] for h in heads] + self.merge(rest)
        # created as they come, in order
        out = []
        lists = [L['ops'] for L in Ls]
        idx = [0] * len(Ls)
        started = 1
        while any(idx[i] < len(lists[i]) for i in range(len(Ls))):
            live = [i for i in range(started) if idx[i] < len(lists[i])]
            if started < len(Ls) and (not live or self.flip(0.15)):
                i = started
                started += 1
            else:
                i = self.pick(live)
            out.append(lists[i][idx[i]])
            idx[i] += 1
        return out

    def sul(self):
        s = {}
        ml = self.p['maxlen']
        if ml == 'mixed':
            if self.flip(0.6):
                s['max_record_length'] = self.pick(MAXLENS) if self.flip(0.7) else self.r.randint(10, 8192) * 2
        elif ml == 'large':
            s['max_record_length'] = self.pick((256, 500, 1000, 2048, 4096, 8190, 8192, 16380, 16382, 16384))
        elif ml == 'small':
            s['max_record_length'] = self.pick(MAXLENS[:16])
        elif isinstance(ml, int):
            s['max_record_length'] = ml
        if self.flip(0.4):
            n = self.pick((1, 59, 60)) if self.flip(0.3) else self.r.randint(0, 60)
            s['set_identifier'] = ''.join(self.pick(SAFE if self.hc or self.flip(0.5) else PRINT)
                                          for _ in range(max(n, 1 if self.hc else 0)))
            if self.flip(0.2):
                s['set_identifier'] = self.spice(self.hc)
            elif s['set_identifier'] and not self.hc and self.flip(0.15):
                t = ' ' * self.pick((1, 2, 5, 59))
                s['set_identifier'] = (t + s['set_identifier'])[:60] if self.flip(0.5) else (s['set_identifier'] + t)[:60]
        elif self.hc and False:
            pass
        if self.flip(0.4):
            s['sul_sequence_number'] = self.pick((1, 2, 10, 99, 100, 999, 1000, 9999))
        if self.flip(0.1):
            s.setdefault('set_identifier', 'OBJ')
            s['obj'] = True
        return s

    def write_opts(self, prog, Ls):
        """data source and options for a write; needs the dataset names the library will assign -> model"""
        from .model import Model
        try:
            m = Model(prog).run()
        except Exception:
            raise
        need = []        # (dataset name, spec)
        seen = {}
        alln = []
        for L in Ls:
            for oid, c in L['chan'].items():
                used = any(oid in f['chans'] for f in L['frames'])
                ds = m.o[oid].dsname
                if not used:
                    continue
                alln.append(c['spec']['shape'][0])
                if c['inline']:
                    if ds in seen and self.src == 'mixed':
                        return None
                    continue
                if ds in seen:
                    # the same dataset name in two logical files / channels: must be the same data
                    if seen[ds]['shape'] != c['spec']['shape'] or seen[ds] != c['spec']:
                        return None
                    continue
                seen[ds] = c['spec']
                need.append([ds, c['spec']])
        for L in Ls:          # inline data of one logical file must not be shadowed by the dict
            for oid, c in L['chan'].items():
                if c['inline'] and m.o[oid].dsname in seen:
                    return None
        o = {}
        if need:
            kind = self.src if self.src in ('dict', 'struct', 'h5') else 'dict'
            if any(L['has_inline'] for L in Ls):
                kind = 'dict'
            sets = [list(x) for x in need]
            ns = {s['shape'][0] for _, s in sets}
            if kind == 'struct' and (len(ns) > 1 or any(not n or len(n) > 200 for n, _ in sets)):
                kind = 'dict'
            if kind == 'h5':
                names = [n for n, _ in sets]
                norm = [n.strip('/') for n in names]
                if len(set(norm)) < len(norm) or any(not n or '\0' in n or n in ('.', '..') or '//' in n or n.startswith('./') or
                                                     n.endswith('/') or '/.' in n or './' in n or '.' in n.split('/') for n in names) or \
                        any(a != b and (b + '/').startswith(a + '/') for a in norm for b in norm):
                    kind = 'dict'
            exact = kind == 'struct' and self.flip(self.p['exact'])
            if exact:           # the structured array is just what is written: the frame's channels in their order
                order = [m.o[c].dsname for L in Ls for f in L['frames'] for c in f['chans']]
                sets.sort(key=lambda x: order.index(x[0]))
            elif self.flip(self.p['extra_ds']):
                self.uniq += 1
                n0 = sets[0][1]['shape'][0]
                nx = n0 if kind == 'struct' or self.flip(0.5) else n0 + 3
                sets.append([f"unused{self.uniq}", {'dtype': 'float32', 'shape': [nx], 'fill': {'lin': [0, 1]}}])
            if not exact:
                self.r.shuffle(sets)
            src = {'kind': kind, 'sets': sets}
            if kind == 'struct':
                for k, q in (('align', 0.2), ('strided', 0.2), ('ro', 0.2)):
                    if self.flip(q):
                        src[k] = True
            if kind == 'h5':
                if self.flip(0.3):
                    src['chunked'] = self.pick((True, 'gzip'))
                if self.flip(0.2):
                    src['ext'] = 'hdf5'
                if self.flip(0.2):
                    src['pathlib'] = True
            o['data'] = src
        elif self.flip(0.1):
            o['data'] = {'kind': 'dict', 'sets': []}
        n = min(alln) if alln else 0
        if n and self.flip(self.p['window']):
            a = self.r.randint(0, n - 1)
            b = self.r.randint(a + 1, n)
            if self.flip(0.7):
                o['from'] = a
            if self.flip(0.7):
                o['to'] = b
        if self.flip(self.p['ichunk']):
            o['ichunk'] = self.pick((1, 2, 3, 5, 7, 100, n or 1, (n or 1) + 1, max(1, n - 1)))
        mx = prog['sul'].get('max_record_length', 8192)
        r = self.r.random()
        if r < 0.3:
            o['ochunk'] = mx + self.pick((0, 1, 2, 17, 100, 1000))
        elif r < 0.4:
            o['ochunk'] = self.pick((mx * 2, mx * 3 + 1, 65536))
        if o.get('ochunk') and self.flip(0.15):
            o['ochunk_float'] = True
        if self.flip(0.1):
            o['pathlib'] = True
        return o


HC_IDENT = {('axis', 'axis_id'), ('calibration_coefficient', 'label'), ('equipment', 'serial_number'),
            ('calibration_measurement', 'type'), ('group', 'object_type')}
CONSTRAINED = {
    'axis': ('coordinates',), 'parameter': ('values', 'zones', 'dimension', 'axis'),
    'computation': ('values', 'zones', 'dimension', 'axis'), 'zone': ('maximum', 'minimum', 'domain'),
    'splice': ('zones', 'input_channels'),
    'calibration_coefficient': ('coefficients', 'references', 'plus_tolerances', 'minus_tolerances'),
    'calibration_measurement': ('dimension', 'axis', 'maximum_deviation', 'standard_deviation', 'standard', 'plus_tolerance',
                                'minus_tolerance'),
}

# bit patterns (native little endian) worth seeing: NaN payloads, infinities, signed zeros, extremes
SPECIAL = {
    'float32': [x.to_bytes(4, 'little').hex() for x in
                (0x7F800000, 0xFF800000, 0x80000000, 0, 0x7FC00000, 0x7FC00001, 0xFFC12345, 0x7F800001, 0xFFBFFFFF, 0x00000001,
                 0x807FFFFF, 0x00800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x3F800000)],
    'float64': [x.to_bytes(8, 'little').hex() for x in
                (0x7FF0 << 48, 0xFFF0 << 48, 0x8000 << 48, 0, 0x7FF8 << 48, (0x7FF8 << 48) | 1, (0xFFF8 << 48) | 0x123456789,
                 (0x7FF0 << 48) | 1, 1, 0x000FFFFFFFFFFFFF, 0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF, 0x3FF0 << 48)],
    'int8': ['80', '7f', '00', 'ff', '01'], 'uint8': ['00', 'ff', '80', '7f', '01'],
    'int16': ['0080', 'ff7f', '0000', 'ffff', '0100', '00ff'], 'uint16': ['0000', 'ffff', '0080', 'ff7f', 'ff00', '0001'],
    'int32': ['00000080', 'ffffff7f', '00000000', 'ffffffff', '01000000'],
    'uint32': ['00000000', 'ffffffff', '00000080', 'ffffff7f', '01000000', '00010000'],
}


def swarm(full, prof, rnd):
    if rnd.random() >= full['swarm']:
        return {}
    out = {}
    for k in SWARM:
        if k in prof and k not in ('sources', 'special') or rnd.random() < 0.55:
            continue
        if k == 'sources':
            out[k] = (rnd.choice(full[k]),)
        elif k in ('native', 'scalar'):
            out[k] = rnd.choice((0.0, 1.0, 1.0))
        elif k == 'collide':
            out[k] = rnd.choice((0.0, 0.9))
        else:
            out[k] = False if k == 'layouts' else 0.0
    return out


def case(seed, prof=None):
    """a program for a seed (or the next one that works out)"""
    for i in range(50):
        rnd = random.Random(f"{seed}/{i}")
        g = G(rnd, {**(prof or {}), **swarm({**DEFAULT, **(prof or {})}, prof or {}, random.Random(f"{seed}/{i}/swarm"))})
        pr = g.program()
        if pr is not None:
            return pr
    raise RuntimeError('generator')
