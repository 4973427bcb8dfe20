"""Reference model: executes a program in pure Python and states what a written file must contain.

Independent of dliswriter: it knows the public API's documented meaning (schema.py) and the standard.
"""
import datetime as _dt
import re

import numpy as np

from . import schema as S
from .prog import base_array, dtype_of, fill_bytes

RC_OF = {'int8': 12, 'int16': 13, 'int32': 14, 'uint8': 15, 'uint16': 16, 'uint32': 17, 'float32': 2, 'float64': 7}


class Unmodelled(Exception):
    """The program does something the model has no opinion about."""


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return f"Ref({self.oid})"


def plain(v):
    """program value -> Python value (Ref for references), tuples become lists"""
    if isinstance(v, dict):
        if '$dt' in v:
            d = _dt.datetime.fromisoformat(v['$dt'])
            if v.get('tz') is not None:
                d = d.replace(tzinfo=_dt.timezone(_dt.timedelta(minutes=v['tz'])))
            if v.get('fold'):
                d = d.replace(fold=1)
            return d
        if '$np' in v:
            return getattr(np, v['$np'])(v['v']).item()
        k = next(iter(v))
        if k == '$ref':
            return Ref(v[k])
        if k == '$enumv':
            return v[k].split(':', 1)[1]
        if k == '$rep':
            return v[k][0] * v[k][1]
        if k == '$int':
            return int(v[k])
        if k == '$tuple':
            return [plain(x) for x in v[k]]
        if k == '$bytes':
            return bytes.fromhex(v[k])
        if k == '$fill':
            b = fill_bytes(v)
            return b if isinstance(b, str) else bytes(b)
        if k == '$bytearray':
            return bytes.fromhex(v[k])
        raise Unmodelled(f"value {v}")
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def flat(v):
    out = []
    for x in v:
        if isinstance(x, list):
            out.extend(flat(x))
        else:
            out.append(x)
    return out


def shape_of(v):
    """shape of a (regular) nested list"""
    sh = []
    while isinstance(v, list):
        sh.append(len(v))
        if not v:
            break
        v = v[0]
    return sh


DT_FORMATS = ("%Y/%m/%d %H:%M:%S", "%Y.%m.%d %H:%M:%S")


def parse_dt(s):
    for f in DT_FORMATS:
        try:
            return _dt.datetime.strptime(s, f)
        except ValueError:
            pass
    return None


# numbers given as text, which may come back as numbers; '1e5', 'nan' and the like are texts
NUMERAL = re.compile(r'^\s*[+-]?(\d[\d_]*|\d*\.\d+|\d+\.\d*|\d*\.\d*[eE][+-]?\d+)\s*$')


def norm1(x, t):
    """one user value -> (tag, value)"""
    if isinstance(x, Ref):
        return ('ref', x.oid)
    if isinstance(x, _dt.datetime):
        return ('dt', x.astimezone(_dt.timezone.utc))
    if isinstance(x, bool):
        x = int(x)
    if t in ('dtime', 'dtnum') and isinstance(x, str):
        d = parse_dt(x)
        if d is not None:
            return ('dt', d.astimezone(_dt.timezone.utc))
        if t == 'dtnum':
            return ('num', float(x))
        raise Unmodelled(f"date-time {x!r}")
    if isinstance(x, str):
        return ('numeral' if t == 'mixed' and NUMERAL.match(x) else 'text', x)
    if isinstance(x, (int, float)):
        return ('num', x)
    raise Unmodelled(f"value {x!r}")


class MAttr:
    __slots__ = ('val', 'raw', 'units')

    def __init__(self):
        self.val = None      # None or list of (tag, value)
        self.raw = None      # nested plain value
        self.units = None


class MObj:
    def __init__(self, oid, kind, lf, setname, name, oref):
        self.oid, self.kind, self.lf, self.setname, self.name, self.oref = oid, kind, lf, setname, name, oref
        self.spec = {a.kw: a for a in S.KINDS[kind].attrs}
        self.by_attr = {a.attr: a for a in S.all_attrs(kind)}
        self.attrs = {a.attr: MAttr() for a in S.all_attrs(kind)}
        self.cast = None
        self.dsname = None
        self.own = None          # (data-set name, array) given when it was added

    def assign(self, attr, v):
        """value in any of the accepted forms"""
        if isinstance(v, dict) and ('$dict' in v or '$setup' in v):
            parts = v.get('$dict') or v.get('$setup') or {}
            for p, x in parts.items():
                if '$setup' in v and x is None:
                    continue
                self.assign_part(attr, p, x)
            return
        self.assign_part(attr, 'value', v)

    def assign_part(self, attr, part, v):
        a = self.by_attr[attr]
        m = self.attrs[attr]
        x = plain(v)
        if part == 'units':
            m.units = x
            return
        if part != 'value':
            raise Unmodelled(part)
        if x is None:
            m.val = m.raw = None
            return
        if a.multi and not isinstance(x, list):
            x = [x]
        m.raw = x
        m.val = [norm1(e, a.t) for e in (flat(x) if isinstance(x, list) else [x])]

    def get(self, attr):
        return self.attrs[attr].val

    def refs(self, attr):
        return [o for t, o in (self.attrs[attr].val or []) if t == 'ref']


class MLf:
    def __init__(self, lid, kw):
        self.lid = lid
        self.fh_id = plain(kw.get('fh_id', 'FILE-HEADER'))
        self.ident = plain(kw.get('fh_identifier', '0'))
        self.seq = plain(kw.get('fh_sequence_number', 1))
        self.oref = None
        self.sets = {}        # kind -> {setname: [MObj]}
        self.data = {}        # inline data: dataset name -> array spec
        self.nofmt = []       # (oid, bytes)

    def objs(self, kind):
        return [o for lst in self.sets.get(kind, {}).values() for o in lst]

    def all(self):
        return [o for d in self.sets.values() for lst in d.values() for o in lst]

    def set_list(self):
        """[(kind, setname, objs)] in file order: ORIGIN sets first, then by first registration"""
        out = [('origin', n, l) for n, l in self.sets.get('origin', {}).items()]
        for k, d in self.sets.items():
            if k != 'origin':
                out.extend((k, n, l) for n, l in d.items())
        return out


class Model:
    def __init__(self, prog):
        self.prog = prog
        sul = dict(prog.get('sul') or {})
        self.sul = {'set_identifier': plain(sul.get('set_identifier', 'MAIN-STORAGE-UNIT')),
                    'seq': plain(sul.get('sul_sequence_number', 1)), 'max': plain(sul.get('max_record_length', 8192))}
        self.lfs = []
        self.lf = {}
        self.o = {}
        self.unmodelled = None

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        k = op[0]
        if k == 'lf':
            m = MLf(op[1], op[2])
            self.lfs.append(m)
            self.lf[op[1]] = m
        elif k == 'add':
            self._add(*op[1:])
        elif k == 'nofmt':
            d = plain(op[3])
            self.lf[op[1]].nofmt.append((op[2], d.encode('ascii') if isinstance(d, str) else d))
        elif k == 'set':
            _, oid, attr, part, v = op
            self.o[oid].assign_part(attr, part, v)
        elif k == 'setattrs':
            for a, v in op[2].items():
                self.o[op[1]].assign(a, v)
        elif k == 'name':
            self.o[op[1]].name = op[2]
        elif k == 'oref':
            self.o[op[1]].oref = op[2]
        elif k == 'cast':
            self.o[op[1]].cast = op[2]
        elif k == 'dsname':
            self.o[op[1]].dsname = op[2]
        elif k == 'hdr':
            for a, b in op[2].items():
                setattr(self.lf[op[1]], {'header_id': 'fh_id', 'sequence_number': 'seq'}[a], plain(b))
        elif k in ('touch', 'write'):
            pass
        else:
            raise Unmodelled(k)

    def _add(self, lid, kind, oid, kwargs):
        lf = self.lf[lid]
        kw = dict(kwargs)
        name = plain(kw.pop('name'))
        setname = plain(kw.pop('set_name', None))
        oref = plain(kw.pop('origin_reference', None))
        origins = lf.objs('origin')
        if kind == 'origin':
            if oref is None:
                taken = {x.oref for x in origins}
                oref = len(origins)
                while oref in taken:
                    oref += 1
        elif oref is None and origins:
            oref = origins[0].oref
        ob = MObj(oid, kind, lf, setname, name, oref)
        if kind == 'channel':
            data = kw.pop('data', None)
            ds = plain(kw.pop('dataset_name', None))
            ob.cast = kw.pop('cast_dtype', None)
            if isinstance(ob.cast, dict):
                ob.cast = ob.cast['$dtype']
            if ds is None:
                taken = {c.dsname for c in lf.objs('channel')}
                ds, i = name, 0
                while ds in taken:
                    i += 1
                    ds = f"{name}__{i}"
            ob.dsname = ds
        for a, v in kw.items():
            if v is None:
                continue
            if a not in ob.spec:
                raise Unmodelled(f"{kind}.{a}")
            ob.assign(ob.spec[a].attr, v)
        if kind == 'origin':
            ob.assign_part('file_id', 'value', lf.fh_id)
        lf.sets.setdefault(kind, {}).setdefault(setname or None, []).append(ob)
        self.o[oid] = ob
        if kind == 'channel' and data is not None:
            lf.data[ds] = data['$arr']
            ob.own = (ds, data['$arr'])
        if kind == 'origin' and not origins:
            lf.oref = oref
            for x in lf.all():
                if x.oref is None:
                    x.oref = oref

    def run(self, status=None, upto=None):
        """execute all ops; returns self"""
        for i, op in enumerate(self.prog['ops'] if upto is None else self.prog['ops'][:upto]):
            if op[0] == 'bad':
                if (status or {}).get(i) is None:
                    try:
                        self.apply(op[1])        # it was accepted
                    except (Unmodelled, KeyError, AttributeError, TypeError, ValueError) as e:
                        self.unmodelled = f"accepted {op[1][:3]}: {e}"
                continue
            self.apply(op)
        return self

    # ------------------------------------------------------------------ derived data
    def arrays(self, lf, src):
        """dataset name -> logical array, for one logical file and a write's data source"""
        d = dict(lf.data)
        if src is not None:
            if src['kind'] not in ('dict', 'struct', 'h5'):
                raise Unmodelled('source')
            for n, s in src['sets']:
                d[n] = s
        return d

    def frame_arrays(self, fr, opts):
        """[(channel, rows as written in native byte order)] for a frame under the write options"""
        d = self.arrays(fr.lf, opts.get('data'))
        h5 = (opts.get('data') or {}).get('kind') == 'h5'
        lf_data = fr.lf.data
        out = []
        for oid in fr.refs('channels'):
            ch = self.o[oid]
            key = ch.dsname
            if key not in d and h5:
                key = key.lstrip('/') if key.startswith('/') else '/' + key
            if key not in d:
                raise Unmodelled(f"dataset {ch.dsname}")
            if ch.own and ch.own[0] == key and d[key] is lf_data.get(key):
                a = base_array(ch.own[1])        # what was given with it, also if another channel came with the same data-set name
            else:
                a = base_array(d[key])
            a = a[opts.get('from') or 0: opts.get('to')]
            if ch.cast is not None:
                with np.errstate(all='ignore'):
                    a = a.astype(dtype_of(ch.cast).newbyteorder('='))
            out.append((ch, a))
        return out


def cast_rc(c):
    return RC_OF[dtype_of(c).name]


NUMERIC_LOOK = re.compile(r'^\s*[+-]?[\d_]*\.?[\d_]*([eE][+-]?\d+)?\s*$')


def looks_numeric(s):
    for p in (int, float):
        try:
            p(s)
            return True
        except ValueError:
            pass
    return False
