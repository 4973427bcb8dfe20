"""Compare a written file with the reference model.  Every discrepancy is a Problem tagged with the properties it breaks."""
import datetime as _dt
import math
import re

import numpy as np

from . import reader as R
from . import schema as S
from .model import RC_OF, cast_rc, shape_of
from .prog import dtype_of

ALL = tuple(f"C{i:02d}" for i in range(1, 21))
# what an undecodable file means: every property that speaks about what a reader finds is broken, except those about the
# layers below the error, which did decode
BELOW = {'SUL': (), 'VR': (), 'SEG': (), 'LR': ('C01',)}
ABOVE_FRAMING = tuple(c for c in ALL if c not in ('C01', 'C02', 'C15', 'C19'))


def layer_tags(layer):
    if layer in BELOW:
        return tuple(c for c in ALL if c not in BELOW[layer])
    return ABOVE_FRAMING


class Problem:
    __slots__ = ('tags', 'msg')

    def __init__(self, tags, msg):
        self.tags = (tags,) if isinstance(tags, str) else tuple(tags)
        self.msg = msg

    def __repr__(self):
        return f"{'/'.join(self.tags)}: {self.msg}"


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n // 2] + f"...({len(s)})..." + s[-n // 2:]


# ------------------------------------------------------------------------------------------------ structure (no model)
def parse_problems(raw):
    """-> (file or None, [Problem])"""
    try:
        return R.parse(raw), []
    except R.FormatError as e:
        return None, [Problem(layer_tags(e.layer), str(e))]


def structure(f):
    """Everything the standard and the properties demand of a decoded file without knowing the specification."""
    P = []
    if not f.logical_files:
        P.append(Problem(('C09', 'C12'), 'no logical file in the file'))
    for n, lf in enumerate(f.logical_files):
        P.extend(structure_lf(lf, n))
    return P


def structure_lf(lf, n):
    P = []
    w = f"logical file {n}"
    h = lf.sets[0]
    if len(h.objects) != 1:
        P.append(Problem('C09', f"{w}: FILE-HEADER has {len(h.objects)} objects"))
    if [a.label for a in h.template] != ['SEQUENCE-NUMBER', 'ID']:
        P.append(Problem(('C09', 'C04'), f"{w}: FILE-HEADER template {[a.label for a in h.template]}"))
    if h.objects:
        for lab, ln in (('SEQUENCE-NUMBER', 10), ('ID', 65)):
            v = h.objects[0].val(lab)
            if v is None or len(v) != 1 or not isinstance(v[0], str) or len(v[0]) != ln:
                P.append(Problem('C09', f"{w}: FILE-HEADER {lab} is {v!r}"))
    # order of the sets
    kinds = [s.type for s in lf.sets]
    if kinds.count('FILE-HEADER') != 1:
        P.append(Problem('C09', f"{w}: FILE-HEADER occurs {kinds.count('FILE-HEADER')} times"))
    if len(kinds) < 2 or kinds[1] != 'ORIGIN':
        P.append(Problem('C09', f"{w}: FILE-HEADER is not followed by an ORIGIN set: {kinds[:4]}"))
    else:
        i = 1
        while i < len(kinds) and kinds[i] == 'ORIGIN':
            i += 1
        if 'ORIGIN' in kinds[i:]:
            P.append(Problem('C09', f"{w}: ORIGIN set not directly after the file header: {kinds}"))
    org = lf.objs('ORIGIN')
    if org and h.objects:
        fid, hid, fsn = org[0].val('FILE-ID'), h.objects[0].val('ID'), org[0].val('FILE-SET-NUMBER')
        if not fid or not hid or len(fid) != 1 or not isinstance(fid[0], str) or str(fid[0]).ljust(65) != hid[0]:
            P.append(Problem('C09', f"{w}: FILE-ID of the defining origin is {fid!r}, the header ID is {hid!r}"))
        if not fsn or len(fsn) != 1:
            P.append(Problem('C09', f"{w}: FILE-SET-NUMBER of the defining origin is {fsn!r}"))
    first_items = [k for k, x in lf.items[:2]]
    if first_items != ['set', 'set']:
        P.append(Problem('C09', f"{w}: an indirectly formatted record precedes the origin"))
    seen = set()
    for s in lf.sets:
        k = (s.type, s.name or None)
        if k in seen:
            P.append(Problem('C09', f"{w}: set {k} occurs twice"))
        seen.add(k)
        if not s.objects:
            P.append(Problem('C09', f"{w}: set {k} is empty"))
        if s.type in S.RECTYPE:
            if s.record.type != S.RECTYPE[s.type]:
                P.append(Problem(('C02', 'C04', 'C14'), f"{w}: set {s.type} in a record of type {s.record.type}"))
        else:
            P.append(Problem(('C04', 'C05'), f"{w}: unknown set type {s.type!r}"))
    # identities and references
    for ident, objs in lf.objects.items():
        if len(objs) != 1:
            P.append(Problem('C07', f"{w}: identity {ident} is shared by {len(objs)} objects"))
    origins = {o.name.origin for o in lf.objs('ORIGIN')}
    copies = {}
    for (st, (origin, copy, name)), objs in ((((i[0], i[1:])), x) for i, x in lf.objects.items()):
        if copies.setdefault((st, name, copy), origin) != origin:
            P.append(Problem('C07', f"{w}: two {st} objects called {name!r} have copy number {copy} (origins {copies[st, name, copy]} and {origin})"))
    byname = {}
    for ident in lf.objects:
        byname.setdefault(ident[1:], []).append(ident[0])
    for s in lf.sets:
        for o in s.objects:
            if o.name.origin not in origins:
                P.append(Problem('C07', f"{w}: {s.type} {o.name}: no ORIGIN with reference {o.name.origin} ({sorted(origins)})"))
            for a in o.attrs.values():
                for v in (a.values or []):
                    if isinstance(v, R.Name):
                        if v.type is not None:
                            if len(lf.objects.get((v.type,) + v.key(), ())) != 1:
                                P.append(Problem('C07', f"{w}: {s.type} {o.name}.{a.label}: reference {v} does not resolve"))
                        elif v.key() not in byname:
                            P.append(Problem('C07', f"{w}: {s.type} {o.name}.{a.label}: reference {v} does not resolve"))
    # indirectly formatted records
    defined = {}
    layouts = {}
    counters = {}
    for kind, x in lf.items:
        if kind == 'set':
            for o in x.objects:
                defined.setdefault((x.type,) + o.name.key(), []).append(o)
            continue
        st = 'FRAME' if kind == 'fdata' else 'NO-FORMAT'
        k = (st,) + x.ref.key()
        if len(defined.get(k, ())) != 1:
            P.append(Problem(('C07', 'C09') + (('C03',) if kind == 'fdata' else ('C16',)),
                             f"{w}: record {x.record}: {st} reference {x.ref} resolves to {len(defined.get(k, ()))} "
                             f"objects defined before it"))
            continue
        if kind == 'fdata':
            if k not in layouts:
                fr = defined[k][0]
                try:
                    lay = R.frame_layout(lf, fr)
                    for ch, _, _ in lay:
                        if ('CHANNEL',) + ch.name.key() not in defined:
                            P.append(Problem('C09', f"{w}: channel {ch.name} is defined after data of frame {fr.name}"))
                    layouts[k] = sum(R.SIZES[rc] * m for _, rc, m in lay)
                except R.FormatError as e:
                    layouts[k] = None
                    P.append(Problem(('C08', 'C03'), f"{w}: {e}"))
            if layouts[k] is not None and len(x.data) != layouts[k]:
                P.append(Problem(('C08', 'C03'), f"{w}: frame record {x.number} of {x.ref} holds {len(x.data)} bytes of data, "
                                                f"the frame's channels describe {layouts[k]}"))
                layouts[k] = None        # report once
            counters[k] = counters.get(k, 0) + 1
            if x.number != counters[k]:
                P.append(Problem(('C03', 'C18'), f"{w}: frame record of {x.ref} numbered {x.number}, expected {counters[k]}"))
                counters[k] = x.number
    for o in lf.objs('CHANNEL'):
        dim, el = o.val('DIMENSION'), o.val('ELEMENT-LIMIT')
        if dim and el and (len(el) < len(dim) or any(b < a for a, b in zip(dim, el))):
            P.append(Problem('C08', f"{w}: channel {o.name}: ELEMENT-LIMIT {el} does not bound DIMENSION {dim}"))
    return P


# ------------------------------------------------------------------------------------------------ values
def num_eq(user, got, rc):
    """the decoded number is exactly the user's"""
    if isinstance(got, bool) or not isinstance(got, (int, float)):
        return False
    if isinstance(user, float) and math.isnan(user):
        return isinstance(got, float) and math.isnan(got)
    if isinstance(got, float) and math.isnan(got):
        return False
    if user != got:                       # Python compares int and float exactly
        return False
    if isinstance(user, float) and user == 0 and isinstance(got, float):
        return math.copysign(1, user) == math.copysign(1, got)
    return True


UTC = _dt.timezone.utc


def value_problem(tag, v, got, rc, ctx):
    """None or a description; ctx: resolver oid -> (settype, key)"""
    if tag == 'num':
        if rc not in R.INT_CODES and rc not in R.FLOAT_CODES and rc != R.STATUS:
            return f"number {v!r} in code {R.RC_NAMES[rc]}"
        if not num_eq(v, got, rc):
            return f"expected {v!r}, decoded {got!r}"
    elif tag == 'text':
        if rc not in R.TEXT_CODES:
            return f"text {short(v)} in code {R.RC_NAMES[rc]}"
        if v != got:
            return f"expected {short(v)}, decoded {short(got)}"
    elif tag == 'numeral':
        if rc in R.TEXT_CODES:
            return None if v == got else f"expected {short(v)}, decoded {short(got)}"
        return value_problem('num', float(v) if '.' in v else int(v), got, rc, ctx)
    elif tag == 'dt':
        if rc != R.DTIME:
            return f"date-time {v} in code {R.RC_NAMES[rc]}"
        if got.tz != 2:
            return f"date-time {v}: time zone code {got.tz} instead of 2 (GMT)"
        if abs((got.dt.replace(tzinfo=UTC) - v).total_seconds()) >= 0.001:
            return f"expected {v.isoformat()}, decoded {got.dt.isoformat()}"
    elif tag == 'ref':
        if rc not in (R.OBNAME, R.OBJREF):
            return f"reference in code {R.RC_NAMES[rc]}"
        st, key = ctx(v)
        if key is None:
            return f"referenced object {v} is missing from the logical file"
        if got.key() != key:
            return f"expected a reference to {st} {key}, decoded {got}"
        if rc == R.OBJREF and got.type != st:
            return f"expected a reference of type {st}, decoded {got.type}"
    else:
        raise AssertionError(tag)
    return None


class Cmp:
    """Comparison of one written file with one model state."""

    def __init__(self, f, model, opts, hc=False, now=None, data=True):
        self.f, self.m, self.opts, self.hc, self.data = f, model, opts, hc, data
        self.now = now
        self.P = []
        self.map = {}          # oid -> decoded Obj
        self.arr = {}          # frame oid -> [(channel, array)]

    def bad(self, tags, msg):
        self.P.append(Problem(tags, msg))

    def run(self):
        self.sul()
        if len(self.f.logical_files) != len(self.m.lfs):
            self.bad(('C09', 'C18'), f"{len(self.f.logical_files)} logical files, expected {len(self.m.lfs)}")
            return self.P
        for n, (d, m) in enumerate(zip(self.f.logical_files, self.m.lfs)):
            self.lf(n, d, m)
        return self.P

    # -------------------------------------------------------------- storage unit label
    def sul(self):
        s, m = self.f.sul, self.m.sul
        if s.seq_field.strip(' ') != str(m['seq']):
            self.bad('C01', f"label: sequence number field {s.seq_field!r}, configured {m['seq']}")
        if s.max_field.strip(' ') != str(m['max']):
            self.bad('C01', f"label: maximum record length field {s.max_field!r}, configured {m['max']}")
        if s.ident_field.rstrip(' ') != m['set_identifier'].rstrip(' ') or len(s.ident_field) != 60:
            self.bad('C01', f"label: set identifier field {s.ident_field!r}, configured {m['set_identifier']!r}")

    # -------------------------------------------------------------- logical file
    def lf(self, n, d, m):
        w = f"logical file {n}"
        h = d.sets[0]
        if h.objects:
            o = h.objects[0]
            sv, iv = o.val('SEQUENCE-NUMBER'), o.val('ID')
            if sv and sv[0] != str(m.seq).rjust(10):
                self.bad(('C09', 'C18'), f"{w}: SEQUENCE-NUMBER {sv[0]!r}, expected {m.seq} right-justified in 10")
            if iv and iv[0] != m.fh_id.ljust(65):
                self.bad(('C09', 'C18'), f"{w}: header ID {iv[0]!r}, expected {m.fh_id!r} left-justified in 65")
            if o.name.name != m.ident:
                self.bad(('C05', 'C09'), f"{w}: file header is named {o.name.name!r}, expected {m.ident!r}")
            if m.oref is not None and o.name.origin != m.oref and m.oref in {x.oref for x in m.objs('origin')}:
                self.bad('C07', f"{w}: file header has origin {o.name.origin}, the defining origin is {m.oref}")
        # sets
        dec = {}
        for s in d.sets[1:]:
            dec.setdefault((s.type, s.name or None), []).append(s)
        exp = {(S.KINDS[k].settype, nm): objs for k, nm, objs in m.set_list()}
        for k in dec:
            if k not in exp:
                self.bad(('C05', 'C09', 'C18', 'C20'), f"{w}: unexpected set {k} with {[o.name for o in dec[k][0].objects]}")
        for k in exp:
            if k not in dec and exp[k]:
                self.bad(('C05', 'C18', 'C20'), f"{w}: set {k} with {[o.name for o in exp[k]]} is missing")
        for k, objs in exp.items():
            if k not in dec:
                continue
            got = dec[k][0].objects
            pools = {}
            for o in got:
                pools.setdefault(o.name.name, []).append(o)
            for o in objs:
                pool = pools.get(o.name)
                if pool:
                    self.map[o.oid] = pool.pop(0)
                else:
                    self.bad(('C05', 'C18', 'C20'), f"{w}: object {k} {o.name!r} is missing; the set holds {short([x.name for x in got])}")
            extra = [x.name for p in pools.values() for x in p]
            if extra:
                self.bad(('C05', 'C18', 'C20'), f"{w}: set {k} holds unexpected objects {short(extra)}")
        org = [x for x in m.sets.get('origin', {}).values()]
        if org and org[0]:
            defo = org[0][0]
            sets = [s for s in d.sets if s.type == 'ORIGIN']
            if sets and sets[0].objects and sets[0].objects[0] is not self.map.get(defo.oid):
                self.bad('C09', f"{w}: the first ORIGIN object is {sets[0].objects[0].name}, not the defining origin {defo.name!r}")
        # copy numbers
        for k in m.sets:
            seen = {}
            for o in m.objs(k):
                g = self.map.get(o.oid)
                if g is None:
                    continue
                key = g.name.key()
                if key in seen:
                    self.bad('C07', f"{w}: {k} objects {seen[key]} and {o.oid} share the identity {g.name}")
                seen[key] = o.oid
        self.cur, self.curd = m, d
        self.frames(m)
        for o in m.all():
            g = self.map.get(o.oid)
            if g is not None:
                self.obj(w, o, g)
        if self.data:
            self.rows(w, m, d)
            self.nofmt(w, m, d)

    def target(self, oid):
        o = self.m.o[oid]
        g = self.map.get(oid)
        return S.KINDS[o.kind].settype, (g.name.key() if g is not None else None)

    # -------------------------------------------------------------- objects
    def obj(self, w, o, g):
        st = S.KINDS[o.kind].settype
        where = f"{w}: {st} {o.name!r}"
        if o.oref is not None and g.name.origin != o.oref:
            self.bad(('C07', 'C05', 'C18'), f"{where}: origin field {g.name.origin}, expected {o.oref}")
        dflt = self.defaults(o)
        for a in S.all_attrs(o.kind):
            if a.label not in g.attrs:
                self.bad(('C04', 'C05'), f"{where}: no attribute {a.label} in the template")
                continue
            self.attr(where, o, a, g.attrs[a.label], dflt.get(a.attr))
        known = {a.label for a in S.all_attrs(o.kind)}
        for lab in g.attrs:
            if lab not in known:
                self.bad(('C04', 'C05'), f"{where}: attribute {lab!r} is not defined by the standard for this type")

    def attr(self, where, o, a, got, dflt):
        m = o.attrs[a.attr]
        tags = ('C05',)
        if a.t.startswith('ref') or a.t == 'objref':
            tags = ('C05', 'C07')
        exp = m.val
        where = f"{where}.{a.label}"
        if exp == [] and dflt is not None and (got.absent or not got.values):
            return              # an empty list, encoded as such; else treated as not assigned
        if (exp is None or exp == []) and dflt is not None:
            dflt(where, got)
            if m.units is not None and not got.absent and got.values and got.units != m.units:
                self.bad('C05', f"{where}: units {got.units!r}, expected {m.units!r}")
            return
        if a.t == 'rcode':
            return
        if o.kind == 'frame' and a.attr in ('index_min', 'index_max', 'spacing', 'direction') and exp is not None:
            tags = tags + ('C13',)
        if exp is None or exp == []:
            if not got.absent and got.values:
                self.bad(tags, f"{where}: never assigned, but decodes as {short(got)}")
            return
        if got.absent or not got.values:
            self.bad(tags, f"{where}: assigned {short(exp)}, but decodes as absent")
            return
        if len(got.values) != len(exp):
            self.bad(tags, f"{where}: {len(exp)} values assigned, {len(got.values)} decoded: {short(got)}")
            return
        if a.t == 'objref' and got.rc != R.OBJREF:
            self.bad(tags, f"{where}: reference without type ({R.RC_NAMES[got.rc]})")
        for i, ((t, v), x) in enumerate(zip(exp, got.values)):
            p = value_problem(t, v, x, got.rc, self.target)
            if p is None and t == 'ref' and got.rc == R.OBNAME and self.m.o[v].kind != self.ref_kind(a):
                p = f"a {self.m.o[v].kind} is referenced without its type"
            if p:
                self.bad(tags, f"{where}[{i}]: {p}")
                break
        u = m.units or ''
        if got.units != u:
            if o.kind == 'frame' and not u and a.attr in ('index_min', 'index_max', 'spacing') and o.get('index_type'):
                iu = self.index_units(o)
                if got.units in ('', iu):
                    return
            self.bad(tags[:1], f"{where}: units {got.units!r}, expected {u!r}")

    @staticmethod
    def ref_kind(a):
        if a.t.startswith('ref:'):
            return a.t[4:]
        if a.t == 'eort':
            return 'long_name'
        return None

    def index_units(self, fr):
        chs = fr.refs('channels')
        u = self.m.o[chs[0]].get('units') if chs else None
        return u[0][1] if u else ''

    # -------------------------------------------------------------- write-time defaults
    def frames(self, m):
        self.chshape = {}
        self.chrc = {}
        for fr in m.objs('frame'):
            try:
                rows = m and self.m.frame_arrays(fr, self.opts)
            except Exception as e:      # the library accepted something the model cannot follow
                self.bad(('C12', 'C03'), f"frame {fr.name!r}: {type(e).__name__}: {e}, but the file was written")
                rows = None
            self.arr[fr.oid] = rows
            for ch, a in rows or []:
                self.chshape[ch.oid] = list(a.shape[1:]) or [1]
                self.chrc[ch.oid] = RC_OF.get(a.dtype.name)

    def expect(self, tags, values, codes=None, units=None, may_absent=False):
        def chk(where, got):
            if got.absent or not got.values:
                if not may_absent and values is not None:
                    self.bad(tags, f"{where}: expected {values!r}, decodes as absent")
                return
            if values is None:
                self.bad(tags, f"{where}: never assigned, but decodes as {short(got)}")
                return
            if len(got.values) != len(values) or not all(x == y or (x != x and y != y) for x, y in zip(values, got.values)):
                self.bad(tags, f"{where}: expected {values!r}, decoded {short(got.values)}")
            elif codes and got.rc not in codes:
                self.bad(tags, f"{where}: representation code {R.RC_NAMES[got.rc]}")
            if units is not None and got.units not in units:
                self.bad(('C05',), f"{where}: units {got.units!r}, never assigned")
        return chk

    def defaults(self, o):
        d = {}
        k = o.kind
        if k == 'origin':
            d['field_name'] = self.expect('C05', ['WILDCAT'], R.TEXT_CODES)
            lst = o.lf.sets['origin'][o.setname]

            def fsn(where, got):
                if got.absent or not got.values or len(got.values) != 1 or not isinstance(got.values[0], int):
                    self.bad(('C09', 'C05'), f"{where}: {short(got)}")
                elif got.values[0] < 1:
                    self.bad(('C09', 'C05'), f"{where}: {got.values[0]}")
                elif self.hc and got.values[0] != lst.index(o) + 1:
                    self.bad('C17', f"{where}: {got.values[0]} in high-compatibility mode, expected {lst.index(o) + 1}")
            d['file_set_number'] = fsn

            def ct(where, got):
                if got.absent or not got.values or len(got.values) != 1 or not isinstance(got.values[0], R.DTime):
                    self.bad('C05', f"{where}: {short(got)}")
                elif self.now is not None:
                    t = got.values[0]
                    off = abs((t.dt.replace(tzinfo=UTC) - self.now).total_seconds())
                    if t.tz != 2 or off > 1800:
                        self.bad('C05', f"{where}: {t} is not the time of creation ({self.now})")
            d['creation_time'] = ct
        elif k == 'channel':
            d['long_name'] = self.expect('C05', [o.name], R.TEXT_CODES)
            dim = o.get('dimension')
            el = o.get('element_limit')
            dim = [v for _, v in dim] if dim else None
            el = [v for _, v in el] if el else None
            sh = self.chshape.get(o.oid)
            d['dimension'] = self.expect(('C08', 'C05'), sh or el, (R.UVARI,))
            d['element_limit'] = self.expect(('C08', 'C05'), dim or sh, (R.UVARI,))
            if o.cast is not None:
                rc = cast_rc(o.cast)
            else:
                rc = self.chrc.get(o.oid)
            d['representation_code'] = self.expect(('C08', 'C05'), [rc] if rc is not None else None, (R.USHORT,))
        elif k == 'frame':
            rows = self.arr.get(o.oid)
            if rows:
                self.frame_defaults(o, rows[0][1], d)
        elif k in ('parameter', 'computation'):
            v = o.attrs['values'].raw
            if v:
                sh = shape_of(v)[1:]
                d['dimension'] = self.expect('C05', sh or [1], (R.UVARI,))
        elif k == 'calibration_measurement':
            for at in ('maximum_deviation', 'standard_deviation', 'standard', 'plus_tolerance', 'minus_tolerance',
                       'measurement', 'reference'):
                v = o.attrs[at].raw
                if v:
                    sh = shape_of(v)[1:]
                    d['dimension'] = self.expect('C05', sh or [1], (R.UVARI,), may_absent=not sh or at in ('measurement', 'reference'))
                    break
        return d

    def frame_defaults(self, o, idx, d):
        n = idx.shape[0]
        if not o.get('index_type'):
            d['spacing'] = self.expect(('C13', 'C05'), [1], may_absent=True, units=(o.attrs['spacing'].units or '',))
            d['index_min'] = self.expect(('C13', 'C05'), [1], units=(o.attrs['index_min'].units or '',))
            d['index_max'] = self.expect(('C13', 'C05'), [n], units=(o.attrs['index_max'].units or '',))
            return
        if idx.ndim != 1 or n == 0:
            return
        iu = self.index_units(o)
        x = idx.astype(np.float64) if idx.dtype.kind == 'f' else idx.astype(object)
        nan = idx.dtype.kind == 'f' and bool(np.isnan(idx).any())
        mn, mx = (None, None) if nan else ((float(idx.min()), float(idx.max())) if idx.dtype.kind == 'f'
                                          else (int(idx.min()), int(idx.max())))

        def units_ok(at, got, where):
            if o.attrs[at].units is None and got.units not in ('', iu):
                self.bad(('C13', 'C05'), f"{where}: units {got.units!r}; the index channel's are {iu!r}")

        def minmax(at, val):
            def chk(where, got):
                if got.absent or not got.values:
                    self.bad(('C13',), f"{where}: absent; the rows written give {val!r}")
                    return
                if not nan and (len(got.values) != 1 or got.values[0] != val):
                    self.bad('C13', f"{where}: {short(got.values)}; the rows written give {val!r}")
                units_ok(at, got, where)
            return chk
        d['index_min'] = minmax('index_min', mn)
        d['index_max'] = minmax('index_max', mx)
        if nan:
            def no_nan(where, got):
                if got.values and any(isinstance(v, float) and math.isnan(v) for v in got.values):
                    self.bad('C13', f"{where}: NaN")
            d['spacing'] = no_nan
            d['direction'] = lambda where, got: None
            return
        if n < 2:
            d['spacing'] = self.expect('C13', None)
            d['direction'] = self.expect('C13', None)
            return
        with np.errstate(all='ignore'):
            df = np.array([float(b) - float(a) if idx.dtype.kind == 'f' else float(b - a) for a, b in zip(x[:-1], x[1:])])
        fin = bool(np.isfinite(df).all())
        dmin, dmax = (float(df.min()), float(df.max())) if fin else (math.nan, math.nan)
        med = float(np.median(df)) if fin else math.nan
        if not fin:
            uniform = False
        elif dmin == dmax:
            uniform = True if dmin != 0 else None
        elif med == 0:
            uniform = False
        else:
            with np.errstate(all='ignore'):
                dev = float(np.max(np.abs(1 - df / med)))
            uniform = True if dev < 0.025 else (False if dev > 0.04 else None)
            if uniform is False and not np.isfinite(dev):
                uniform = None
        inc = fin and dmin >= 0 and dmax > 0
        dec = fin and dmax <= 0 and dmin < 0
        if not fin:
            up = all(not b < a for a, b in zip(x[:-1], x[1:]))
            down = all(not b > a for a, b in zip(x[:-1], x[1:]))
            inc, dec = (up and not down), (down and not up)
        user_spacing = o.get('spacing') is not None

        def spacing(where, got):
            present = not got.absent and bool(got.values)
            if present and uniform is False:
                self.bad('C13', f"{where}: {short(got.values)}, but the index differences {short(sorted(set(df.tolist())))} "
                                f"are not uniform")
            elif not present and uniform is True:
                self.bad('C13', f"{where}: absent, but the index differences are uniform ({dmin}..{dmax})")
            elif present and fin:
                v = got.values[0]
                eps = (1e-6 * max(abs(dmin), abs(dmax)) + 3e-7 * max(abs(mn), abs(mx)) if idx.dtype == np.float32
                       else 1e-12 * max(abs(dmin), abs(dmax)))
                if len(got.values) != 1 or not (dmin - eps <= v <= dmax + eps):
                    self.bad('C13', f"{where}: {v!r}, the index differences are {dmin!r}..{dmax!r}")
            if present:
                units_ok('spacing', got, where)

        def direction(where, got):
            present = not got.absent and bool(got.values)
            v = got.values[0] if present else None
            want = 'INCREASING' if inc else ('DECREASING' if dec else None)
            if present:
                if v != want:
                    self.bad('C13', f"{where}: {v!r}; the index is {want or 'not monotonic'}")
            elif uniform is False and want and fin and not user_spacing:
                self.bad('C13', f"{where}: absent, the index is not uniform but {want}")
        d['spacing'] = spacing
        d['direction'] = direction

    # -------------------------------------------------------------- data
    def rows(self, w, m, d):
        recs = R.frame_rows(d)
        frames = {}
        short_of = []
        for fr in m.objs('frame'):
            g = self.map.get(fr.oid)
            if g is None:
                continue
            key = g.name.key()
            frames[key] = fr
            rows = self.arr.get(fr.oid)
            if rows is None:
                continue
            got = recs.get(key, [])
            n = rows[0][1].shape[0] if rows else 0
            if any(a.shape[0] != n for _, a in rows):
                self.bad('C12', f"{w}: frame {fr.name!r}: channels with {[a.shape[0] for _, a in rows]} rows were written")
                continue
            if len(got) != n:
                self.bad(('C03', 'C11', 'C18'), f"{w}: frame {fr.name!r}: {len(got)} data records for {n} rows")
                short_of.append((n - len(got), fr))
            exp = b''
            cols = []
            for ch, a in rows:
                b = np.ascontiguousarray(a).reshape(n, -1)
                be = np.frombuffer(b.tobytes(), dtype=b.dtype)
                if be.dtype.itemsize > 1:
                    be = be.byteswap()          # keeps every bit, NaN payloads included
                cols.append((ch, be.reshape(n, -1).view(np.uint8).reshape(n, -1) if n else None))
            for i in range(min(n, len(got))):
                if got[i].number != i + 1:
                    self.bad(('C03', 'C18'), f"{w}: frame {fr.name!r}: record {i + 1} is numbered {got[i].number}")
                    break
                exp = b''.join(c[i].tobytes() for _, c in cols)
                if got[i].data != exp:
                    self.bad(('C03', 'C11', 'C18'), f"{w}: frame {fr.name!r}, row {i + 1}: " + self.row_diff(cols, i, got[i].data))
                    break
            # slots decoded by the file's own descriptors must be the channel's
            try:
                lay = R.frame_layout(d, g)
            except R.FormatError as e:
                self.bad(('C08', 'C03'), f"{w}: {e}")
                continue
            for (ch, a), (_, rc, cnt) in zip(rows, lay):
                if a.dtype.name not in RC_OF:
                    self.bad('C12', f"{w}: channel {ch.name!r} of dtype {a.dtype} was written")
                elif RC_OF[a.dtype.name] != rc or cnt != int(np.prod(a.shape[1:])):
                    self.bad(('C08', 'C03'), f"{w}: channel {ch.name!r} is described as {R.RC_NAMES[rc]} x {cnt}, "
                                            f"its data are {a.dtype} {a.shape[1:]}")
        for key in recs:
            if key not in frames:
                self.bad(('C18', 'C03', 'C07'), f"{w}: data records refer to a frame {key} which is not in the specification")
        if any(k > 0 for k, _ in short_of) and any(k < 0 for k, _ in short_of) and sum(k for k, _ in short_of) == 0:
            self.bad('C07', f"{w}: rows of one frame refer to another: " + ', '.join(
                f"{fr.name!r} {self.target(fr.oid)[1]} has {'%+d' % -k} records" for k, fr in short_of))

    @staticmethod
    def row_diff(cols, i, data):
        p = 0
        for ch, c in cols:
            e = c[i].tobytes()
            g = data[p:p + len(e)]
            if g != e:
                return f"channel {ch.name!r}: expected {e.hex()[:80]}, found {g.hex()[:80]}"
            p += len(e)
        return f"{len(data) - p} surplus bytes"

    def nofmt(self, w, m, d):
        got = [x for k, x in d.items if k == 'nofmt']
        exp = m.nofmt
        if len(got) != len(exp):
            self.bad(('C16', 'C18'), f"{w}: {len(got)} no-format records, {len(exp)} added")
        for i, (x, (oid, b)) in enumerate(zip(got, exp)):
            key = self.target(oid)[1]
            if key is not None and x.ref.key() != key:
                self.bad(('C16', 'C07'), f"{w}: no-format record {i}: under {x.ref}, expected {key}")
                break
            if x.data != b:
                self.bad('C16', f"{w}: no-format record {i}: {len(x.data)} bytes {x.data.hex()[:60]}, expected {len(b)} bytes "
                                f"{b.hex()[:60]}")
                break


def compare(raw, model, opts, hc=False, now=None, data=True):
    """-> [Problem]; parse, structure and model comparison"""
    f, P = parse_problems(raw)
    if f is None:
        return P
    P = structure(f)
    if model.unmodelled:
        return P
    return P + Cmp(f, model, opts, hc, now, data).run()
