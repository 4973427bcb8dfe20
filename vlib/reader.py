"""Independent strict reader for RP66 V1 files.  Knows nothing about dliswriter.

Layers: storage unit label -> visible records -> logical record segments -> logical records ->
explicitly formatted records (component grammar) / indirectly formatted records (FDATA, NOFMT).
Every departure from the standard raises FormatError(layer, message).
"""
import datetime as _dt
import struct


class FormatError(Exception):
    def __init__(self, layer, msg):
        super().__init__(f"[{layer}] {msg}")
        self.layer = layer


# ----------------------------------------------------------------------------------------------- primitives
FSINGL, FDOUBL = 2, 7
SSHORT, SNORM, SLONG, USHORT, UNORM, ULONG, UVARI, IDENT, ASCII, DTIME, ORIGIN, OBNAME, OBJREF, ATTREF, STATUS, UNITS = \
    12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27

RC_NAMES = {2: 'FSINGL', 7: 'FDOUBL', 12: 'SSHORT', 13: 'SNORM', 14: 'SLONG', 15: 'USHORT', 16: 'UNORM', 17: 'ULONG',
            18: 'UVARI', 19: 'IDENT', 20: 'ASCII', 21: 'DTIME', 22: 'ORIGIN', 23: 'OBNAME', 24: 'OBJREF', 25: 'ATTREF',
            26: 'STATUS', 27: 'UNITS'}
FIXED = {2: '>f', 7: '>d', 12: '>b', 13: '>h', 14: '>i', 15: '>B', 16: '>H', 17: '>I'}
SIZES = {2: 4, 7: 8, 12: 1, 13: 2, 14: 4, 15: 1, 16: 2, 17: 4}
INT_CODES = {12, 13, 14, 15, 16, 17, 18}
FLOAT_CODES = {2, 7}
TEXT_CODES = {19, 20, 27}


class Cur:
    """Byte cursor."""
    __slots__ = ('b', 'p', 'layer')

    def __init__(self, b, layer, p=0):
        self.b, self.p, self.layer = b, p, layer

    def take(self, n, what='bytes'):
        if n < 0 or self.p + n > len(self.b):
            raise FormatError(self.layer, f"{what}: need {n} byte(s) at offset {self.p}, record has {len(self.b)}")
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def u8(self, what='USHORT'):
        return self.take(1, what)[0]

    def left(self):
        return len(self.b) - self.p


def rd_uvari(c):
    b0 = c.u8('UVARI')
    if b0 < 0x80:
        return b0
    if b0 < 0xC0:
        return ((b0 & 0x3F) << 8) | c.u8('UVARI')
    r = c.take(3, 'UVARI')
    return ((b0 & 0x3F) << 24) | (r[0] << 16) | (r[1] << 8) | r[2]


def _ascii(c, raw, what):
    try:
        return bytes(raw).decode('ascii')
    except UnicodeDecodeError:
        raise FormatError(c.layer, f"{what} holds non-ASCII bytes {bytes(raw)!r}")


def rd_ident(c, what='IDENT'):
    n = c.u8(what)
    return _ascii(c, c.take(n, what), what)


def rd_ascii(c, what='ASCII'):
    n = rd_uvari(c)
    return _ascii(c, c.take(n, what), what)


class Name:
    """Decoded OBNAME (+ type for OBJREF)."""
    __slots__ = ('origin', 'copy', 'name', 'type')

    def __init__(self, origin, copy, name, type_=None):
        self.origin, self.copy, self.name, self.type = origin, copy, name, type_

    def key(self):
        return (self.origin, self.copy, self.name)

    def __repr__(self):
        return f"<{self.type or ''}:{self.origin}&{self.copy}&{self.name!r}>"

    def __eq__(self, o):
        return isinstance(o, Name) and self.key() == o.key() and self.type == o.type

    def __hash__(self):
        return hash((self.key(), self.type))


def rd_obname(c):
    o = rd_uvari(c)
    k = c.u8('OBNAME copy')
    return Name(o, k, rd_ident(c, 'OBNAME identifier'))


def rd_objref(c):
    t = rd_ident(c, 'OBJREF type')
    n = rd_obname(c)
    n.type = t
    return n


class DTime:
    __slots__ = ('tz', 'dt')

    def __init__(self, tz, dt):
        self.tz, self.dt = tz, dt

    def __repr__(self):
        return f"<DTIME tz={self.tz} {self.dt.isoformat()}>"


def rd_dtime(c):
    r = c.take(8, 'DTIME')
    y, tzm, d, h, mn, s = r[:6]
    ms = (r[6] << 8) | r[7]
    tz, m = tzm >> 4, tzm & 15
    if tz > 2:
        raise FormatError(c.layer, f"DTIME time zone {tz}")
    if ms > 999:
        raise FormatError(c.layer, f"DTIME milliseconds {ms}")
    try:
        return DTime(tz, _dt.datetime(1900 + y, m, d, h, mn, s, ms * 1000))
    except ValueError as e:
        raise FormatError(c.layer, f"DTIME invalid: {e} {bytes(r)!r}")


def rd_value(c, rc):
    f = FIXED.get(rc)
    if f is not None:
        return struct.unpack(f, c.take(SIZES[rc], RC_NAMES[rc]))[0]
    if rc == UVARI or rc == ORIGIN:
        return rd_uvari(c)
    if rc == IDENT or rc == UNITS:
        return rd_ident(c, RC_NAMES[rc])
    if rc == ASCII:
        return rd_ascii(c)
    if rc == DTIME:
        return rd_dtime(c)
    if rc == OBNAME:
        return rd_obname(c)
    if rc == OBJREF:
        return rd_objref(c)
    if rc == STATUS:
        v = c.u8('STATUS')
        if v > 1:
            raise FormatError(c.layer, f"STATUS value {v}")
        return v
    raise FormatError(c.layer, f"undefined or unsupported representation code {rc}")


# ----------------------------------------------------------------------------------------------- framing
class Segment:
    __slots__ = ('vr', 'off', 'length', 'attr', 'type', 'body', 'pad')

    def __init__(self, vr, off, length, attr, typ, body, pad):
        self.vr, self.off, self.length, self.attr, self.type, self.body, self.pad = vr, off, length, attr, typ, body, pad

    eflr = property(lambda s: bool(s.attr & 0x80))
    pred = property(lambda s: bool(s.attr & 0x40))
    succ = property(lambda s: bool(s.attr & 0x20))


class Record:
    __slots__ = ('eflr', 'type', 'body', 'nseg', 'npad', 'index')

    def __init__(self, eflr, typ, body, nseg, npad, index):
        self.eflr, self.type, self.body, self.nseg, self.npad, self.index = eflr, typ, body, nseg, npad, index

    def key(self):
        return (self.eflr, self.type, self.body)

    def __repr__(self):
        return f"<{'E' if self.eflr else 'I'}FLR#{self.index} type {self.type} {len(self.body)} bytes {self.nseg} seg>"


class Sul:
    def __init__(self, b):
        L = 'SUL'
        if len(b) < 80:
            raise FormatError(L, f"file has only {len(b)} bytes")
        b = bytes(b[:80])
        try:
            t = b.decode('ascii')
        except UnicodeDecodeError:
            raise FormatError(L, f"label is not ASCII: {b!r}")
        self.text = t
        self.seq_field, self.version, self.structure, self.max_field, self.ident_field = \
            t[:4], t[4:9], t[9:15], t[15:20], t[20:80]
        if self.version != 'V1.00':
            raise FormatError(L, f"version field {self.version!r}")
        if self.structure != 'RECORD':
            raise FormatError(L, f"structure field {self.structure!r}")
        s, m = self.seq_field.strip(' '), self.max_field.strip(' ')
        if not s.isdigit():
            raise FormatError(L, f"sequence number field {self.seq_field!r}")
        if not m.isdigit():
            raise FormatError(L, f"maximum record length field {self.max_field!r}")
        self.seq, self.max = int(s), int(m)


def parse_framing(b):
    """-> (Sul, [(offset, length)] visible records, [Segment])"""
    sul = Sul(b)
    vrs, segs = [], []
    p, n = 80, len(b)
    L = 'VR'
    while p < n:
        if p + 4 > n:
            raise FormatError(L, f"{n - p} stray byte(s) after the last visible record at {p}")
        ln = (b[p] << 8) | b[p + 1]
        if b[p + 2] != 0xFF or b[p + 3] != 0x01:
            raise FormatError(L, f"format marker {bytes(b[p + 2:p + 4])!r} at {p}")
        if ln % 2:
            raise FormatError(L, f"odd visible record length {ln} at {p}")
        if ln < 20:
            raise FormatError(L, f"visible record length {ln} < 20 at {p}")
        if ln > sul.max:
            raise FormatError(L, f"visible record length {ln} > declared maximum {sul.max} at {p}")
        if p + ln > n:
            raise FormatError(L, f"visible record at {p} of length {ln} runs past end of file {n}")
        vi = len(vrs)
        vrs.append((p, ln))
        q, end = p + 4, p + ln
        while q < end:
            if q + 4 > end:
                raise FormatError('SEG', f"{end - q} stray byte(s) in visible record at {p}")
            sl = (b[q] << 8) | b[q + 1]
            at, ty = b[q + 2], b[q + 3]
            if sl % 2:
                raise FormatError('SEG', f"odd segment length {sl} at {q}")
            if sl < 16:
                raise FormatError('SEG', f"segment length {sl} < 16 at {q}")
            if q + sl > end:
                raise FormatError('SEG', f"segment at {q} length {sl} crosses visible record end {end}")
            if at & 0x1E:
                raise FormatError('SEG', f"attribute byte {at:#04x} at {q}: encryption/checksum/trailing length set")
            body = b[q + 4:q + sl]
            pad = 0
            if at & 1:
                pad = body[-1]
                if pad < 1 or pad > len(body):
                    raise FormatError('SEG', f"pad count {pad} in a segment body of {len(body)} at {q}")
                body = body[:len(body) - pad]
            segs.append(Segment(vi, q, sl, at, ty, body, pad))
            q += sl
        p += ln
    return sul, vrs, segs


def reassemble(segs):
    recs = []
    cur = None
    for s in segs:
        if cur is None:
            if s.pred:
                raise FormatError('LR', f"segment at {s.off} has predecessor flag but no record is open")
            cur = [s]
        else:
            f = cur[0]
            if not s.pred:
                raise FormatError('LR', f"segment at {s.off} lacks the predecessor flag inside an unfinished record")
            if s.type != f.type or s.eflr != f.eflr:
                raise FormatError('LR', f"segment at {s.off} differs in type/format from the record's first segment")
            cur.append(s)
        if not s.succ:
            recs.append(Record(cur[0].eflr, cur[0].type, b''.join(bytes(x.body) for x in cur), len(cur),
                               sum(x.pad for x in cur), len(recs)))
            cur = None
    if cur is not None:
        raise FormatError('LR', "last record is not terminated (successor flag on its last segment)")
    return recs


# ----------------------------------------------------------------------------------------------- EFLR
class Attr:
    __slots__ = ('label', 'count', 'rc', 'units', 'values', 'absent')

    def __init__(self, label, count, rc, units, values, absent=False):
        self.label, self.count, self.rc, self.units, self.values, self.absent = label, count, rc, units, values, absent

    def __repr__(self):
        if self.absent:
            return f"{self.label}=ABSENT"
        return f"{self.label}={self.values!r} [{RC_NAMES.get(self.rc, self.rc)} x{self.count} {self.units!r}]"


class Obj:
    __slots__ = ('name', 'attrs', 'settype', 'setname')

    def __init__(self, name, attrs, settype, setname):
        self.name, self.attrs, self.settype, self.setname = name, attrs, settype, setname

    def ident(self):
        return (self.settype,) + self.name.key()

    def __getitem__(self, label):
        return self.attrs[label]

    def get(self, label):
        """present attribute or None"""
        a = self.attrs.get(label)
        return None if a is None or a.absent else a

    def val(self, label):
        a = self.get(label)
        return None if a is None else a.values


class Set:
    def __init__(self, typ, name, template, objects, record):
        self.type, self.name, self.template, self.objects, self.record = typ, name, template, objects, record


def _component(c, bits, deflt, in_template, label=None):
    """Read an attribute component's fields; returns Attr"""
    if in_template:
        lab = rd_ident(c, 'attribute label') if bits & 0x10 else ''
    else:
        if bits & 0x10:
            raise FormatError(c.layer, "attribute component in an object carries a label")
        lab = label
    count = rd_uvari(c) if bits & 0x08 else (deflt.count if deflt else 1)
    rc = c.u8('representation code') if bits & 0x04 else (deflt.rc if deflt else IDENT)
    units = rd_ident(c, 'units') if bits & 0x02 else (deflt.units if deflt else '')
    if rc not in RC_NAMES:
        raise FormatError(c.layer, f"attribute {lab!r}: undefined representation code {rc}")
    if bits & 0x01:
        values = []
        for i in range(count):
            try:
                values.append(rd_value(c, rc))
            except FormatError as e:
                raise FormatError(c.layer, f"attribute {lab!r} value {i + 1}/{count} ({RC_NAMES[rc]}): {e}")
    else:
        values = None
        if not in_template:
            if deflt is not None and deflt.values is not None and not (bits & 0x0C):
                values = list(deflt.values)
            elif count != 0:
                raise FormatError(c.layer, f"attribute {lab!r}: announced (count {count}) but carries no value")
            else:
                values = []
    return Attr(lab, count, rc, units, values)


def parse_eflr(rec):
    L = f"EFLR#{rec.index}"
    c = Cur(rec.body, L)
    d = c.u8('set component')
    if d >> 5 != 0b111:
        raise FormatError(L, f"record does not start with a SET component ({d:#04x})")
    if not d & 0x10:
        raise FormatError(L, "SET component without type")
    if d & 0x07:
        raise FormatError(L, f"reserved bits in SET descriptor {d:#04x}")
    typ = rd_ident(c, 'set type')
    name = rd_ident(c, 'set name') if d & 0x08 else None
    if not typ:
        raise FormatError(L, "empty set type")
    template = []
    labels = set()
    while c.left():
        d = c.b[c.p]
        role = d >> 5
        if role == 0b011:
            break
        c.p += 1
        if role not in (0b001, 0b010):
            raise FormatError(L, f"component {d:#04x} in the template of {typ}")
        a = _component(c, d & 0x1F, None, True)
        if not a.label:
            raise FormatError(L, f"template attribute {len(template)} of {typ} has no label")
        if a.label in labels:
            raise FormatError(L, f"duplicate template label {a.label!r} in {typ}")
        labels.add(a.label)
        template.append((a, role == 0b010))
    if not template:
        raise FormatError(L, f"set {typ} has no template")
    objects = []
    active = [a for a, inv in template if not inv]
    while c.left():
        d = c.u8('object component')
        if d >> 5 != 0b011:
            raise FormatError(L, f"expected an OBJECT component in {typ}, got {d:#04x} at {c.p - 1} "
                                 f"(after {len(objects)} objects)")
        if d != 0x70:
            raise FormatError(L, f"OBJECT descriptor {d:#04x}")
        nm = rd_obname(c)
        attrs = {}
        i = 0
        while c.left() and (c.b[c.p] >> 5) != 0b011:
            d = c.u8()
            role = d >> 5
            if i >= len(active):
                raise FormatError(L, f"more attribute components than template attributes in object {nm} of {typ}")
            t = active[i]
            i += 1
            if role == 0b000:
                if d & 0x1F:
                    raise FormatError(L, f"reserved bits in absent-attribute descriptor {d:#04x} in {nm} of {typ}")
                attrs[t.label] = Attr(t.label, 0, t.rc, '', None, True)
            elif role == 0b001:
                attrs[t.label] = _component(c, d & 0x1F, t, False, t.label)
            else:
                raise FormatError(L, f"component {d:#04x} in object {nm} of {typ}")
        for t in active[i:]:
            attrs[t.label] = Attr(t.label, t.count, t.rc, t.units, t.values, t.values is None)
        for a, inv in template:
            if inv:
                attrs[a.label] = Attr(a.label, a.count, a.rc, a.units, a.values, a.values is None)
        objects.append(Obj(nm, attrs, typ, name))
    if c.left():
        raise FormatError(L, f"{c.left()} byte(s) left over")
    return Set(typ, name, [a for a, _ in template], objects, rec)


# ----------------------------------------------------------------------------------------------- logical files
class LogFile:
    def __init__(self):
        self.items = []        # in order: ('set', Set) | ('fdata', Fdata) | ('nofmt', NoFmt)
        self.sets = []
        self.objects = {}      # ident -> list[Obj]

    def objs(self, settype):
        return [o for s in self.sets if s.type == settype for o in s.objects]

    @property
    def header(self):
        return self.sets[0].objects[0]


class Fdata:
    __slots__ = ('ref', 'number', 'data', 'record', 'frame')

    def __init__(self, ref, number, data, record):
        self.ref, self.number, self.data, self.record, self.frame = ref, number, data, record, None


class NoFmt:
    __slots__ = ('ref', 'data', 'record')

    def __init__(self, ref, data, record):
        self.ref, self.data, self.record = ref, data, record


class DlisFile:
    def __init__(self, raw):
        self.raw = raw
        self.sul, self.vrs, self.segs = parse_framing(raw)
        self.records = reassemble(self.segs)
        self.logical_files = []


def parse_records(records):
    """records -> [LogFile]"""
    lfs = []
    cur = None
    for r in records:
        if r.eflr:
            s = parse_eflr(r)
            if s.type == 'FILE-HEADER':
                cur = LogFile()
                lfs.append(cur)
            if cur is None:
                raise FormatError('LF', f"record {r} ({s.type}) before any FILE-HEADER")
            cur.items.append(('set', s))
            cur.sets.append(s)
            for o in s.objects:
                cur.objects.setdefault(o.ident(), []).append(o)
        else:
            if cur is None:
                raise FormatError('LF', f"record {r} before any FILE-HEADER")
            c = Cur(r.body, f"IFLR#{r.index}")
            ref = rd_obname(c)
            if r.type == 0:
                num = rd_uvari(c)
                cur.items.append(('fdata', Fdata(ref, num, r.body[c.p:], r)))
            elif r.type == 1:
                cur.items.append(('nofmt', NoFmt(ref, r.body[c.p:], r)))
            else:
                raise FormatError('LF', f"indirectly formatted record of undefined type {r.type}")
    return lfs


def parse(raw):
    f = DlisFile(raw)
    f.logical_files = parse_records(f.records)
    return f


def frame_layout(lf, frame_obj):
    """[(channel Obj, code, n elements)] from the file's own descriptors; FormatError if a descriptor is unusable"""
    a = frame_obj.get('CHANNELS')
    if a is None:
        raise FormatError('FRAME', f"frame {frame_obj.name} lists no channels")
    out = []
    for ref in a.values:
        cands = lf.objects.get(('CHANNEL',) + ref.key(), [])
        if len(cands) != 1:
            raise FormatError('FRAME', f"frame {frame_obj.name}: channel reference {ref} resolves to {len(cands)} objects")
        ch = cands[0]
        rc, dim = ch.val('REPRESENTATION-CODE'), ch.val('DIMENSION')
        if rc is None or len(rc) != 1 or rc[0] not in SIZES:
            raise FormatError('FRAME', f"channel {ch.name}: representation code {rc}")
        if dim is None or not dim:
            raise FormatError('FRAME', f"channel {ch.name}: dimension {dim}")
        n = 1
        for d in dim:
            n *= d
        out.append((ch, rc[0], n))
    return out


NP_OF_RC = {12: '>i1', 13: '>i2', 14: '>i4', 15: '>u1', 16: '>u2', 17: '>u4', 2: '>f4', 7: '>f8'}


def frame_rows(lf):
    """{frame ident: [Fdata]} in file order; every reference must resolve"""
    res = {}
    for kind, x in lf.items:
        if kind == 'fdata':
            res.setdefault(x.ref.key(), []).append(x)
    return res
