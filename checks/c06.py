"""C06 - primitive values are encoded exactly as their representation code prescribes."""
import copy
import json
import math
import random

from vlib import codec, gen, model, oracle, prog
from vlib import schema as S
from vlib.base import EASTERN, NOW, Check, describe, execute
from vlib.runner import Outcome

BIG = [10**9, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63, 2**64, 10**30]
INTS = sorted({e + d for e in (0, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 2**30 - 1, 2**30, 2**31, 2**32, 3221225472)
               for d in (-1, 0, 1)} | {-x for x in (1, 2, 127, 128, 129, 255, 32767, 32768, 32769, 2**31 - 1, 2**31, 2**31 + 1)} | set(BIG))
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 0.1, 255.0, 256.0, 65536.0, 1e10, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, 1e308,
          5e-324, 1e-45, 1.401298464324817e-45, math.inf, -math.inf, math.nan, 16777217.0]
LENS = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 16383, 16384, 16385, 70000]
NONASCII = ['\u00e9', 'a\u0080', '\u0394t', 'm\u00b2', '\u65e5\u672c', '\ud800', 'x\u00ff', '\U0001f600', '\u0100']
DTS = ['1900-01-01T00:00:00', '1900-01-01T12:00:00.001000', '1899-12-31T23:59:59.999000', '2155-12-31T23:59:59.999000', '2156-01-01T00:00:00',
       '1970-01-01T00:00:00', '2000-02-29T23:59:59.999000', '1987-04-19T21:20:15.620000', '2100-02-28T23:59:59', '1899-06-01T00:00:00',
       '2300-01-01T00:00:00', '1800-01-01T00:00:00', '9999-12-31T23:59:59', '0001-01-01T00:00:00', '2024-03-10T02:30:00', '2024-11-03T01:30:00']
NUMCODES = ['USHORT', 'UNORM', 'ULONG', 'UVARI', 'SSHORT', 'SNORM', 'SLONG', 'STATUS', 'FSINGL', 'FDOUBL']


class C06(Check):
    id = 'C06'
    quick = 6
    rule = ('(a) direct: sequences of (code, value) given to the writer\'s struct functions in one process - every code with integers '
            'around every power of two that matters, bools, floats, numpy scalars, texts of lengths around every length-prefix '
            'boundary, non-ASCII text, date-times inside and outside 1900-2155 under two TZ settings, object names and references - '
            'compared with an independent encoder or, when the code cannot represent the value, required to raise; repeated and '
            'equal-but-different values provoke caches; (b) through the API: one boundary value (valid or not) placed in one of the '
            'attributes, units, names, set names, header or label fields, origin references, copy numbers or frame numbers of a '
            'minimal file: representable values must be written and decode equal, others must raise or decode equal. '
            'Non-trivial: every case; distinct by its values.')

    def shards(self, tier):
        k = self.quick * (1 if tier == 'quick' else self.factor)
        return [{'name': 'direct', 'n': 2500 * k}, {'name': 'direct-tz', 'n': 400 * k, 'env': EASTERN},
                {'name': 'api', 'n': 3500 * k}, {'name': 'api-tz', 'n': 300 * k, 'env': EASTERN},
                {'name': 'copies', 'n': 6, 'pieces': 2}, {'name': 'rows', 'n': 8 if tier == 'quick' else 40}]

    # ------------------------------------------------------------------------------------------ generation
    def case(self, seed, shard):
        rnd = random.Random(seed)
        if shard['name'].startswith('direct'):
            seq = []
            tz = shard['name'] == 'direct-tz'
            for _ in range(rnd.randint(5, 60)):
                r = rnd.random()
                if tz and r < 0.6:
                    seq.append(['DTIME', self.dt(rnd)])
                elif r < 0.55:
                    v = rnd.choice(INTS) if rnd.random() < 0.7 else rnd.randint(-2**33, 2**33)
                    q = rnd.random()
                    if q < 0.1:
                        v = bool(v & 1)
                    elif q < 0.3:
                        v = rnd.choice(FLOATS)
                    elif q < 0.4:
                        v = float(rnd.choice((0, 1, 2, 127, 255)))
                    elif q < 0.5 and abs(v) < 2**31:
                        v = {'$np': rnd.choice(('int64', 'int32')), 'v': v}
                    elif q < 0.7:
                        v = rnd.choice((0, 1, True, False, 0.0, -0.0, 1.0))
                    if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 2**53:
                        v = {'$int': str(v)}
                    if isinstance(v, float) and not math.isfinite(v):
                        v = {'$f': repr(v)}
                    seq.append([rnd.choice(NUMCODES), v])
                elif r < 0.85:
                    n = rnd.choice(LENS) if rnd.random() < 0.6 else rnd.randint(0, 400)
                    t = rnd.choice('aZ0 ~') * n if n < 50 else {'$rep': [rnd.choice('aZ0 ~'), n]}
                    if rnd.random() < 0.25:
                        t = rnd.choice(NONASCII)
                    seq.append([rnd.choice(('IDENT', 'ASCII')), t])
                elif r < 0.93:
                    seq.append(['DTIME', self.dt(rnd)])
                else:
                    o = rnd.choice(gen.OREF_EDGES + (2**30, 2**30 + 5, 2**31))
                    seq.append([rnd.choice(('OBNAME', 'OBJREF')), [o, rnd.choice(('A', 'name', '', 'x' * 127, 'x' * 128, 'y' * 255, 'z' * 256,
                                                                                 'm\u00b2'))]])
            return {'seq': seq}
        if shard['name'] == 'copies':
            i = int(seed.rsplit('/', 1)[1])
            return {'copies': (255, 256, 257, 258, 300, 513)[i], 'kind': rnd.choice(('zone', 'comment', 'no_format', 'axis'))}
        if shard['name'] == 'rows':
            i = int(seed.rsplit('/', 1)[1])
            return {'rows': (126, 127, 128, 130, 16382, 16383, 16384, 16386)[i % 8], 'oref': rnd.choice(gen.OREF_EDGES)}
        return {'put': self.put(rnd, shard['name'] == 'api-tz')}

    def dt(self, rnd):
        v = {'$dt': rnd.choice(DTS)}
        if rnd.random() < 0.5:
            y = rnd.randint(1900, 2155)
            v = {'$dt': f"{y}-{rnd.randint(1, 12):02d}-{rnd.randint(1, 28):02d}T{rnd.randint(0, 23):02d}:{rnd.randint(0, 59):02d}:"
                        f"{rnd.choice((0, 30, 59, 59, rnd.randint(0, 59))):02d}."
                        f"{rnd.choice((0, 1, 9, 10, 99, 100, 255, 256, 500, 620, 998, 999, 999, 999)):03d}"
                        f"{rnd.choice((0, 0, 0, 1, 499, 500, 501, 999)):03d}"}
        if rnd.random() < 0.6:
            v['tz'] = rnd.choice((0, 60, -60, 330, -480, 840, -720, 1439, -1439))
        return v

    def value(self, rnd, a, kind):
        """a boundary value for an attribute, valid or not"""
        t = a.t
        if t in ('text', 'ident', 'eort') or t.startswith('soft:'):
            if rnd.random() < 0.3:
                return rnd.choice(NONASCII)
            n = rnd.choice(LENS)
            c = rnd.choice('aZ0 ~')
            return c * n if n < 50 else {'$rep': [c, n]}
        if t in ('int', 'dim', 'flag', 'status'):
            v = rnd.choice(INTS) if rnd.random() < 0.85 else rnd.choice((0.5, 1.0, 255.0, 65536.0, 1e10, -1.0, 65535.5))
            return [v] if t == 'dim' else v
        if t in ('dtime', 'dtnum'):
            return self.dt(rnd)
        if t in ('num', 'mixed'):
            v = rnd.choice(INTS) if rnd.random() < 0.5 else rnd.choice(FLOATS)
            if isinstance(v, int) and abs(v) > 2**53:
                v = {'$int': str(v)}
            elif isinstance(v, float) and not math.isfinite(v):
                v = {'$np': 'float64', 'v': repr(v)}
            return v
        return None

    def put(self, rnd, tz):
        r = rnd.random()
        if r < 0.62 or tz:
            kinds = [(k, a) for k in S.KINDS for a in S.KINDS[k].attrs
                     if (a.t in ('text', 'ident', 'eort', 'int', 'dim', 'flag', 'status', 'dtime', 'dtnum', 'num', 'mixed') or
                         a.t.startswith('soft:')) and a.kw != 'file_id' and (not tz or a.t in ('dtime', 'dtnum'))]
            k, a = rnd.choice(kinds)
            if rnd.random() < 0.35 and not tz:                  # give the rarer codes their share
                k, a = rnd.choice([x for x in kinds if x[1].t in ('int', 'dim', 'flag', 'status', 'dtime', 'dtnum')])
            if k == 'calibration_measurement' and a.t == 'dim' or k in ('parameter', 'computation') and a.kw == 'values':
                pass
            return {'at': 'attr', 'kind': k, 'attr': a.kw, 'value': self.value(rnd, a, k), 'later': rnd.random() < 0.3 and a.kw != 'file_set_number'}
        n = rnd.choice(LENS)
        c = rnd.choice('aZ0_~')
        t = c * n if n < 50 else {'$rep': [c, n]}
        if rnd.random() < 0.3:
            t = rnd.choice(NONASCII)
        if r < 0.70:
            ks = [(k, a) for k in S.KINDS for a in S.KINDS[k].attrs if a.units and a.t in ('num', 'int', 'flag')]
            k, a = rnd.choice(ks)
            return {'at': 'units', 'kind': k, 'attr': a.kw, 'value': t}
        if r < 0.82:
            return {'at': rnd.choice(('name', 'name', 'set_name', 'rename')), 'kind': rnd.choice(list(S.KINDS)), 'value': t}
        if r < 0.92:
            return {'at': 'oref', 'kind': rnd.choice(list(S.KINDS)), 'value': rnd.choice(INTS), 'later': rnd.random() < 0.3}
        if r < 0.97:
            f = rnd.choice(('fh_id', 'fh_identifier', 'fh_sequence_number'))
            v = {'fh_id': rnd.choice(('', 'a', 'x' * 64, 'x' * 65, 'x' * 66, 'x' * 200, 'm\u00b2')),
                 'fh_identifier': rnd.choice(('', '0', 'A', '~', 'AB', '\u00e9')),
                 'fh_sequence_number': rnd.choice((1, 9, 10, 9999999999, 10000000000, 10**12, 0, -1))}[f]
            return {'at': 'header', 'field': f, 'value': v}
        return {'at': 'label', 'field': 'set_identifier', 'value': rnd.choice(('', 'a', 'x' * 60, 'x' * 61, 'x' * 100, 'm\u00b2'))}

    # ------------------------------------------------------------------------------------------ execution
    def run(self, case, ctx):
        if 'seq' in case:
            return self.direct(case['seq'])
        if 'copies' in case:
            return self.copies(case, ctx)
        if 'rows' in case:
            from vlib.sweep import sweep_prog
            pr = sweep_prog(8192, [], rows=case['rows'], origin_ref=case['oref'])
            return self.judge(pr, ctx, True, lambda m: True, ('C03', 'C16', 'C04', 'C07'), ['frame numbers'], repr(case))
        return self.api(case['put'], ctx)

    def direct(self, seq):
        try:
            from dliswriter.utils.internal.internal_enums import RepresentationCode as RC
            from dliswriter.utils.internal.struct_writer import write_struct
            write_struct(RC['USHORT'], 1)
        except (ImportError, AttributeError, TypeError, KeyError):      # renamed or with other parameters: the API part decides
            return Outcome([], None, ['direct access unavailable'])
        problems, sig, labels = [], set(), []
        clear_caches()
        objs = Objects()
        for code, jv in seq:
            labels.append('direct ' + code)
            if code in ('OBNAME', 'OBJREF'):
                try:
                    v = objs.get(*jv)
                except Exception as e:
                    labels.append('object refused')
                    continue
                try:
                    want = codec.obname(jv[0], 0, jv[1]) if 0 <= jv[0] < 2**30 else None
                except TypeError:
                    want = None
                if want is not None and code == 'OBJREF':
                    want = b'\x04ZONE' + want
            else:
                v = float(jv['$f']) if isinstance(jv, dict) and '$f' in jv else prog.dec(jv, {})
                pv = v.item() if hasattr(v, 'item') else v
                want = codec.encode(code, pv)
            if code in ('OBNAME', 'OBJREF'):
                pv = None
            sig.add((code, json.dumps(jv)))
            try:
                got = write_struct(RC[code], v)
            except Exception as e:
                got = e
            d = f"{code} of {oracle.short(v)}"
            if isinstance(got, Exception):
                if want is not None and not (hasattr(v, 'item')):
                    problems.append(f"{d}: refused with {describe(got)}")
            elif want is None:
                if rounded(code, pv) == got:
                    continue                # the nearest value of that precision
                if not isinstance(v, float) or not floats_ok(code, v, got):
                    problems.append(f"{d}: not representable, but encoded as {oracle.short(got.hex())}")
            elif not isinstance(got, (bytes, bytearray)):
                problems.append(f"{d}: encoded as {type(got).__name__}")
            elif bytes(got) not in (want if isinstance(want, list) else [want]) and not codec.nan_equal(code, v, got):
                problems.append(f"{d}: encoded as {oracle.short(bytes(got).hex())}, the standard says "
                                f"{oracle.short(want.hex() if isinstance(want, bytes) else [w.hex() for w in want])}")
        return Outcome(problems, sig, sorted(set(labels)), n=len(seq))

    def copies(self, case, ctx):
        n, k = case['copies'], case['kind']
        ops = base_ops(k)
        ops = [o for o in ops if not (o[0] == 'add' and o[3] == 'x')]
        ops += [['add', 'L', k, f"x{i}", {'name': 'SAME'}] for i in range(n)]
        pr = {'sul': {}, 'hc': False, 'ops': ops + [['write', {}]]}
        return self.judge(pr, ctx, n <= 256, lambda msg: True, ('C07', 'C04', 'C05'), ['copy numbers'], repr(case))

    def api(self, put, ctx):
        at = put['at']
        v = put['value']
        if isinstance(v, dict) and v.get('$np') == 'float64' and isinstance(v['v'], str):
            v = float(v['v'])
            put = dict(put, value=v)
        sul, hdr = {}, {}
        k = put.get('kind', 'zone')
        ops = base_ops(k)
        x = [o for o in ops if o[0] == 'add' and o[3] == 'x'][0]
        pv = model.plain(v)
        ok = None
        if at == 'attr':
            a = [q for q in S.KINDS[k].attrs if q.kw == put['attr']][0]
            if isinstance(v, str) and not isinstance(pv, str):
                return Outcome([], None, [])
            if put.get('later'):
                ops.append(['set', 'x', a.attr, 'value', v])
            else:
                x[4][a.kw] = v
            ok = representable(a, pv, k)
            if a.t == 'dtime' and k == 'origin':
                pass
        elif at == 'units':
            a = [q for q in S.KINDS[k].attrs if q.kw == put['attr']][0]
            x[4][a.kw] = {'$setup': {'value': 1, 'units': v}}
            ok = text_ok(pv, 255)
        elif at == 'name':
            x[4]['name'] = v
            ok = text_ok(pv, 255)
            if k == 'channel' and pv == '':
                ok = None
        elif at == 'set_name':
            x[4]['set_name'] = v
            ok = text_ok(pv, 255) if pv else None
        elif at == 'rename':
            ops.append(['name', 'x', pv])
            ok = text_ok(pv, 255)
            if k == 'channel':
                ok = None if pv == '' else ok
        elif at == 'oref':
            if k == 'origin':
                x[4]['origin_reference'] = v
                ok = 0 < v < 2**30 or (None if v == 0 else False)      # 0 is what the first one gets
            else:
                ref = v if 0 <= v < 2**30 else None
                if ref is not None:
                    ops.insert(2, ['add', 'L', 'origin', 'o2', {'name': 'O2', 'origin_reference': v, 'file_set_number': 2,
                                                              'creation_time': {'$dt': '2024-01-01T00:00:00', 'tz': 0}}])
                    if v == 0:
                        ops.pop(2)
                if put.get('later'):
                    ops.append(['oref', 'x', v])
                else:
                    x[4]['origin_reference'] = v
                ok = ref is not None
        elif at == 'header':
            ops[0] = ['lf', 'L', {put['field']: v}]
            ok = {'fh_id': lambda: text_ok(v, 65), 'fh_identifier': lambda: text_ok(v, 1) if v else None,
                  'fh_sequence_number': lambda: 0 < v <= 9999999999 or (None if v == 0 else False)}[put['field']]()
        elif at == 'label':
            sul = {'set_identifier': v}
            ok = text_ok(v, 60)
        pr = {'sul': sul, 'hc': False, 'ops': ops + [['write', {}]]}
        st = S.KINDS[k].settype

        def relevant(msg):
            if at in ('header', 'label'):
                return 'header' in msg or 'HEADER' in msg or 'SEQUENCE' in msg or 'label' in msg or 'FILE-ID' in msg
            if at in ('attr', 'units'):
                return st in msg and (a.label in msg)
            return st in msg or 'record' in msg or 'reference' in msg or 'ORIGIN' in msg
        return self.judge(pr, ctx, ok, relevant, oracle.ALL, [f"api {at}" + (f" {a.t.split(':')[0]}" if at == 'attr' else '')],
                          json.dumps(put, sort_keys=True, default=repr))

    def judge(self, pr, ctx, ok, relevant, tags, labels, sig):
        """ok: True - has to be written faithfully; False/None - has to raise or be written faithfully"""
        r, e = execute(pr, ctx.dir)
        try:
            if e is not None:
                if ok:
                    return Outcome([f"a representable value was refused: {describe(e.exc)}"], sig, labels)
                return Outcome([], sig, labels + ['refused'])
            try:
                m = model.Model(pr).run(r.status)
            except (model.Unmodelled, UnicodeEncodeError) as x:
                return Outcome([f"not representable ({x}), but the file was written"] if ok is False else [], sig, labels)
            opts, _, raw = r.writes[-1]
            ps = self.compare(raw, m, opts, False, NOW())
            keep = [p.msg for p in ps if set(p.tags) & set(tags) and (p.msg.startswith('[') or relevant(p.msg))]
            return Outcome(keep, sig, labels + ['written'])
        finally:
            r.cleanup()


def floats_ok(code, v, got):
    """an integral float given to an integer code, encoded as that integer"""
    w = codec.encode(code, int(v)) if v == v and abs(v) != math.inf and v == int(v) else None
    return w == got


def rounded(code, v):
    """a number rounded to the nearest of a floating-point code"""
    if code in ('FSINGL', 'FDOUBL') and isinstance(v, int):
        import struct
        try:
            return struct.pack('>f' if code == 'FSINGL' else '>d', v)
        except OverflowError:
            return None
    return None


def text_ok(s, n):
    try:
        s.encode('ascii')
    except UnicodeEncodeError:
        return False
    return len(s) <= n


def representable(a, v, kind):
    t = a.t
    if t in ('text', 'eort'):
        return text_ok(v, 2**30 - 1)
    if t == 'ident' or t.startswith('soft:'):
        return text_ok(v, 255)
    if t == 'int':
        lo, hi = {18: (0, 2**30 - 1), 16: (0, 65535)}.get(a.rc, (-2**31, 2**31 - 1))
        if a.attr == 'file_set_number' and v == 0:
            return None
        return lo <= v <= hi and v == int(v)
    if t == 'dim':
        if kind == 'channel' or v[0] < 1 or isinstance(v[0], float):
            return None                    # other rules decide too
        return v[0] < 2**30
    if t == 'flag':
        return True if v in (0, 1) else (None if 0 <= v <= 255 else False)
    if t == 'status':
        return v in (0, 1)
    if t in ('dtime', 'dtnum'):
        return codec.encode('DTIME', v) is not None
    if t == 'num':
        if isinstance(v, int):
            return None if abs(v) > 2**53 else True
        return True
    if t == 'mixed':
        return None
    return None


def base_ops(kind):
    """a minimal file with one more object 'x' of a kind"""
    ops = [['lf', 'L', {}],
           ['add', 'L', 'origin', 'o1', {'name': 'O', 'file_set_number': 1, 'creation_time': {'$dt': '2024-01-01T00:00:00', 'tz': 0}}],
           ['add', 'L', 'channel', 'c1', {'name': 'C', 'data': {'$arr': {'dtype': 'uint8', 'shape': [2], 'fill': {'lin': [1, 1]}}}}],
           ['add', 'L', 'frame', 'f1', {'name': 'F', 'channels': [{'$ref': 'c1'}]}]]
    kw = {'name': 'X'}
    if kind == 'origin':
        kw.update(file_set_number=2, creation_time={'$dt': '2024-01-01T00:00:00', 'tz': 0})
    if kind == 'frame':
        ops.append(['add', 'L', 'channel', 'c2', {'name': 'C2', 'data': {'$arr': {'dtype': 'uint8', 'shape': [2], 'fill': {'lin': [1, 1]}}}}])
        kw['channels'] = [{'$ref': 'c2'}]
    if kind == 'channel':
        kw['data'] = {'$arr': {'dtype': 'uint8', 'shape': [2], 'fill': {'lin': [1, 1]}}}
    x = ['add', 'L', kind, 'x', kw]
    ops.append(x)
    if kind == 'channel':
        ops.append(['add', 'L', 'frame', 'f2', {'name': 'F2', 'channels': [{'$ref': 'x'}]}])
    return ops


class Objects:
    """real objects for OBNAME / OBJREF"""

    def __init__(self):
        from dliswriter import DLISFile
        self.lf = DLISFile().add_logical_file()
        self.lf.add_origin('O', file_set_number=1)

    def get(self, oref, name):
        self.n = getattr(self, 'n', 0) + 1
        return self.lf.add_zone(name, origin_reference=oref, set_name=f"S{self.n}-{oref}")


def clear_caches():
    import sys
    for n, mod in list(sys.modules.items()):
        if n.split('.')[0] == 'dliswriter':
            for f in list(vars(mod).values()):
                if hasattr(f, 'cache_clear'):
                    f.cache_clear()


CHECK = C06()
