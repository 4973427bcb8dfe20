"""Programs: JSON-able lists of public-API calls, and the interpreter that executes them against the real library.

A program is {"sul": {...}, "hc": bool, "ops": [op, ...]}.  Ops:
  ["lf", id, kwargs]                        df.add_logical_file(**kwargs)
  ["add", lf, kind, id, kwargs]             lf.add_<kind>(**kwargs)
  ["nofmt", lf, objid, payload]             lf.add_no_format_frame_data(obj, payload)
  ["set", id, attr, part, value]            obj.<attr>.<part> = value          (part: value | units)
  ["name", id, newname]  ["oref", id, n]  ["cast", id, dtype|None]  ["dsname", id, name]
  ["bad", op, ...]                          an op that is expected to raise (its outcome is recorded either way)
  ["write", opts]                           df.write(...)   opts: data, from, to, ichunk, ochunk
Values are JSON with tagged dicts for what JSON lacks (see `dec`).
"""
import contextlib
import datetime as _dt
import json
import os
import random
import sys
import warnings

import numpy as np

LAYOUTS = ('C', 'F', 'strided', 'neg', 'ro', 'offset', 'field', 'wide')


# ------------------------------------------------------------------------------------------------ arrays
def base_array(spec):
    """The logical content of an array spec: native byte order, C-contiguous."""
    dt = np.dtype(spec['dtype'])
    nat = dt.newbyteorder('=')
    shape = tuple(spec['shape'])
    n = int(np.prod(shape)) if shape else 1
    fill = spec['fill']
    if 'hex' in fill:
        raw = bytes.fromhex(fill['hex'])
        need = n * nat.itemsize
        if len(raw) < need:
            raw = (raw * (need // max(1, len(raw)) + 1)) if raw else b'\0' * need
        arr = np.frombuffer(raw[:need], dtype=nat).copy()
    elif 'seed' in fill:
        rs = np.random.RandomState(fill['seed'])
        if fill.get('finite') and nat.kind == 'f':
            arr = np.round(rs.uniform(-100, 100, n), 3).astype(nat)
        elif nat.kind in 'iuf' and nat.itemsize <= 8:
            arr = np.frombuffer(rs.bytes(n * nat.itemsize), dtype=nat).copy()
        else:
            arr = np.zeros(n, dtype=nat)
    elif 'vals' in fill:
        v = fill['vals']
        arr = np.array([v[i % len(v)] for i in range(n)], dtype=nat)
    elif 'lin' in fill:
        a, b = fill['lin']
        arr = (a + b * np.arange(n)).astype(nat)
    elif 'zero' in fill:
        arr = np.zeros(n, dtype=nat)
    else:
        raise KeyError('fill')
    for i, v in fill.get('put', ()):
        arr[i % n] = v
    return arr.reshape(shape)


def make_array(spec):
    """The array object handed to the library (byte order and memory layout applied)."""
    b = base_array(spec)
    dt = np.dtype(spec['dtype'])
    lay = spec.get('layout', 'C')
    x = b.astype(dt)
    if dt != b.dtype:                     # astype may not swap NaN payloads identically on every platform: do it by bytes
        x = np.frombuffer(b.byteswap().tobytes(), dtype=dt).reshape(b.shape).copy()
    if lay == 'C':
        return np.ascontiguousarray(x).reshape(b.shape)
    if lay == 'F':
        return np.asfortranarray(x)
    if lay == 'strided':
        big = np.zeros((b.shape[0] * 2,) + b.shape[1:], dtype=dt)
        big[::2] = x
        return big[::2]
    if lay == 'wide':
        if b.ndim < 2:
            big = np.zeros((b.shape[0], 3), dtype=dt)
            big[:, 1] = x
            return big[:, 1]
        big = np.zeros((b.shape[0], b.shape[1] * 2 + 1) + b.shape[2:], dtype=dt)
        big[:, 1::2] = x
        return big[:, 1::2]
    if lay == 'neg':
        return np.ascontiguousarray(x[::-1])[::-1]
    if lay == 'ro':
        y = x.copy()
        y.flags.writeable = False
        return y
    if lay == 'offset':
        buf = bytearray(1 + x.nbytes)
        buf[1:] = x.tobytes()
        return np.frombuffer(buf, dtype=dt, count=x.size, offset=1).reshape(x.shape)
    if lay == 'field':
        st = np.zeros(b.shape[0], dtype=[('pad', 'i1'), ('x', dt, b.shape[1:]), ('q', 'f4')])
        st['x'] = x
        return st['x']
    raise KeyError(lay)


# ------------------------------------------------------------------------------------------------ values
class _Weird:
    def __repr__(self):
        return '<weird>'


PYVALS = {'object': lambda: _Weird(), 'set': lambda: {1}, 'none': lambda: None, 'complex': lambda: 1 + 2j,
          'list': lambda: [], 'type': lambda: int, 'lambda': lambda: (lambda: 1), 'bytes': lambda: b'abc',
          'date': lambda: _dt.date(2020, 1, 1), 'nparr': lambda: np.arange(3.0), 'bytearray': lambda: bytearray(b'xy')}


def dec(v, env):
    if isinstance(v, dict):
        if len(v) == 1 or '$dt' in v or '$np' in v:
            k = next(iter(v))
            if k == '$ref':
                return env[v['$ref']]
            if '$dt' in v:
                d = _dt.datetime.fromisoformat(v['$dt'])
                tz = v.get('tz')
                if tz is not None:
                    d = d.replace(tzinfo=_dt.timezone(_dt.timedelta(minutes=tz)))
                if v.get('fold'):
                    d = d.replace(fold=1)
                return d
            if '$np' in v:
                return getattr(np, v['$np'])(v['v'])
            if k == '$enum':
                import dliswriter.utils.enums as en
                cls, mem = v['$enum'].split('.')
                c = getattr(en, cls)
                return c[mem] if mem in c.__members__ else c(mem)
            if k == '$enumv':
                import dliswriter.utils.enums as en
                cls, val = v['$enumv'].split(':', 1)
                return getattr(en, cls)(val)
            if k == '$setup':
                from dliswriter import AttrSetup
                return AttrSetup(**{a: dec(b, env) for a, b in v['$setup'].items()})
            if k == '$dict':
                return {a: dec(b, env) for a, b in v['$dict'].items()}
            if k == '$bytes':
                return bytes.fromhex(v['$bytes'])
            if k == '$bytearray':
                return bytearray.fromhex(v['$bytearray'])
            if k == '$fill':
                return fill_bytes(v)
            if k == '$tuple':
                return tuple(dec(x, env) for x in v['$tuple'])
            if k == '$rep':
                return v['$rep'][0] * v['$rep'][1]
            if k == '$int':
                return int(v['$int'])
            if k == '$arr':
                return make_array(v['$arr'])
            if k == '$py':
                return PYVALS[v['$py']]()
            if k == '$dtype':
                return dec_dtype(v['$dtype'])
        raise KeyError(f"bad tagged value {v}")
    if isinstance(v, list):
        return [dec(x, env) for x in v]
    return v


_ASCII = bytes(i & 127 for i in range(256))


def fill_bytes(v):
    """a long payload: {'$fill': [seed, length, 'bytes' | 'bytearray' | 'str']}"""
    seed, n, how = v['$fill']
    b = random.Random(seed).randbytes(n)
    return b.translate(_ASCII).decode('ascii') if how == 'str' else bytearray(b) if how == 'bytearray' else b


def has_ref(v):
    if isinstance(v, dict):
        return '$ref' in v or any(has_ref(x) for x in v.values())
    return isinstance(v, list) and any(has_ref(x) for x in v)


def dec_dtype(s):
    """'float32' -> np.float32 (class);  'dt:<f4' -> np.dtype; 'str:..' -> the bare string"""
    if s is None:
        return None
    if s.startswith('dt:'):
        return np.dtype(s[3:])
    if s.startswith('str:'):
        return s[4:]
    return getattr(np, s)


def dtype_of(s):
    return np.dtype(dec_dtype(s) if not s.startswith('str:') else s[4:])


def fingerprint(x):
    """everything that has to stay as it was"""
    if isinstance(x, dict):
        return {'keys': list(x), 'values': [id(v) for v in x.values()]}
    if isinstance(x, str):
        with open(x, 'rb') as f:
            return {'bytes': f.read()}
    out = {'dtype': repr(x.dtype), 'shape': x.shape, 'strides': x.strides, 'writeable flag': x.flags.writeable, 'contents': x.tobytes()}
    b = x
    while isinstance(b, np.ndarray) and b.base is not None:
        b = b.base
    if b is not x:
        try:
            out['underlying buffer'] = b.tobytes() if isinstance(b, np.ndarray) else bytes(b)
        except (TypeError, ValueError):
            pass
    return out


# ------------------------------------------------------------------------------------------------ interpreter
class Step(Exception):
    """An op raised: .index, .op, .exc"""

    def __init__(self, index, op, exc):
        super().__init__(f"op {index} {op[0]}: {type(exc).__name__}: {exc}")
        self.index, self.op, self.exc = index, op, exc


DEFAULT_OCHUNK = 1 << 16


class Run:
    """Executes a program. env maps ids to library objects; `status[i]` is None or the exception raised by a `bad` op."""

    def __init__(self, prog, workdir, name='out.dlis'):
        self.prog = prog
        self.dir = workdir
        self.path = os.path.join(workdir, name)
        self.env = {}
        self.status = {}
        self.df = None
        self.writes = []       # list of (opts, path, bytes)
        self.inputs = []       # arrays handed over: (where, array)
        self.keep_inputs = False
        self.shared = None     # dict: argument objects used by several programs (keyed by what they are)
        self._h5 = 0
        self.tmpfiles = []

    def build_file(self):
        from dliswriter import DLISFile
        sul = dict(self.prog.get('sul') or {})
        if sul.pop('obj', False):
            from dliswriter.logical_record.misc import StorageUnitLabel
            self.df = DLISFile(storage_unit_label=StorageUnitLabel(
                sul['set_identifier'], sequence_number=sul.get('sul_sequence_number', 1),
                max_record_length=sul.get('max_record_length', 8192)))
        else:
            self.df = DLISFile(**sul)

    def run(self, upto=None):
        with self.context():
            try:
                self.build_file()
            except Exception as e:
                raise Step(-1, ['file'], e)
            for i, op in enumerate(self.prog['ops'] if upto is None else self.prog['ops'][:upto]):
                self.step(i, op)
        return self

    def context(self):
        if self.prog.get('hc'):
            from dliswriter import high_compatibility_mode
            return high_compatibility_mode()
        return contextlib.nullcontext()

    def step(self, i, op):
        if op[0] == 'bad':
            try:
                self.do(op[1])
            except Exception as e:
                self.status[i] = e
            else:
                self.status[i] = None
            return
        try:
            self.do(op)
        except Exception as e:
            raise Step(i, op, e) from e

    def do(self, op):
        k = op[0]
        env = self.env
        if k == 'lf':
            kw = {a: dec(b, env) for a, b in op[2].items()}
            if kw.pop('hdr_obj', False):
                from dliswriter.logical_record.eflr_types import FileHeaderItem, FileHeaderSet
                fh = FileHeaderItem(kw.get('fh_id', 'FILE-HEADER'), FileHeaderSet(),
                                    sequence_number=kw.get('fh_sequence_number', 1),
                                    identifier=kw.get('fh_identifier', '0'))
                env[op[1]] = self.df.add_logical_file(file_header=fh)
            else:
                env[op[1]] = self.df.add_logical_file(**kw)
        elif k == 'add':
            _, lf, kind, oid, kwargs = op
            kw = {a: self.arg(b) for a, b in kwargs.items()}
            if kind == 'channel' and isinstance(kw.get('cast_dtype'), str):
                kw['cast_dtype'] = dec_dtype(kw['cast_dtype'])
            if self.keep_inputs:
                for a, v in kw.items():
                    if isinstance(v, np.ndarray):
                        self.given(f"channel {kw.get('name')!r} data", v)
            env[oid] = getattr(env[lf], 'add_' + kind)(**kw)
        elif k == 'nofmt':
            pl = dec(op[3], env)
            env[op[1]].add_no_format_frame_data(env[op[2]], pl)
        elif k == 'set':
            _, oid, attr, part, v = op
            setattr(getattr(env[oid], attr), part, dec(v, env))
        elif k == 'setattrs':
            env[op[1]].set_attributes(**{a: dec(b, env) for a, b in op[2].items()})
        elif k == 'name':
            env[op[1]].name = op[2]
        elif k == 'oref':
            env[op[1]].origin_reference = op[2]
        elif k == 'cast':
            env[op[1]].cast_dtype = dec_dtype(op[2])
        elif k == 'dsname':
            env[op[1]].dataset_name = op[2]
        elif k == 'hdr':
            for a, b in op[2].items():
                setattr(env[op[1]].file_header, a, dec(b, env))
        elif k == 'fsn':
            env[op[1]].file_set_number.value = op[2]
        elif k == 'direct':                      # assigning to the attribute itself, which is refused
            setattr(env[op[1]], op[2], dec(op[3], env))
        elif k == 'write':
            self.write(op[1])
        elif k == 'touch':                       # read-only access through the public API
            obj = env[op[1]]
            for nm in op[2]:
                getattr(obj, nm)
        else:
            raise KeyError(k)

    def arg(self, v):
        if self.shared is None or not isinstance(v, (dict, list)) or has_ref(v):
            return dec(v, self.env)
        k = json.dumps(v, sort_keys=True)
        if k not in self.shared:
            self.shared[k] = dec(v, self.env)
        return self.shared[k]

    # -- inputs
    def given(self, where, x):
        self.inputs.append((where, x, fingerprint(x)))

    def altered(self):
        """-> descriptions of the inputs that are no longer what they were"""
        out = []
        for where, x, old in self.inputs:
            new = fingerprint(x)
            if new != old:
                keys = [k for k in old if old[k] != new[k]]
                out.append(f"{where}: changed {', '.join(keys)}")
        return out

    # -- data sources
    def source(self, src):
        if src is None:
            return None
        k = src['kind']
        if k == 'dict':
            d = {n: make_array(s) for n, s in src['sets']}
            if self.keep_inputs:
                for n, a in d.items():
                    self.given(f"data[{n!r}]", a)
                self.given('the data dict', d)
            return d
        if k == 'struct':
            fields = []
            arrs = []
            for n, s in src['sets']:
                b = make_array(s)
                fields.append((n, b.dtype, b.shape[1:]) if b.ndim > 1 else (n, b.dtype))
                arrs.append((n, b))
            dt = np.dtype(fields, align=bool(src.get('align')))
            st = np.zeros(arrs[0][1].shape[0], dtype=dt)
            for n, b in arrs:
                st[n] = b
            if src.get('strided'):
                big = np.zeros(st.shape[0] * 2, dtype=dt)
                big[::2] = st
                st = big[::2]
            if src.get('ro'):
                st.flags.writeable = False
            if self.keep_inputs:
                self.given('the structured array', st)
            return st
        if k == 'h5':
            import h5py
            self._h5 += 1
            p = os.path.join(self.dir, f"src{self._h5}.{src.get('ext', 'h5')}")
            if os.path.exists(p):
                os.remove(p)
            with h5py.File(p, 'w') as f:
                for n, s in src['sets']:
                    b = make_array(s)
                    kw = {}
                    if src.get('chunked') and b.shape[0] > 0:
                        kw['chunks'] = (max(1, b.shape[0] // 2),) + b.shape[1:]
                        if src['chunked'] == 'gzip':
                            kw['compression'] = 'gzip'
                    f.create_dataset(n, data=b, **kw)
            self.tmpfiles.append(p)
            if self.keep_inputs:
                self.given('the HDF5 file', p)
            if src.get('pathlib'):
                from pathlib import Path
                return Path(p)
            return p
        if k == 'py':
            return PYVALS[src['v']]()
        raise KeyError(k)

    def write(self, opts, path=None, data=None):
        path = path or self.path
        if data is None:
            data = self.source(opts.get('data'))
        kw = {}
        for a, b in (('from', 'from_idx'), ('to', 'to_idx'), ('ichunk', 'input_chunk_size')):
            if opts.get(a) is not None:
                kw[b] = opts[a]
        oc = opts.get('ochunk', DEFAULT_OCHUNK)
        if opts.get('ochunk_float'):
            oc = float(oc)
        if data is not None:
            kw['data'] = data
        p = path
        if opts.get('pathlib'):
            from pathlib import Path
            p = Path(path)
        self.df.write(p, output_chunk_size=oc, **kw)
        with open(path, 'rb') as f:
            raw = f.read()
        self.writes.append((opts, path, raw))
        return raw

    def cleanup(self):
        for p in self.tmpfiles + [self.path]:
            with contextlib.suppress(OSError):
                os.remove(p)


_quiet_done = False


def quiet():
    """progress bar and log output off (they go to stderr)"""
    global _quiet_done
    if _quiet_done:
        return
    _quiet_done = True
    import logging
    logging.getLogger('dliswriter').addHandler(logging.NullHandler())
    logging.getLogger('dliswriter').propagate = False
    logging.getLogger('dliswriter').setLevel(logging.WARNING)
    warnings.simplefilter('ignore')
    sys.stderr = open(os.devnull, 'w')
