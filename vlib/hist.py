"""Histories: programs executed in child processes, with other activity in front of and between their steps.

An execution is described by {'prog': program, 'pre': [activity...], 'mid': [[position, activity]...]}; activity:
  ['prog', program, share]      another file is built and written in the process (share: argument objects are the same ones)
  ['write', opts]               the file itself is written as it is at this point
  ['exc', changes, opts]        some things are changed, the file is written, and they are changed back
  ['fault', at, opts, interrupted, group]  a write of the file in which a call out of the library (encoding, packing, writing) fails or is interrupted
  ['touch', id, names]          properties are read
  ['gc']
Whatever such an activity raises is ignored.  The program itself is expected to end with a write; the result is
('ok', bytes) or ('raised', position, type, text)."""
import contextlib
import gc
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys

from . import faults, prog

EXC_VALUES = {'text': 'EXC', 'ident': 'EXC-1', 'num': 3.5, 'int': 3, 'flag': 1, 'status': 0, 'mixed': ['exc'], 'dtnum': 17, 'eort': 'EXC',
              'dtime': {'$dt': '1999-01-01T00:00:00', 'tz': 0}, 'props': ['AVERAGED'], 'dim': [2]}


class Main(prog.Run):
    def activity(self, a):
        k = a[0]
        try:
            if k == 'prog':
                self.other(a[1], a[2] if len(a) > 2 else False)
            elif k == 'write':
                self.scratch_write(a[1])
            elif k == 'exc':
                self.excursion(a[1], a[2])
            elif k == 'fault':
                g = a[4] if len(a) > 4 else 'pack'
                with faults.Counter(g) as c:
                    self.scratch_write(a[2])
                exc = faults.Interrupted if len(a) > 3 and a[3] else faults.Injected
                with faults.raise_at(1 + int(a[1] * max(1, c.n - 1)), g, exc):
                    self.scratch_write(a[2])
            elif k == 'touch':
                for n in a[2]:
                    getattr(self.env[a[1]], n)
            elif k == 'gc':
                gc.collect()
        except (Exception, faults.Interrupted) as e:
            return e
        finally:
            sys.setprofile(None)

    def scratch_write(self, opts):
        n = len(self.writes)
        where = opts.get('where')
        path = os.path.join(self.dir, 'nowhere' if where == 'dir' else '', 'scratch.dlis')
        data = self.source(opts.get('data'))
        with contextlib.ExitStack() as st:
            if where == 'full':
                path = os.path.join(self.dir, 'full')
                if not os.path.islink(path):
                    os.symlink('/dev/full', path)
            elif where == 'size':
                st.enter_context(faults.file_size_limit(opts['limit']))
            try:
                self.write(opts, path, data)
            finally:
                del self.writes[n:]

    def other(self, pr, share):
        d = os.path.join(self.dir, 'other')
        os.makedirs(d, exist_ok=True)
        r = prog.Run(pr, d)
        if share:
            self.shared = {} if self.shared is None else self.shared
            r.shared = self.shared
        try:
            r.run()
        finally:
            r.cleanup()

    def excursion(self, changes, opts):
        back = []
        try:
            for c in changes:
                if c[1] not in self.env:
                    continue
                o = self.env[c[1]]
                if c[0] == 'attr':
                    at = getattr(o, c[2])
                    old, ou = at.value, at.units
                    if old is None:
                        if at.multivalued:
                            continue
                        try:
                            at.value = None      # can it be taken back?
                        except Exception:
                            continue
                    at.value = prog.dec(c[3], self.env)
                    back.append((at, 'value', old))
                    if c[4]:
                        at.units = c[4]
                        back.append((at, 'units', ou))
                else:
                    f = {'name': 'name', 'oref': 'origin_reference', 'cast': 'cast_dtype', 'dsname': 'dataset_name'}[c[0]]
                    old = getattr(o, f)
                    if old is None and f != 'cast_dtype':
                        continue
                    setattr(o, f, prog.dec_dtype(c[2]) if c[0] == 'cast' else c[2])
                    back.append((o, f, old))
            self.scratch_write(opts)
        finally:
            for o, f, v in reversed(back):
                setattr(o, f, v)


def run(h, work):
    """execute in this process -> result"""
    r = Main(h['prog'], work)
    pre = h.get('pre') or []
    mid = {}
    n = len(h['prog']['ops'])
    for pos, a in h.get('mid') or []:
        mid.setdefault(max(0, min(pos, n - 1)), []).append(a)
    trace = []

    def act(a):
        e = r.activity(a)
        trace.append((a[0], type(e).__name__ if e is not None else None))
    for a in pre:
        act(a)
    try:
        with r.context():
            try:
                r.build_file()
            except Exception as e:
                raise prog.Step(-1, ['file'], e)
            for i, op in enumerate(h['prog']['ops']):
                for a in mid.get(i, ()):
                    act(a)
                r.step(i, op)
    except prog.Step as e:
        return {'trace': trace, 'refusals': refusals(r), 'result': ('raised', e.op[0], type(e.exc).__name__, str(e.exc)[:200])}
    return {'trace': trace, 'refusals': refusals(r), 'result': ('ok', r.writes[-1][2])}


def refusals(r):
    return {i: type(s).__name__ for i, s in r.status.items() if s is not None}


def forked(h, work, name, limit=40):
    """execute in a forked child -> result; ('died', text) when the child did not deliver"""
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(work, name + '.result')
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            res = run(h, d)
            with open(out, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        except BaseException:
            import traceback
            with open(out, 'wb') as f:
                pickle.dump({'result': ('died', traceback.format_exc()[-1500:])}, f)
        finally:
            os._exit(code)
    try:
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    try:
        with open(out, 'rb') as f:
            return pickle.load(f)
    except (OSError, EOFError):
        return {'result': ('died', f"status {st}")}
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(out):
            os.remove(out)


def subprocessed(h, work, name, hashseed):
    """execute in a process of its own"""
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(work, name + '.result')
    try:
        p = subprocess.run([sys.executable, '-m', 'vlib.hist', d, out], input=json.dumps(h).encode(), stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED=str(hashseed)), timeout=50,
                           cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        with open(out, 'rb') as f:
            return pickle.load(f)
    except (OSError, EOFError, subprocess.TimeoutExpired) as e:
        return {'result': ('died', str(e))}
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(out):
            os.remove(out)


def diff(a, b, na='the fresh process', nb='the history'):
    """two results -> None or how they differ"""
    a, b = a['result'], b['result']
    if a[0] != b[0]:
        return f"{na}: {show(a)}, {nb}: {show(b)}"
    if a[0] != 'ok' or a[1] == b[1]:
        return None
    return f"the bytes differ between {na} and {nb}: {where(a[1], b[1])}"


def show(r):
    return f"{len(r[1])} bytes written" if r[0] == 'ok' else ' '.join(str(x) for x in r)[:400]


def where(x, y):
    """first difference of two files, in terms of the format"""
    from . import reader
    try:
        fx, fy = reader.parse(x), reader.parse(y)
    except reader.FormatError as e:
        return f"{len(x)} and {len(y)} bytes; {e}"
    if len(fx.logical_files) != len(fy.logical_files):
        return f"{len(fx.logical_files)} and {len(fy.logical_files)} logical files"
    for n, (a, b) in enumerate(zip(fx.logical_files, fy.logical_files)):
        if len(a.sets) != len(b.sets):
            return f"logical file {n}: sets {[s.type for s in a.sets]} and {[s.type for s in b.sets]}"
        for s, t in zip(a.sets, b.sets):
            if (s.type, s.name) != (t.type, t.name):
                return f"logical file {n}: set {s.type} {s.name} and {t.type} {t.name}"
            if len(s.objects) != len(t.objects):
                return f"logical file {n}: {s.type} objects {[o.name for o in s.objects]} and {[o.name for o in t.objects]}"[:400]
            for o, q in zip(s.objects, t.objects):
                if o.name != q.name:
                    return f"logical file {n}: {s.type} object {o.name} and {q.name}"
                for l in o.attrs:
                    if repr(o.attrs[l]) != repr(q.attrs.get(l)):
                        return f"logical file {n}: {s.type} {o.name}: {o.attrs[l]!r} and {q.attrs.get(l)!r}"[:400]
        if len(a.items) != len(b.items):
            return f"logical file {n}: {len(a.items)} and {len(b.items)} records"
    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
    return f"{len(x)} and {len(y)} bytes, first difference at byte {i}: {x[i:i + 12].hex()} and {y[i:i + 12].hex()}"


if __name__ == '__main__':
    prog.quiet()
    h = json.loads(sys.stdin.read())
    res = run(h, sys.argv[1])
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(res, f)
