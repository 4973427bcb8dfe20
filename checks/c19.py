"""C19 - writing never alters the caller's data."""
import contextlib
import os
import random

from vlib import faults, gen, prog
from vlib.base import EASTERN, Check, features, fix_time
from vlib.runner import Outcome
from vlib.shrink import specs

B = {'p_attr': 0.15, 'nobj': (0, 2), 'rows': (1, 9), 'nchan': (1, 4), 'cast': 0.5, 'ichunk': 0.4, 'window': 0.3, 'nofmt': (0, 1)}
FAULTS = ('call', 'call', 'call', 'size', 'full', 'dir', 'ochunk', 'window', 'missing', 'rows', 'dtype', 'source')


class C19(Check):
    id = 'C19'
    rule = ('Each case builds one generated specification (all dtypes, byte orders, memory layouts incl. read-only, strided, '
            'reversed, unaligned, field and big-endian views; casts; 1-D and 2-D; inline, dict, structured and HDF5 sources; '
            'index channels) and performs 2-5 writes with the same source objects: plain, with windows and input chunks, and '
            'failing ones - an exception injected at a random call inside the library, a file-size limit at a random byte, a full '
            'device, a missing directory, a buffer or window out of range, a data set missing, with other rows or of an '
            'unsupported type, an unusable source. Before and after every call, contents, dtype, shape, strides, flags and underlying buffer '
            'of every array, keys and value identities of the dict and the bytes of the HDF5 file are compared. Non-trivial: at '
            'least one array was handed over and a write was attempted; distinct by program and faults.')
    profiles = {
        'mixed': (450, {}, {**B}),
        'cast': (200, {}, {**B, 'cast': 0.95, 'sources': ('inline', 'dict', 'struct')}),
        'index': (200, {}, {**B, 'index': 1.0, 'nchan': (1, 2)}),
        'plain': (200, {}, {**B, 'cast': 0.0, 'layouts': False, 'nchan': (1, 2)}),
        'exact': (200, {}, {**B, 'sources': ('struct',), 'exact': 1.0, 'dsname': 0.0, 'special': 0.9, 'cast': 0.05, 'orphan': 0, 'width': (1, 3),
                            'layouts': False}),
        'multi': (100, EASTERN, {**B, 'nlf': (2, 2), 'nframes': (1, 2), 'nchan': (1, 2)}),
        'hc': (60, {}, {**B, 'hc': 1.0}),
    }

    def case(self, seed, shard):
        rnd = random.Random(seed + '/c19')
        pr = fix_time(gen.case(seed, shard['prof']))
        rows = [s['shape'][0] for s in specs(pr['ops'])]
        n = min(rows) if rows else 1
        ws = []
        for j in range(rnd.randint(2, 5)):
            w = {}
            if rnd.random() < 0.4:
                a = rnd.randint(0, n - 1)
                w['from'], w['to'] = a, rnd.randint(a + 1, n)
            if rnd.random() < 0.5:
                w['ichunk'] = rnd.choice((1, 2, 3, n, n + 1))
            if rnd.random() < 0.55:
                w['tag'] = rnd.choice(FAULTS)
                w['at'] = rnd.random()
            ws.append(w)
        return {'prog': pr, 'writes': ws}

    def run(self, case, ctx):
        pr = case['prog']
        if not pr['ops'] or pr['ops'][-1][0] != 'write':
            return Outcome([], None, [])
        opts = pr['ops'][-1][1]
        labels = features(pr)
        r = prog.Run(dict(pr, ops=pr['ops'][:-1]), ctx.dir)
        r.keep_inputs = True
        problems = []
        try:
            try:
                r.run()
            except prog.Step as e:
                problems += [f"after {e.op[0]} was refused: {p}" for p in r.altered()]
                return Outcome(problems, None, labels + ['refused: ' + type(e.exc).__name__])
            problems += [f"after building: {p}" for p in r.altered()]
            data = r.source(opts.get('data'))
            for w in [{}] + case['writes']:
                kw = {b: w[a] for a, b in (('from', 'from_idx'), ('to', 'to_idx'), ('ichunk', 'input_chunk_size')) if w.get(a) is not None}
                if not w:
                    kw = {b: opts[a] for a, b in (('from', 'from_idx'), ('to', 'to_idx'), ('ichunk', 'input_chunk_size'))
                          if opts.get(a) is not None}
                kw['output_chunk_size'] = 1 << 16
                src = data
                path = r.path
                f = w.get('tag')
                ctxm = contextlib.nullcontext()
                if f == 'call':
                    with faults.Counter() as c, contextlib.suppress(Exception), r.context():
                        r.df.write(path, **dict(kw, **({'data': src} if src is not None else {})))
                    problems += [f"after a write ({kw}): {p}" for p in r.altered()]
                    ctxm = faults.raise_at(1 + int(w['at'] * c.n))
                elif f == 'size':
                    ctxm = faults.file_size_limit(int(w['at'] * 3000))
                elif f == 'full':
                    path = os.path.join(ctx.dir, 'full')       # a link: nothing the library does to the path can harm the device
                    if not os.path.islink(path):
                        os.symlink('/dev/full', path)
                elif f == 'dir':
                    path = os.path.join(ctx.dir, 'nowhere', 'x.dlis')
                elif f == 'ochunk':
                    kw['output_chunk_size'] = int(w['at'] * 30) - 5
                elif f == 'window':
                    kw['from_idx'] = 5
                    kw['to_idx'] = 10**6
                elif f in ('missing', 'rows', 'dtype') and isinstance(src, dict) and src:
                    k = sorted(src)[int(w['at'] * len(src))]
                    src = dict(src)
                    if f == 'missing':
                        del src[k]
                    elif f == 'rows':
                        src[k] = src[k][:max(0, len(src[k]) - 1)]
                    else:
                        src[k] = src[k].astype('complex64')
                    r.given('the data dict', src)
                    for q in src:
                        r.given(f"data[{q!r}]", src[q])
                elif f == 'source':
                    src = '/nonexistent/x.h5' if w['at'] < 0.5 else 5
                if src is not None:
                    kw['data'] = src
                exc = None
                try:
                    with r.context(), ctxm:
                        r.df.write(path, **kw)
                except Exception as e:
                    exc = e
                labels.append(f"{f or 'no fault'}: {'written' if exc is None else 'failed'}")
                d = {a: b for a, b in kw.items() if a != 'data'}
                problems += [f"after a {'write' if exc is None else 'failed write'} ({f}, {d}): {p}" for p in r.altered()]
                if problems:
                    break
            return Outcome(problems, repr(case)[:30000] if r.inputs else None, labels, n=1 + len(case['writes']))
        finally:
            r.cleanup()


CHECK = C19()
