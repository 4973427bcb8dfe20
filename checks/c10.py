"""C10 - chunk sizes are invisible; the file on disk only grows by whole records."""
import contextlib
import copy
import os
import random

from vlib import gen, prog, reader
from vlib.base import SLOWBAR, Check, describe, features, fix_time
from vlib.runner import Outcome
from vlib.watch import Snapshots, sizes

B = {'p_attr': 0.2, 'nobj': (0, 2), 'ichunk': 0.0, 'rows': (1, 12), 'window': 0.25, 'nframes': (1, 2)}


class C10(Check):
    id = 'C10'
    rule = ('Each case writes one generated specification (several data sources, frames, windows, logical files, record lengths) once '
            'with a large output buffer and the data in one piece, and then 3-5 times with other input chunk sizes (1, 2, a '
            'divisor of, one less than, equal to, one more than the number of rows, huge) and output chunk sizes (the maximum record '
            'length and a little more, integers and integral floats, sizes equal to the distance of two record boundaries and one '
            'off, the whole file and one off), from a fresh build or the same DLISFile, over an absent, shorter, longer, equal or '
            'foreign existing file, by absolute, relative or pathlib path. All files must be byte-identical, as large as the total '
            'the writer logs, and every state of the file seen on disk between two calls (profile hook) must be a prefix that ends on a '
            'visible-record boundary. Non-trivial: the data or the output went through more than one chunk; distinct by (rows, '
            'input chunk, output chunk relative to the file, variant kind).')
    profiles = {
        'frames': (420, {}, {**B, 'nofmt': (0, 2)}),
        'small-records': (260, {}, {**B, 'maxlen': 'small', 'nofmt': (0, 3)}),
        'big': (25, SLOWBAR, {**B, 'rows': (50, 300), 'bigwidth': 0.3, 'payload': (0, 20000), 'nofmt': (0, 2)}),
        # longer than the buffers of files opened by Python, in many small records and pieces
        'long-small': (60, {}, {**B, 'rows': (100, 400), 'maxlen': 'small', 'payload': (0, 9000), 'nofmt': (0, 2)}),
        'multi': (120, {}, {**B, 'nlf': (2, 3)}),
        'hc': (30, {}, {**B, 'hc': 1.0}),
    }

    def shards(self, tier):
        out = super().shards(tier)
        out.insert(0, {'name': 'default-buffer', 'n': 2, 'pieces': 1, 'mem': 12 << 30, 'env': {}, 'prof': {**B, 'nofmt': (0, 2)}})
        return out

    def case(self, seed, shard):
        rnd = random.Random(seed + '/c10')
        pr = fix_time(gen.case(seed, shard['prof']))
        rows = [s['shape'][0] for s in __import__('vlib.shrink', fromlist=['x']).specs(pr['ops'])]
        n = rnd.choice(rows) if rows else 1
        vs = []
        for j in range(rnd.randint(3, 5)):
            v = {}
            if rnd.random() < 0.7:
                v['ichunk'] = max(1, rnd.choice((1, 1, 2, 3, n // 2, n - 1, n, n + 1, 2 * n, 10**6, 2**40, rnd.randint(1, n))))
            r = rnd.random()
            if r < 0.35:
                v['ochunk'] = ['max', rnd.choice((0, 0, 1, 2, 3, 16, 17, 100, rnd.randint(0, 500)))]
            elif r < 0.75:
                v['ochunk'] = ['cut', rnd.random(), rnd.random(), rnd.choice((-1, 0, 0, 1))]
            elif r < 0.9:
                v['ochunk'] = ['total', rnd.choice((-81, -80, -79, -1, 0, 1))]
            if 'ochunk' in v and rnd.random() < 0.25:
                v['float'] = True
            v['mode'] = rnd.choice(('fresh', 'fresh', 'same'))
            v['pre'] = rnd.choice((None, None, 'short', 'long', 'equal', 'empty', 'foreign', 'keep'))
            v['path'] = rnd.choice(('abs', 'abs', 'rel', 'pathlib', 'relpathlib'))
            v['watch'] = rnd.random() < 0.4
            vs.append(v)
        if shard['name'] == 'default-buffer':
            i = int(seed.rsplit('/', 1)[1])
            vs = [{'ochunk': [('default', 'none')[i % 2]], 'mode': 'fresh', 'pre': 'long', 'path': 'abs', 'watch': True}]
        return {'prog': pr, 'variants': vs}

    def run(self, case, ctx):
        pr = case['prog']
        if not pr['ops'] or pr['ops'][-1][0] != 'write':
            return Outcome([], None, [])
        pr = fix_time(copy.deepcopy(pr))
        opts = dict(pr['ops'][-1][1])
        for k in ('ochunk', 'ochunk_float', 'ichunk', 'pathlib'):
            opts.pop(k, None)
        build = dict(pr, ops=pr['ops'][:-1])
        labels = features(pr)
        problems, sig, n = [], set(), 0
        with contextlib.ExitStack() as stack:
            first = None
            b = {}
            try:
                first = self.built(build, ctx, stack, 'a.dlis', b)
                with first.context():
                    base = first.write(dict(opts, ochunk=1 << 20))
            except Exception as e:
                return Outcome([], None, labels + ['refused: ' + type(e).__name__])
            try:
                sul, vrs, _ = reader.parse_framing(base)
                bounds = [80]
                for _, ln in vrs:
                    bounds.append(bounds[-1] + ln)
            except reader.FormatError:
                return Outcome([], None, labels + ['not parsable'])
            mx = int(sul.max)
            rows = None
            for v in case['variants']:
                n += 1
                d = {k: x for k, x in v.items() if x is not None}
                kw = dict(opts)
                if v.get('ichunk'):
                    kw['ichunk'] = v['ichunk']
                oc = self.ochunk(v.get('ochunk'), mx, bounds, len(base))
                try:
                    if v['mode'] == 'same':
                        r = first
                    else:
                        r = self.built(build, ctx, stack, f"b{n}.dlis", b)
                except Exception as e:
                    labels.append('second build refused: ' + type(e).__name__)      # C14's business
                    continue
                path = os.path.join(ctx.dir, 'target.dlis')
                pre = v.get('pre')
                if pre != 'keep':
                    with contextlib.suppress(OSError):
                        os.remove(path)
                    if pre:
                        with open(path, 'wb') as f:
                            f.write({'short': b'x' * 10, 'long': base + b'junk' * 100, 'equal': base, 'empty': b'',
                                     'foreign': b'\xff' * (len(base) + 1)}[pre])
                try:
                    raw, shots, reported = self.write(r, kw, oc, bool(v.get('float')), v, path, ctx)
                except MemoryError:
                    labels.append('no memory for the buffer')
                    continue
                except Exception as e:
                    problems.append(f"accepted values, but the write raised {describe(e)} ({d})")
                    continue
                if raw != base:
                    k = next((i for i, (x, y) in enumerate(zip(raw, base)) if x != y), min(len(raw), len(base)))
                    problems.append(f"{len(raw)} bytes instead of {len(base)}, they differ at offset {k} (chunk sizes {v.get('ichunk')}, "
                                    f"{oc}; {d})")
                for s in reported[-1:]:
                    if s != len(raw):
                        problems.append(f"the writer reports {s} bytes, the file has {len(raw)} ({d})")
                if reported:
                    labels.append('reported size compared')
                bset = {0, *bounds}
                for s in shots:
                    if s != raw[:len(s)]:
                        problems.append(f"on disk during the write: {len(s)} bytes that are not a prefix of the file ({d})")
                        break
                    if raw == base and len(s) not in bset:
                        problems.append(f"on disk during the write: {len(s)} bytes, not ending on a visible-record boundary ({d})")
                        break
                if len(shots) > 2:
                    labels.append('several states seen on disk')
                if v.get('ichunk') or len(shots) > 2:
                    sig.add((opts.get('from'), opts.get('to'), v.get('ichunk'), len(bounds), len(base), repr(oc), v['mode'], v.get('pre'), v['path']))
                labels.append('mode ' + v['mode'])
                labels.append(f"existing file: {v.get('pre')}")
                labels.append('output chunk ' + str((v.get('ochunk') or ['large'])[0]))
        return Outcome(problems, sig or None, sorted(labels), n=n + 1)

    @staticmethod
    def built(build, ctx, stack, name, b):
        r = prog.Run(build, ctx.dir, name)
        stack.callback(r.cleanup)
        try:
            r.run()
        except prog.Step as e:
            raise e.exc
        return r

    @staticmethod
    def ochunk(spec, mx, bounds, total):
        if spec is None:
            return 1 << 20
        k = spec[0]
        if k == 'default':
            return 'default'
        if k == 'none':
            return None
        if k == 'max':
            return mx + spec[1]
        if k == 'total':
            return max(mx, total + spec[1])
        i, j = sorted((int(spec[1] * len(bounds)), int(spec[2] * len(bounds))))
        return max(mx, bounds[j] - bounds[i] + spec[3])

    @staticmethod
    def write(r, kw, oc, fl, v, path, ctx):
        data = r.source(kw.get('data'))
        args = {}
        for a, b in (('from', 'from_idx'), ('to', 'to_idx'), ('ichunk', 'input_chunk_size')):
            if kw.get(a) is not None:
                args[b] = kw[a]
        if data is not None:
            args['data'] = data
        if oc != 'default':
            args['output_chunk_size'] = float(oc) if fl and oc is not None else oc
        p = path
        cwd = os.getcwd()
        if v['path'] in ('rel', 'relpathlib'):
            os.chdir(ctx.dir)
            p = os.path.basename(path)
        if v['path'] in ('pathlib', 'relpathlib'):
            from pathlib import Path
            p = Path(p)
        try:
            with r.context(), sizes() as reported:
                snap = Snapshots(path)
                if v.get('watch'):
                    with snap:
                        r.df.write(p, **args)
                else:
                    r.df.write(p, **args)
            with open(path, 'rb') as f:
                return f.read(), snap.shots, reported
        finally:
            os.chdir(cwd)


CHECK = C10()
