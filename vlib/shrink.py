"""Greedy reduction of failing cases (JSON documents that may contain programs, see prog.py)."""
import copy
import json
import time

ID_POS = {'add': 3, 'lf': 1}
TARGET_POS = {'nofmt': (1, 2), 'set': (1,), 'setattrs': (1,), 'name': (1,), 'oref': (1,), 'cast': (1,), 'dsname': (1,), 'fsn': (1,),
              'touch': (1,), 'add': (1,), 'hdr': (1,)}


def size(c):
    return len(json.dumps(c))


def shrink(case, fails, check, deadline):
    """-> (smallest case found, its problems or None, number of candidates tried)"""
    best, bestp, tried = case, None, 0
    seen = set()
    gens = check.shrinkers() if hasattr(check, 'shrinkers') else [program_candidates, generic_candidates]
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for g in gens:
            again = True
            while again and time.time() < deadline:
                again = False
                for cand in g(best):
                    if time.time() > deadline:
                        break
                    k = json.dumps(cand, sort_keys=True)
                    if k in seen or len(k) > size(best) + 8:
                        continue
                    seen.add(k)
                    tried += 1
                    p = fails(cand)
                    if p:
                        best, bestp = cand, p
                        progress = again = True
                        break
    return best, bestp, tried


# ------------------------------------------------------------------------------------------------ programs
def find_programs(case, path=()):
    if isinstance(case, dict):
        if 'ops' in case and isinstance(case['ops'], list):
            yield path
            return
        for k, v in case.items():
            yield from find_programs(v, path + (k,))
    elif isinstance(case, list):
        for i, v in enumerate(case):
            if isinstance(v, (dict, list)):
                yield from find_programs(v, path + (i,))


def get(case, path):
    for k in path:
        case = case[k]
    return case


def put(case, path, v):
    if not path:
        return v
    c = copy.copy(case)
    c[path[0]] = put(case[path[0]], path[1:], v)
    return c


def program_candidates(case):
    for path in find_programs(case):
        for pr in prog_candidates(get(case, path)):
            yield put(case, path, pr)


def refs_in(v, out):
    if isinstance(v, dict):
        if '$ref' in v:
            out.add(v['$ref'])
        else:
            for x in v.values():
                refs_in(x, out)
    elif isinstance(v, list):
        for x in v:
            refs_in(x, out)
    return out


NOTHING = object()


def strip_refs(v, gone):
    """value without references to removed ids; NOTHING when it has to go"""
    if isinstance(v, dict):
        if '$ref' in v:
            return NOTHING if v['$ref'] in gone else v
        out = {}
        for k, x in v.items():
            y = strip_refs(x, gone)
            if y is NOTHING:
                if k in ('$tuple',) or k.startswith('$'):
                    return NOTHING
                if k == 'value':
                    continue
                continue
            out[k] = y
        return out
    if isinstance(v, list):
        out = [y for y in (strip_refs(x, gone) for x in v) if y is not NOTHING]
        if v and not out:
            return NOTHING
        return out
    return v


def without(ops, idx):
    """ops with the given positions removed, and everything that depends on them"""
    gone = set()
    out = []
    for i, op in enumerate(ops):
        inner = op[1] if op[0] == 'bad' else op
        k = inner[0]
        drop = i in idx
        if not drop and any(inner[p] in gone for p in TARGET_POS.get(k, ())):
            drop = True
        if drop:
            if k in ID_POS:
                gone.add(inner[ID_POS[k]])
            continue
        if gone and refs_in(inner, set()) & gone:
            new = []
            ok = True
            for x in inner:
                y = strip_refs(x, gone)
                if y is NOTHING:
                    ok = False
                    break
                new.append(y)
            if not ok:
                if k in ID_POS:
                    gone.add(inner[ID_POS[k]])
                continue
            op = ['bad', new] + op[2:] if op[0] == 'bad' else new
        out.append(op)
    return out


def prog_candidates(pr):
    ops = pr['ops']
    n = len(ops)
    # 1. whole ops, big chunks first
    step = max(1, n // 2)
    while step >= 1:
        for lo in range(0, n, step):
            yield dict(pr, ops=without(ops, set(range(lo, min(n, lo + step)))))
        if step == 1:
            break
        step //= 2
    # 2. keywords
    for i, op in enumerate(ops):
        inner = op[1] if op[0] == 'bad' else op
        for pos, x in enumerate(inner):
            if not isinstance(x, dict):
                continue
            for k in list(x):
                if k == 'name' and inner[0] == 'add':
                    continue
                y = {a: b for a, b in x.items() if a != k}
                yield dict(pr, ops=ops[:i] + [rebuild(op, pos, y)] + ops[i + 1:])
    # 3. label settings, mode
    if pr.get('sul'):
        yield dict(pr, sul={})
        for k in pr['sul']:
            yield dict(pr, sul={a: b for a, b in pr['sul'].items() if a != k})
    if pr.get('hc'):
        yield dict(pr, hc=False)
    # 4. numbers of rows, consistently
    rows = sorted({s['shape'][0] for s in specs(pr['ops'])}, reverse=True)
    for r in rows:
        for new in {1, r // 2, r - 1, 2, 3}:
            if 0 < new < r:
                yield map_specs(pr, lambda s: dict(s, shape=[new] + s['shape'][1:]) if s['shape'][0] == r else s)
    # 5. array details
    for f in (lambda s: {k: v for k, v in s.items() if k != 'layout'},
              lambda s: dict(s, dtype=native(s['dtype'])),
              lambda s: dict(s, fill={'lin': [0, 1]}),
              lambda s: dict(s, shape=s['shape'][:1])):
        c = map_specs(pr, f)
        if c != pr:
            yield c
    count = sum(1 for _ in specs(pr['ops']))
    for j in range(count):
        for f in (lambda s: {k: v for k, v in s.items() if k != 'layout'}, lambda s: dict(s, dtype=native(s['dtype'])),
                  lambda s: dict(s, fill={'lin': [0, 1]}), lambda s: dict(s, dtype='uint8', fill={'lin': [0, 1]})):
            c = map_specs(pr, f, only=j)
            if c != pr:
                yield c
    # 6. values
    for i, op in enumerate(ops):
        for y in simpler(op, top=True):
            yield dict(pr, ops=ops[:i] + [y] + ops[i + 1:])


def native(d):
    m = {'i1': 'int8', 'i2': 'int16', 'i4': 'int32', 'u1': 'uint8', 'u2': 'uint16', 'u4': 'uint32', 'f4': 'float32', 'f8': 'float64'}
    return m.get(d[1:], d) if d[:1] in '<>=|' else d


def rebuild(op, pos, y):
    if op[0] == 'bad':
        inner = list(op[1])
        inner[pos] = y
        return ['bad', inner] + op[2:]
    new = list(op)
    new[pos] = y
    return new


def specs(v):
    if isinstance(v, dict):
        if 'dtype' in v and 'shape' in v:
            yield v
        else:
            for x in v.values():
                yield from specs(x)
    elif isinstance(v, list):
        for x in v:
            yield from specs(x)


def map_specs(v, f, only=None, _n=None):
    n = _n if _n is not None else [0]
    if isinstance(v, dict):
        if 'dtype' in v and 'shape' in v:
            n[0] += 1
            return f(v) if only is None or n[0] - 1 == only else v
        return {k: map_specs(x, f, only, n) for k, x in v.items()}
    if isinstance(v, list):
        return [map_specs(x, f, only, n) for x in v]
    return v


KEEP_KEYS = ('$ref', '$enumv', '$enum', '$py', '$dtype', 'dtype', 'shape', 'kind', 'layout', 'names', 'order', 'mode', 'pre', 'path',
             'how', 'ext', 'chunked', 'tag', 'seed')


def simpler(v, top=False, key=None):
    """smaller variants of one value"""
    if isinstance(v, bool) or v is None:
        return
    if isinstance(v, dict):
        if '$setup' in v or '$dict' in v:
            inner = v.get('$setup') or v.get('$dict')
            if isinstance(inner, dict) and 'value' in inner and not isinstance(inner['value'], dict):
                yield inner['value']
        if '$np' in v:
            yield v['v']
        if '$tuple' in v:
            yield v['$tuple']
        if '$rep' in v:
            c, n = v['$rep']
            for m in sorted({1, n // 2, n - 1}):
                if 0 < m < n:
                    yield {'$rep': [c, m]} if m > 40 else c * m
        if '$fill' in v:
            s, n, how = v['$fill']
            for m in sorted({0, 12, n // 2, n - n // 8, n - 1}):
                if 0 <= m < n:
                    yield {'$fill': [s, m, how]}
            if s:
                yield {'$fill': [0, n, how]}
            if how != 'bytes':
                yield {'$fill': [s, n, 'bytes']}
            return
        if '$bytes' in v or '$bytearray' in v:
            k = next(iter(v))
            h = v[k]
            for m in sorted({0, len(h) // 4 * 2, len(h) - 2}):
                if 0 <= m < len(h):
                    yield {k: h[:m]}
            if h.strip('0'):
                yield {k: '00' * (len(h) // 2)}
            return
        if '$dt' in v:
            if v != {'$dt': '2000-01-01T00:00:00', 'tz': 0}:
                yield {'$dt': '2000-01-01T00:00:00', 'tz': 0}
            return
        for k, x in v.items():
            if k in KEEP_KEYS:
                continue
            if not top and k[:1] != '$' and len(v) > 1:
                yield {a: b for a, b in v.items() if a != k}
            for y in simpler(x, key=k):
                yield {**v, k: y}
        return
    if isinstance(v, list):
        if not top and len(v) > 1:
            yield v[:len(v) // 2]
            yield v[len(v) // 2:]
            if len(v) <= 30:
                for i in range(len(v)):
                    yield v[:i] + v[i + 1:]
        for i, x in enumerate(v[:60]):
            if top and i in (0,):
                continue
            if top and isinstance(x, str) and v[0] not in ('nofmt', 'name', 'oref'):
                continue
            for y in simpler(x):
                yield v[:i] + [y] + v[i + 1:]
        return
    if isinstance(v, str):
        if len(v) > 1:
            for m in (1, len(v) // 2, len(v) - 1):
                yield v[:m]
        return
    if isinstance(v, int):
        for x in (0, 1, v // 2, v - 1):
            if abs(x) < abs(v):
                yield x
        return
    if isinstance(v, float):
        for x in (0.0, 1.0):
            if v != x and v == v:
                yield x
        if v != int(v) if abs(v) < 1e15 else False:
            yield float(int(v))


def generic_candidates(case):
    """parts of the case outside its programs"""
    progs = set(find_programs(case))
    if () in progs:
        return
    yield from _generic(case, (), progs)


def _generic(v, path, progs):
    if path in progs:
        return
    if isinstance(v, dict):
        for k, x in v.items():
            if k in KEEP_KEYS:
                continue
            for y in _generic(x, path + (k,), progs):
                yield {**v, k: y}
    elif isinstance(v, list):
        n = len(v)
        if n > 1:
            yield v[:n // 2]
            yield v[n // 2:]
            for i in range(min(n, 60)):
                yield v[:i] + v[i + 1:]
        for i, x in enumerate(v[:60]):
            for y in _generic(x, path + (i,), progs):
                yield v[:i] + [y] + v[i + 1:]
    else:
        yield from simpler(v)
