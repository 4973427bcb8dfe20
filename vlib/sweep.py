"""Small programs whose record body lengths are chosen exactly."""


def sweep_prog(maxlen, lens, fill=None, name='N', rows=1, dtype='uint8', width=None, origin_ref=None, hc=False, text=False,
               write=None):
    """no-format records with the given total body lengths (reference + payload), one frame with one channel"""
    pre = 2 + 1 + len(name) if origin_ref is None else uvari_len(origin_ref) + 2 + len(name)
    shape = [rows] if width is None else [rows, width]
    okw = {'name': 'O', 'creation_time': {'$dt': '2024-01-01T00:00:00', 'tz': 0}, 'file_set_number': 1}
    if hc:
        okw.pop('file_set_number')
    if origin_ref is not None:
        okw['origin_reference'] = origin_ref
    ops = [['lf', 'L', {}], ['add', 'L', 'origin', 'o1', okw],
           ['add', 'L', 'channel', 'c1', {'name': 'C', 'data': {'$arr': {'dtype': dtype, 'shape': shape, 'fill': {'lin': [1, 1]}}}}],
           ['add', 'L', 'frame', 'f1', {'name': 'F', 'channels': [{'$ref': 'c1'}]}],
           ['add', 'L', 'no_format', 'n1', {'name': name}]]
    for i, n in enumerate(lens):
        k = max(0, n - pre)
        if text:
            pl = ''.join(chr(32 + (i + j) % 95) for j in range(k)) if k <= 64 else {'$rep': [chr(33 + i % 90), k]}
        else:
            b = bytes([(i * 7 + 1) & 255]) * k if fill is None else bytes([fill]) * k
            pl = {'$bytes': b.hex()}
        ops.append(['nofmt', 'L', 'n1', pl])
    ops.append(['write', write or {}])
    return {'sul': {'max_record_length': maxlen}, 'hc': hc, 'ops': ops}


def uvari_len(n):
    return 1 if n < 128 else (2 if n < 16384 else 4)


def boundary_lens(maxlen, rnd, count, multiples=(1, 2, 3, 4)):
    """body lengths around multiples of the segment capacity, and the smallest ones"""
    cap = maxlen - 8
    out = []
    for _ in range(count):
        r = rnd.random()
        if r < 0.25:
            out.append(rnd.randint(4, 40))
        else:
            k = rnd.choice(multiples)
            out.append(max(4, k * cap + rnd.randint(-14, 14)))
    return out
