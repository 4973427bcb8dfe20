"""Independent encoder for the RP66 V1 representation codes (from the standard's appendix B)."""
import datetime as _dt
import math
import struct

RANGES = {'USHORT': (0, 255, '>B'), 'UNORM': (0, 65535, '>H'), 'ULONG': (0, 2**32 - 1, '>I'), 'SSHORT': (-128, 127, '>b'),
          'SNORM': (-32768, 32767, '>h'), 'SLONG': (-2**31, 2**31 - 1, '>i'), 'UVARI': (0, 2**30 - 1, None)}


def uvari(n):
    if n < 0x80:
        return bytes([n])
    if n < 0x4000:
        return (n | 0x8000).to_bytes(2, 'big')
    return (n | 0xC0000000).to_bytes(4, 'big')


def encode(code, v):
    """bytes, or None when the code cannot represent the value"""
    if code in RANGES:
        lo, hi, f = RANGES[code]
        if isinstance(v, float):
            return None
        v = int(v)
        if not lo <= v <= hi:
            return None
        return uvari(v) if f is None else struct.pack(f, v)
    if code == 'STATUS':
        return bytes([int(v)]) if v in (0, 1) and not isinstance(v, float) else None
    if code in ('FSINGL', 'FDOUBL'):
        f = '>f' if code == 'FSINGL' else '>d'
        if isinstance(v, int):
            try:
                b = struct.pack(f, v)
            except OverflowError:
                return None
            return b if struct.unpack(f, b)[0] == v else None
        try:
            return struct.pack(f, v)
        except OverflowError:
            return None
    if code in ('IDENT', 'ASCII'):
        try:
            b = v.encode('ascii')
        except UnicodeEncodeError:
            return None
        if code == 'IDENT':
            return bytes([len(b)]) + b if len(b) <= 255 else None
        return uvari(len(b)) + b if len(b) < 2**30 else None
    if code == 'DTIME':
        try:
            u = v.astimezone(_dt.timezone.utc)
        except (OverflowError, ValueError):
            return None
        if not 1900 <= u.year <= 2155:
            return None
        ms = u.microsecond / 1000
        if ms != int(ms):
            return [dtime(u, int(ms)), dtime(u + _dt.timedelta(milliseconds=1), int(ms) + 1 if ms < 999 else 0)]
        return dtime(u, int(ms))
    raise KeyError(code)


def dtime(u, ms):
    return bytes([u.year - 1900, 2 << 4 | u.month, u.day, u.hour, u.minute, u.second]) + ms.to_bytes(2, 'big') \
        if u.year <= 2155 else b''


def obname(origin, copy, name):
    return uvari(origin) + bytes([copy]) + encode('IDENT', name)


def nan_equal(code, v, b):
    """NaN may be encoded with any payload"""
    if code in ('FSINGL', 'FDOUBL') and isinstance(v, float) and math.isnan(v):
        f = '>f' if code == 'FSINGL' else '>d'
        return len(b) == struct.calcsize(f) and math.isnan(struct.unpack(f, b)[0])
    return False
