"""Observe, without touching the repository, which logical records the writer is given.

The wrapper is installed on DLISWriter.write_logical_records when that exists; if the code is organised differently the tap
reports itself unavailable and the checks do without it."""
import contextlib


class Proxy:
    __slots__ = ('_lr', '_out')

    def __init__(self, lr, out):
        object.__setattr__(self, '_lr', lr)
        object.__setattr__(self, '_out', out)

    def represent_as_bytes(self, *a, **k):
        r = self._lr.represent_as_bytes(*a, **k)
        try:
            self._out.append((bytes(r.bts), bool(self._lr.is_eflr), int(self._lr.logical_record_type.value)))
        except Exception:
            self._out.append(None)        # organised differently: not observable
        return r

    @property
    def __class__(self):                  # code that asks for the kind of record gets the answer of the record
        return type(self._lr)

    def __getattr__(self, n):
        return getattr(self._lr, n)


class Seq:
    def __init__(self, seq, given):
        self.seq, self.given = seq, given

    def __len__(self):
        return len(self.seq)

    def __iter__(self):
        for lr in self.seq:
            out = []
            self.given.append((lr, out))
            yield Proxy(lr, out)

    def __getattr__(self, n):
        return getattr(self.seq, n)


def available():
    try:
        from dliswriter.file.writer import DLISWriter
        from dliswriter.logical_record.core.logical_record import LogicalRecord
    except ImportError:
        return False
    return callable(getattr(DLISWriter, 'write_logical_records', None)) and callable(getattr(LogicalRecord, 'represent_as_bytes', None))


@contextlib.contextmanager
def tapped(given):
    """given: list that receives [(record object, [(body, is explicit, type)])] in the order handed to the writer"""
    from dliswriter.file.writer import DLISWriter
    orig = DLISWriter.write_logical_records

    def wrapped(self, logical_records, *a, **k):
        return orig(self, Seq(logical_records, given), *a, **k)
    DLISWriter.write_logical_records = wrapped
    try:
        yield
    finally:
        DLISWriter.write_logical_records = orig


def bodies(given):
    """-> [(body, is explicit, type)] or None when the tap could not follow"""
    out = []
    for lr, got in given:
        if not got:                       # never asked for its bytes: ask now
            try:
                r = lr.represent_as_bytes()
                got = [(bytes(r.bts), bool(lr.is_eflr), int(lr.logical_record_type.value))]
            except Exception:
                return None
        if len({g for g in got}) > 1 or got[-1] is None:
            return None
        out.append(got[-1])
    return out
