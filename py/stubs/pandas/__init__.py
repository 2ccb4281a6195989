"""The few pandas operations the history reader needs, on numpy (pandas is not installed here).
Anything else raises StubMissing, which the check reports as "not exercised", never as a violation."""
import numpy as np
class StubMissing(Exception): pass
def __getattr__(k): raise StubMissing("pandas." + k)
class _Iloc:
    def __init__(s, d): s.d = d
    def __getitem__(s, k):
        if isinstance(k, (int, np.integer)): return {c: s.d._c[c][k] for c in s.d.columns}
        if isinstance(k, slice) or isinstance(k, (list, np.ndarray)): return s.d._sub(k)
        raise StubMissing("iloc")
class DataFrame:
    def __init__(s, data=None, columns=None, index=None, **kw):
        if kw: raise StubMissing("DataFrame " + str(kw))
        if isinstance(data, np.ndarray) and data.dtype.names: data = {n: data[n] for n in data.dtype.names}
        if isinstance(data, dict):
            s._c = {k: np.array(v) for k, v in data.items()}
        else:
            data = list(data if data is not None else []); columns = list(columns if columns is not None else [])
            s._c = {c: np.array([r[i] for r in data]) for i, c in enumerate(columns)}
        s.columns = list(columns) if columns is not None else list(s._c)
        n = len(next(iter(s._c.values()))) if s._c else 0
        s.index = np.arange(n) if index is None else np.array(index)
    def _sub(s, k):
        d = DataFrame({c: s._c[c][k] for c in s.columns}, columns=s.columns); d.index = s.index[k]; return d
    def __len__(s): return len(s.index)
    shape = property(lambda s: (len(s), len(s.columns)))
    empty = property(lambda s: len(s) == 0)
    iloc = property(_Iloc)
    def __getitem__(s, k):
        if isinstance(k, str): return s._c[k]
        if isinstance(k, slice) or (isinstance(k, np.ndarray) and k.dtype == bool): return s._sub(k)
        raise StubMissing("getitem")
    def head(s, n=5): return s._sub(slice(0, n) if n >= 0 else slice(0, len(s) + n))
    def tail(s, n=5): return s._sub(slice(max(0, len(s) - n), None))
    def copy(s): return s._sub(slice(None))
    def to_records(s, index=True, **kw):
        if kw: raise StubMissing("to_records " + str(kw))
        names = (["index"] if index else []) + s.columns
        return np.rec.fromarrays(([s.index] if index else []) + [s._c[c].copy() for c in s.columns], names=names)
    def __getattr__(s, k):
        if k.startswith("__"): raise AttributeError(k)
        raise StubMissing("DataFrame." + k)
