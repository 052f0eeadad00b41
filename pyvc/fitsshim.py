"""astropy.io.fits: headers as dictionaries, writes captured (assumed contract)."""
from .values import Unsupported, E


class Card:
    pass


class Header(dict):
    """case-insensitive keyword -> value mapping (comments kept aside)"""

    def __init__(self, d=None):
        dict.__init__(self)
        self.comments = {}
        if d:
            for k, v in d.items():
                self[k] = v

    def _k(self, k):
        return k.strip().upper() if isinstance(k, str) else k

    def __setitem__(self, k, v):
        if isinstance(v, tuple):
            if len(v) > 1:
                self.comments[self._k(k)] = v[1]
            v = v[0]
        dict.__setitem__(self, self._k(k), v)

    def __getitem__(self, k):
        return dict.__getitem__(self, self._k(k))

    def __contains__(self, k):
        return dict.__contains__(self, self._k(k))

    def __delitem__(self, k):
        dict.__delitem__(self, self._k(k))

    def get(self, k, d=None):
        return dict.get(self, self._k(k), d)

    def set(self, k, v=None, comment=None, **kw):
        self[k] = v

    def remove(self, k, **kw):
        del self[k]

    def copy(self, **k):
        r = Header()
        for a, b in self.items():
            dict.__setitem__(r, a, b)
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def add_history(self, *a, **k):
        pass

    add_comment = add_history

    def append(self, *a, **k):
        raise Unsupported('header.append')


class HDU:
    def __init__(self, data=None, header=None, name=None, **k):
        self.data = data
        self.header = header.copy() if isinstance(header, Header) else Header()
        self.name = name


class HDUList(list):
    def writeto(self, fn, **k):
        E().captured.append((fn, list(self)))

    def close(self):
        pass

    def flush(self):
        pass


class Fits:
    Header = Header

    def __init__(self, eng):
        self.PrimaryHDU = HDU
        self.ImageHDU = HDU
        self.HDUList = HDUList
        eng.captured = []

    def writeto(self, fn, data, header=None, **k):
        E().captured.append((fn, [HDU(data, header)]))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported('astropy.io.fits.' + n)
        f.__name__ = n
        return f


def fits(eng):
    return Fits(eng)
