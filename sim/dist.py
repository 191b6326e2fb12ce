"""On-demand encoder distance tables.

The real tables are 2^26..2^28 entries per byte offset and take days (HGR) to build;
only one of the four is present in the sandbox.  This stand-in computes the same values
(Damerau-Levenshtein with unit transpositions over the code's own dot-to-colour decoding
and the code's own colour difference matrix) entry by entry and memoises them.
"""
import numpy as np

import colours
import make_data_tables as mdt
import palette
import screen


def _dl(a, b, cost):
    prev2 = prev = 0
    for i in range(len(a)):
        c = prev + cost[a[i] * 16 + b[i]]
        if i and a[i] == b[i - 1] and a[i - 1] == b[i]:
            t = prev2 + 1
            if t < c:
                c = t
        prev2 = prev
        prev = c
    return prev


class Row:
    def __init__(self, cls, o, cost, cols):
        self.cls, self.o, self.cost, self.cols = cls, o, cost, cols
        self.bits = int(cls.MASKED_BITS)
        self.mask = (1 << self.bits) - 1
        self.cache = {}
        self.px = {}

    def pix(self, v):
        r = self.px.get(v)
        if r is None:
            r = self.px[v] = list(colours.dots_to_nominal_colour_pixel_values(
                self.cls.MASKED_DOTS, self.cls.to_dots(v, byte_offset=self.o), self.cols,
                init_phase=self.cls.PHASES[self.o]))
        return r

    def one(self, k):
        r = self.cache.get(k)
        if r is None:
            a, b = k >> self.bits, k & self.mask
            r = _dl(self.pix(a), self.pix(b), self.cost) if a != b else 0
            self.cache[k] = r
        return r

    def __getitem__(self, ix):
        if isinstance(ix, np.ndarray):
            one = self.one
            return np.array([one(k) for k in ix.ravel().tolist()],
                            dtype=np.uint16).reshape(ix.shape)
        return np.uint16(self.one(int(ix)))

    def take(self, ix, *a, **kw):
        return self[np.asarray(ix)]


class Table(list):
    def __getitem__(self, ix):
        if isinstance(ix, tuple):
            return list.__getitem__(self, int(ix[0]))[ix[1]]
        return list.__getitem__(self, int(ix))


_T = {}


def table(cls, p):
    k = (cls.NAME, p)
    if k not in _T:
        cost = [int(x) for x in mdt.compute_diff_matrix(palette.PALETTES[p]).ravel()]
        cols = colours.DHGRColours if cls.NAME == "DHGR" else colours.HGRColours
        _T[k] = Table(Row(cls, o, cost, cols) for o in range(len(cls.BYTE_MASKS)))
    return _T[k]


def install():
    screen.Bitmap.edit_distances = classmethod(table)
    for c in (screen.HGRBitmap, screen.DHGRBitmap):
        if "edit_distances" in c.__dict__:
            c.edit_distances = classmethod(table)
