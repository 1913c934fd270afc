"""Truth-table domain over a small set of free input bits.

A bit is the table of its values on all 2^k assignments of the free bits, held
in one integer.  Used on extracted gate lists."""


class TT:
    def __init__(self, k):
        self.k = k
        self.n = 1 << k
        self.mask = (1 << self.n) - 1
        self.vars = []
        for j in range(k):
            p = (1 << (1 << j)) - 1            # 2^j ones
            v = p << (1 << j)
            w = 1 << (j + 1)
            while w < self.n:
                v |= v << w
                w <<= 1
            self.vars.append(v)

    def const(self, b):
        return self.mask if b else 0

    def column(self, v):
        """values at assignment 0, 1, 2, ... as a string"""
        return format(v, "0%db" % self.n)[::-1]

    def ints(self, bitvals):
        """bitvals: tables, least significant first -> list of unsigned integers"""
        if not bitvals:
            return [0] * self.n
        cols = [self.column(v) for v in reversed(bitvals)]
        return [int("".join(t), 2) for t in zip(*cols)]


def signed(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x
