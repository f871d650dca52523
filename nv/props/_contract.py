"""Contract stand-ins for neutralocean.fzero (whose own behaviour C01 and C02 decide).

Used where the code under check only needs a root: the root is an unknown number of
the search range with f(root) = 0, so everything shown holds for any root finder that
meets C01/C02. Replay uses the real root finder."""


class _Base:
    E = None

    def bind_env(self, E):
        self.E = E
        self.n = 0

    def py_func(self, *a):
        return self(*a)

    def _root(self, f, a, b, args):
        E = self.E
        r = E.fresh("root")
        E.assume(E.And(a <= r, r <= b))
        y = f(r, *args)
        E.assume(y == 0)
        return r

    def _hang(self, *xs):
        E = self.E
        for x in xs:
            if E.concretize_nan(x):
                raise E.S.Hang("root finder fed with NaN")


class GuessToBounds(_Base):
    def __call__(self, f, x, A, B, args=()):
        E = self.E
        E.S.as_float(x)
        self._hang(x, A, B)
        x, A, B = E.const(x), E.const(A), E.const(B)
        if A > B:
            return E.nan, E.nan
        fA, fB = f(A, *args), f(B, *args)
        nA, nB = E.concretize_nan(fA), E.concretize_nan(fB)
        if nA and nB:  # f is NaN throughout
            return E.nan, E.nan
        self._hang(fA, fB)
        if E.S.SymBool(E.path.fresh_bool("found")):
            r = self._root(f, A, B, args)
            return r, r
        E.assume(E.Or(E.And(fA > 0, fB > 0), E.And(fA < 0, fB < 0)))
        return E.nan, E.nan


class Brent(_Base):
    def __call__(self, f, a, b, t, args=()):
        E = self.E
        if E.concretize_nan(a) or E.concretize_nan(b) or E.concretize_nan(t):
            return E.nan
        a, b = E.const(a), E.const(b)
        if a > b:
            return E.nan
        fa = f(a, *args)
        if a is b or a == b:
            return a if fa == 0 else E.nan
        fb = f(b, *args)
        if E.Or(E.And(fa > 0, fb > 0), E.And(fa < 0, fb < 0)):
            return E.nan
        return self._root(f, a, b, args)


class BrentGuess(_Base):
    def bind_env(self, E):
        self.E = E
        self.g, self.b = GuessToBounds(), Brent()
        self.g.bind_env(E)
        self.b.bind_env(E)

    def __call__(self, f, x, A, B, t, args=()):
        a, b = self.g(f, x, A, B, args)
        return self.b(f, a, b, t, args)


def fz():
    return {"neutralocean.fzero": {"guess_to_bounds": GuessToBounds(), "brent": Brent(), "brent_guess": BrentGuess()}}
