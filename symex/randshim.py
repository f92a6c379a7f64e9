"""
Stand-in for `random`: every call returns an arbitrary value allowed by the
documentation, drawn from the current harness (`symbolic` or replayed).
"""
import types

_current = None


def set_harness(h):
    global _current
    _current = h


class RandomShim(types.ModuleType):
    def random(self):
        u = _current.real("random", 0, 1)
        lo = getattr(_current, "random_min", 0)
        if lo:
            # bound of a harness: very small values other than 0 are left out
            _current.assume(_current.or_(u == 0, u >= lo))
        grid = getattr(_current, "random_grid", 0)
        if grid:
            # bound of a harness: multiples of 1/grid only, which keeps clear of rounding
            _current.assume(_current.is_multiple(u, grid))
        return u

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[_current.choose(len(seq), "random.choice")]

    def randint(self, a, b):
        return a + _current.choose(b - a + 1, "random.randint")

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        r = range(start, stop, step)
        if len(r) == 0:
            raise ValueError("empty range for randrange()")
        return r[_current.choose(len(r), "random.randrange")]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        out = []
        for _ in range(k):
            if weights is None and cum_weights is None:
                out.append(self.choice(population))
                continue
            if weights is not None:
                cum, s = [], 0
                for w in weights:
                    s = s + w
                    cum.append(s)
            else:
                cum = list(cum_weights)
            if len(cum) != len(population):
                raise ValueError("The number of weights does not match the population")
            total = cum[-1] + 0.0
            if total <= 0.0:
                raise ValueError("Total of weights must be greater than zero")
            x = self.random() * total
            i = 0
            while i < len(cum) - 1 and not x < cum[i]:
                i += 1
            out.append(population[i])
        return out

    def shuffle(self, xs):
        for i in reversed(range(1, len(xs))):
            j = self.randint(0, i)
            xs[i], xs[j] = xs[j], xs[i]

    def sample(self, population, k):
        xs = list(population)
        self.shuffle(xs)
        return xs[:k]


NAMES = ("random", "uniform", "choice", "randint", "randrange", "choices", "shuffle",
         "sample")
