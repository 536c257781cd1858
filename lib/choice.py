"""Exhaustive exploration of the random choices of a program: random / numpy.random draws become nondeterministic choice
points and a depth-first search runs the program once for every sequence of outcomes."""
import contextlib, itertools, random
import numpy as np


class Cut(BaseException):
    """The run made more choices than the bound allows."""


class Chooser(object):
    def __init__(self, floats=(0.0, 0.5, 0.999999), limit=40):
        self.floats, self.limit = floats, limit
        self.prefix, self.sizes, self.pos = [], [], 0

    def choose(self, n):
        if n <= 0:
            raise ValueError('empty choice')
        if n == 1:
            return 0
        k = self.pos
        self.pos += 1
        if k >= self.limit:
            raise Cut()
        if k == len(self.prefix):
            self.prefix.append(0)
            self.sizes.append(n)
        elif self.sizes[k] != n:
            raise RuntimeError('the program is not deterministic apart from its random choices')
        return self.prefix[k]

    def advance(self):
        del self.prefix[self.pos:], self.sizes[self.pos:]
        while self.prefix:
            self.prefix[-1] += 1
            if self.prefix[-1] < self.sizes[-1]:
                return True
            self.prefix.pop()
            self.sizes.pop()
        return False

    # -- the drawing functions ----------------------------------------------------------
    def float(self):
        return self.floats[self.choose(len(self.floats))]

    def np_choice(self, a, size=None, replace=True, p=None):
        items = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        arr = np.arange(int(a)) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if not items:
            raise ValueError('a must be non-empty')
        w = [1.0] * len(items) if p is None else [float(x) for x in p]
        if p is not None and (abs(sum(w) - 1) > 1e-6 or min(w) < 0 or len(w) != len(items)):
            raise ValueError('probabilities do not sum to 1')
        ok = [k for k in range(len(items)) if w[k] > 0]
        if size is None:
            return arr[ok[self.choose(len(ok))]]
        shape = (int(size),) if isinstance(size, (int, np.integer)) else tuple(size)
        n = int(np.prod(shape))
        out, left = [], list(ok)
        if not replace and n > len(ok):
            raise ValueError('Cannot take a larger sample than population')
        for _ in range(n):
            j = self.choose(len(left))
            out.append(left[j])
            if not replace:
                left.pop(j)
        return arr[np.array(out, dtype=int)].reshape(shape + arr.shape[1:])

    def np_permutation(self, x):
        items = np.arange(int(x)) if isinstance(x, (int, np.integer)) else np.array(x)
        left, out = list(range(len(items))), []
        while left:
            out.append(left.pop(self.choose(len(left))))
        return items[np.array(out, dtype=int)]

    def np_shuffle(self, x):
        y = [x[int(k)] for k in self.np_permutation(len(x))]
        for k in range(len(x)):
            x[k] = y[k]

    def np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is None:
            return int(low) + self.choose(int(high) - int(low))
        n = int(np.prod(size))
        return np.array([int(low) + self.choose(int(high) - int(low)) for _ in range(n)]).reshape(size)

    def np_rand(self, *shape):
        if not shape:
            return self.float()
        return np.array([self.float() for _ in range(int(np.prod(shape)))]).reshape(shape)

    def np_random(self, size=None):
        return self.float() if size is None else self.np_rand(*([size] if isinstance(size, int) else size))

    @contextlib.contextmanager
    def installed(self):
        inst = random._inst
        names = ['choice', 'permutation', 'shuffle', 'randint', 'rand', 'random', 'random_sample']
        old = {n: getattr(np.random, n) for n in names}
        oldr = random.random
        inst._randbelow = self.choose
        inst.random = self.float
        random.random = self.float
        for n, f in zip(names, [self.np_choice, self.np_permutation, self.np_shuffle, self.np_randint, self.np_rand,
                                self.np_random, self.np_random]):
            setattr(np.random, n, f)
        try:
            yield self
        finally:
            del inst._randbelow, inst.random
            random.random = oldr
            for n in names:
                setattr(np.random, n, old[n])


def explore(fn, floats=(0.0, 0.5, 0.999999), limit=40, maxruns=None):
    """Yields (choices, result) for every sequence of random outcomes of fn(); result is None when the run was cut."""
    ch = Chooser(floats, limit)
    runs = 0
    while True:
        ch.pos = 0
        with ch.installed():
            try:
                r = fn()
                cut = False
            except Cut:
                r, cut = None, True
        yield tuple(ch.prefix[:ch.pos]), r, cut
        runs += 1
        if not ch.advance():
            return
        if maxruns is not None and runs >= maxruns:
            raise RuntimeError('more random outcomes than the bound')
