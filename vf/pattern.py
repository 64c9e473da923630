"""Random patterns: as they are written, and as expressions of Regex.tla. Without anchors and word boundaries."""


def lit(n, r):
    """A byte, in one of its spellings."""
    if n >= 128: return "(?-u:\\x%02x)" % n
    c = chr(n)
    k = r.random()
    if c.isalnum() and k < 0.7: return c
    if k < 0.8: return "\\x%02x" % n
    if n == 10 and k < 0.9: return "\\n"
    return "\\x{%x}" % n


def cls(r, alphabet):
    """A class of bytes."""
    k = r.random()
    s = set(r.sample(alphabet, min(len(alphabet), r.randrange(1, 4))))
    if k < 0.15: return "(?s-u:.)", set(range(256))
    if k < 0.3: return "(?-u:[^%s])" % "".join("\\x%02x" % n for n in sorted(s)), set(range(256)) - s
    if k < 0.4:
        lo, hi = sorted(r.sample(alphabet, 2)) if len(alphabet) > 1 else (alphabet[0],) * 2
        return "(?-u:[\\x%02x-\\x%02x])" % (lo, hi), set(range(lo, hi + 1))
    letters = [n for n in s if chr(n).isalpha() and n < 128]
    if letters and k < 0.6:
        return "(?i-u:%s)" % chr(letters[0]), {letters[0], letters[0] ^ 32}
    if all(n < 128 for n in s): return "[%s]" % "".join("\\x%02x" % n for n in sorted(s)), s
    return "(?-u:[%s])" % "".join("\\x%02x" % n for n in sorted(s)), s


class Gen:
    """alphabet: bytes that occur in buffers; words: strings that do."""
    def __init__(self, r, alphabet, words):
        self.r, self.alphabet, self.words, self.loops = r, alphabet, words, 2
        # the first group of a pattern is reported; there may be others behind it
        self.groups = 0

    def one(self):
        """A part that matches at least one byte: (text, expression)."""
        r = self.r
        k = r.random()
        if k < 0.35:
            n = r.choice(self.alphabet)
            return lit(n, r), ["of", [n]]
        if k < 0.5:
            s, x = cls(r, self.alphabet)
            return s, ["of", sorted(x)] if len(x) < 129 else ["not", sorted(set(range(256)) - x)]
        if k < 0.75:
            w = r.choice(self.words)
            return "".join(lit(n, r) for n in w), self.seq([["of", [n]] for n in w])
        return "(?-s:.)" if r.random() < 0.2 else ".", ["any"]

    def seq(self, xs):
        e = xs[-1]
        for x in reversed(xs[:-1]): e = ["cat", x, e]
        return e

    def part(self, depth):
        """(text, expression, whether it may be empty)."""
        r = self.r
        k = r.random()
        if depth == 0 or k < 0.45:
            s, x = self.one()
            if r.random() < 0.75: return s, x, False
            return self.repeat("(?:%s)" % s, x, False)
        if k < 0.7:
            # a group; it is counted where it opens
            self.groups += 1
            first = self.groups == 1
            s, x, e = self.alt(depth - 1)
            if not first and r.random() < 0.5: s, x = "(?:%s)" % s, x
            else:
                s = "(%s%s)" % ("?P<name>" if first and r.random() < 0.2 else "", s)
                if first: x = ["grp", x]
            if r.random() < 0.6: return s, x, e
            return self.repeat(s, x, e)
        s, x, e = self.alt(depth - 1)
        s = "(?:%s)" % s
        return (s, x, e) if r.random() < 0.6 else self.repeat(s, x, e)

    def repeat(self, s, x, empty):
        r = self.r
        k = r.random()
        lazy = r.random() < 0.4
        q = "?" if lazy else ""
        opt = lambda y: ["alt", ["eps"], y] if lazy else ["opt", y]
        if k < 0.4 or empty or self.loops == 0:
            return s + "?" + q, opt(x), True
        if k < 0.55:
            n, m = r.randrange(3), r.randrange(1, 3)
            m += n
            # x{n,m} is n times x and then up to m - n times
            e = None
            for _ in range(m - n): e = opt(x if e is None else ["cat", x, e])
            return "%s{%d,%d}%s" % (s, n, m, q), self.seq([x] * n + [e]), n == 0
        self.loops -= 1
        loop = ["lazy" if lazy else "star", x]
        if k < 0.8: return s + "*" + q, loop, True
        return s + "+" + q, ["cat", x, loop], False

    def cat(self, depth):
        xs = [self.part(depth) for _ in range(self.r.choice([1, 1, 2, 2, 3]))]
        return "".join(x[0] for x in xs), self.seq([x[1] for x in xs]), all(x[2] for x in xs)

    def alt(self, depth):
        if self.r.random() < 0.7: return self.cat(depth)
        a, b = self.cat(depth), self.cat(depth)
        return "%s|%s" % (a[0], b[0]), ["alt", a[1], b[1]], a[2] or b[2]


def pattern(r, alphabet, words, group):
    """(text, expression, whether it may be empty); group: with a first group."""
    while True:
        g = Gen(r, alphabet, words)
        s, x, e = g.alt(2)
        if group and g.groups == 0:
            t, y, f = g.cat(0)
            k = r.choice([0, 1, 2])
            if k == 0: s, x, e = "(%s)%s" % (t, s), ["cat", ["grp", y], x] , e and f
            elif k == 1: s, x, e = "(?:%s)(%s)" % (s, t), ["cat", x, ["grp", y]], e and f
            else: s, x, e = "%s|(%s)" % (s, t), ["alt", x, ["grp", y]], e or f
            if k == 0 and "|" in s: continue
        if len(s) < 200: return s, x, e
