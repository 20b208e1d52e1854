"""A small ABNF engine, independent of httpolice.parse.

Expressions denote regular languages over bytes. ``compile_`` builds a Thompson NFA which is
run as a lazily determinised automaton; it tells acceptance, the longest viable prefix and
the bytes that may follow. ``sample`` draws a random member.
"""


class E:
    def __add__(self, other):
        return Seq([self, lit(other)])

    def __radd__(self, other):
        return Seq([lit(other), self])

    def __or__(self, other):
        return Alt([self, lit(other)])

    def __ror__(self, other):
        return Alt([lit(other), self])


class Set(E):
    def __init__(self, chars):
        self.chars = frozenset(chars)
        self.sorted = None

    def __or__(self, other):
        other = lit(other)
        if isinstance(other, Set):
            return Set(self.chars | other.chars)
        return Alt([self, other])

    def __ror__(self, other):
        return Alt([lit(other), self]) if not isinstance(lit(other), Set) \
            else Set(self.chars | lit(other).chars)

    def __sub__(self, other):
        return Set(self.chars - lit(other).chars)


class Seq(E):
    def __init__(self, items):
        self.items = []
        for x in items:
            self.items.extend(x.items if isinstance(x, Seq) else [x])


class Alt(E):
    def __init__(self, items):
        self.items = []
        for x in items:
            self.items.extend(x.items if type(x) is Alt else [x])


class Rep(E):
    def __init__(self, lo, hi, item):
        self.lo, self.hi, self.item = lo, hi, item


class Words(E):
    """Non-empty strings over `chars`, minus some words (case-insensitively)."""

    def __init__(self, chars, words):
        self.chars = frozenset(chars)
        self.words = sorted(w.lower() for w in words)


class Weighted(E):
    """Same language as `item`; a hint for the sampler: draw one of `picks` often."""

    def __init__(self, item, picks):
        self.item, self.picks = item, picks


EMPTY = Seq([])


def rng(lo, hi):
    return Set(range(lo, hi + 1))


def byte(c):
    return Set([c])


def lit(s):
    """Case-insensitive literal, as in ABNF."""
    if isinstance(s, E):
        return s
    items = [Set({ord(c.lower()), ord(c.upper())}) for c in s]
    return items[0] if len(items) == 1 else Seq(items)


def cs(s):
    return Seq([Set([ord(c)]) for c in s])


def opt(x):
    return Rep(0, 1, lit(x))


def rep(lo, hi, x):
    return Rep(lo, hi, lit(x))


def many(x):
    return Rep(0, None, lit(x))


def many1(x):
    return Rep(1, None, lit(x))


def alt(*xs):
    return Alt([lit(x) for x in xs])


def seq(*xs):
    return Seq([lit(x) for x in xs])


# ------------------------------------------------------------------ automaton

class Automaton:
    def __init__(self, expr):
        self.eps = []           # state -> [state]
        self.trans = []         # state -> (frozenset chars, state) or None
        self.start = self._new()
        self.final = self._new()
        self._build(expr, self.start, self.final)
        self._closure_cache = {}
        self._dfa = {}
        self._next = {}
        self.init = self._closure([self.start])

    def _new(self):
        self.eps.append([])
        self.trans.append(None)
        return len(self.eps) - 1

    def _build(self, e, a, b):
        if isinstance(e, Set):
            s = self._new()
            self.eps[a].append(s)
            self.trans[s] = (e.chars, b)
        elif isinstance(e, Seq):
            cur = a
            for x in e.items:
                n = self._new()
                self._build(x, cur, n)
                cur = n
            self.eps[cur].append(b)
        elif isinstance(e, Alt):
            for x in e.items:
                self._build(x, a, b)
        elif isinstance(e, Weighted):
            self._build(e.item, a, b)
        elif isinstance(e, Rep):
            cur = a
            for _ in range(e.lo):
                n = self._new()
                self._build(e.item, cur, n)
                cur = n
            if e.hi is None:
                loop = self._new()
                self.eps[cur].append(loop)
                back = self._new()
                self._build(e.item, loop, back)
                self.eps[back].append(loop)
                self.eps[loop].append(b)
            else:
                for _ in range(e.hi - e.lo):
                    self.eps[cur].append(b)
                    n = self._new()
                    self._build(e.item, cur, n)
                    cur = n
                self.eps[cur].append(b)
        elif isinstance(e, Words):
            free = self._new()
            self.eps[free].append(b)
            s = self._new()
            self.eps[free].append(s)
            self.trans[s] = (e.chars, free)
            # A trie of the excluded words.
            nodes = {'': a}
            for w in e.words:
                for i in range(len(w)):
                    if w[:i + 1] not in nodes:
                        nodes[w[:i + 1]] = self._new()
            for prefix, node in nodes.items():
                nexts = {p[-1] for p in nodes if p and p[:-1] == prefix}
                taken = set()
                for c in nexts:
                    both = {ord(c.lower()), ord(c.upper())}
                    taken |= both
                    s = self._new()
                    self.eps[node].append(s)
                    self.trans[s] = (frozenset(both), nodes[prefix + c])
                s = self._new()
                self.eps[node].append(s)
                self.trans[s] = (e.chars - taken, free)
                if prefix and prefix not in e.words:
                    self.eps[node].append(b)
        else:
            raise TypeError(e)

    def _closure(self, states):
        seen = set(states)
        stack = list(states)
        while stack:
            s = stack.pop()
            for t in self.eps[s]:
                if t not in seen:
                    seen.add(t)
                    stack.append(t)
        return frozenset(s for s in seen
                         if self.trans[s] is not None or s == self.final)

    def step(self, states, c):
        key = (states, c)
        r = self._dfa.get(key)
        if r is None:
            out = [self.trans[s][1] for s in states
                   if self.trans[s] is not None and c in self.trans[s][0]]
            r = self._dfa[key] = self._closure(out) if out else frozenset()
        return r

    def accepts(self, data):
        cur = self.init
        for c in data:
            cur = self.step(cur, c)
            if not cur:
                return False
        return self.final in cur

    def scan(self, data):
        """(accepted, length of longest viable prefix, bytes that may follow it, may it end)."""
        cur = self.init
        n = 0
        for c in data:
            nxt = self.step(cur, c)
            if not nxt:
                break
            cur = nxt
            n += 1
        follow = self._next.get(cur)
        if follow is None:
            follow = set()
            for s in cur:
                if self.trans[s] is not None:
                    follow |= self.trans[s][0]
            follow = self._next[cur] = frozenset(follow)
        end = self.final in cur
        return (n == len(data) and end, n, follow, end)


_COMPILED = {}


def automaton(expr):
    a = _COMPILED.get(id(expr))
    if a is None:
        a = _COMPILED[id(expr)] = (Automaton(expr), expr)
    return a[0]


# ------------------------------------------------------------------ sampling

def _order(chars):
    def rank(c):
        if 0x61 <= c <= 0x7a:
            return (0, c)
        if 0x30 <= c <= 0x39:
            return (1, c)
        if 0x41 <= c <= 0x5a:
            return (2, c)
        if 0x20 <= c <= 0x7e:
            return (3, c)
        return (4, c)
    return sorted(chars, key=rank)


_ORD = {}


def _ordered(chars):
    r = _ORD.get(chars)
    if r is None:
        r = _ORD[chars] = _order(chars)
    return r


def sample(expr, g, budget=None):
    """Draw a member of the language."""
    if budget is None:
        budget = [60]
    out = bytearray()
    _sample(expr, g, out, budget)
    return bytes(out)


def _sample(e, g, out, budget):
    if isinstance(e, Set):
        o = _ordered(e.chars)
        budget[0] -= 1
        out.append(o[g.int(0, len(o) - 1)] if len(o) > 1 else o[0])
    elif isinstance(e, Seq):
        for x in e.items:
            _sample(x, g, out, budget)
    elif isinstance(e, Alt):
        _sample(e.items[g.int(0, len(e.items) - 1)], g, out, budget)
    elif isinstance(e, Weighted):
        if g.bool(75):
            out.extend(g.choice(e.picks))
        else:
            _sample(e.item, g, out, budget)
    elif isinstance(e, Rep):
        if e.hi is not None and e.hi == e.lo:
            n = e.lo
        elif e.hi is not None and e.hi == 1:
            n = g.int(0, 1) if budget[0] > 0 else 0
        else:
            room = 3 if e.hi is None else min(e.hi - e.lo, 8)
            n = e.lo + (g.int(0, room) if budget[0] > 0 else 0)
        for _ in range(n):
            _sample(e.item, g, out, budget)
    elif isinstance(e, Words):
        budget[0] -= 2
        k = g.int(0, 9)
        if k >= 8 and e.words:
            # A word extended or cut: near the excluded ones.
            w = g.choice(e.words)
            cand = (w[:-1] if k == 8 else w + 'x').encode()
            if cand and cand.decode().lower() not in e.words:
                out.extend(cand)
                return
        chars = _ordered(e.chars)
        while True:
            w = bytes(chars[g.int(0, len(chars) - 1)] for _ in range(1 + g.int(0, 3)))
            if w.decode('latin-1').lower() not in e.words:
                out.extend(w)
                return
    else:
        raise TypeError(e)


# ------------------------------------------------------------------ sampling through a given node

def _children(e):
    if isinstance(e, (Seq, Alt)):
        return e.items
    if isinstance(e, (Rep, Weighted)):
        return [e.item]
    return []


class Nodes:
    """The nodes of an expression, and by whom they are used."""

    def __init__(self, root):
        self.root = root
        self.nodes = []
        self.parents = {}
        seen = {id(root)}
        todo = [root]
        while todo:
            e = todo.pop()
            self.nodes.append(e)
            for i, c in enumerate(_children(e)):
                self.parents.setdefault(id(c), []).append((e, i))
                if id(c) not in seen:
                    seen.add(id(c))
                    todo.append(c)

    def path(self, node, g):
        """From the root to the node: [(parent, index of child)]."""
        r = []
        while node is not self.root:
            ps = self.parents[id(node)]
            parent, i = g.choice(ps) if len(ps) > 1 else ps[0]
            r.append((parent, i))
            node = parent
        return r[::-1]


def sample_through(nodes, node, g, wrong):
    """A member whose derivation goes through `node`; there, at an extreme of what is allowed, or (`wrong`) a little beyond it."""
    out = bytearray()
    _through(nodes.root, nodes.path(node, g), node, g, out, [40], wrong)
    return bytes(out)


def _through(e, path, node, g, out, budget, wrong):
    if not path:
        _extreme(e, g, out, budget, wrong)
        return
    (parent, i), rest = path[0], path[1:]
    if isinstance(e, Seq):
        for k, x in enumerate(e.items):
            if k == i:
                _through(x, rest, node, g, out, budget, wrong)
            else:
                _sample(x, g, out, budget)
    elif isinstance(e, Alt):
        _through(e.items[i], rest, node, g, out, budget, wrong)
    elif isinstance(e, Weighted):
        _through(e.item, rest, node, g, out, budget, wrong)
    else:
        hi = e.hi if e.hi is not None else max(e.lo, 1) + 2
        n = g.int(max(e.lo, 1), max(min(hi, max(e.lo, 1) + 2), 1))
        special = g.int(0, n - 1)
        for k in range(n):
            if k == special:
                _through(e.item, rest, node, g, out, budget, wrong)
            else:
                _sample(e.item, g, out, budget)


def _extreme(e, g, out, budget, wrong):
    if isinstance(e, Set):
        o = sorted(e.chars)
        if wrong:
            near = sorted({c + d for c in o for d in (-1, 1)} - e.chars)
            near = [c for c in near if 0 <= c <= 255] or [0]
            out.append(g.choice(near))
        else:
            edges = [c for c in o if c - 1 not in e.chars or c + 1 not in e.chars]
            out.append(g.choice(edges or o))
    elif isinstance(e, Rep):
        counts = [e.lo, e.hi if e.hi is not None else e.lo + 4]
        if wrong:
            counts = [n for n in (e.lo - 1, None if e.hi is None else e.hi + 1) if n is not None and n >= 0] or counts
        for _ in range(min(g.choice(counts), 300)):
            _sample(e.item, g, out, budget)
    elif isinstance(e, Seq) and wrong and e.items:
        k = g.int(0, len(e.items) - 1)
        drop = g.bool(65)
        for j, x in enumerate(e.items):
            if j != k or not drop:
                _sample(x, g, out, budget)
            if j == k and not drop:
                _sample(x, g, out, budget)
    elif isinstance(e, Words) and wrong and e.words:
        w = g.choice(e.words)
        out.extend((w.upper() if g.bool(20) else w).encode())
    else:
        _sample(e, g, out, budget)
