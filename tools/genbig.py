"""Workloads for harness/geo.cpp: forests of any size up to 2^62 leaves (judged by spec/TraceBig.tla)."""
import hashlib

from gen import A, H, J, Leaves, num_rows, pos_of, proof_nodes, rhash, sibling_nodes

TOP = 2 ** 62


def pick_n(rng, top=TOP):
    k = rng.random()
    b = rng.randrange(0, top.bit_length())
    if k < 0.25:
        n = 2 ** b + rng.choice([-3, -2, -1, 0, 0, 1, 2, 3])
    elif k < 0.5:
        n = rng.getrandbits(b + 1)
    elif k < 0.65:
        n = sum(2 ** rng.randrange(0, b + 1) for _ in range(rng.randrange(1, 5)))
    elif k < 0.75:
        n = 2 ** b - 2 ** rng.randrange(0, b + 1)
    elif k < 0.85:
        n = top - rng.choice([0, 0, 1, 2, 3, rng.getrandbits(40)])
    else:
        n = rng.randrange(1, 200)
    return max(1, min(top, n))


def pick_leaf(rng, n):
    k = rng.random()
    if k < 0.3:
        return rng.randrange(n)
    if k < 0.5:
        return n - 1 - min(n - 1, rng.randrange(8))
    if k < 0.6:
        return min(n - 1, rng.randrange(8))
    if k < 0.8:        # close to the boundary between two trees
        r = rng.choice([i for i in range(n.bit_length()) if n >> i & 1])
        return max(0, min(n - 1, (n >> r << r) + rng.choice([-2, -1, 0, 1])))
    return max(0, min(n - 1, 2 ** rng.randrange(0, n.bit_length() + 1) + rng.choice([-1, 0, 1])))


def pick_targets(rng, n, m=6):
    T = {pick_leaf(rng, n)}
    for _ in range(rng.randrange(m)):
        if rng.random() < 0.5:
            t = rng.choice(sorted(T))
            t = rng.choice([t ^ 1, t ^ 2, t ^ 3, t + 1, t - 1, t ^ (1 << rng.randrange(0, n.bit_length()))])
        else:
            t = pick_leaf(rng, n)
        if 0 <= t < n:
            T.add(t)
    return T


def geometry(rng, steps=6):
    out = []
    for _ in range(steps):
        n = pick_n(rng)
        R = num_rows(n)
        pos = set()
        for _ in range(rng.randrange(3, 8)):
            r = rng.randrange(R + 1)
            k = rng.random()
            if k < 0.6 and n >> r:
                i = pick_leaf(rng, n) >> r
                if i >= n >> r:
                    i = (n >> r) - 1
            else:
                i = rng.randrange(2 ** (R - r))
            pos.add(pos_of(n, r, i))
        for r in range(R + 1):
            if n >> r & 1 and rng.random() < 0.3:
                pos.add(pos_of(n, r, (n >> r) - 1))
        out.append("geo %d %s" % (n, J(map(str, sorted(pos)))))
        m = rng.choice([n, n - 1, rng.randrange(n + 1), max(0, n - rng.randrange(1, 40)), n & (n - 1)])
        out.append("rp %d %d" % (n, m))
        for _ in range(2):
            out.append("pp %d %s" % (n, J(map(str, sorted(pick_targets(rng, n, 8))))))
        t = sorted(pick_targets(rng, n, 5))
        k = rng.random()
        if k < 0.2:
            t.append(n + rng.choice([0, 0, 1, n, TOP]))
        elif k < 0.35:
            t.append(rng.choice(t))
        elif k < 0.5:
            rng.shuffle(t)
        elif k < 0.6:
            t = sorted(t + [rng.choice(t)])
        elif k < 0.65:
            t = []
        out.append("ct %d %s" % (n, J(map(str, t))))
        if rng.random() < 0.6:
            rng.shuffle(t)
        need = len(proof_nodes(n, {x for x in t if x < n}))
        c = rng.choice([need, need, need + 1, max(0, need - 1), 0, rng.randrange(need + 3)])
        out.append("gsane %d %s %d" % (n, J(map(str, t)), c))
    return out


def sane_big(rng, steps=20):
    out = []
    for _ in range(steps):
        n = pick_n(rng)
        t = sorted(pick_targets(rng, n, 6))
        k = rng.random()
        if k < 0.2:
            t.append(n + rng.choice([0, 0, 1, n, TOP, 2 ** 63]))
        elif k < 0.3:
            t.append(rng.choice(t))
        rng.shuffle(t)
        need = len(proof_nodes(n, {x for x in t if x < n}))
        c = rng.choice([need, need, need + 1, max(0, need - 1), 0, rng.randrange(need + 3)])
        out.append("gsane %d %s %d" % (rng.choice([n, n, n, n, 0]), J(map(str, t)), c))
    return out


class Tree:
    __slots__ = ("hash", "row", "l", "r")

    def __init__(self, row, hash=None, l=None, r=None):
        self.row, self.l, self.r = row, l, r
        self.hash = hash or H(l.hash, r.hash)


class Sparse:
    """A forest of n leaves of which only some leaves are fixed; the other subtrees are random hashes."""
    def __init__(self, rng, n, fixed):
        self.n = n

        def build(r, i, inside):
            if not inside:
                return Tree(r, "%064x" % rng.getrandbits(256))
            if r == 0:
                return Tree(0, fixed[i])
            mid = (2 * i + 1) << (r - 1)
            return Tree(r, None, build(r - 1, 2 * i, [x for x in inside if x < mid]),
                        build(r - 1, 2 * i + 1, [x for x in inside if x >= mid]))
        self.root = {}
        for r in range(n.bit_length()):
            if n >> r & 1:
                i = (n >> r) - 1
                self.root[r] = build(r, i, [x for x in fixed if x >> r == i])

    def find(self, r, i):
        R = min(k for k in self.root if k >= r and i >> (k - r) == (self.n >> k) - 1)
        t = self.root[R]
        for k in range(R - r - 1, -1, -1):
            t = t.r if i >> k & 1 else t.l
        return t

    def node(self, r, i):
        return self.find(r, i).hash

    def roots(self):
        return [self.root[r].hash for r in sorted(self.root, reverse=True)]

    def leaves(self):
        out = {}

        def walk(t, i):
            if t.row == 0:
                out[i] = t.hash
            elif t.l:
                walk(t.l, 2 * i)
                walk(t.r, 2 * i + 1)
        for r, t in self.root.items():
            walk(t, (self.n >> r) - 1)
        return out

    def add(self, h):
        t, r = Tree(0, h), 0
        while r in self.root:
            t = Tree(r + 1, None, self.root.pop(r), t)
            r += 1
        self.root[r] = t
        self.n += 1

    def deletion(self, T):
        """(moves per row: place -> source, new roots: row -> source), highest row with a move"""
        D, mv, new, top = set(T), {}, {}, 0
        for r in range(self.n.bit_length() + 1):
            rt = (self.n >> r) - 1 if r in self.root else None
            alive = rt is not None and rt not in D
            D.discard(rt)
            lone = sorted(x for x in D if x ^ 1 not in D)
            nxt = {x >> 1 for x in D if x ^ 1 in D}
            for a, b in zip(lone[0::2], lone[1::2]):
                mv[r, a] = (r, b ^ 1)
                nxt.add(b >> 1)
            if len(lone) % 2:
                if alive:
                    mv[r, lone[-1]] = (r, rt)
                else:
                    new[r] = (r, lone[-1] ^ 1)
                    nxt.add(lone[-1] >> 1)
            elif alive:
                new[r] = (r, rt)
            if lone or D:
                top = r
            D = nxt
        return mv, new, top

    def delete(self, T):
        mv, new, _ = self.deletion(T)
        touched = {(k, i >> (k - r)) for r, i in mv for k in range(r + 1, self.n.bit_length() + 1)}

        def place(x):
            if x not in touched:
                return self.find(*x)
            c = [(x[0] - 1, 2 * x[1] + b) for b in (0, 1)]
            return Tree(x[0], None, *[place(mv.get(y, y)) for y in c])
        self.root = {r: place(x) for r, x in new.items()}
        self.n -= len(T)


def pollard(rng, steps=12, top=TOP, dels=0.2):
    n = pick_n(rng, top)
    if rng.random() < 0.5:
        n |= rng.getrandbits(rng.randrange(1, 9))       # small trees: deletions do not reach the large ones
    n = max(1, min(n, top - 64))         # room for additions
    fixed = pick_targets(rng, n, 8)
    lv = Leaves(rng)
    s = Sparse(rng, n, {i: lv.new() for i in sorted(fixed)})
    out = ["gnew p1 %d %s" % (n, J(s.roots()))]
    seen = set()            # hashes of the verified or remembered leaves
    for _ in range(steps):
        known = s.leaves()
        if not known:
            break
        k = rng.random()
        mem = sorted(i for i in known if known[i] in seen)
        if k < 0.5:
            T = sorted(i for i in known if rng.random() < 0.5)[:9] or [rng.choice(sorted(known))]
            th = [known[i] for i in T]
            nodes = proof_nodes(s.n, T)
            h = [s.node(*x) for x in nodes]
            t = list(T)
            rng.shuffle(t)
            m = rng.random()
            if m < 0.35:                    # tamper
                w = rng.randrange(9)
                if w == 0 and h:
                    j = rng.randrange(len(h)); h[j] = rhash(rng)
                elif w == 1:
                    j = rng.randrange(len(th)); th[j] = rhash(rng)
                elif w == 2 and len(h) > 1:
                    j = rng.randrange(len(h) - 1); h[j], h[j + 1] = h[j + 1], h[j]
                elif w == 3 and len(th) > 1:
                    th[0], th[1] = th[1], th[0]
                elif w == 4:
                    h = h + [rhash(rng)]
                elif w == 5 and h:
                    h.pop(rng.randrange(len(h)))
                elif w == 6:
                    j = rng.randrange(len(t))
                    x = rng.choice([t[j] ^ 1, t[j] + 1, t[j] - 1, s.n, t[j] ^ (1 << rng.randrange(62))])
                    t[j] = max(0, x)
                elif w == 7:
                    h = []
                else:
                    th.pop(rng.choice([0, len(th) - 1]))
            elif m < 0.5 and mem:           # leave out hashes of nodes next to remembered paths
                know = sibling_nodes(s.n, mem)
                h = [s.node(*x) for x in nodes if x not in know or rng.random() < 0.4]
            out.append("gver p1 %s %s %s" % (J(map(str, t)), J(th), J(h)))
            seen |= {known[i] for i in T} if m >= 0.35 else set()
        elif k < 0.5 + dels:
            T = sorted(i for i in mem if rng.random() < 0.6)[:8]
            adds = [(lv.new(), rng.random() < 0.5) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
            if T and s.deletion(T)[2] <= 7:
                out.append("gdel p1 %s %s" % (A(adds), J(map(str, T))))
                s.delete(T)
            elif adds:
                out.append("gadd p1 %s" % A(adds))
            else:
                continue
            for h, rem in adds:
                s.add(h)
                if rem:
                    seen.add(h)
        elif k < 0.78:
            adds = [(lv.new(), rng.random() < 0.5) for _ in range(rng.choice([1, 1, 2, 3, 5, 9]))]
            out.append("gadd p1 %s" % A(adds))
            for h, rem in adds:
                s.add(h)
                if rem:
                    seen.add(h)
        elif k < 0.96:
            pool = mem if mem and rng.random() < 0.8 else sorted(known)
            req = [known[i] for i in rng.sample(pool, rng.randrange(1, min(5, len(pool)) + 1))]
            if rng.random() < 0.1:
                req.append(rng.choice([rhash(rng), req[0]]))
            out.append("gprove p1 %s" % J(req))
        else:
            out.append("gprune p1")
            seen = set()
    return out
