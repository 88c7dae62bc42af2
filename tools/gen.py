"""Random workloads: scripts for harness/driver.cpp.

The small model in here only chooses interesting arguments (positions of leaves, canonical proofs to
tamper with). Nothing is judged by it: the recorded calls are judged by spec/Trace.tla."""
import hashlib
import random


def H(l, r):
    return hashlib.new("sha512_256", bytes.fromhex(l) + bytes.fromhex(r)).hexdigest()


def num_rows(n):
    return 0 if n == 0 else (n - 1).bit_length()


def is_root(n, r, i):
    m = n >> r
    return m % 2 == 1 and i == m - 1


def pos_of(n, r, i):
    R = num_rows(n)
    return 2 ** (R + 1) - 2 ** (R + 1 - r) + i


def delete(leaves, D):
    def row(s):
        if not s:
            return []
        m, p = len(s), len(s) // 2
        root = s[m - 1] if m % 2 else None
        s = list(s[:2 * p])
        lone = [i for i in range(2 * p) if s[i] is None and s[i ^ 1] is not None]
        for a, b in zip(lone[0::2], lone[1::2]):
            s[a], s[b ^ 1] = s[b ^ 1], None
        new = root
        if len(lone) % 2:
            t = lone[-1]
            if root is not None:
                s[t], new = root, None
            else:
                new, s[t ^ 1] = s[t ^ 1], None
        return row([None if s[2 * i] is None else s[2 * i] + s[2 * i + 1] for i in range(p)]) + (new or [])
    return row([None if i in D else [x] for i, x in enumerate(leaves)])


def proof_nodes(n, T):
    out, C, r = [], set(T), 0
    while C:
        inner = [i for i in C if not is_root(n, r, i)]
        out += [(r, i) for i in sorted({i ^ 1 for i in inner} - C)]
        C = {i >> 1 for i in inner}
        r += 1
    return out


def sibling_nodes(n, T):
    out, C, r = set(), set(T), 0
    while C:
        inner = [i for i in C if not is_root(n, r, i)]
        out |= {(r, i ^ 1) for i in inner}
        C = {i >> 1 for i in inner}
        r += 1
    return out


class State:
    """An immutable accumulator state."""
    def __init__(self, leaves):
        self.leaves = list(leaves)
        self.n = len(self.leaves)
        self._rows = None
        self._idx = None

    @property
    def rows(self):
        if self._rows is None:
            row, rows = self.leaves, []
            while row:
                rows.append(row)
                row = [H(row[2 * i], row[2 * i + 1]) for i in range(len(row) // 2)]
            self._rows = rows
        return self._rows

    @property
    def idx(self):
        if self._idx is None:
            self._idx = {h: i for i, h in enumerate(self.leaves)}
        return self._idx

    def node(self, x):
        return self.rows[x[0]][x[1]]

    def modify(self, adds, dels):
        left = delete(self.leaves, set(dels)) if dels else self.leaves
        return State(left + list(adds))


class Leaves:
    """Leaf hashes of several shapes (as in the tests, random, long common prefixes, extreme values)."""
    KINDS = ("test", "sha", "pfx8", "pfx24", "sfx24", "mix")

    def __init__(self, rng, kind=None):
        self.rng = rng
        self.kind = kind or rng.choice(self.KINDS)
        self.n = rng.randrange(1 << 16)
        self.special = ["00" * 32, "ff" * 32, "00" * 31 + "01", "01" + "00" * 31] if rng.random() < 0.5 else []
        rng.shuffle(self.special)

    def new(self):
        if self.special and self.rng.random() < 0.15:
            return self.special.pop()
        self.n += 1
        k = self.kind if self.kind != "mix" else self.rng.choice(self.KINDS[:-1])
        s = hashlib.sha256(b"%d" % self.n).hexdigest()
        if k == "test":
            b = bytearray(32)
            b[0], b[1], b[2], b[3], b[4] = self.n & 255, self.n >> 8 & 255, self.n >> 16 & 255, 1, 0xff
            return b.hex()
        if k == "sha":
            return s
        if k == "pfx8":
            return "a5" * 8 + s[16:]
        if k == "pfx24":
            return "5a" * 24 + "%016x" % (self.n + (1 << 40))
        return "%016x" % (self.n + (2 << 40)) + "c3" * 24


def J(xs):
    xs = list(xs)
    return ",".join(str(x) for x in xs) if xs else "-"


def A(adds):
    adds = list(adds)
    return ",".join("%s:%d" % (h, r) for h, r in adds) if adds else "-"


def disorder(rng, x):
    """Reorders an ascending list in place: usually at random, sometimes only in one place."""
    k = rng.randrange(8) if len(x) > 2 else 0
    if k == 1:                          # one element late or early
        x.insert(rng.randrange(len(x)), x.pop(rng.randrange(len(x))))
    elif k == 2:                        # the end of it is not in order
        i = rng.randrange(len(x) - 1)
        t = x[i:]
        rng.shuffle(t)
        x[i:] = t
    elif k == 3:                        # rotated
        i = rng.randrange(len(x))
        x[:] = x[i:] + x[:i]
    elif k == 4:
        x.reverse()
    elif k == 5:
        pass
    else:
        rng.shuffle(x)


def disordered(rng, x):
    disorder(rng, x)
    return x


def pick_subset(rng, n, cap=None):
    """Positions to delete or prove, of many shapes."""
    if n == 0:
        return []
    k = rng.randrange(14)
    if k == 0:
        s = set(rng.sample(range(n), 1))
    elif k == 1:
        s = set(rng.sample(range(n), min(n, 2)))
    elif k == 2:
        s = set(rng.sample(range(n), rng.randint(1, min(n, 5))))
    elif k == 3:
        s = {i for i in range(n) if rng.random() < 0.5}
    elif k == 4:
        s = set(range(n)) - set(rng.sample(range(n), min(n, rng.randint(0, 2))))
    elif k == 5:
        s = {n - 1}
    elif k == 6:                                   # whole subtrees
        r = rng.randint(0, max(0, num_rows(n)))
        i = rng.randint(0, (n - 1) >> r)
        s = set(range(i << r, min(n, (i + 1) << r)))
    elif k == 7:                                   # a range
        a = rng.randrange(n)
        s = set(range(a, min(n, a + rng.randint(1, max(1, n // 2)))))
    elif k == 8:                                   # every second
        s = set(range(rng.randint(0, 1), n, 2))
    elif k == 9:                                   # a whole tree of the forest
        off, trees = 0, []
        for r in range(num_rows(n), -1, -1):
            if (n >> r) & 1:
                trees.append((off, off + (1 << r)))
                off += 1 << r
        a, b = rng.choice(trees)
        s = set(range(a, b))
    elif k == 10:                                  # all but a whole tree
        off, trees = 0, []
        for r in range(num_rows(n), -1, -1):
            if (n >> r) & 1:
                trees.append((off, off + (1 << r)))
                off += 1 << r
        a, b = rng.choice(trees)
        s = set(range(n)) - set(range(a, b))
    elif k == 11:
        s = {i for i in range(n) if rng.random() < 0.15}
    elif k == 12:
        s = {i for i in range(n) if rng.random() < 0.85}
    else:
        s = set(range(n))
    s = sorted(s)
    if cap and len(s) > cap:
        s = sorted(rng.sample(s, cap))
    return s


def pick_adds(rng, room, big=False):
    k = rng.randrange(10)
    m = 0 if k == 0 else 1 if k in (1, 2) else 2 if k == 3 else rng.randint(3, 9)
    if k == 9:
        m = rng.randint(5, 20)
    if big and rng.random() < 0.3:
        m = rng.randint(10, 60)
    return max(0, min(m, room))


class World:
    def __init__(self, rng, maxn=40, kind=None):
        self.rng = rng
        self.maxn = maxn
        self.out = []
        self.src = Leaves(rng, kind)
        self.f = {}          # id -> dict(st, file, us)
        self.p = {}          # id -> dict(st, rem)
        self.disk = {}       # path -> State
        self.dead = []       # leaves that were deleted
        self.oldproofs = []  # (targets, thashes, hashes) of earlier states
        self.nid = 0

    def emit(self, *a):
        self.out.append(" ".join(str(x) for x in a))

    def fresh(self, c):
        self.nid += 1
        return c + str(self.nid)

    # ---- leaves
    def leaf(self, avoid):
        if self.dead and self.rng.random() < 0.2:
            h = self.rng.choice(self.dead)
            if h not in avoid:
                return h
        while True:
            h = self.src.new()
            if h not in avoid:
                return h

    def adds(self, m, avoid, st=None, dels=()):
        """m new leaves; sometimes leaves that the same block deletes."""
        avoid = set(avoid)
        out = []
        for _ in range(m):
            if st is not None and dels and self.rng.random() < 0.1:
                h = st.leaves[self.rng.choice(list(dels))]
                if h not in out:
                    out.append(h)
                    continue
            h = self.leaf(avoid | set(out))
            out.append(h)
        return out

    # ---- forest
    def fnew(self, path=None, fid=None):
        f = fid or self.fresh("f")
        if path:
            st = self.disk.get(path, State([]))
            self.emit("fopen", f, path)
            self.disk[path] = st
        else:
            st = State([])
            self.emit("fnew", f)
        self.f[f] = {"st": st, "file": path, "us": []}
        return f

    def fmodify(self, f, adds, dels, how=None):
        rng, x = self.rng, self.f[f]
        how = how or rng.choice(["fmod", "fmod", "fbmod"] + (["fadd"] if not dels else []))
        al = [(h, rng.randint(0, 1)) for h in adds]
        new = x["st"].modify(adds, dels)
        if how == "fmod":
            u = self.fresh("u")
            if rng.random() < 0.25:             # the object that receives the undo data is not empty
                junk = sorted(rng.sample(range(40), rng.randint(0, 4)))
                self.emit("unew", u, rng.randint(0, 5), J(junk), J(self.src.new() for _ in junk))
            self.emit("fmod", f, u, A(al), J(dels))
            x["us"].append((u, x["st"], new))
        elif how == "fbmod":
            self.emit("fbmod", f, A(al), J(dels))
            x["us"] = []
        else:
            self.emit("fadd", f, A(al))
            x["us"] = []
        self.dead += [x["st"].leaves[d] for d in dels]
        self.dead = self.dead[-60:]
        x["st"] = new

    def random_block(self, st):
        rng = self.rng
        dels = pick_subset(rng, st.n) if rng.random() < 0.75 else []
        if st.n > self.maxn * 0.8 and len(dels) < st.n // 3:
            dels = pick_subset(rng, st.n)
        left = st.n - len(dels)
        keep = set(st.leaves) - {st.leaves[d] for d in dels}
        adds = self.adds(pick_adds(rng, self.maxn - left, self.maxn > 100), keep, st, dels)
        return adds, dels

    def fundo(self, f):
        x = self.f[f]
        if not x["us"]:
            return False
        u, pre, post = x["us"].pop()
        if self.rng.random() < 0.4:
            d = self.fresh("u") if self.rng.random() < 0.6 or not x["us"] else "ux"
            self.emit("uround", u, d)
            u = d
        self.emit("fundo", f, u)
        x["st"] = pre
        return True

    def fobs(self, f):
        self.emit("fobs", f)

    def request(self, st, rem=None):
        """A list of leaf hashes to prove: mostly provable, sometimes duplicate/deleted/unknown."""
        rng = self.rng
        pool = [h for h in st.leaves if rem is None or h in rem]
        req = [pool[i] for i in pick_subset(rng, len(pool))] if rng.random() < 0.95 else []
        disorder(rng, req)
        k = rng.random()
        if k < 0.08 and req:
            req.insert(rng.randint(0, len(req)), rng.choice(req))
        elif k < 0.16 and self.dead:
            req.insert(rng.randint(0, len(req)), rng.choice(self.dead))
        elif k < 0.2:
            req.insert(rng.randint(0, len(req)), self.leaf(set(st.leaves)))
        elif k < 0.24 and st.n > 1:
            req.insert(rng.randint(0, len(req)), st.node((1, rng.randrange(st.n // 2))))
        elif k < 0.3 and rem is not None and st.n:
            req.insert(rng.randint(0, len(req)), rng.choice(st.leaves))
        return req

    def fprove(self, f):
        self.emit("fprove", f, self.rng.choice(["b1", "b2", "b3"]), J(self.request(self.f[f]["st"])))

    def fprobe(self, f):
        st, rng = self.f[f]["st"], self.rng
        req = rng.sample(st.leaves, min(4, st.n)) + rng.sample(self.dead, min(4, len(self.dead)))
        if req:
            self.emit("fprobe", f, J(req))

    def fver(self, f):
        st, rng = self.f[f]["st"], self.rng
        req = self.request(st)
        if all(h in st.idx for h in req) and len(set(req)) == len(req):
            self.emit("fprove", f, "b4", J(req))
            if rng.random() < 0.3:
                req = list(req) + [rng.choice(self.dead)] if self.dead else req
        self.emit("fver", f, "b4", J(req))

    def bad_positions(self, n):
        rng = self.rng
        good = pick_subset(rng, n) or [0]
        k = rng.randrange(9)
        if k == 0:
            return good + [good[-1]]
        if k == 1 and len(good) > 1:
            return list(reversed(good))
        if k == 2:
            return good + [n]
        if k == 3:
            return list(range(n + 1))
        if k == 4:
            return good + [n + rng.randint(0, 2 * n + 3)]
        if k == 5 and len(good) > 1:
            i = rng.randrange(len(good) - 1)
            good[i], good[i + 1] = good[i + 1], good[i]
            return good
        if k == 6:
            return [good[0]] + good
        if k == 7:
            return good + [rng.choice([2**32, 2**32 + good[0], 2**63, 2**64 - 1])]
        return [rng.choice([n, n + 1, 2**31, 2**32, 2**40, 2**64 - 1])]

    def fmalformed(self, f):
        x = self.f[f]
        adds = [(h, 0) for h in self.adds(self.rng.randint(0, 3), x["st"].leaves)]
        bad = self.bad_positions(x["st"].n)
        if self.rng.random() < 0.7:
            self.emit("fmod", f, self.fresh("u"), A(adds), J(bad))
        else:
            self.emit("fbmod", f, A(adds), J(bad))

    def rebuild(self, f):
        """A fresh forest with the same leaves must be equal."""
        x = self.f[f]
        g = self.fnew()
        if x["st"].n:
            self.fmodify(g, x["st"].leaves, [], self.rng.choice(["fadd", "fmod"]))
        self.emit("eq", f, g)
        self.emit("eq", g, f)
        self.emit("cmp", f, g)
        return g

    def forget(self, x):
        self.emit("drop", x)
        self.f.pop(x, None)
        self.p.pop(x, None)

    # ---- pollard
    def pnew(self):
        p = self.fresh("p")
        self.emit("pnew", p)
        self.p[p] = {"st": State([]), "rem": set()}
        return p

    def prest(self, x):
        p = self.fresh("p")
        self.emit("prest", p, x)
        st = self.f[x]["st"] if x in self.f else self.p[x]["st"]
        self.p[p] = {"st": st, "rem": set()}
        return p

    def pmodify(self, p, adds, dels):
        """adds: (hash, remember)"""
        x = self.p[p]
        gone = {x["st"].leaves[d] for d in dels}
        self.emit("pmod", p, A(adds), J(dels))
        x["st"] = x["st"].modify([h for h, _ in adds], dels)
        x["rem"] = (x["rem"] - gone) | {h for h, r in adds if r}

    def canonical(self, st, T):
        T = sorted(T)
        nodes = proof_nodes(st.n, T)
        return T, [st.leaves[t] for t in T], [st.node(x) for x in nodes], nodes

    def pverify(self, p, T, via=None, partial=False):
        """An honest verification of the positions T (in request order if taken from a forest)."""
        rng, x = self.rng, self.p[p]
        T, th, ph, nodes = self.canonical(x["st"], T)
        if partial:
            known = sibling_nodes(x["st"].n, [x["st"].idx[h] for h in x["rem"]]) if x["rem"] else set()
            q = rng.choice([0.5, 0.9, 1.0, 1.0])
            ph = [h for h, nd in zip(ph, nodes) if not (nd in known and rng.random() < q)]
        if via and not partial:
            req = list(th)
            disorder(rng, req)
            b = rng.choice(["b1", "b2", "b3"])
            self.emit("fprove", via, b, J(req))
            if rng.random() < 0.3:
                d = rng.choice(["b5", "b6"])
                self.emit("bround", b, d)
                b = d
        else:
            b = rng.choice(["b7", "b8"])
            t = list(T)
            if rng.random() < 0.5:
                disorder(rng, t)
            self.emit("bnew", b, J(t), J(ph))
            if rng.random() < 0.15:
                self.emit("bround", b, "b9")
                b = "b9"
        self.emit("pver", p, b, J(th))
        x["rem"] |= set(th)
        if rng.random() < 0.3 and T:
            self.oldproofs.append((T, th, ph))
            self.oldproofs = self.oldproofs[-8:]

    def flip(self, h):
        b = bytearray.fromhex(h)
        i = self.rng.randrange(256) if self.rng.random() < 0.7 else self.rng.choice([0, 7, 248, 255, 63, 64, 128])
        b[i // 8] ^= 1 << (i % 8)
        return b.hex()

    def anynode(self, st):
        r = self.rng.randrange(len(st.rows))
        return self.rng.choice(st.rows[r])

    def pforge(self, p):
        """A tampered verification (some tampering may leave it valid)."""
        rng, x = self.rng, self.p[p]
        st = x["st"]
        if st.n == 0 or (self.oldproofs and rng.random() < 0.1):
            T, th, ph = rng.choice(self.oldproofs) if self.oldproofs else ([0], [self.leaf(())], [])
            T, th, ph = list(T), list(th), list(ph)
        else:
            # prefer target sets near remembered leaves: there the cached shortcuts are taken
            rem = [st.idx[h] for h in x["rem"]]
            if rem and rng.random() < 0.5:
                base = set(rng.sample(rem, rng.randint(1, min(3, len(rem)))))
                near = {min(st.n - 1, b ^ rng.choice([0, 1, 1, 2, 3])) for b in base}
                T = near | (base if rng.random() < 0.5 else set())
            else:
                T = pick_subset(rng, st.n, 12) or [0]
            T, th, ph, nodes = self.canonical(st, T)
            if rem and rng.random() < 0.5:      # leave out what the pollard has
                known = sibling_nodes(st.n, rem)
                ph = [h for h, nd in zip(ph, nodes) if nd not in known]
        for _ in range(1 if rng.random() < 0.8 else 2):
            k = rng.randrange(22)
            if k == 0 and th:
                i = rng.randrange(len(th)); th[i] = self.flip(th[i])
            elif k == 1 and len(th) > 1:
                i, j = rng.sample(range(len(th)), 2); th[i], th[j] = th[j], th[i]
            elif k == 2 and th and st.n:
                th[rng.randrange(len(th))] = rng.choice(st.leaves)
            elif k == 3 and th and self.dead:
                th[rng.randrange(len(th))] = rng.choice(self.dead)
            elif k == 4 and th and st.n:
                th[rng.randrange(len(th))] = self.anynode(st)
            elif k == 5 and ph:
                i = rng.randrange(len(ph)); ph[i] = self.flip(ph[i])
            elif k == 6 and len(ph) > 1:
                i, j = rng.sample(range(len(ph)), 2); ph[i], ph[j] = ph[j], ph[i]
            elif k == 7 and ph:
                del ph[rng.choice([0, -1, rng.randrange(len(ph))])]
            elif k == 8:
                ph.insert(rng.randint(0, len(ph)), rng.choice(["00" * 32, "ff" * 32, self.leaf(())] + ph + th))
            elif k == 9 and ph and st.n:
                ph[rng.randrange(len(ph))] = self.anynode(st)
            elif k == 10 and ph:
                ph[rng.randrange(len(ph))] = "00" * 32
            elif k == 11 and T:
                i = rng.randrange(len(T)); T[i] = max(0, T[i] + rng.choice([-1, 1, -2, 2]))
            elif k == 12 and T:
                T[rng.randrange(len(T))] ^= 1
            elif k == 13 and T:
                i = rng.randrange(len(T))
                T[i] = rng.choice([st.n, st.n + 1, 2**32 + T[i], 2**40, 2**63 + T[i], 2**64 - 1])
            elif k == 14 and T:
                T.append(rng.choice(T))
                if rng.random() < 0.5:
                    th.append(rng.choice(th) if th else self.leaf(()))
            elif k == 15 and T:
                i = rng.randrange(len(T)); del T[i]
                if th and rng.random() < 0.5:
                    del th[min(i, len(th) - 1)]
            elif k == 16 and st.n:
                t = rng.randrange(st.n)
                if t not in T:
                    T.append(t)
                    T.sort()
                    th.insert(T.index(t), st.leaves[t] if rng.random() < 0.5 else self.leaf(()))
            elif k == 17 and th:
                th.pop(rng.choice([0, -1]))
            elif k == 18:
                th.append(self.leaf(()))
            elif k == 19 and st.n > 1:           # an inner node as a target
                r = rng.randint(1, len(st.rows) - 1)
                i = rng.randrange(len(st.rows[r]))
                T, th = [pos_of(st.n, r, i)], [st.rows[r][i]]
                ph = [h for h in ph if rng.random() < 0.7]
            elif k == 20:
                ph = []
            elif k == 21:
                T, th = [], [] if rng.random() < 0.7 else th
        b = rng.choice(["b7", "b8"])
        self.emit("bnew", b, J(T), J(ph))
        self.emit("pver", p, b, J(th))
        # whatever the outcome, the model must stay right: valid embeddings are remembered
        self.after_forge(p, T, th, ph)

    def after_forge(self, p, T, th, ph):
        """Would the specification accept? ("either" cases are avoided by dropping the pollard)"""
        x = self.p[p]
        st = x["st"]
        if len(T) != len(th) or len(set(T)) != len(T) or any(t >= st.n for t in T) or not T:
            return
        S = sorted(T)
        if any(st.leaves[t] != h for t, h in zip(S, th)):
            return
        _, _, full, nodes = self.canonical(st, S)
        miss, j = set(), len(ph)
        for h, nd in zip(reversed(full), reversed(nodes)):
            if j and ph[j - 1] == h:
                j -= 1
            else:
                miss.add(nd)
        if j:
            return
        rem = [st.idx[h] for h in x["rem"]]
        if miss <= sibling_nodes(st.n, rem) | {(r, (st.n >> r) - 1) for r in range(num_rows(st.n) + 1) if (st.n >> r) % 2}:
            x["rem"] |= set(th)
            return
        # unclear: make it known in any case
        self.pverify(p, T)

    def pprove(self, p):
        x, rng = self.p[p], self.rng
        self.emit("pprove", p, rng.choice(["b1", "b2", "b3"]), J(self.request(x["st"], x["rem"])))

    def pprobe(self, p, m=6):
        x, rng = self.p[p], self.rng
        st = x["st"]
        rem = sorted(x["rem"])
        req = rng.sample(rem, min(m, len(rem)))
        other = [h for h in st.leaves if h not in x["rem"]]
        req += rng.sample(other, min(3, len(other))) + rng.sample(self.dead, min(3, len(self.dead)))
        if req:
            self.emit("pprobe", p, J(req))

    def pprune(self, p):
        self.emit("pprune", p)
        self.p[p]["rem"] = set()

    def pmalformed(self, p):
        x = self.p[p]
        adds = [(h, self.rng.randint(0, 1)) for h in self.adds(self.rng.randint(0, 3), x["st"].leaves)]
        self.emit("pmod", p, A(adds), J(self.bad_positions(x["st"].n)))

    def pblock(self, p, adds, dels, remember, via=None, w=None):
        """Apply a block to a pollard: verify what is not known, then modify."""
        rng, x = self.rng, self.p[p]
        w = w or {}
        unknown = [d for d in dels if x["st"].leaves[d] not in x["rem"]]
        if dels:
            k = rng.random()
            if k < 0.35:
                self.pverify(p, dels, via, partial=rng.random() < w.get("partial", 0.3))
            elif unknown:
                if k < 0.6 or len(unknown) == 1:
                    self.pverify(p, unknown, via, partial=rng.random() < w.get("partial", 0.3))
                else:                           # in separate, possibly overlapping proofs
                    rng.shuffle(unknown)
                    c = rng.randint(1, len(unknown) - 1)
                    for part in (unknown[:c], unknown[c:] + ([unknown[0]] if rng.random() < 0.3 else [])):
                        self.pverify(p, part, via, partial=rng.random() < w.get("partial", 0.3))
            elif k < 0.5 and x["st"].n:
                self.pverify(p, dels, via)
        self.pmodify(p, [(h, 1 if rng.random() < remember else 0) for h in adds], dels)


def chain(rng, steps=12, maxn=24, kind=None, w=None):
    """One full forest, pollards with different policies, blocks."""
    w = dict({"forge": 0.3, "extra": 0.3, "prune": 0.06, "probe": 0.5, "prove": 0.3, "malformed": 0.05,
              "restore": 0.08, "cmp": 0.15, "partial": 0.3, "pollards": 2, "fobs": 0.1, "deadhit": 0.2}, **(w or {}))
    W = World(rng, maxn, kind)
    f = W.fnew()
    pol = {}
    for _ in range(rng.randint(1, w["pollards"])):
        pol[W.pnew()] = rng.choice([0.0, 0.2, 0.5, 1.0])
    for s in range(steps):
        st = W.f[f]["st"]
        for p in list(pol):
            x = W.p[p]
            while rng.random() < w["forge"]:
                W.pforge(p)
            while rng.random() < w["extra"] and st.n:
                W.pverify(p, pick_subset(rng, st.n, 10), f if rng.random() < 0.5 else None,
                          partial=rng.random() < w["partial"])
            if rng.random() < w["prune"]:
                W.pprune(p)
            if rng.random() < w["malformed"]:
                W.pmalformed(p)
            if rng.random() < w["prove"]:
                W.pprove(p)
            if rng.random() < w["cmp"]:
                a, b = rng.sample([f] + list(pol), 2)
                W.emit("cmp", a, b)
        if rng.random() < w["restore"]:
            p = W.prest(rng.choice([f] + list(pol)))
            pol[p] = rng.choice([0.0, 0.3, 1.0])
            if len(pol) > w["pollards"] + 1:
                q = rng.choice([x for x in pol if x != p])
                del pol[q]
                W.forget(q)
        # a block; sometimes it deletes leaves that a pollard remembers
        adds, dels = W.random_block(st)
        if pol and rng.random() < 0.5:
            q = rng.choice(list(pol))
            rem = [st.idx[h] for h in W.p[q]["rem"]]
            if rem:
                dels = sorted(set(rng.sample(rem, rng.randint(1, min(len(rem), 6)))))
                keep = set(st.leaves) - {st.leaves[d] for d in dels}
                adds = [h for h in adds if h not in keep]
        if rng.random() < w["fobs"]:
            W.fobs(f)
        for p in list(pol):
            W.pblock(p, adds, dels, pol[p], f, w)
        W.fmodify(f, adds, dels)
        for p in list(pol):
            if rng.random() < w["probe"]:
                W.pprobe(p)
    for p in list(pol):
        W.pprobe(p, 12)
        if W.p[p]["st"].n and W.p[p]["rem"] and rng.random() < 0.5:
            rem = sorted(W.p[p]["st"].idx[h] for h in W.p[p]["rem"])
            W.pmodify(p, [], rem)
    W.emit("reset")
    return W.out


def forest(rng, steps=15, maxn=24, kind=None, w=None):
    """A full forest: modifications, undo, files, proofs."""
    w = dict({"undo": 0.3, "disk": 0.5, "malformed": 0.06, "prove": 0.4, "probe": 0.3, "fver": 0.15, "fobs": 0.4,
              "rebuild": 0.08, "cmp": 0.1, "commit": 0.15, "close": 0.1, "kill": 0.1, "how": None}, **(w or {}))
    W = World(rng, maxn, kind)
    path = "d1" if rng.random() < w["disk"] else None
    f = W.fnew(path)
    others = []
    committed_us = list(W.f[f]["us"])
    for s in range(steps):
        x = W.f[f]
        k = rng.random()
        if k < w["undo"] and x["us"]:
            for _ in range(rng.choice([1, 1, 1, 2, 3, 10])):
                if not W.fundo(f):
                    break
                if rng.random() < w["fobs"]:
                    W.fobs(f)
        else:
            adds, dels = W.random_block(x["st"])
            W.fmodify(f, adds, dels, w["how"] and rng.choice(w["how"]))
        if rng.random() < w["malformed"]:
            W.fmalformed(f)
        if rng.random() < w["fobs"]:
            W.fobs(f)
        if rng.random() < w["prove"]:
            W.fprove(f)
        if rng.random() < w["probe"]:
            W.fprobe(f)
        if rng.random() < w["fver"]:
            W.fver(f)
        if rng.random() < w["rebuild"]:
            g = W.rebuild(f)
            others.append(g)
        if others and rng.random() < w["cmp"]:
            g = rng.choice(others)
            W.emit("eq", f, g)
            W.emit(*(["cmp"] + rng.sample([f, g], 2)))
            if rng.random() < 0.3:
                others.remove(g)
                W.forget(g)
        if path:
            if rng.random() < w["commit"]:
                W.emit("fcommit", f)
                W.disk[path] = x["st"]
                committed_us = list(x["us"])
            if rng.random() < w["close"]:
                W.emit("fclose", f)
                W.disk[path] = x["st"]
                us = x["us"]
                f = W.fnew(path)
                W.f[f]["us"] = us
                committed_us = list(us)
            elif rng.random() < w["kill"]:
                W.emit("fkill", f)
                f = W.fnew(path)
                W.f[f]["us"] = [u for u in committed_us]
    W.fobs(f)
    W.emit("reset")
    return W.out


def numbers(rng, top32=True):
    k = rng.randrange(6)
    if k < 2:
        return rng.randrange(40)
    if k == 2:
        return rng.choice([0, 1, 255, 256, 65535, 65536, 2**24, 2**31 - 1, 2**31, 2**32 - 1])
    return rng.randrange(2**32)


def rhash(rng):
    return rng.choice([lambda: "%064x" % rng.getrandbits(256), lambda: "00" * 32, lambda: "ff" * 32,
                       lambda: "%02x" % rng.randrange(256) * 32])()


def serial(rng, steps=25, w=None):
    """Batch proof and undo data objects."""
    out = []
    B = {}
    U = {}
    kinds = (w or {}).get("kinds", "bu")

    def enc_b(t, h):
        return "%08x%08x" % (len(t), len(h)) + "".join("%08x" % x for x in t) + "".join(h)

    def enc_u(a, p, h):
        return "%08x%08x" % (a, len(p)) + "".join("%08x" % x for x in p) + "".join(h)

    def tamper(y):
        k = rng.randrange(12)
        if k == 0:
            return y[:-2 * rng.randint(1, 5)]
        if k == 1:
            return y + "00" * rng.choice([1, 4, 32, 36])
        if k == 2:
            return y[:2 * rng.randint(0, min(9, len(y) // 2))]
        if k == 3:
            return "%08x" % rng.choice([0, 1, 2**32 - 1, 2**31, 2**30, 2**29, 2**27, 2**32 - 8]) + y[8:]
        if k == 4:
            return y[:8] + "%08x" % rng.choice([0, 1, 2**32 - 1, 2**31, 2**30, 2**29, 2**27, 3 * 2**30, 954437177, 477218589]) + y[16:]
        if k == 5 and len(y) >= 2:
            i = rng.randrange(len(y) // 2)
            return y[:2 * i] + "%02x" % rng.randrange(256) + y[2 * i + 2:]
        if k == 6:      # move the boundary between targets and hashes: same length, other counts
            nt, nh = int(y[:8], 16), int(y[8:16], 16)
            if nh:
                return "%08x%08x" % (nt + 8, nh - 1) + y[16:]
        if k == 7:
            nt, nh = int(y[:8], 16), int(y[8:16], 16)
            if nt >= 8:
                return "%08x%08x" % (nt - 8, nh + 1) + y[16:]
        if k == 8:      # off by a word
            return "%08x" % (int(y[:8], 16) + 1) + y[8:] + "00" * 4
        if k == 9:
            c = int(y[8:16], 16)
            return y[:8] + "%08x" % (c + 1) + y[16:] + "ab" * rng.choice([32, 36, 4])
        return y

    for _ in range(steps):
        if "b" in kinds and (kinds == "b" or rng.random() < 0.5):
            k = rng.randrange(9)
            s = rng.choice(["b1", "b2", "b3"])
            if k < 2 or s not in B:
                t = [numbers(rng) for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 9, 17]))]
                if rng.random() < 0.3 and t:
                    t += [rng.choice(t)]
                h = [rhash(rng) for _ in range(rng.choice([0, 0, 1, 2, 3, 8]))]
                B[s] = (t, h)
                out.append("bnew %s %s %s" % (s, J(t), J(h)))
            elif k == 2:
                out.append("bser " + s)
            elif k in (3, 4):
                y = enc_b(*B[s])
                if rng.random() < 0.7:
                    y = tamper(y)
                d = rng.choice(["b1", "b2", "b3", "b4"])
                out.append("bunser %s %s" % (d, y or "-"))
                if len(y) >= 16:
                    nt, nh = int(y[:8], 16), int(y[8:16], 16)
                    if len(y) // 2 == 8 + 4 * nt + 32 * nh:
                        z = y[16:]
                        B[d] = ([int(z[8 * i:8 * i + 8], 16) for i in range(nt)],
                                [z[8 * nt + 64 * i:8 * nt + 64 * i + 64] for i in range(nh)])
                        out.append("bser " + d)
            elif k == 5:
                d = rng.choice(["b1", "b2", "b3", "b4"])
                out.append("bround %s %s" % (s, d))
                B[d] = B[s]
            elif k == 6:
                d = rng.choice(sorted(B))
                if rng.random() < 0.7:      # almost equal objects
                    t, h = list(B[s][0]), list(B[s][1])
                    m = rng.randrange(6)
                    if m == 0 and len(t) > 1:
                        t[0], t[-1] = t[-1], t[0]
                    elif m == 1 and h:
                        h[-1] = rhash(rng)
                    elif m == 2 and t:
                        t.pop()
                    elif m == 3 and h:
                        h.pop()
                    elif m == 4 and t:
                        t[-1] ^= 1 << rng.randrange(32)
                    d = "b5"
                    B[d] = (t, h)
                    out.append("bnew %s %s %s" % (d, J(t), J(h)))
                out.append("beq %s %s" % (s, d))
                out.append("beq %s %s" % (d, s))
            elif k == 7 and rng.random() < 0.4:
                out.append("bnull " + s)
                B[s] = ([], [])
                out.append("bser " + s)
            else:
                out.append("beq %s %s" % (s, rng.choice(sorted(B))))
        elif "u" in kinds:
            k = rng.randrange(8)
            s = rng.choice(["u1", "u2", "u3"])
            if k < 2 or s not in U:
                m = rng.choice([0, 0, 1, 2, 3, 5, 9, 17])
                p = [numbers(rng) for _ in range(m)]
                h = [rhash(rng) for _ in range(m)]
                a = numbers(rng)
                U[s] = (a, p, h)
                out.append("unew %s %d %s %s" % (s, a, J(p), J(h)))
            elif k == 2:
                out.append("user " + s)
            elif k in (3, 4):
                y = enc_u(*U[s])
                if rng.random() < 0.7:
                    y = tamper(y)
                d = rng.choice(["u1", "u2", "u3", "u4"])
                out.append("uunser %s %s" % (d, y or "-"))
                if len(y) >= 16:
                    nd = int(y[8:16], 16)
                    if len(y) // 2 == 8 + 36 * nd:
                        z = y[16:]
                        U[d] = (int(y[:8], 16), [int(z[8 * i:8 * i + 8], 16) for i in range(nd)],
                                [z[8 * nd + 64 * i:8 * nd + 64 * i + 64] for i in range(nd)])
                        out.append("user " + d)
                    else:
                        U.pop(d, None)
                else:
                    U.pop(d, None)
            elif k == 5:
                d = rng.choice(["u1", "u2", "u3", "u4"])
                out.append("uround %s %s" % (s, d))
                U[d] = U[s]
            else:
                d = rng.choice(sorted(U))
                if rng.random() < 0.7:
                    a, p, h = U[s][0], list(U[s][1]), list(U[s][2])
                    m = rng.randrange(6)
                    if m == 0:
                        a ^= 1 << rng.randrange(32)
                    elif m == 1 and h:
                        h[rng.randrange(len(h))] = rhash(rng)
                    elif m == 2 and p:
                        p.pop(), h.pop()
                    elif m == 3 and p:
                        i = rng.randrange(len(p))
                        p[i] ^= 1 << rng.randrange(32)
                    elif m == 4 and len(p) > 1:
                        p[0], p[-1] = p[-1], p[0]
                    d = "u5"
                    U[d] = (a, p, h)
                    out.append("unew %s %d %s %s" % (d, a, J(p), J(h)))
                out.append("ueq %s %s" % (s, d))
                out.append("ueq %s %s" % (d, s))
    out.append("reset")
    return out


def sanity(rng, steps=40):
    """CheckSanity for arbitrary proofs and leaf counts."""
    out = []
    for _ in range(steps):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, rng.randrange(70), rng.randrange(70), rng.randrange(5000)])
        t = pick_subset(rng, n, 12) if rng.random() < 0.9 else []
        k = rng.randrange(8)
        if k == 0 and t:
            t.append(rng.choice(t))
        elif k == 1:
            t.append(n + rng.choice([0, 1, 5, 2**32, 2**40]))
        elif k == 2 and t:
            t[rng.randrange(len(t))] = rng.choice([n, 2 * n, 2**32 + t[0], 2**63, 2**64 - 1])
        elif k == 3:
            t = [rng.randrange(2 * n + 3) for _ in range(rng.randint(1, 6))]
        elif k == 4 and n:
            t = sorted(set(t) | {n - 1})
        disorder(rng, t)
        good = [x for x in set(t) if x < n]
        m = len(proof_nodes(n, good)) + rng.choice([0, 0, 0, 1, 1, -1, 2, rng.randint(-5, 5)])
        h = ["%064x" % i for i in range(max(0, m))]
        out.append("bnew b1 %s %s" % (J(t), J(h)))
        out.append("bsane b1 %d" % n)
    out.append("reset")
    return out


# ---------------------------------------------------------------- systematic enumerations

def subsets(xs):
    xs = list(xs)
    for m in range(1 << len(xs)):
        yield [x for i, x in enumerate(xs) if m >> i & 1]


def fresh(rng, m, kind=None):
    src = Leaves(rng, kind)
    out = []
    while len(out) < m:
        h = src.new()
        if h not in out:
            out.append(h)
    return out


def sliced(cases, part, parts):
    """The part-th slice of an enumeration."""
    return [c for i, c in enumerate(cases) if i % parts == part]


def ex_forest(rng, part=0, parts=1, lo=1, hi=8, disk=False):
    """Every forest of lo..hi leaves x every set of deleted leaves; undone; proofs for everything."""
    out = []
    for n, m in sliced(((n, m) for n in range(lo, hi + 1) for m in range(1 << n)), part, parts):
        D = [i for i in range(n) if m >> i & 1]
        L = fresh(rng, n + 4)
        st = State(L[:n])
        out.append("fopen f d" if disk else "fnew f")
        out.append("fmod f u0 %s -" % A((h, 0) for h in L[:n]))
        adds = L[n:n + rng.choice([0, 0, 1, 1, 2, 3, 4])]
        out.append("fmod f u1 %s %s" % (A((h, 0) for h in adds), J(D)))
        new = st.modify(adds, D)
        out.append("fobs f")
        req = list(new.leaves)
        disorder(rng, req)
        if req:
            out.append("fprove f b %s" % J(req[:rng.randint(1, len(req))]))
        if D:
            out.append("fprobe f %s" % J(st.leaves[d] for d in D if st.leaves[d] not in new.idx)
                       if any(st.leaves[d] not in new.idx for d in D) else "fobs f")
        if disk:
            out += ["fclose f", "fopen f d", "fobs f"]
        out += ["fundo f u1", "fobs f"]
        if disk:
            out += ["fcommit f", "fkill f", "fopen f d", "fobs f"]
        out += ["fundo f u0", "fobs f", "reset"]
    return out


def ex_undo(rng, part=0, parts=1, hi=5, disk=False):
    """Two blocks with every combination of deletions, undone one after the other and redone."""
    out = []
    cases = []
    for n in range(1, hi + 1):
        for D1 in subsets(range(n)):
            for a1 in (0, 1, 2):
                left = n - len(D1) + a1
                for m in range(1 << left):
                    cases.append((n, D1, a1, [i for i in range(left) if m >> i & 1]))
    for n, D1, a1, D2 in sliced(cases, part, parts):
        L = fresh(rng, n + a1 + 3)
        s0 = State(L[:n])
        s1 = s0.modify(L[n:n + a1], D1)
        a2 = rng.choice([0, 1, 3])
        X = L[n + a1:n + a1 + a2]
        out.append("fopen f d" if disk else "fnew f")
        out += ["fmod f u0 %s -" % A((h, 0) for h in L[:n]),
                "fmod f u1 %s %s" % (A((h, 0) for h in L[n:n + a1]), J(D1)),
                "fmod f u2 %s %s" % (A((h, 0) for h in X), J(D2))]
        if disk:
            out += rng.choice([["fclose f", "fopen f d"], ["fcommit f", "fkill f", "fopen f d"]])
        out += ["fundo f u2", "fobs f"]
        if disk and rng.random() < 0.5:
            out += ["fclose f", "fopen f d"]
        out += ["fundo f u1", "fobs f"]
        D3 = pick_subset(rng, n)
        out += ["fmod f u3 - %s" % J(D3), "fobs f", "fundo f u3"]
        out += ["fundo f u0", "fobs f", "reset"]
    return out


def ex_pollard(rng, part=0, parts=1, lo=1, hi=5):
    """n leaves x every set of remembered leaves x every set of deleted leaves."""
    out = []
    cases = ((n, r, d) for n in range(lo, hi + 1) for r in range(1 << n) for d in range(1 << n))
    for n, rm, dm in sliced(cases, part, parts):
        R = {i for i in range(n) if rm >> i & 1}
        D = [i for i in range(n) if dm >> i & 1]
        W = World(rng)
        L = fresh(rng, n + 3)
        p = W.pnew()
        W.pmodify(p, [(h, 1 if i in R else 0) for i, h in enumerate(L[:n])], [])
        k = rng.random()
        need = [d for d in D if d not in R]
        if k < 0.5:
            if need:
                W.pverify(p, need, partial=rng.random() < 0.5)
        elif D:
            W.pverify(p, D, partial=rng.random() < 0.5)
        a = rng.choice([0, 0, 1, 2, 3])
        W.pmodify(p, [(h, rng.randint(0, 1)) for h in L[n:n + a]], D)
        W.dead = [L[d] for d in D]
        W.pprobe(p, 8)
        x = W.p[p]
        if x["rem"]:                       # everything remembered can go
            k = rng.random()
            rem = sorted(x["st"].idx[h] for h in x["rem"])
            if k < 0.4:
                W.pmodify(p, [], rem)
            elif k < 0.8:
                W.pmodify(p, [(h, 1) for h in L[:1] if h not in x["st"].idx],
                          sorted(rng.sample(rem, rng.randint(1, len(rem)))))
            W.pprobe(p, 8)
            if rng.random() < 0.3:
                W.pprune(p)
                W.pprobe(p, 8)
        out += W.out + ["reset"]
    return out


def ex_partial(rng, part=0, parts=1, lo=1, hi=4):
    """n leaves x remembered leaves x targets x every subset of the proof hashes left out."""
    out = []
    cases = ((n, r, t) for n in range(lo, hi + 1) for r in range(1 << n) for t in range(1, 1 << n))
    for n, rm, tm in sliced(cases, part, parts):
        R = [i for i in range(n) if rm >> i & 1]
        T = [i for i in range(n) if tm >> i & 1]
        L = fresh(rng, n)
        st = State(L)
        nodes = proof_nodes(n, T)
        known = sibling_nodes(n, R)
        for keep in subsets(range(len(nodes))):
            W = World(rng)
            p = W.pnew()
            W.pmodify(p, [(h, 1 if i in R and rng.random() < 0.7 else 0) for i, h in enumerate(L)], [])
            rest = [i for i in R if L[i] not in W.p[p]["rem"]]
            if rest:
                W.pverify(p, rest)
            b = "b7"
            W.emit("bnew", b, J(T), J(st.node(nodes[i]) for i in keep))
            W.emit("pver", p, b, J(L[t] for t in T))
            if all(nodes[i] in known for i in range(len(nodes)) if i not in keep):
                W.p[p]["rem"] |= {L[t] for t in T}
            else:                           # not decided here: make it known anyway
                W.pverify(p, T)
            W.pprobe(p, 8)
            if rng.random() < 0.6:
                rem = sorted(st.idx[h] for h in W.p[p]["rem"])
                W.pmodify(p, [], sorted(rng.sample(rem, rng.randint(1, len(rem)))))
            out += W.out + ["reset"]
    return out


def ex_forge(rng, part=0, parts=1, lo=1, hi=6):
    """n leaves x targets: every hash (of a target or in the proof) replaced by every other hash."""
    out = []
    cases = ((n, t) for n in range(lo, hi + 1) for t in range(1, 1 << n))
    for n, tm in sliced(cases, part, parts):
        T = [i for i in range(n) if tm >> i & 1]
        L = fresh(rng, n + 1)
        st = State(L[:n])
        W = World(rng)
        p = W.pnew()
        R = pick_subset(rng, n, 3) if rng.random() < 0.7 else []
        W.pmodify(p, [(h, 1 if i in R else 0) for i, h in enumerate(st.leaves)], [])
        known = sibling_nodes(n, R)
        every = [h for row in st.rows for h in row] + [L[n], "00" * 32]
        _, th, ph, nodes = W.canonical(st, T)
        variants = [(T, th, ph)]
        lean = [h for h, nd in zip(ph, nodes) if nd not in known]
        if len(lean) < len(ph):
            variants.append((T, th, lean))
        for T0, th0, ph0 in variants:
            for i in range(len(th0)):
                for h in every:
                    if h != th0[i]:
                        W.emit("bnew", "b", J(T0), J(ph0))
                        W.emit("pver", p, "b", J(th0[:i] + [h] + th0[i + 1:]))
            for i in range(len(ph0)):
                for h in rng.sample(every, min(4, len(every))):
                    if h != ph0[i]:
                        W.emit("bnew", "b", J(T0), J(ph0[:i] + [h] + ph0[i + 1:]))
                        W.emit("pver", p, "b", J(th0))
                        W.after_forge(p, T0, th0, ph0[:i] + [h] + ph0[i + 1:])
            for h in (L[n], "00" * 32, ph0[0] if ph0 else th0[0], st.rows[-1][0]):      # too many
                i = rng.randint(0, len(ph0))
                W.emit("bnew", "b", J(T0), J(ph0[:i] + [h] + ph0[i:]))
                W.emit("pver", p, "b", J(th0))
                W.after_forge(p, T0, th0, ph0[:i] + [h] + ph0[i:])
            # other positions for the same hashes
            for i in range(len(T0)):
                for t in range(n + 2):
                    T1 = T0[:i] + [t] + T0[i + 1:]
                    if t != T0[i]:
                        W.emit("bnew", "b", J(T1), J(ph0))
                        W.emit("pver", p, "b", J(th0))
                        W.after_forge(p, T1, th0, ph0)
        # inner nodes as leaves
        for r in range(1, len(st.rows)):
            for i in range(len(st.rows[r])):
                W.emit("bnew", "b", pos_of(n, r, i), J(st.node((r, i ^ 1)) for _ in range(1) if not is_root(n, r, i)))
                W.emit("pver", p, "b", st.rows[r][i])
        W.pverify(p, T)
        W.pprobe(p, 8)
        out += W.out + ["reset"]
    return out


def ex_malformed(rng, part=0, parts=1, hi=4):
    """n leaves x every short malformed list of positions, on a forest and on a pollard."""
    out = []
    cases = []
    for n in range(0, hi + 1):
        vals = list(range(n + 2)) + [2 ** 32, 2 ** 64 - 1]
        for a in vals:
            cases.append((n, [a]))
            for b in vals:
                cases.append((n, [a, b]))
                for c in range(n + 2):
                    cases.append((n, [a, b, c]))
        cases.append((n, list(range(n + 1))))
    bad = [(n, l) for n, l in cases if any(x >= n for x in l) or any(a >= b for a, b in zip(l, l[1:]))]
    groups = {}
    for n, l in sliced(bad, part, parts):
        groups.setdefault(n, []).append(l)
    for n, ls in sorted(groups.items()):
        for c in range(0, len(ls), 25):
            L = fresh(rng, n + 2)
            out += ["fnew f", "pnew p"]
            if n:
                out += ["fmod f u %s -" % A((h, 0) for h in L[:n]), "pmod p %s -" % A((h, rng.randint(0, 1)) for h in L[:n])]
            for l in ls[c:c + 25]:
                adds = L[n:n + rng.choice([0, 1, 2])]
                out.append("fmod f v %s %s" % (A((h, 0) for h in adds), J(l)))
                out.append("fbmod f %s %s" % (A((h, 0) for h in adds), J(l)))
                out.append("pmod p %s %s" % (A((h, rng.randint(0, 1)) for h in adds), J(l)))
            out.append("fobs f")
            if n:
                out += ["pprobe p %s" % J(L), "fprobe f %s" % J(L)]
                out += ["fmod f v %s %s" % (A([(L[n], 0)]), J([n - 1])), "fobs f", "fundo f v", "fobs f"]
            out.append("reset")
    return out


def ex_sane(rng, part=0, parts=1, hi=7):
    out = []
    cases = ((n, m) for n in range(hi + 1) for m in range(1 << (n + 1)))
    for n, m in sliced(cases, part, parts):
        t = [i for i in range(n + 1) if m >> i & 1]
        k = len(proof_nodes(n, [x for x in t if x < n]))
        for nh in sorted({0, k - 1, k, k + 1}):
            if nh < 0:
                continue
            tt = list(t)
            disorder(rng, tt)
            out.append("bnew b %s %s" % (J(tt), J("%064x" % i for i in range(nh))))
            out.append("bsane b %d" % n)
            if t and nh == k:
                tt.insert(rng.randint(0, len(tt)), rng.choice(tt))
                out.append("bnew b %s %s" % (J(tt), J("%064x" % i for i in range(nh))))
                out.append("bsane b %d" % n)
    out.append("reset")
    return out


def ex_serial(rng, part=0, parts=1, hi=4):
    """All combinations of counts with lengths around the right one."""
    out = []
    n = 0
    for nt in list(range(hi + 1)) + [8, 16]:
        for nh in range(0, 3):
            for dt, dh, dl in [(0, 0, 0)] + [(a, b, c) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-32, -4, -1, 0, 1, 4, 32)]:
                n += 1
                if n % parts != part:
                    continue
                t, h = [numbers(rng) for _ in range(nt)], [rhash(rng) for _ in range(nh)]
                body = "".join("%08x" % x for x in t) + "".join(h)
                ln = max(0, len(body) + 2 * dl)
                body = (body + "5a" * 64)[:ln]
                y = "%08x%08x" % ((nt + dt) % 2**32, (nh + dh) % 2**32) + body
                out.append("bunser b%d %s" % (rng.randint(1, 3), y))
                u = "%08x%08x" % (numbers(rng), (nt + dt) % 2**32)
                body = "".join("%08x" % x for x in t) + "".join(rhash(rng) for _ in range(nt))
                ln = max(0, len(body) + 2 * dl)
                body = (body + "5a" * 64)[:ln]
                out.append("uunser u%d %s" % (rng.randint(1, 3), u + body))
    for y in ["", "00", "00" * 7, "00" * 8, "00" * 9, "ff" * 8, "ff" * 44]:
        out += ["bunser b1 %s" % (y or "-"), "uunser u1 %s" % (y or "-")]
    for b in "123":
        out += ["bser b" + b, "bround b%s b4" % b, "beq b%s b4" % b]
    out.append("reset")
    return out


def equality(rng, steps=12, w=None):
    """Forests and pollards over a small pool of leaves, compared pairwise."""
    W = World(rng)
    pool = fresh(rng, 8)
    fs, ps = [], []
    for _ in range(3):
        fs.append(W.fnew())
    for _ in range(2):
        ps.append(W.pnew())

    def compare():
        for a in fs:
            for b in fs:
                if rng.random() < 0.6:
                    W.emit("eq", a, b)
        for a in fs + ps:
            for b in fs + ps:
                if rng.random() < 0.4:
                    W.emit("cmp", a, b)
    compare()
    for _ in range(steps):
        if rng.random() < 0.5:      # same block on several forests
            st = W.f[fs[0]]["st"]
            free = [h for h in pool if h not in st.idx]
            dels = pick_subset(rng, st.n, 3) if rng.random() < 0.5 else []
            adds = rng.sample(free, rng.randint(0, len(free)))
            for f in fs:
                x = W.f[f]["st"]
                if x.leaves == st.leaves:
                    a2 = list(adds)
                    if rng.random() < 0.15:
                        rng.shuffle(a2)
                    if rng.random() < 0.1 and a2:
                        a2.pop()
                    W.fmodify(f, a2, dels, rng.choice(["fmod", "fbmod"]))
        else:
            f = rng.choice(fs)
            st = W.f[f]["st"]
            if rng.random() < 0.3 and W.f[f]["us"]:
                W.fundo(f)
            else:
                free = [h for h in pool if h not in st.idx]
                dels = pick_subset(rng, st.n, 3) if rng.random() < 0.5 else []
                W.fmodify(f, rng.sample(free, rng.randint(0, min(2, len(free)))), dels, "fmod")
        for p in ps:
            x = W.p[p]
            k = rng.random()
            if k < 0.15:
                W.pprune(p)
            elif k < 0.5 and x["st"].n:
                W.pverify(p, pick_subset(rng, x["st"].n, 4))
            else:
                free = [h for h in pool if h not in x["st"].idx]
                rem = sorted(x["st"].idx[h] for h in x["rem"])
                dels = sorted(rng.sample(rem, rng.randint(0, len(rem)))) if rng.random() < 0.5 else []
                W.pmodify(p, [(h, rng.randint(0, 1)) for h in rng.sample(free, rng.randint(0, min(3, len(free))))], dels)
        compare()
    W.emit("reset")
    return W.out


def bigforest(rng, n=3000, w=None):
    """A large forest: big blocks, proofs with hundreds of targets, undo, reopen."""
    W = World(rng, n * 2)
    path = "d" if rng.random() < 0.5 else None
    f = W.fnew(path)
    p = W.pnew()
    first = W.adds(n - rng.randint(0, n // 2), [])
    W.fmodify(f, first, [], "fmod")
    W.pmodify(p, [(h, 1 if rng.random() < 0.05 else 0) for h in first], [])
    for _ in range(3):
        st = W.f[f]["st"]
        T = pick_subset(rng, st.n)
        if rng.random() < 0.5:
            T = sorted(rng.sample(range(st.n), min(st.n, 300)))
        W.emit("fprove", f, "b1", J(disordered(rng, [st.leaves[t] for t in T])))
        keep = set(st.leaves) - {st.leaves[t] for t in T}
        adds = W.adds(rng.randint(0, 400), keep, st, T[:50])
        W.emit("pver", p, "b1", J(st.leaves[t] for t in T))
        W.p[p]["rem"] |= {st.leaves[t] for t in T}
        W.pmodify(p, [(h, 1 if rng.random() < 0.05 else 0) for h in adds], T)
        W.fmodify(f, adds, T, "fmod")
        W.pprobe(p, 6)
        if rng.random() < 0.4:
            W.fobs(f)
        if path and rng.random() < 0.6:
            us = W.f[f]["us"]
            W.emit("fclose", f)
            W.disk[path] = W.f[f]["st"]
            f = W.fnew(path, f)
            W.f[f]["us"] = us
    for _ in range(rng.randint(0, 3)):
        W.fundo(f)
        W.fprobe(f)
    W.fobs(f)
    W.emit("reset")
    return W.out


def bigchain(rng, n=900, steps=3, w=None):
    """Pollards of a larger forest: proofs of hundreds of leaves (true, damaged, partial, overlapping), of which some
    are deleted now, some later and some never."""
    w = w or {}
    W = World(rng, n * 2)
    f, p = W.fnew(), W.pnew()
    first = W.adds(rng.choice([n, n - rng.randint(0, n // 3), 512, 513, 767, 1024]), [])
    W.fmodify(f, first, [])
    some = rng.choice([0.0, 0.02, 0.5])
    W.pmodify(p, [(h, 1 if rng.random() < some else 0) for h in first], [])
    for _ in range(steps):
        if rng.random() < 0.2:
            W.forget(p)
            p = W.prest(f)
        st, x = W.f[f]["st"], W.p[p]
        m = min(st.n, rng.choice([200, 254, 255, 256, 257, 258, 300, 384, 511, 512, 513, rng.randint(1, st.n)]))
        c = rng.random()
        if c < 0.3:
            a = rng.randint(0, st.n - m)
            T = list(range(a, a + m))
        else:
            T = sorted(rng.sample(range(st.n), m))
        for _ in range(rng.randint(0, 2 if rng.random() < w.get("forge", 0.4) else 0)):
            t, th, ph, _n = W.canonical(st, T)
            th, ph = list(th), list(ph)
            k = rng.choice(["th", "th", "ph", "drop", "extra", "swap", "tswap", "cut", "pos"])
            i = rng.choice([0, m - 1, rng.randrange(m), min(m - 1, 255), min(m - 1, 256)])
            if k == "th":
                th[i] = W.flip(th[i]) if rng.random() < 0.7 else rng.choice(st.leaves)
            elif k == "tswap":
                j = rng.randrange(m)
                th[i], th[j] = th[j], th[i]
            elif k == "cut":
                th.pop()
            elif k == "pos":
                t = list(t)
                t[i] = rng.choice([t[i] + 1, t[i - 1], st.n, st.n + i])
            elif k == "extra":
                ph.insert(rng.choice([0, len(ph), rng.randint(0, len(ph))]), W.anynode(st))
            elif ph:
                i = rng.choice([0, len(ph) - 1, rng.randrange(len(ph)), min(len(ph) - 1, 255), min(len(ph) - 1, 256)])
                if k == "ph":
                    ph[i] = W.flip(ph[i])
                elif k == "drop":
                    ph.pop(i)
                else:
                    j = rng.randrange(len(ph))
                    ph[i], ph[j] = ph[j], ph[i]
            W.emit("bnew", "b1", J(t), J(ph))
            W.emit("pver", p, "b1", J(th))
            # (damage that does no damage: the generator does not know)
            if sorted(t) == T and th == [st.leaves[y] for y in T]:
                known = sibling_nodes(st.n, [st.idx[h] for h in x["rem"]]) if x["rem"] else set()
                if known or ph == W.canonical(st, T)[2]:
                    x["rem"] = set(x["rem"])
                    W.emit("pprune", p)
                    x["rem"] = set()
        if rng.random() < 0.3:
            k = rng.randint(1, m)
            W.pverify(p, T[:k], None)
            W.pverify(p, T[k // 2:], f if rng.random() < 0.5 else None, partial=rng.random() < 0.3)
        else:
            W.pverify(p, T, f if rng.random() < 0.5 else None, partial=rng.random() < w.get("partial", 0.3))
        rem = sorted(x["rem"], key=lambda h: st.idx[h])
        W.emit("pprobe", p, J(dict.fromkeys(rem[:2] + rem[-4:] + rng.sample(rem, min(4, len(rem))))))
        if rng.random() < 0.5:
            W.emit("pprove", p, "b3", J(disordered(rng, sorted(rng.sample(rem, rng.randint(1, len(rem))), key=st.idx.get))))
        gone = sorted(st.idx[h] for h in rng.sample(rem, rng.choice([0, 1, len(rem) // 2, len(rem), min(len(rem), 256), min(len(rem), 300)])))
        keep = set(st.leaves) - {st.leaves[d] for d in gone}
        adds = W.adds(rng.choice([0, 1, 3, 255, 256, 257, 300]), keep, st, gone[:20])
        W.pmodify(p, [(h, 1 if rng.random() < rng.choice([0.0, 0.1, 1.0]) else 0) for h in adds], gone)
        W.fmodify(f, adds, gone)
        W.pprobe(p, 8)
        if rng.random() < 0.15:
            W.pprune(p)
    W.emit("reset")
    return W.out


def restored(rng, steps=8, maxn=24, w=None):
    """A pollard restored from roots at every step: honest and false proofs, the rest of the chain."""
    W = World(rng, maxn)
    f = W.fnew()
    ps = []
    for _ in range(steps):
        st = W.f[f]["st"]
        p = W.prest(f)
        ps.append(p)
        for q in ps:
            if st.n:
                if rng.random() < 0.5:
                    W.pforge(q)
                if rng.random() < 0.5:
                    W.pverify(q, pick_subset(rng, st.n), f if rng.random() < 0.5 else None)
                if rng.random() < 0.15:
                    W.pprune(q)
                W.pprobe(q, 3)
        adds, dels = W.random_block(st)
        for q in ps:
            W.pblock(q, adds, dels, rng.choice([0.0, 0.3, 1.0]), f)
        W.fmodify(f, adds, dels)
        if len(ps) > 3:
            W.forget(ps.pop(rng.randrange(len(ps))))
        if rng.random() < 0.3:
            r = W.prest(rng.choice(ps))
            ps.append(r)
    W.emit("reset")
    return W.out


def wide_count(rng, top):
    """Leaf counts with few, tall trees."""
    b = top.bit_length() - 1
    n = sum(1 << r for r in rng.sample(range(b + 1), rng.randint(1, 3)))
    n = max(4, min(top, n + rng.choice([-1, 0, 0, 0, 1, 1])))
    return n


def sparse(rng, steps=8, top=300, w=None):
    """Pollards with many leaves of which few are remembered: deletions move tall subtrees."""
    w = dict({"partial": 0.4}, **(w or {}))
    W = World(rng, top)
    n = wide_count(rng, top)
    p = W.pnew()
    first = [(h, 0) for h in W.adds(n, [])]
    for i in range(rng.choice([0, 0, 1, 2, 4])):
        k = rng.randrange(n)
        first[k] = (first[k][0], 1)
    if rng.random() < 0.3:              # added in several blocks
        k = rng.randrange(n)
        W.pmodify(p, first[:k], [])
        W.pmodify(p, first[k:], [])
    else:
        W.pmodify(p, first, [])
    if rng.random() < 0.4:
        p = W.prest(p)
    for _ in range(steps):
        x = W.p[p]
        st = x["st"]
        if st.n == 0:
            break
        if rng.random() < 0.6:          # look at a few leaves
            W.pverify(p, rng.sample(range(st.n), min(st.n, rng.choice([1, 1, 1, 2, 3]))), partial=rng.random() < w["partial"])
        k = rng.random()
        rem = sorted(st.idx[h] for h in x["rem"])
        if k < 0.35 and rem:
            dels = rng.sample(rem, min(len(rem), rng.choice([1, 1, 2])))
        elif k < 0.75:
            dels = rng.sample(range(st.n), min(st.n, rng.choice([1, 1, 1, 2, 3])))
        elif k < 0.9:                   # a whole subtree
            r = rng.randint(0, num_rows(st.n))
            i = rng.randint(0, (st.n - 1) >> r)
            dels = range(i << r, min(st.n, (i + 1) << r))
        else:
            dels = []
        dels = sorted(set(dels))
        if [d for d in dels if st.leaves[d] not in x["rem"]]:
            W.pverify(p, dels, partial=rng.random() < w["partial"])
        keep = set(st.leaves) - {st.leaves[d] for d in dels}
        adds = W.adds(rng.choice([0, 0, 1, 1, 2, 5, 40]) if st.n < top else 0, keep)
        W.pmodify(p, [(h, 1 if rng.random() < 0.15 else 0) for h in adds], dels)
        W.pprobe(p, 8)
        if rng.random() < 0.3:
            W.pprove(p)
    W.emit("reset")
    return W.out


def file_nodes(st):
    return [h for row in st.rows for h in row] if st.n else []


def files(rng, steps=14, maxn=30, kind=None):
    """The bytes of forest files: written by the library, written by somebody else, and not fitting."""
    W = World(rng, maxn, kind)
    path = "d1"
    if rng.random() < 0.6:                      # a foreign file, possibly with the rest of a larger forest
        st = State([W.leaf(set()) for _ in range(0)])
        ls = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, rng.randint(0, maxn)])):
            ls.append(W.leaf(set(ls)))
        st = State(ls)
        more = [W.src.new() for _ in range(rng.choice([0, 0, 1, 5, 40]))]
        rest = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 31]))).hex()
        W.emit("fput", path, st.n, J(file_nodes(st) + more), rest or "-")
        W.disk[path] = st
    if rng.random() < 0.1:                      # a place that does not exist: the forest has no file
        f = W.fnew("no/where")
        adds, _ = W.random_block(W.f[f]["st"])
        W.fmodify(f, adds, [])
        W.emit("fcommit", f)
        W.fobs(f)
        W.emit("fclose", f)
    f = W.fnew(path)
    W.fobs(f)
    committed = []
    for _ in range(steps):
        x = W.f[f]
        if rng.random() < 0.3 and x["us"]:
            W.fundo(f)
        else:
            adds, dels = W.random_block(x["st"])
            W.fmodify(f, adds, dels)
        k = rng.random()
        if k < 0.3:
            W.emit("fcommit", f)
            W.disk[path] = x["st"]
            committed = list(x["us"])
            W.emit("fraw", path)
        elif k < 0.45:
            W.emit("fclose", f)
            W.disk[path] = x["st"]
            W.emit("fraw", path)
            us = x["us"]
            f = W.fnew(path)
            W.f[f]["us"] = us
            committed = list(us)
        elif k < 0.55:
            W.emit("fraw", path)                # not yet committed
            W.emit("fkill", f)
            W.emit("fraw", path)
            f = W.fnew(path)
            W.f[f]["us"] = list(committed)
        elif k < 0.65:
            need = 8 + 32 * len(file_nodes(x["st"]))
            lim = max(1, rng.choice([need, need + 1, need - 1, need - 32, 8, 7, rng.randint(1, need), need - 8, 4096, 8192]))
            W.emit("flimit", lim)
            W.emit("fcommit", f)
            W.emit("flimit", 0)
            if lim < need:                      # the object still works in memory
                W.fobs(f)
                if rng.random() < 0.5:
                    adds, dels = W.random_block(x["st"])
                    W.fmodify(f, adds, dels)
                    W.fobs(f)
                W.emit("fclose", f)
                path = path + "x"
                f = W.fnew(path)
                committed = []
            else:
                W.disk[path] = x["st"]
                committed = list(x["us"])
                W.emit("fraw", path)
        if rng.random() < 0.4:
            W.fobs(f)
    W.fobs(f)
    W.emit("reset")
    return W.out


def memory(rng, steps=250, maxn=12):
    """A long history of small accumulators; they are destroyed at the end, and the whole is done once more."""
    k = rng.random()
    n = rng.randrange(3, maxn)
    if k < 0.6:
        script = chain(rng, steps=steps, maxn=n, w=dict(probe=0.02, prove=0.1, restore=rng.choice([0, 0.01, 0.05]),
                                                        prune=rng.choice([0, 0.02, 0.1]), forge=rng.choice([0, 0.1, 0.5])))
    elif k < 0.85:
        script = forest(rng, steps=steps, maxn=n, w=dict(kill=0, disk=rng.choice([0, 0, 1.0]), undo=rng.choice([0.1, 0.3, 0.5]), probe=0.05, prove=0.1))
    elif k < 0.95:
        script = sparse(rng)
    else:
        script = serial(rng)
    script = [x for x in script if x != "reset"]
    live = []
    for w in (x.split() for x in script):
        if w[0] in ("fnew", "pnew", "prest") and w[1] not in live:
            live.append(w[1])
        elif w[0] in ("drop", "fclose", "fkill") and w[1] in live:
            live.remove(w[1])
    script += ["drop " + x for x in live] + ["reset"]
    return script + ["heap first"] + script + ["heap again"]


def printing(rng):
    """Histories in which everything is printed again and again."""
    k = rng.random()
    script = (chain(rng) if k < 0.5 else forest(rng) if k < 0.75 else serial(rng) if k < 0.95 else sparse(rng))
    show = {"bnew": "bshow", "bunser": "bshow", "bnull": "bshow", "unew": "ushow", "uunser": "ushow"}
    for op in ("fnew", "fopen", "fmod", "fbmod", "fadd", "fundo", "pnew", "prest", "pmod", "pver", "pprune"):
        show[op] = "show"
    out = []
    for x in script:
        out.append(x)
        w = x.split()
        if w[0] in show and rng.random() < 0.6:
            out.append(show[w[0]] + " " + w[1])
    return out


def wide(rng, n=66000, raw=False, block=0, pollard=True):
    """More leaves than 16 bits can count: one block of additions, a file, a few deletions (of a whole subtree too) and an undo."""
    leaf = ["%064x" % rng.getrandbits(256) for _ in range(n + rng.randrange(2000))]
    k = len(leaf)
    T = sorted({rng.choice([rng.randrange(k), rng.randrange(65530, k), k - 1 - rng.randrange(30), rng.randrange(40)]) for _ in range(rng.randrange(2, 8))})
    if block:
        i = rng.randrange(k - block)
        T = sorted(set(range(i - i % block, i - i % block + block)) | set(T))
    adds = ["%064x" % rng.getrandbits(256) for _ in range(rng.randrange(8))]
    th = J(leaf[t] for t in T)
    some = sorted(rng.sample(range(k), 5) + [65535, 65536])
    P = T[:20] + some
    out = ["fopen f1 d1", "pnew p1",
            "fmod f1 u0 %s -" % J(h + ":0" for h in leaf),
            "pmod p1 %s -" % J(h + ":%d" % (i in some) for i, h in enumerate(leaf)),
            "fprobe f1 " + J(leaf[t] for t in P), "pprobe p1 " + J(leaf[t] for t in P),
            "fcommit f1"] + ["fraw d1"] * raw + ["fclose f1", "fopen f1 d1",
            "fprove f1 b1 " + th, "pver p1 b1 " + th,
            "fmod f1 u1 %s %s" % (J(h + ":0" for h in adds), J(T)),
            "pmod p1 %s %s" % (J(h + ":1" for h in adds), J(T)),
            "fprobe f1 " + J(leaf[t] for t in P),
            "fundo f1 u1", "fprobe f1 " + J(leaf[t] for t in P),
            "fclose f1", "fopen f1 d1", "fprobe f1 " + J(leaf[t] for t in P), "reset"]
    return [x for x in out if pollard or x.split()[0] not in ("pnew", "pmod", "pver", "pprobe")]
