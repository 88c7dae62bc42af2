"""Histories that TLC generates from the specification (spec/Gen*.tla).

TLC explores the complete state graph of a Gen module (no identity of leaves, bounded sizes) and
writes every transition with the call it stands for. A script is a set of walks through this graph:
together the scripts of a workload make every selected transition of the graph (or a stated sample)."""
import collections
import functools
import hashlib
import json
import os
import random
import re

import gen
import vlib

PREFIX = "tlc_"
MODULE = {"tlc_pollard": "GenPollard", "tlc_forest": "GenForest"}


def constants(kw):
    return {k: v for k, v in kw.items() if k[0].isupper()}


def path(name, kw):
    key = hashlib.sha256()
    for f in ("Accum.tla", MODULE[name] + ".tla", MODULE[name] + ".cfg"):
        key.update(open(os.path.join(vlib.SPEC, f), "rb").read())
    key.update(repr(sorted(constants(kw).items())).encode())
    return os.path.join(vlib.BUILD, "graphs", "%s-%s.tsv" % (MODULE[name], key.hexdigest()[:16]))


def generate(name, kw, scratch, timeout=600):
    """Run TLC (once per specification and size). Returns (states, transitions)."""
    out = path(name, kw)
    if not os.path.exists(out + ".ok"):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        text = open(os.path.join(vlib.SPEC, MODULE[name] + ".cfg")).read()
        for k, v in constants(kw).items():
            text, n = re.subn(r"\b%s = \S+" % k, "%s = %s" % (k, str(v).upper() if isinstance(v, bool) else v), text)
            if n != 1:
                raise vlib.CheckError("no constant %s in %s.cfg" % (k, MODULE[name]))
        cfg = os.path.join(scratch, os.path.basename(out) + ".cfg")
        tmp = os.path.join(scratch, os.path.basename(out))
        with open(cfg, "w") as f:
            f.write(text)
        if os.path.exists(tmp):
            os.unlink(tmp)
        rc, log = vlib.tlc(os.path.join(vlib.SPEC, MODULE[name] + ".tla"), cfg, scratch, timeout=timeout,
                           workers=1, mem="6g", env={"GEN_OUT": tmp})
        if rc != 0 or "No error has been found" not in log:
            raise vlib.CheckError("generating %s failed:\n%s" % (name, log[-3000:]))
        st, di = vlib.tlc_counts(log)
        os.rename(tmp, out)
        with open(out + ".ok.tmp", "w") as f:
            f.write("%d %d" % (di, st))
        os.rename(out + ".ok.tmp", out + ".ok")
    return [int(x) for x in open(out + ".ok").read().split()]


@functools.lru_cache(maxsize=3)
def load(p):
    ids, edges, seen = {}, [], set()
    for line in open(p):
        a, c, b = line.rstrip("\n").split("\t")
        if (a, c) in seen:
            continue
        seen.add((a, c))
        edges.append((ids.setdefault(a, len(ids)), json.loads(json.loads(c)), ids.setdefault(b, len(ids))))
    return edges


def wanted(cmd, only):
    if not only:
        return True
    names = {cmd["op"], cmd.get("v"), cmd["op"] + "." + cmd["k"] if "k" in cmd else None}
    return bool(names & set(only.split("+")))


@functools.lru_cache(maxsize=6)
def selection(p, only, limit, seed):
    edges = load(p)
    sel = [i for i, e in enumerate(edges) if wanted(e[1], only)]
    random.Random("sel/%s" % seed).shuffle(sel)
    return sel[:limit] if limit else sel


def count(name, kw, seed):
    p = path(name, kw)
    return len(selection(p, kw.get("only"), kw.get("limit"), seed)), len(load(p))


class Walk:
    def __init__(self, rng, edges, todo):
        self.rng, self.edges = rng, edges
        self.todo = collections.defaultdict(list)
        for i in todo:
            self.todo[edges[i][0]].append(i)
        for l in self.todo.values():
            rng.shuffle(l)
        self.start = edges[0][0]

    def route(self, s, moves):
        """A shortest path (random among the calls) from s to a state with something left to do, or None."""
        if self.todo.get(s):
            return []
        prev, queue = {s: None}, collections.deque([s])
        while queue:
            x = queue.popleft()
            succ = list(moves[x])
            self.rng.shuffle(succ)
            for y in succ:
                if y not in prev:
                    prev[y] = x
                    if self.todo.get(y):
                        res = []
                        while prev[y] is not None:
                            res.append(self.rng.choice(moves[prev[y]][y]))
                            y = prev[y]
                        return res[::-1]
                    queue.append(y)
        return None

    def steps(self, limit):
        """Lists of edge indexes, each a walk from the initial state."""
        moves = index(self.edges)
        while any(self.todo.values()):
            s, out = self.start, []
            while len(out) < limit:
                r = self.route(s, moves)
                if r is None:
                    break
                if not r:
                    r = [self.todo[s].pop()]
                for i in r:
                    if i in self.todo.get(self.edges[i][0], ()):
                        self.todo[self.edges[i][0]].remove(i)
                    s = self.edges[i][2]
                out += r
            if not out:
                raise vlib.CheckError("unreachable transitions in a generated graph")
            yield out


_index = {}


def index(edges):
    k = id(edges)
    if k not in _index:
        _index.clear()
        m = collections.defaultdict(lambda: collections.defaultdict(list))
        for i, (a, c, b) in enumerate(edges):
            if a != b:
                m[a][b].append(i)
        _index[k] = m
    return _index[k]


def script(name, rng, part, parts, seed=1, **kw):
    p = path(name, kw)
    edges = load(p)
    sel = selection(p, kw.get("only"), kw.get("limit"), seed)[part::parts]
    out = []
    for walk in Walk(rng, edges, sel).steps(kw.get("steps", 60)):
        out += {"tlc_pollard": pollard, "tlc_forest": forest}[name](rng, [edges[i][1] for i in walk], kw)
        out.append("reset")
    return out


# ---------------------------------------------------------------- calls

def pollard(rng, cmds, kw):
    """GenPollard: leaves are positions."""
    src = gen.Leaves(rng)
    st = gen.State([])
    out = ["pnew p0"]
    p, k = "p0", 0
    probes = kw.get("probe", 0.5)

    def value(i, st):
        return st.leaves[i] if i >= 0 else junk(st)

    def junk(st):
        c = rng.random()
        if c < 0.4 and st.n:
            b = bytearray.fromhex(rng.choice(st.leaves))
            b[rng.randrange(32)] ^= 1 << rng.randrange(8)
            return b.hex()
        return gen.hashlib.sha256(b"%f" % rng.random()).hexdigest() if c < 0.9 else "00" * 32

    def probe():
        if st.n and rng.random() < probes:
            out.append("pprobe %s %s" % (p, gen.J(st.leaves)))
            if rng.random() < 0.3:
                l = list(st.leaves)
                rng.shuffle(l)
                out.append("pprove %s b3 %s" % (p, gen.J(l[:rng.randint(1, st.n)])))

    for c in cmds:
        op = c["op"]
        if op in ("pmod", "pbad"):
            taken, new = set(st.leaves), []
            for _ in c["adds"]:
                h = src.new()
                while h in taken:
                    h = src.new()
                taken.add(h)
                new.append(h)
            adds = [(h, 1 if f is True else 0) for h, f in zip(new, c["adds"])]
            out.append("pmod %s %s %s" % (p, gen.A(adds), gen.J(c["dels"])))
            if op == "pmod":
                st = gen.State([st.leaves[i] for i in c["stay"]] + new)
                probe()
        elif op == "pver":
            th = [value(i, st) for i in c["th"]]
            hs = [junk(st) if r < 0 else st.node((r, i)) for r, i in c["h"]]
            b = rng.choice(["b1", "b2"])
            out.append("bnew %s %s %s" % (b, gen.J(c["t"]), gen.J(hs)))
            out.append("pver %s %s %s" % (p, b, gen.J(th)))
            probe()
        elif op == "pprune":
            out.append("pprune " + p)
            probe()
        elif op == "prest":
            k += 1
            out.append("prest p%d %s" % (k, p))
            out.append("drop " + p)
            p = "p%d" % k
            probe()
        else:
            raise vlib.CheckError("unknown command " + op)
    if st.n:
        out.append("pprobe %s %s" % (p, gen.J(st.leaves)))
    return out


def forest(rng, cmds, kw):
    """GenForest: leaves are numbers that are renamed by every step (ids: the former numbers)."""
    src = gen.Leaves(rng)
    names, used = {}, set()
    disk = kw.get("File", True)
    out = ["fopen f0 x.dat" if disk else "fnew f0"]
    f, k = "f0", 0
    past = []                                   # names of the undo data, the latest first
    n = 0
    looks = kw.get("probe", 0.5)

    def fresh():
        h = src.new()
        while h in used:
            h = src.new()
        used.add(h)
        return h

    def look():
        if rng.random() < looks:
            out.append("fobs " + f)

    for c in cmds:
        op = c["op"]
        if op in ("fmod", "fbmod"):
            for x in c["new"]:
                if x not in names:
                    names[x] = fresh()
            adds = gen.A((names[x], rng.randint(0, 1)) for x in c["new"])
            if op == "fmod":
                k += 1
                u = "u%d" % k if rng.random() < 0.8 or "u1" in past or k == 1 else "u1"
                out.append("fmod %s %s %s %s" % (f, u, adds, gen.J(c["dels"])))
                past.insert(0, u)
            else:
                out.append("fbmod %s %s %s" % (f, adds, gen.J(c["dels"])))
                past = []
            look()
        elif op == "fbad":
            out.append("fmod %s ubad - %s" % (f, gen.J(c["dels"])) if rng.random() < 0.5 else "fbmod %s - %s" % (f, gen.J(c["dels"])))
        elif op == "fundo":
            u = past.pop(0)
            if rng.random() < 0.3:
                out.append("uround %s uy" % u)
                u = "uy"
            out.append("fundo %s %s" % (f, u))
            look()
        elif op == "fcommit":
            out.append("fcommit " + f)
        elif op in ("fclose", "fkill"):
            out.append("%s %s" % (op, f))
            k += 1
            f = "f%d" % k
            out.append("fopen %s x.dat" % f)
            if op == "fkill":
                past = past[len(past) - c["left"]:]
            look()
        elif op == "fprove":
            req = [names[x] if x >= 0 else fresh() for x in c["req"]]
            out.append("fprove %s b1 %s" % (f, gen.J(req)))
            if rng.random() < 0.5:
                out.append("fver %s b1 %s" % (f, gen.J(req)))
        else:
            raise vlib.CheckError("unknown command " + op)
        names = {i: names[x] for i, x in enumerate(c["ids"])}
        used = set(names.values())
        past = past[:c["past"]]
    out.append("fobs " + f)
    return out
