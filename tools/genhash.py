"""Workloads for harness/hash.cpp: messages written in pieces (judged by spec/TraceHash.tla)."""
import itertools

EDGES = [0, 1, 2, 63, 64, 65, 110, 111, 112, 113, 119, 120, 127, 128, 129, 191, 239, 240, 255, 256, 257]


def piece(rng, n):
    return rng.randbytes(n).hex() or "-"


def message(rng, x, lengths):
    return ["hwrite %s %s 1" % (x, piece(rng, n)) for n in lengths]


def finish(rng, x, v):
    return "hfin %s %d" % (x, 256 if v == 256 or rng.random() < 0.2 else 512)


def hashing(rng, steps=40):
    out, live = [], {}
    for _ in range(steps):
        k = rng.random()
        if not live or k < 0.15:
            x = "h%d" % rng.randrange(4)
            v = rng.choice([256, 512])
            out.append("hnew %s %d" % (x, v))
            live[x] = [v, False]
            continue
        x = rng.choice(sorted(live))
        v, done = live[x]
        if done or k < 0.22:
            out.append("hreset " + x)
            live[x][1] = False
        elif k < 0.30:
            y = "h%d" % rng.randrange(4)
            out.append("hcopy %s %s" % (y, x))
            live[y] = list(live[x])
        elif k < 0.45:
            out.append(finish(rng, x, v))
            live[x][1] = True
        else:
            n = rng.choice([rng.choice(EDGES), rng.randrange(300), rng.randrange(20), 128 * rng.randrange(6)])
            times = rng.choice([1, 1, 1, 2, 5]) if rng.random() < 0.9 else rng.randrange(200)
            out.append("hwrite %s %s %d" % (x, piece(rng, n), times))
    for x in sorted(live):
        if not live[x][1]:
            out.append(finish(rng, x, live[x][0]))
    return out


def ex_hashing(rng, part, parts, lengths=300, step=1):
    """Every length in one piece; every pair of pieces and triples of the edge lengths; a byte at a time; after Reset."""
    jobs = [(n,) for n in range(lengths + 1)]
    jobs += list(itertools.product(EDGES, repeat=2))
    jobs += list(itertools.product(EDGES[::2 if step > 1 else 1], repeat=3))[::step]
    jobs += [(1,) * n for n in EDGES]
    out = []
    for i, j in enumerate(jobs):
        if i % parts != part:
            continue
        v = 512 if i // parts % 2 else 256
        if i % 3 == 0:                  # a used hasher, reset at any point
            out += ["hnew a %d" % v] + message(rng, "a", [rng.choice(EDGES)]) + ["hfin a %d" % v] * (i % 2) + ["hreset a"]
        else:
            out.append("hnew a %d" % v)
        out += message(rng, "a", j) + ["hfin a %d" % v]
    return out


def hash_long(rng, v, mb=513):
    """A message of more than 2^32 bits."""
    return ["hnew a %d" % v] + message(rng, "a", [rng.randrange(130)]) + \
           ["hwrite a %s %d" % (piece(rng, 2 ** 16), mb * 16)] + message(rng, "a", [rng.randrange(130)]) + ["hfin a %d" % v]
