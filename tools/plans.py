"""Which workloads and which models decide which property."""
import vlib

COMMON = ["The library is built from the working tree with AddressSanitizer and libstdc++ assertions; single-threaded use.",
          "Leaf hashes of one accumulator are unique and not all-equal by accident: SHA-512/256 collisions are ignored.",
          "Pollard::Modify is called for remembered leaves only (the documented precondition)."]


class Plan:
    def __init__(self):
        self.units, self.describe, self.models = {}, [], []

    def rnd(self, name, count, driver="driver", **kw):
        """count random histories"""
        for i in range(count):
            self.units.setdefault(driver, []).append((name, i, count, kw))
        self.describe.append("%s: %d random histories %s" % (name, count, kw or ""))

    def all(self, name, parts, driver="driver", **kw):
        """a complete enumeration, in slices"""
        for i in range(parts):
            self.units.setdefault(driver, []).append((name, i, parts, kw))
        self.describe.append("%s: complete enumeration in %d slices %s" % (name, parts, kw or ""))

    def tlc(self, name, parts, **kw):
        """histories generated by TLC from the state graph of a Gen module: every transition that `only` selects
        (`limit`: that many of them, drawn at random) is executed"""
        for i in range(parts):
            self.units.setdefault("driver", []).append((name, i, parts, kw))
        self.describe.append("%s: transitions of the state graph in %d slices %s" % (name, parts, kw))

    def model(self, module, checked, workers=1, mem="4g", **constants):
        """a model of the specification alone; constants override those of <module>.cfg"""
        self.models.append({"name": module, "module": module, "checked": checked, "constants": constants,
                            "workers": workers, "mem": mem})


def build(prop, big):
    """big: multiplier (1 = quick)"""
    p = Plan()
    q = big == 1
    k = big
    if prop == "C01":
        p.rnd("wide", 1 if q else 6, block=1024)
        p.rnd("wide", 1 if q else 3, n=131072, block=65536, pollard=False)
        p.tlc("tlc_forest", 48 if q else 96, MaxN=9 if q else 10, MaxUndo=0, File=False, only="fmod+fbmod", steps=40)
        p.model("SwapImpl", "the swaps of a removal give the canonical forest (refinement)", MaxN=7 if q else 11)
        p.rnd("forest", 200 * k)
        p.rnd("forest", 40 * k, steps=25, maxn=150)
        p.all("ex_forest", 16, hi=8 if q else 11)
        p.all("ex_undo", 16, hi=4 if q else 6)
        p.rnd("bigforest", 4 * k, n=1500)
    elif prop == "C02":
        p.rnd("wide", 1 if q else 6, block=1024)
        p.rnd("bigchain", 6 * k)
        p.model("AccumMC", "a pollard can compute the roots of every next block from what it must know", MaxN=5 if q else 7, MaxAttack=2)
        p.tlc("tlc_pollard", 40 if q else 200, MaxN=5 if q else 6, only="pmod")
        p.rnd("chain", 200 * k, w=dict(forge=0.1))
        p.rnd("chain", 20 * k, maxn=120, w=dict(forge=0.05))
        p.rnd("sparse", 100 * k)
        p.all("ex_pollard", 32, hi=5 if q else 7)
        p.rnd("bigforest", 4 * k, n=1000)
    elif prop == "C03":
        p.rnd("bigchain", 6 * k, w=dict(forge=0))
        p.model("AccumMC", "the canonical proof convinces every verifier that knows the roots", MaxN=5 if q else 7, MaxAttack=2)
        p.tlc("tlc_pollard", 48 if q else 200, MaxN=5 if q else 6, only="pver.full", probe=0.2)
        p.rnd("chain", 200 * k, w=dict(forge=0.05, extra=0.6, partial=0.0))
        p.rnd("chain", 20 * k, maxn=120, w=dict(forge=0.0, extra=0.5, partial=0.0))
        p.all("ex_pollard", 24, hi=4 if q else 6)
        p.rnd("bigforest", 6 * k, n=1200)
    elif prop == "C04":
        p.rnd("bigchain", 6 * k, w=dict(forge=1, partial=0.1))
        p.model("AccumMC", "no other claim or proof convinces a verifier that knows the roots", MaxN=4 if q else 5, MaxAttack=3 if q else 4, MaxAdds=0)
        p.tlc("tlc_pollard", 64 if q else 300, MaxN=5 if q else 6, only="reject", limit=8000 if q else 60000, probe=0.2)
        p.rnd("chain", 180 * k, w=dict(forge=0.75, extra=0.2))
        p.rnd("chain", 20 * k, maxn=100, w=dict(forge=0.75))
        p.all("ex_forge", 32, hi=5 if q else 7)
    elif prop == "C05":
        p.rnd("bigchain", 6 * k, w=dict(forge=1))
        p.tlc("tlc_pollard", 48 if q else 300, MaxN=5 if q else 6, only="reject", limit=4000 if q else 60000, probe=1)
        p.rnd("chain", 220 * k, w=dict(forge=0.75, probe=0.9, extra=0.1))
        p.all("ex_forge", 32, hi=4 if q else 6)
    elif prop == "C06":
        p.rnd("wide", 1 if q else 6, block=1024)
        p.tlc("tlc_forest", 32 if q else 64, MaxN=9 if q else 10, MaxUndo=0, File=False, only="fprove", steps=40)
        p.rnd("forest", 200 * k, w=dict(prove=0.9, probe=0.7, fobs=0.1))
        p.rnd("forest", 30 * k, maxn=150, w=dict(prove=0.9, fobs=0.1))
        p.all("ex_forest", 16, hi=8 if q else 11)
        p.rnd("bigforest", 4 * k, n=1500)
    elif prop == "C07":
        p.rnd("wide", 1 if q else 6, block=1024)
        p.tlc("tlc_forest", 48 if q else 128, MaxN=3, MaxAdds=3, MaxUndo=2, File=False, limit=5000 if q else 26000, probe=1)
        p.rnd("forest", 200 * k, w=dict(fobs=0.9, probe=0.9, fver=0.5))
        p.rnd("forest", 30 * k, maxn=150, w=dict(fobs=0.9, probe=0.9))
        p.all("ex_forest", 16, hi=8 if q else 11)
        p.rnd("bigforest", 4 * k, n=1500)
    elif prop == "C08":
        p.rnd("wide", 1 if q else 6, block=1024)
        p.rnd("wide", 1 if q else 3, n=131072, block=65536, pollard=False)
        p.tlc("tlc_forest", 64 if q else 128, MaxN=3, MaxAdds=3, MaxUndo=2, File=False, only="fundo+fmod", limit=6000 if q else None)
        p.model("SwapImpl", "undoing a removal restores every node (refinement)", MaxN=7 if q else 11)
        p.rnd("forest", 220 * k, w=dict(undo=0.5, fobs=0.7))
        p.rnd("forest", 30 * k, steps=25, maxn=150, w=dict(undo=0.5))
        p.all("ex_undo", 24, hi=4 if q else 6)
        p.all("ex_forest", 16, hi=8 if q else 11)
        p.rnd("bigforest", 4 * k, n=1500)
    elif prop == "C09":
        p.tlc("tlc_pollard", 24 if q else 64, MaxN=5 if q else 6, only="pbad", probe=1)
        p.tlc("tlc_forest", 16 if q else 32, MaxN=3, MaxUndo=1, File=False, only="fbad", probe=1)
        p.rnd("forest", 120 * k, w=dict(malformed=0.7, fobs=0.7))
        p.rnd("chain", 120 * k, w=dict(malformed=0.7, forge=0.0, probe=0.9))
        p.all("ex_malformed", 16, hi=4 if q else 6)
    elif prop == "C10":
        p.rnd("wide", 1 if q else 6, block=1024)
        p.tlc("tlc_forest", 48 if q else 64, MaxN=3, MaxUndo=0, File=True)
        p.rnd("forest", 250 * k, w=dict(disk=1.0, commit=0.3, close=0.25, kill=0.25, fobs=0.6))
        p.rnd("forest", 30 * k, maxn=150, w=dict(disk=1.0, commit=0.3, close=0.25, kill=0.25))
        p.all("ex_forest", 16, hi=7 if q else 10, disk=True)
        p.rnd("bigforest", 4 * k, n=1500)
    elif prop == "C11":
        p.rnd("wide", 1 if q else 6, block=1024)
        p.rnd("bigchain", 6 * k)
        p.model("AccumMC", "what a pollard must know suffices to prove what it remembers, now and after every block", MaxN=5 if q else 7, MaxAttack=2)
        p.tlc("tlc_pollard", 48 if q else 300, MaxN=5 if q else 6, only="accept+pmod+prest", probe=1, limit=4000 if q else None)
        p.rnd("chain", 200 * k, w=dict(forge=0.2, probe=1.0, prune=0.03))
        p.rnd("chain", 20 * k, maxn=100, w=dict(probe=1.0, forge=0.1))
        p.rnd("sparse", 150 * k)
        p.all("ex_pollard", 32, hi=5 if q else 7)
    elif prop == "C12":
        p.rnd("bigchain", 6 * k)
        p.tlc("tlc_pollard", 48 if q else 300, MaxN=5 if q else 6, only="accept+pmod+pprune", probe=1, limit=4000 if q else None)
        p.rnd("chain", 220 * k, w=dict(forge=0.15, probe=1.0, prove=0.9, prune=0.2))
        p.rnd("chain", 20 * k, maxn=100, w=dict(probe=1.0, prove=0.9))
        p.rnd("sparse", 150 * k)
        p.all("ex_pollard", 32, hi=4 if q else 6)
    elif prop == "C13":
        p.rnd("bigchain", 6 * k)
        p.model("AccumMC", "every node that a pollard must know is a root or needed for a proof", MaxN=5 if q else 7, MaxAttack=2)
        p.tlc("tlc_pollard", 48 if q else 300, MaxN=5 if q else 6, only="accept+pmod+pprune+prest", probe=0.2, limit=6000 if q else None)
        p.rnd("chain", 200 * k, w=dict(prune=0.2, extra=0.5))
        p.rnd("chain", 20 * k, maxn=100, w=dict(prune=0.15))
        p.rnd("sparse", 60 * k)
        p.all("ex_pollard", 32, hi=5 if q else 7)
    elif prop == "C14":
        p.rnd("bigchain", 6 * k, w=dict(partial=1))
        p.tlc("tlc_pollard", 48 if q else 300, MaxN=5 if q else 6, only="pver.omit", probe=0.3)
        p.rnd("chain", 200 * k, w=dict(partial=1.0, extra=0.7, forge=0.2))
        p.rnd("chain", 20 * k, maxn=100, w=dict(partial=1.0, extra=0.5))
        p.rnd("sparse", 60 * k, w=dict(partial=1.0))
        p.all("ex_partial", 32, hi=4 if q else 5)
    elif prop == "C15":
        p.rnd("serial", 500 * k, w=dict(kinds="b"))
        p.all("ex_serial", 16, hi=4 if q else 10)
        p.rnd("forest", 30 * k, w=dict(prove=0.9))
    elif prop == "C16":
        p.rnd("serial", 500 * k, w=dict(kinds="u"))
        p.all("ex_serial", 16, hi=4 if q else 10)
        p.rnd("forest", 40 * k, w=dict(undo=0.5))
    elif prop == "C17":
        p.tlc("tlc_pollard", 48 if q else 300, MaxN=5 if q else 6, only="prest+pver.full", limit=5000 if q else None)
        p.rnd("chain", 220 * k, w=dict(restore=0.7, pollards=2, forge=0.15))
        p.rnd("chain", 20 * k, maxn=100, w=dict(restore=0.6))
        p.rnd("restored", 100 * k)
    elif prop == "C18":
        p.rnd("bigchain", 6 * k)
        p.model("AccumMC", "verified leaves can be deleted without another proof", MaxN=5 if q else 7, MaxAttack=2)
        p.tlc("tlc_pollard", 48 if q else 300, MaxN=5 if q else 6, only="accept+pmod", probe=0.2, limit=6000 if q else None)
        p.rnd("chain", 200 * k, w=dict(extra=0.75, forge=0.1))
        p.rnd("chain", 20 * k, maxn=100, w=dict(extra=0.7))
        p.rnd("sparse", 100 * k)
        p.all("ex_pollard", 32, hi=5 if q else 7)
    elif prop == "C19":
        p.rnd("equality", 150 * k)
        p.rnd("serial", 150 * k)
        p.rnd("forest", 80 * k, w=dict(rebuild=0.5, cmp=0.7))
        p.rnd("chain", 60 * k, w=dict(cmp=0.8))
    elif prop == "C20":
        p.rnd("sanity", 250 * k)
        p.all("ex_sane", 16, hi=7 if q else 11)
        p.rnd("sane_big", 60 * k, driver="geo")
    elif prop == "C21":
        p.rnd("wide", 1 if q else 6, block=1024)
        p.tlc("tlc_forest", 64 if q else 256, MaxN=3, MaxUndo=1, File=True, limit=8000 if q else None)
        p.rnd("forest", 220 * k, w=dict(disk=1.0, undo=0.45, commit=0.3, close=0.3, kill=0.2, fobs=0.6))
        p.rnd("forest", 30 * k, steps=25, maxn=150, w=dict(disk=1.0, undo=0.45, commit=0.3, close=0.3, kill=0.2))
        p.all("ex_undo", 24, hi=4 if q else 6, disk=True)
        p.rnd("bigforest", 4 * k, n=1200)
    elif prop == "C22":
        p.rnd("geometry", 160 * k, driver="geo")
        p.rnd("pollard", 500 * k, driver="geo")
        p.rnd("pollard", 60 * k, driver="geo", top=300)
        p.model("WordsMC", "the word geometry equals the integer geometry (nodes, positions, roots, proofs)", MaxN=13 if q else 20, MaxT=4)
        p.model("SparseMC", "sparse pollards equal explicit ones (verification, deletion, addition)", MaxN=4 if q else 5)
    elif prop == "C23":
        p.rnd("wide", 1 if q else 6, raw=True)
        p.rnd("files", 200 * k)
        p.rnd("files", 8 * k, maxn=300)
        p.tlc("tlc_forest", 48 if q else 256, MaxN=3, MaxUndo=0 if q else 1, File=True, only="fcommit+fclose+fkill")
    elif prop == "C24":
        p.model("HasherMC", "the blocks that are compressed are those of the padded message, whatever the pieces are",
                MaxLen=18 if q else 26, MaxPiece=18 if q else 26, workers=2)
        p.all("ex_hashing", 16, driver="hash", lengths=300 if q else 3000, step=12 if q else 1)
        p.rnd("hashing", 120 * k, driver="hash")
        p.rnd("hash_long", 1 if q else 4, driver="hash", v=512)
        p.rnd("hash_long", 1 if q else 4, driver="hash", v=256)
    elif prop == "C25":
        p.rnd("memory", 24 * k, steps=160)
        p.rnd("memory", 8 * k, steps=600, maxn=5)
        p.rnd("memory", 16 * k, steps=50, maxn=40)
    elif prop == "C26":
        p.rnd("printing", 300 * k)
    else:
        raise vlib.CheckError("no plan for " + prop)
    return p


MODULES = {"driver": "Trace", "geo": "TraceBig", "hash": "TraceHash"}


def plan(prop, tier):
    p = build(prop, 1 if tier == "quick" else 12)
    total = sum(len(u) for u in p.units.values())
    stages = [{"driver": d, "module": MODULES[d], "units": u,
               "batches": max(1, round((8 if tier == "quick" else 64) * len(u) / total))} for d, u in p.units.items()]
    return {"stages": stages, "models": p.models, "describe": p.describe, "assumptions": COMMON}
