// Like driver.cpp, for forests of any size: ForestState as pure functions, and pollards that start from
// the roots of a huge forest. Numbers are logged as bits, most significant first, without leading zeros.
// With NO_STATE (the internal interface is not what it was) only the public interface is exercised.
#include "common.h"
#ifndef NO_STATE
#include "src/state.h"
#endif
#include <tuple>

static string W(uint64_t x)
{
    string s = "[";
    bool on = false;
    for (int i = 63; i >= 0; i--) {
        int b = x >> i & 1;
        if (b) on = true;
        if (on) { if (s.size() > 1) s += ","; s += char('0' + b); }
    }
    return s + "]";
}
static string W(const Nums& v) { return arr(v, [](uint64_t x) { return W(x); }); }
static string I(uint64_t x) { return std::to_string(x); }
static string text(const vector<string>& v) { return arr(v, [](const string& s) { return s; }); }
static void obs(Rec& r, Pollard& p)
{
    Hashes h;
    p.Roots(h);
    r.add("n", W(p.NumLeaves())).add("roots", J(h)).add("cached", J(p.NumCachedLeaves())).add("nodes", J(p.CountNodes()));
}

int main()
{
    setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
    std::map<string, std::unique_ptr<Pollard>> P;
    char* buf = nullptr;
    size_t cap = 0;
    ssize_t len;
    while ((len = getline(&buf, &cap, stdin)) > 0) {
        std::istringstream in(string(buf, len));
        string op;
        if (!(in >> op)) continue;
        auto S = [&]() { string s; in >> s; return s; };
        auto N = [&]() { return (uint64_t)strtoull(S().c_str(), nullptr, 10); };
        Rec b, e;
        b.add("op", q(op));

        if (op == "reset") {
            begin(b); P.clear(); end(e);
#ifdef NO_STATE
        } else if (op == "geo" || op == "rp" || op == "pp" || op == "ct") {
            Rec none; none.add("op", q("none")); begin(none); end(e);
#else
        } else if (op == "geo") {
            uint64_t n = N(); Nums pos = nums(S());
            b.add("n", W(n)); begin(b);
            ForestState s(n);
            int R = s.NumRows();
            vector<string> has, off, rootpos, idx, nodes;
            for (int r = 0; r <= R && r < 64; r++) {
                has.push_back(J(s.HasRoot(r)));
                off.push_back(W(s.RowOffset((uint8_t)r)));
            }
            for (int r = R; r >= 0; r--) if (n >> r & 1) rootpos.push_back(W(s.RootPosition(r)));
            for (uint64_t x : s.RootPositions()) idx.push_back(I(s.RootIndex(x)));
            e.add("rows", I(R)).add("numroots", I(s.NumRoots())).add("has", text(has)).add("off", text(off));
            e.add("roots", W(s.RootPositions())).add("rootpos", text(rootpos)).add("rootidx", text(idx)).add("max", W(s.MaxNodes()));
            for (uint64_t x : pos) {
                Rec y;
                int r = s.DetectRow(x);
                y.add("pos", W(x)).add("row", I(r)).add("off", W(s.RowOffset(x)));
                y.add("parent", W(s.Parent(x))).add("sib", W(s.Sibling(x))).add("rsib", W(s.RightSibling(x))).add("cous", W(s.Cousin(x)));
                // which rows and leaf indexes exist follows from the definition of positions, not from the library
                int row = 0;
                while (row < R && (x >> (R - row) & 1)) row++;
                vector<string> anc, ld;
                for (int k = 0; k <= R - row; k++) anc.push_back(W(s.Ancestor(x, k)));
                for (int k = 0; k <= row; k++) ld.push_back(W(s.LeftDescendant(x, k)));
                y.add("anc", text(anc)).add("ldesc", text(ld));
                y.add("left", row > 0 ? W(s.LeftChild(x)) : "[]").add("right", row > 0 ? W(s.Child(x, 1)) : "[]");
                uint64_t index = x & ((1ULL << (R - row)) - 1);
                if (index < (n >> row)) {
                    uint8_t tree, l; uint64_t bits;
                    std::tie(tree, l, bits) = s.Path(x);
                    y.add("tree", I(tree)).add("len", I(l)).add("bits", W(bits)).add("rootidx", I(s.RootIndex(x)));
                }
                nodes.push_back("{" + y.s + "}");
            }
            e.add("nodes", text(nodes)); end(e);
        } else if (op == "rp") {
            uint64_t n = N(), m = N(); b.add("n", W(n)).add("m", W(m)); begin(b);
            e.add("roots", W(ForestState(n).RootPositions(m))); end(e);
        } else if (op == "pp") {
            uint64_t n = N(); Nums t = nums(S()); b.add("n", W(n)).add("t", W(t)); begin(b);
            auto r = ForestState(n).ProofPositions(t);
            e.add("proof", W(r.first)).add("computed", W(r.second)); end(e);
        } else if (op == "ct") {
            uint64_t n = N(); Nums t = nums(S()); b.add("n", W(n)).add("t", W(t)); begin(b);
            e.add("ret", J(ForestState(n).CheckTargetsSanity(t))); end(e);
#endif
        } else if (op == "gsane") {
            uint64_t n = N(); Nums t = nums(S()); uint64_t k = N(); b.add("n", W(n)).add("t", W(t)).add("nh", J(k)); begin(b);
            e.add("ret", J(BatchProof(t, Hashes(k)).CheckSanity(n))); end(e);
        } else if (op == "gnew") {
            string p = S(); uint64_t n = N(); Hashes r = hashes(S()); b.add("p", q(p)).add("n0", W(n)).add("roots0", J(r)); begin(b);
            P[p] = std::make_unique<Pollard>(r, n); obs(e, *P[p]); end(e);
        } else if (op == "gver") {
            string p = S(); Nums t = nums(S()); Hashes th = hashes(S()), h = hashes(S());
            b.add("p", q(p)).add("t", W(t)).add("th", J(th)).add("h", J(h)); begin(b);
            e.add("ret", J(P.at(p)->Verify(BatchProof(t, h), th))); obs(e, *P[p]); end(e);
        } else if (op == "gadd") {
            string p = S(); auto a = leaves(S()); b.add("p", q(p)).add("adds", J(a)); begin(b);
            e.add("ret", J(P.at(p)->Modify(a, {}))); obs(e, *P[p]); end(e);
        } else if (op == "gdel") {
            string p = S(); auto a = leaves(S()); Nums t = nums(S());
            b.add("p", q(p)).add("adds", J(a)).add("t", W(t)); begin(b);
            e.add("ret", J(P.at(p)->Modify(a, t))); obs(e, *P[p]); end(e);
        } else if (op == "gprove") {
            string p = S(); Hashes r = hashes(S()); b.add("p", q(p)).add("req", J(r)); begin(b);
            BatchProof x;
            e.add("ret", J(P.at(p)->Prove(x, r))).add("t", W(x.GetTargets())).add("h", J(x.GetHashes())); obs(e, *P[p]); end(e);
        } else if (op == "gprune") {
            string p = S(); b.add("p", q(p)); begin(b); P.at(p)->Prune(); obs(e, *P[p]); end(e);
        } else {
            fprintf(stderr, "script: unknown op %s\n", op.c_str());
            return 3;
        }
    }
    fflush(stdout);
    _exit(0);
}
