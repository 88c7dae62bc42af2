// Executes a script of library calls (stdin or file) and logs every call with its arguments before
// it is made ("B" lines) and its results afterwards ("E" lines).
// Uses nothing but the public API, so that it also compiles against rearranged sources.
#include "common.h"
#include <csignal>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <new>
#include <sys/resource.h>

// The number and size of the live blocks on the heap.
static long live, bytes;
static void* block(std::size_t n)
{
    void* p = malloc(n ? n : 1);
    if (p) { live++; bytes += malloc_usable_size(p); }
    return p;
}
static void* block_or_throw(std::size_t n)
{
    void* p = block(n);
    if (!p) throw std::bad_alloc();
    return p;
}
static void unblock(void* p)
{
    if (p) { live--; bytes -= malloc_usable_size(p); }
    free(p);
}
void* operator new(std::size_t n) { return block_or_throw(n); }
void* operator new[](std::size_t n) { return block_or_throw(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return block(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return block(n); }
void operator delete(void* p) noexcept { unblock(p); }
void operator delete[](void* p) noexcept { unblock(p); }
void operator delete(void* p, std::size_t) noexcept { unblock(p); }
void operator delete[](void* p, std::size_t) noexcept { unblock(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { unblock(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { unblock(p); }

static std::map<string, std::unique_ptr<RamForest>> F;
static std::map<string, std::unique_ptr<Pollard>> P;
static std::map<string, BatchProof> B;
static std::map<string, UndoBatch> U;
static vector<RamForest*> leaked;
static std::set<string> files;   // below the scratch directory given on the command line

static Accumulator& acc(const string& x)
{
    if (F.count(x)) return *F.at(x);
    return *P.at(x);
}
// The words (letters and digits) that f prints to std::cout.
template <class F>
static vector<string> tokens(F f)
{
    std::ostringstream out;
    auto* old = std::cout.rdbuf(out.rdbuf());
    f();
    std::cout.rdbuf(old);
    vector<string> r(1);
    for (char c : out.str()) {
        if (isalnum((unsigned char)c)) r.back() += c;
        else if (!r.back().empty()) r.emplace_back();
    }
    if (r.back().empty()) r.pop_back();
    return r;
}
static uint64_t number(const string& s) { return strtoull(s.c_str(), nullptr, 10); }
static string roots(const Accumulator& a)
{
    Hashes r;
    a.Roots(r);
    return J(r);
}
static void obsF(Rec& r, RamForest& f) { r.add("n", J(f.NumLeaves())).add("roots", roots(f)); }
static void obsP(Rec& r, Pollard& p)
{
    r.add("n", J(p.NumLeaves())).add("roots", roots(p)).add("cached", J(p.NumCachedLeaves())).add("nodes", J(p.CountNodes()));
}
static void showB(Rec& r, const char* t, const char* h, const BatchProof& b)
{
    r.add(t, J(b.GetTargets())).add(h, J(b.GetHashes()));
}
static void fullB(Rec& r, const BatchProof& b)
{
    r.add("tb", JX(b.GetTargets())).add("sb", JX(b.GetSortedTargets())).add("h", J(b.GetHashes()));
}
static void fullU(Rec& r, const UndoBatch& u)
{
    r.add("ua", q(hex16(u.GetNumAdds()))).add("up", JX(u.GetDeletedPositions())).add("uh", J(u.GetDeletedHashes()));
}

int main(int argc, char** argv)
{
    string dir = argc > 1 ? argv[1] : ".";
    signal(SIGXFSZ, SIG_IGN);
    uint64_t limit = 0;
    setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
    string line;
    char* buf = nullptr;
    size_t cap = 0;
    ssize_t len;
    while ((len = getline(&buf, &cap, stdin)) > 0) {
        line.assign(buf, len);
        std::istringstream in(line);
        string op;
        if (!(in >> op)) continue;
        auto S = [&]() { string s; in >> s; return s; };
        Rec b, e;
        b.add("op", q(op));

        if (op == "reset") {
            limit = 0;
            struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl);
            rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_FSIZE, &rl);
            begin(b);
            F.clear(); P.clear(); B.clear(); U.clear();
            for (auto& x : leaked) (void)x;   // dead processes: never destroyed
            leaked.clear();
            for (auto& x : files) unlink(x.c_str());
            files.clear();
            end(e);
        } else if (op == "fnew") {
            string f = S(); b.add("f", q(f)); begin(b);
            F[f] = std::make_unique<RamForest>(0);
            obsF(e, *F[f]); end(e);
        } else if (op == "fopen") {
            string f = S(), p = S(); 
            bool can = std::filesystem::is_directory(std::filesystem::path(dir + "/" + p).parent_path());
            b.add("f", q(f)).add("path", q(p)).add("can", J(can)); begin(b);
            if (can) files.insert(dir + "/" + p);
            F[f] = std::make_unique<RamForest>(dir + "/" + p);
            obsF(e, *F[f]); end(e);
        } else if (op == "fclose") {
            string f = S(); b.add("f", q(f)); begin(b); F.erase(f); end(e);
        } else if (op == "fkill") {
            string f = S(); b.add("f", q(f)); begin(b); leaked.push_back(F[f].release()); F.erase(f); end(e);
        } else if (op == "fcommit") {
            string f = S(); b.add("f", q(f)).add("lim", J(limit)); begin(b);
            e.add("ret", J(F.at(f)->Commit())); obsF(e, *F[f]); end(e);
        } else if (op == "flimit") {            // no file grows beyond this (0: as large as you like)
            limit = strtoull(S().c_str(), nullptr, 10); b.add("lim", J(limit)); begin(b);
            struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl);
            rl.rlim_cur = limit ? limit : rl.rlim_max; setrlimit(RLIMIT_FSIZE, &rl); end(e);
        } else if (op == "fput") {
            string p = S(); uint64_t n = strtoull(S().c_str(), nullptr, 10); auto h = hashes(S()); string rest = S();
            if (rest == "-") rest = "";
            b.add("path", q(p)).add("num", J(n)).add("count", q(hex16(n))).add("hashes", J(h)).add("rest", q(rest)); begin(b);
            files.insert(dir + "/" + p);
            std::ofstream o(dir + "/" + p, std::ios::binary | std::ios::trunc);
            for (int i = 56; i >= 0; i -= 8) o.put(char(n >> i));
            for (auto& x : h) o.write((const char*)x.data(), 32);
            for (auto c : unhex(rest)) o.put(char(c));
            o.close(); end(e);
        } else if (op == "fraw") {
            string p = S(); b.add("path", q(p)); begin(b);
            std::ifstream i(dir + "/" + p, std::ios::binary);
            vector<uint8_t> y((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
            Hashes h;
            size_t k = std::min<size_t>(8, y.size());
            e.add("count", q(hex(vector<uint8_t>(y.begin(), y.begin() + k))));
            for (; k + 32 <= y.size(); k += 32) { Hash x; std::copy(y.begin() + k, y.begin() + k + 32, x.begin()); h.push_back(x); }
            e.add("hashes", J(h)).add("rest", q(hex(vector<uint8_t>(y.begin() + k, y.end())))); end(e);
        } else if (op == "fmod") {
            string f = S(), u = S(); auto a = leaves(S()); auto d = nums(S());
            b.add("f", q(f)).add("u", q(u)).add("adds", J(a)).add("dels", J(d)); begin(b);
            UndoBatch ub = U.count(u) ? U.at(u) : UndoBatch(0, {}, {});   // whatever it held before
            bool ret = F.at(f)->Modify(ub, a, d);
            if (ret) U[u] = ub;
            e.add("ret", J(ret)); obsF(e, *F[f]); fullU(e, ub); end(e);
        } else if (op == "fbmod") {
            string f = S(); auto a = leaves(S()); auto d = nums(S());
            b.add("f", q(f)).add("adds", J(a)).add("dels", J(d)); begin(b);
            e.add("ret", J(static_cast<Accumulator&>(*F.at(f)).Modify(a, d))); obsF(e, *F[f]); end(e);
        } else if (op == "fadd") {
            string f = S(); auto a = leaves(S());
            b.add("f", q(f)).add("adds", J(a)); begin(b);
            e.add("ret", J(F.at(f)->Add(a))); obsF(e, *F[f]); end(e);
        } else if (op == "fundo") {
            string f = S(), u = S(); b.add("f", q(f)).add("u", q(u)); begin(b);
            e.add("ret", J(F.at(f)->Undo(U.at(u)))); obsF(e, *F[f]); end(e);
        } else if (op == "fobs") {
            string f = S(); b.add("f", q(f)); begin(b);
            RamForest& x = *F.at(f);
            obsF(e, x);
            Hashes l; vector<string> pos;
            for (uint64_t i = 0; i < x.NumLeaves(); i++) {
                l.push_back(x.GetLeaf(i));
                BatchProof pr;
                pos.push_back(x.Prove(pr, {l.back()}) && pr.GetTargets().size() == 1 ? J(pr.GetTargets()[0]) : "-2");
            }
            e.add("leaves", J(l)).add("pos", arr(pos, [](const string& s) { return s; })); end(e);
        } else if (op == "fprove" || op == "pprove") {
            string x = S(), s = S(); auto req = hashes(S());
            b.add(op == "fprove" ? "f" : "p", q(x)).add("b", q(s)).add("req", J(req));
            showB(b, "t0", "h0", B[s]); begin(b);
            e.add("ret", J(acc(x).Prove(B[s], req))); showB(e, "t", "h", B[s]); fullB(e, B[s]); end(e);
        } else if (op == "fprobe" || op == "pprobe") {
            string x = S(); auto req = hashes(S());
            b.add(op == "fprobe" ? "f" : "p", q(x)).add("req", J(req)); begin(b);
            vector<string> res;
            for (auto& h : req) {
                BatchProof pr; Rec r;
                bool ok = acc(x).Prove(pr, {h});
                r.add("ret", J(ok)).add("t", J(pr.GetTargets())).add("h", J(pr.GetHashes()));
                res.push_back("{" + r.s + "}");
            }
            e.add("res", arr(res, [](const string& s) { return s; })); end(e);
        } else if (op == "fver") {
            string f = S(), s = S(); auto th = hashes(S());
            b.add("f", q(f)).add("b", q(s)).add("th", J(th)); showB(b, "t", "h", B[s]); begin(b);
            e.add("ret", J(F.at(f)->Verify(B[s], th))); obsF(e, *F[f]); end(e);
        } else if (op == "eq") {
            string f = S(), g = S(); b.add("f", q(f)).add("g", q(g)); begin(b);
            e.add("ret", J(*F.at(f) == *F.at(g))); end(e);
        } else if (op == "cmp") {
            string f = S(), g = S(); b.add("x", q(f)).add("y", q(g)); begin(b);
            e.add("ret", J(acc(f).ComparePositionMap(acc(g)))); end(e);
        } else if (op == "show") {          // what is printed: hash -> position, roots
            string x = S(); b.add("x", q(x)); begin(b);
            Accumulator& a = acc(x);
            auto map = tokens([&] { a.PrintPositionMap(); }), rs = tokens([&] { a.PrintRoots(); });
            vector<string> pairs, hs;
            for (size_t i = 0; i < map.size(); i++) {
                if (map[i].size() == 64) pairs.push_back("[" + q(map[i]) + "," + J(i + 1 < map.size() ? number(map[i + 1]) : uint64_t(-1)) + "]");
            }
            for (auto& t : rs) if (t.size() == 64) hs.push_back(q(t));
            auto id = [](const string& t) { return t; };
            e.add("map", arr(pairs, id)).add("shown", arr(hs, id)).add("n", J(a.NumLeaves())).add("roots", roots(a)); end(e);
        } else if (op == "bshow" || op == "ushow") {
            string x = S(); b.add(op == "bshow" ? "b" : "u", q(x)); begin(b);
            vector<string> ns, hs;
            for (auto& t : tokens([&] { if (op == "bshow") B[x].Print(); else U[x].Print(); })) {
                if (t.size() == 64) hs.push_back(q(t));
                else if (t.find_first_not_of("0123456789") == string::npos) ns.push_back(q(hex16(number(t))));
            }
            auto id = [](const string& t) { return t; };
            e.add("numbers", arr(ns, id)).add("hashes", arr(hs, id)); end(e);
        } else if (op == "pnew") {
            string p = S(); b.add("p", q(p)); begin(b);
            P[p] = std::make_unique<Pollard>(0);
            obsP(e, *P[p]); end(e);
        } else if (op == "prest") {
            string p = S(), x = S(); b.add("p", q(p)).add("x", q(x)); begin(b);
            Hashes r; acc(x).Roots(r);
            P[p] = std::make_unique<Pollard>(r, acc(x).NumLeaves());
            obsP(e, *P[p]); end(e);
        } else if (op == "pmod") {
            string p = S(); auto a = leaves(S()); auto d = nums(S());
            b.add("p", q(p)).add("adds", J(a)).add("dels", J(d)).add("nodes0", J(P.at(p)->CountNodes())); begin(b);
            e.add("ret", J(P.at(p)->Modify(a, d))); obsP(e, *P[p]); end(e);
        } else if (op == "pver") {
            string p = S(), s = S(); auto th = hashes(S());
            b.add("p", q(p)).add("b", q(s)).add("th", J(th)); showB(b, "t", "h", B[s]); b.add("nodes0", J(P.at(p)->CountNodes())); begin(b);
            e.add("ret", J(P.at(p)->Verify(B[s], th))); obsP(e, *P[p]); end(e);
        } else if (op == "pprune") {
            string p = S(); b.add("p", q(p)); begin(b); P.at(p)->Prune(); obsP(e, *P[p]); end(e);
        } else if (op == "drop") {
            string x = S(); b.add("x", q(x)); begin(b);
            long before = live, size = bytes;
            P.erase(x); F.erase(x);
            end(e.add("blocks", std::to_string(before - live)).add("bytes", std::to_string(size - bytes)));
        } else if (op == "heap") {          // first: nothing to compare with yet
            string first = S(); b.add("first", J(first == "first")); begin(b);
            end(e.add("blocks", std::to_string(live)).add("bytes", std::to_string(bytes)));
        } else if (op == "bnew") {
            string s = S(); auto t = nums(S()); auto h = hashes(S());
            b.add("b", q(s)).add("t0", JX(t)).add("h0", J(h)); begin(b);
            B[s] = BatchProof(t, h); fullB(e, B[s]); end(e);
        } else if (op == "bnull") {
            string s = S(); b.add("b", q(s)); begin(b); B[s].SetNull(); fullB(e, B[s]); end(e);
        } else if (op == "bser") {
            string s = S(); b.add("b", q(s)); begin(b);
            vector<uint8_t> y(s == "b2" || s == "b8" ? 4000 : 3, 0xee); B[s].Serialize(y); e.add("bytes", q(hex(y))); fullB(e, B[s]); end(e);
        } else if (op == "bunser") {
            string s = S(); string y = S(); if (y == "-") y = "";
            b.add("b", q(s)).add("bytes", q(y)); begin(b);
            e.add("ret", J(B[s].Unserialize(unhex(y)))); fullB(e, B[s]); end(e);
        } else if (op == "bround") {
            string s = S(), d = S(); b.add("b", q(s)).add("d", q(d)); begin(b);
            vector<uint8_t> y; B[s].Serialize(y);
            e.add("bytes", q(hex(y))).add("ret", J(B[d].Unserialize(y))); fullB(e, B[d]); end(e);
        } else if (op == "beq") {
            string s = S(), d = S(); b.add("b", q(s)).add("d", q(d)); begin(b); e.add("ret", J(B[s] == B[d])); end(e);
        } else if (op == "bsane") {
            string s = S(); uint64_t n = strtoull(S().c_str(), nullptr, 10);
            b.add("b", q(s)).add("num", J(n)); showB(b, "t", "h", B[s]); begin(b);
            e.add("ret", J(B[s].CheckSanity(n))); end(e);
        } else if (op == "unew") {
            string s = S(); uint64_t a = strtoull(S().c_str(), nullptr, 10); auto t = nums(S()); auto h = hashes(S());
            b.add("u", q(s)).add("ua0", q(hex16(a))).add("up0", JX(t)).add("uh0", J(h)); begin(b);
            U[s] = UndoBatch(a, t, h); fullU(e, U[s]); end(e);
        } else if (op == "user") {
            string s = S(); b.add("u", q(s)); begin(b);
            vector<uint8_t> y(s.back() % 2 ? 4000 : 5, 0xee); U.at(s).Serialize(y); e.add("bytes", q(hex(y))); fullU(e, U[s]); end(e);
        } else if (op == "uunser") {
            string s = S(); string y = S(); if (y == "-") y = "";
            if (!U.count(s)) U.emplace(s, UndoBatch(0, {}, {}));
            b.add("u", q(s)).add("bytes", q(y)); begin(b);
            e.add("ret", J(U[s].Unserialize(unhex(y)))); fullU(e, U[s]); end(e);
        } else if (op == "uround") {
            string s = S(), d = S(); b.add("u", q(s)).add("d", q(d));
            if (!U.count(d)) U.emplace(d, UndoBatch(0, {}, {}));
            begin(b);
            vector<uint8_t> y; U.at(s).Serialize(y);
            e.add("bytes", q(hex(y))).add("ret", J(U[d].Unserialize(y))); fullU(e, U[d]); end(e);
        } else if (op == "ueq") {
            string s = S(), d = S(); b.add("u", q(s)).add("d", q(d)); begin(b); e.add("ret", J(U.at(s) == U.at(d))); end(e);
        } else {
            fprintf(stderr, "script: unknown op %s\n", op.c_str());
            return 3;
        }
    }
    fflush(stdout);
    _exit(0);
}
