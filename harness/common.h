// Parsing of scripts and logging of calls, shared by the drivers.
#pragma once
#include "include/utreexo.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

using namespace utreexo;
using std::string;
using std::vector;
typedef vector<uint64_t> Nums;
typedef vector<Hash> Hashes;

static string hex(const Hash& h)
{
    static const char* d = "0123456789abcdef";
    string s;
    for (uint8_t b : h) { s += d[b >> 4]; s += d[b & 15]; }
    return s;
}
static string hex(const vector<uint8_t>& h)
{
    static const char* d = "0123456789abcdef";
    string s;
    for (uint8_t b : h) { s += d[b >> 4]; s += d[b & 15]; }
    return s;
}
static string hex16(uint64_t x)
{
    char b[20];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)x);
    return b;
}
static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static vector<uint8_t> unhex(const string& s)
{
    vector<uint8_t> v;
    for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(nib(s[i]) * 16 + nib(s[i + 1]));
    return v;
}
static Hash hash(const string& s)
{
    Hash h{};
    if (s.size() != 64) { fprintf(stderr, "script: bad hash %s\n", s.c_str()); exit(3); }
    for (int i = 0; i < 32; i++) h[i] = nib(s[2 * i]) * 16 + nib(s[2 * i + 1]);
    return h;
}
static vector<string> split(const string& s)
{
    vector<string> r;
    if (s == "-") return r;
    string cur;
    for (char c : s) {
        if (c == ',') { r.push_back(cur); cur.clear(); } else cur += c;
    }
    r.push_back(cur);
    return r;
}
static Nums nums(const string& s)
{
    Nums r;
    for (auto& x : split(s)) r.push_back(strtoull(x.c_str(), nullptr, 10));
    return r;
}
static Hashes hashes(const string& s)
{
    Hashes r;
    for (auto& x : split(s)) r.push_back(hash(x));
    return r;
}
static vector<Leaf> leaves(const string& s)
{
    vector<Leaf> r;
    for (auto& x : split(s)) r.push_back({hash(x.substr(0, 64)), x.size() > 64 && x[65] == '1'});
    return r;
}

// JSON
static string q(const string& s) { return "\"" + s + "\""; }
static string J(bool b) { return b ? "true" : "false"; }
// TLC has 32 bit integers. -1 stands for every number out of range of anything that is indexed.
static string J(uint64_t n) { return n < (1ULL << 30) ? std::to_string(n) : "-1"; }
template <class T, class F>
static string arr(const vector<T>& v, F f)
{
    string s = "[";
    bool first = true;
    for (const auto& x : v) { if (!first) s += ","; first = false; s += f(x); }
    return s + "]";
}
static string J(const Nums& v) { return arr(v, [](uint64_t x) { return J(x); }); }
static string J(const Hashes& v) { return arr(v, [](const Hash& h) { return q(hex(h)); }); }
static string JX(const Nums& v) { return arr(v, [](uint64_t x) { return q(hex16(x)); }); }
static string J(const vector<Leaf>& v)
{
    return arr(v, [](const Leaf& l) { return "[" + q(hex(l.first)) + "," + J(l.second) + "]"; });
}
struct Rec {
    string s;
    Rec& add(const char* k, const string& v)
    {
        if (!s.empty()) s += ",";
        s += q(k) + ":" + v;
        return *this;
    }
};
// A call that needs more than 20 s of processor time counts as hung.
static void limit(int s)
{
    struct itimerval t = {{0, 0}, {s, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);
}
static void begin(const Rec& r) { printf("B {%s}\n", r.s.c_str()); fflush(stdout); limit(20); }
static void end(const Rec& r) { limit(0); printf("E {%s}\n", r.s.c_str()); fflush(stdout); }

