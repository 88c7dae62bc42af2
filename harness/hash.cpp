// Executes a script of calls of the library's hash function (src/crypto/sha512.h) and logs them.
// With NO_SHA (the internal interface is not what it was) nothing is called.
#include "common.h"
#ifndef NO_SHA
#include "src/crypto/sha512.h"
#endif

int main()
{
    setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
#ifndef NO_SHA
    std::map<string, std::unique_ptr<CSHA512>> H;
#endif
    char* buf = nullptr;
    size_t cap = 0;
    ssize_t len;
    while ((len = getline(&buf, &cap, stdin)) > 0) {
        std::istringstream in(string(buf, len));
        string op;
        if (!(in >> op)) continue;
        Rec b, e;
#ifdef NO_SHA
        b.add("op", q(op == "reset" ? op : "none")); begin(b); end(e);
#else
        auto S = [&]() { string s; in >> s; return s; };
        auto N = [&]() { return (uint64_t)strtoull(S().c_str(), nullptr, 10); };
        auto of = [&](const string& x) -> CSHA512& {
            if (!H.count(x)) { fprintf(stderr, "script: no hasher %s\n", x.c_str()); exit(3); }
            return *H[x];
        };
        b.add("op", q(op));
        if (op == "reset") {
            begin(b); H.clear(); end(e);
        } else if (op == "hnew") {
            string x = S(); int v = N();
            b.add("x", q(x)).add("v", std::to_string(v)); begin(b);
            H[x].reset(v == 512 ? new CSHA512() : new CSHA512(CSHA512::OUTPUT_SIZE_256));
            end(e.add("size", J(H[x]->Size())));
        } else if (op == "hcopy") {
            string x = S(), y = S();
            b.add("x", q(x)).add("from", q(y)); begin(b);
            CSHA512 c = of(y);
            H[x].reset(new CSHA512(c));
            end(e.add("size", J(H[x]->Size())));
        } else if (op == "hreset") {
            string x = S();
            b.add("x", q(x)); begin(b);
            CSHA512& h = of(x);
            bool self = &h.Reset() == &h;
            end(e.add("self", J(self)).add("size", J(h.Size())));
        } else if (op == "hwrite") {            // the piece is an object of its own: no byte before or behind it may be read
            string x = S(), s = S();
            uint64_t times = N();
            vector<uint8_t> d = unhex(s == "-" ? "" : s);
            b.add("x", q(x)).add("data", q(s == "-" ? "" : s)).add("times", std::to_string(times)); begin(b);
            CSHA512& h = of(x);
            bool self = true;
            std::unique_ptr<uint8_t[]> p(new uint8_t[d.size()]);
            std::copy(d.begin(), d.end(), p.get());
            for (uint64_t i = 0; i < times; i++) self = &h.Write(p.get(), d.size()) == &h && self;
            end(e.add("self", J(self && std::equal(d.begin(), d.end(), p.get()))).add("size", J(h.Size())));
        } else if (op == "hfin") {
            string x = S(); int bits = N();
            b.add("x", q(x)).add("bits", std::to_string(bits)); begin(b);
            vector<uint8_t> out(bits / 8);
            if (bits == 512) of(x).Finalize(out.data()); else of(x).Finalize256(out.data());
            end(e.add("ret", q(hex(out))));
        } else {
            fprintf(stderr, "script: unknown call %s\n", op.c_str());
            exit(3);
        }
#endif
    }
    return 0;
}
