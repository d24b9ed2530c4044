#!/usr/bin/env python3
"""Which candidate patterns behave like the model on the unchanged library.
usage: screen.py OUT [repo]   writes one JSON object per agreeing pattern; mismatches go to OUT.bad"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import candidates, catalogue
repo = sys.argv[2] if len(sys.argv) > 2 else "/repo"
tmp = "/tmp/screen"
os.makedirs(tmp, exist_ok=True)
cands = candidates.folding() if os.environ.get("FOLD") else candidates.unicode() if os.environ.get("UNI") else candidates.more() if os.environ.get("MORE") else candidates.systematic() + candidates.rnd(int(os.environ.get("NRND", "400")))
if os.environ.get("HAND"):
    cands = [(t, a, f, fl, m, None) for (t, a, f, fl, m) in [h[:5] for h in catalogue.H]]
if os.environ.get("NEW"):
    have = {(json.loads(l)["t"], json.loads(l)["m"]) for l in open(catalogue.POOL)}
    cands = [c for c in cands if (c[0], c[4]) not in have or "\0" in c[1]]
print(len(cands), "candidates")
SRC = r'''
#include <ctre-unicode.hpp>
#include <cstdio>
#include <cstring>
#include "screen.hpp"
'''
HDR = r'''
#pragma once
#include "sim.hpp"
#include <string>
struct Cand { Pattern p; bool (*run)(int kind, std::u32string_view s, Seq & out); };
void add(const Cand &);
template <typename R, size_t... I> Exp rec(const R & m, const char32_t * b, std::index_sequence<I...>) {
	Exp e; e.matched = bool(m);
	auto one = [&](auto && c) { e.caps.push_back(bool(c) ? Cap{true, c.begin() - b, c.end() - b} : Cap{false, -1, -1}); };
	if (m) (one(m.template get<I>()), ...);
	return e;
}
template <ctll::fixed_string P, int Mode> bool run(int kind, std::u32string_view s, Seq & out) {
	out.clear();
	const char32_t * b = s.data(), * e = b + s.size();
	auto r1 = [&](auto m) { out.push_back(rec(m, b, std::make_index_sequence<decltype(m)::count()>())); };
	auto rn = [&](auto rg) { size_t n = 0; for (auto && m : rg) { r1(m); if (++n > s.size() + 3) return false; } return true; };
	if constexpr (Mode == 0) {
		switch (kind) {
		case 0: r1(ctre::match<P>(b, e)); return true;
		case 1: r1(ctre::search<P>(b, e)); return true;
		case 2: r1(ctre::starts_with<P>(b, e)); return true;
		case 3: return rn(ctre::search_all<P>(b, e));
		case 4: return rn(ctre::split<P>(b, e));
		default: return rn(ctre::tokenize<P>(b, e));
		}
	} else {
		switch (kind) {
		case 0: r1(ctre::multiline_match<P>(b, e)); return true;
		case 1: r1(ctre::multiline_search<P>(b, e)); return true;
		case 2: r1(ctre::multiline_starts_with<P>(b, e)); return true;
		case 3: return rn(ctre::multiline_search_all<P>(b, e));
		case 4: return rn(ctre::multiline_split<P>(b, e));
		default: return rn(ctre::multiline_tokenize<P>(b, e));
		}
	}
}
'''
MAIN = r'''
#define PCRE2_CODE_UNIT_WIDTH 32
#include <pcre2.h>
#include "screen.hpp"
#include <cstdio>
#include <cstring>
#include <cstdlib>
static std::vector<Cand> & all() { static std::vector<Cand> v; return v; }
void add(const Cand & c) { all().push_back(c); }
static std::vector<uint32_t> dec(const char * s) { std::vector<uint32_t> r; while (*s) { unsigned char c = static_cast<unsigned char>(*s); int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3; uint32_t v = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7; s++; while (n--) v = v << 6 | (*s++ & 63); r.push_back(v); } return r; }
int main(int argc, char ** argv) {
	const int iters = atoi(argv[1]);
	bool broken = false;
	for (auto & c : all()) {
		std::vector<uint32_t> t;
		for (const char * q = c.p.model ? c.p.model : c.p.text; *q; ++q) t.push_back(static_cast<unsigned char>(*q));
		int err; PCRE2_SIZE off;
		if (!pcre2_compile(t.data(), t.size(), 0, &err, &off, nullptr)) { fprintf(stderr, "model cannot compile %s\n", c.p.text); broken = true; }
	}
	if (broken) return 2;
	for (auto & c : all()) {
		Rng r(static_cast<uint64_t>(c.p.id) + 99);
		auto al = dec(c.p.alphabet), fr = dec(c.p.frags);
		std::vector<std::vector<uint32_t>> frags(1);
		for (auto v : fr) { if (v == 0x1f) frags.emplace_back(); else frags.back().push_back(v); }
		bool bad = false;
		int kinds = 0; std::string why;
		for (int i = 0; i < iters && !bad; i++) {
			std::u32string t;
			int lim = c.p.flags & 32 ? 10 : 24;
			if (r.chance(1, 2)) { int n = r.range(0, lim / 2); while (n--) t.push_back(al[r.below(static_cast<uint32_t>(al.size()))]); }
			else { int n = r.range(1, 4); while (n--) { if (r.chance(2, 3)) for (auto v : r.pick(frags)) t.push_back(v); else t.push_back(al[r.below(static_cast<uint32_t>(al.size()))]); } }
			if (t.size() > static_cast<size_t>(lim)) t.resize(static_cast<size_t>(lim));
			Text tx; tx.cp.assign(t.begin(), t.end()); for (size_t k = 0; k <= t.size(); k++) tx.off.push_back(static_cast<long>(k));
			for (int k = 0; k < 6 && !bad; k++) {
				Seq got, want;
				bool fin = c.run(k, t, got);
				if (k < 3) want.push_back(model_eval(c.p, k, tx, 0, static_cast<int>(t.size()))); else model_seq(c.p, k - 3, tx, want);
				bool same = fin && got.size() == want.size();
				for (size_t q = 0; same && q < got.size(); q++) {
					same = got[q].matched == want[q].matched && got[q].caps.size() == want[q].caps.size();
					for (size_t z = 0; same && z < got[q].caps.size(); z++) same = got[q].caps[z].on == want[q].caps[z].on && got[q].caps[z].b == want[q].caps[z].b && got[q].caps[z].e == want[q].caps[z].e;
				}
				if (!same) {
					bad = true;
					printf("BAD %d %d\t%s\t%d\t", c.p.id, c.p.mode, c.p.text, k);
					for (auto v : t) if (v < 127 && v >= 32) putchar(static_cast<int>(v)); else printf("\\x{%x}", static_cast<unsigned>(v));
					auto pr = [](const Seq & s) { for (auto & x : s) { putchar(x.matched ? '[' : '!'); for (auto & y : x.caps) if (y.on) printf("%ld-%ld ", y.b, y.e); else printf("- "); putchar(']'); } };
					printf("\tgot "); pr(got); printf("\twant "); pr(want); puts("");
				} else for (auto & x : got) if (x.matched) kinds |= 1 << k;
			}
		}
		if (!bad) printf("OK %d %d\n", c.p.id, kinds);
	}
}
'''
open(tmp + "/screen.hpp", "w").write(HDR)
open(tmp + "/main.cpp", "w").write(MAIN)
sim = os.path.join(HERE, "..", "sim")
jobs = []
N = 64
objs = []
def line(i):
    t, a, fr, fl, m, mod = cands[i]
    return "add(Cand{Pattern{%d, %s, %d, 0, %s, %s, %d, %s}, run<%s, %d>});\n" % (i, catalogue.cstr(t), m, catalogue.cstr(a), catalogue.cstr("\x1f".join(fr)), fl, catalogue.cstr(mod) if mod else "nullptr", catalogue.cstr(t), m)
def write(f, ids):
    with open(f, "w") as o:
        o.write(SRC + "static int init = [] {\n" + "".join(map(line, ids)) + "return 0; }();\n")
def cmd(f):
    return ["g++", "-std=c++20", "-O1", "-w", "-I" + repo + "/include", "-I" + sim, "-I" + tmp, "-c", f, "-o", f[:-3] + "o"]
def unit(k):
    f = "%s/u%02d.cpp" % (tmp, k)
    ids = list(range(k, len(cands), N))
    write(f, ids)
    while subprocess.run(cmd(f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode:
        good = []
        for i in ids:
            write(f, [i])
            if subprocess.run(cmd(f) + ["-fsyntax-only"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode:
                print("does not compile:", cands[i][0])
            else:
                good.append(i)
        ids = good
        write(f, ids)
    return 0
for k in range(N):
    objs.append("%s/u%02d.o" % (tmp, k))
for n, p in (("main", tmp), ("model", sim)):
    jobs.append(["g++", "-std=c++20", "-O2", "-w", "-I" + sim, "-I" + repo + "/include", "-I" + tmp, "-include", repo + "/include/ctre.hpp", "-c", "%s/%s.cpp" % (p, n), "-o", "%s/%s.o" % (tmp, n)])
    objs.append("%s/%s.o" % (tmp, n))
def go(c):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(" ".join(c)); print(r.stdout[:3000])
    return r.returncode
with ThreadPoolExecutor(8) as ex:
    if any(ex.map(go, jobs)) or any(ex.map(unit, range(N))):
        sys.exit(1)
subprocess.check_call(["g++", "-o", tmp + "/screen"] + objs + ["-lpcre2-32"])
r = subprocess.run([tmp + "/screen", os.environ.get("ITERS", "20000")], stdout=subprocess.PIPE, text=True)
ok, bad = [], []
for line in r.stdout.splitlines():
    if line.startswith("OK"):
        _, i, kinds = line.split()
        ok.append((int(i), int(kinds)))
    else:
        bad.append(line)
ok.sort()
with open(sys.argv[1], "w") as f:
    for i, kinds in ok:
        t, a, fr, fl, m, mod = cands[i]
        f.write(json.dumps(dict(text=t, alphabet=a, frags=fr, flags=fl, mode=m, model=mod, rnd=i >= len(candidates.systematic()), kinds=kinds)) + "\n")
open(sys.argv[1] + ".bad", "w").write("\n".join(bad) + "\n")
print(len(ok), "ok", len(bad), "bad", r.returncode)
