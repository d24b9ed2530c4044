#!/usr/bin/env python3
"""The catalogue of patterns, and which of them on which subject forms a property's
simulation is built from.  The tables are compiled from /repo's headers each time."""
import json, os, random, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))

# forms, in the order of rt_api.hpp
FORMS = ["PTR", "ZT", "SV", "BIDI_S", "BIDI", "FWD_S", "U8", "U32", "U16", "W", "WZT", "RANGE", "RA", "SPAN"]

# flags
BACK = 1      # needs bidirectional iterators (look-behind, word boundary)
NOU8 = 2      # not on UTF-8
WIDEONLY = 64 # about characters beyond ASCII
EMPTY = 4     # may match the empty string
ASCII = 8     # subjects outside of ASCII have no model
EXP = 32     # backtracks exponentially: short subjects only
LONG = 128    # hundreds of characters are no problem
HUGE = 256    # nor are tens of thousands
UNI = 512     # needs ctre-unicode.hpp
ODD = 16      # deviates from PCRE on purpose or by a known limit: only where no model is needed (C05)

# (pattern, alphabet, fragments, flags, mode)
H = []
def p(text, alphabet, frags="", flags=0, mode=0):
    H.append((text, alphabet, frags.split(), flags, mode))

p(r"a", "ab")                                                    # 0
p(r"abc", "abcx", "abc ab abcabc")
p(r"[a-z]+", "abz09 -", "abc 12 z")
p(r"[0-9]+", "a019 ", "123 45 x")
p(r"([a-z]+)=([0-9]+)", "abz=019;", "ab=12 x= =3 k=7; a=b=1")
p(r"(?<key>[a-z]+)=(?<value>[^;]*)", "ab=;1", "ab=12; x=; =3 k=7;")
p(r"^abc", "abcx", "abc ab")
p(r"abc$", "abcx\n", "abc ab")
p(r"^$", "a\n", "a", EMPTY)
p(r"^", "ab", "a", EMPTY)
p(r"$", "ab\n", "a", EMPTY)                                      # 10
p(r"a*", "aab", "aa b", EMPTY)
p(r"a*?b", "aab", "aab b")
p(r"a??", "ab", "a", EMPTY)
p(r"(a*)b", "aabc", "aab b aac")
p(r"(?:ab)*c", "abc", "abab ababc abc aba")
p(r"x*", "xxa,", "xx a", EMPTY)
p(r",", "ab,", "a, ,, ,b")
p(r"\s*,\s*", "ab, \t", "a,b  ,  , ")
p(r"(,)|(;)", "ab,;", "a, b; ,; ;,")
p(r",|;|$", "ab,;", "a, b; ,;", EMPTY)                           # 20
p(r"\b", "ab ,", "ab a,b", EMPTY | BACK | ASCII)
p(r"\w+", "ab_ ,1", "ab_1 ,,", ASCII)
p(r"\b[a-z]+", "ab_ ,1", "ab 1ab ,a", BACK | ASCII)
p(r"\B", "ab ,", "ab ,,", EMPTY | BACK | ASCII)
p(r"a(?=b)", "aab", "ab aab")
p(r"a(?!b)", "aab", "ab aab aa")
p(r"(?<=a)b", "aab", "ab bb", BACK)
p(r"(?<!a)b", "aab", "ab bb", BACK)
p(r"(?<=,)[a-z]*", "ab,", "a, ,, ,ab", BACK | EMPTY)
p(r"(a+)b\1", "aabc", "aba aabaa aaba ab", NOU8)                       # 30
p(r"(['\"])([^'\"]*)\1", "'\"ab", "'a' \"b\" '\" ''", NOU8)
p(r"(?<year>\d{4})-(?<mon>\d{2})", "0129-x", "2024-05 1999-12 12-1 20240-")
p(r"([0-9]{1,3})\.([0-9]{1,3})", "0129.x", "1.2 127.0 1234. .5")
p(r".", "ab\n", "a")
p(r".*", "ab\n", "ab", EMPTY)
p(r".+?,", "ab,", "a, ,, ab")
p(r"[^,]*", "ab,", "a, ,, ab", EMPTY)
p(r"[^,]+", "ab,", "a, ,, ab")
p(r"a{2,3}", "aab", "aa aaa a")
p(r"a{2,3}?", "aab", "aa aaaa")                                  # 40
p(r"a{2,}+b", "aab", "aab ab")
p(r"a++b", "aab", "aab ab aaa")
p(r"(?>a+)b", "aab", "aab ab aaa")
p(r"(a)?(b)?(c)?", "abcx", "abc ac b x", EMPTY)
p(r"(?:(a)|(b))+", "abc", "ab ba aab")
p(r"([a-c])+", "abcx", "abc ca x")
p(r"^[a-z]+$", "ab\n1", "ab \n 1", 0, 1)
p(r"^", "ab\n", "a\n \n\n b", EMPTY, 1)
p(r"$", "ab\n", "a\n \n\n b", EMPTY, 1)
p(r"^a|b$", "ab\n", "a\n b\n ab \n", 0, 1)                       # 50
p(r"^.*$", "ab\n", "ab\n \n a", EMPTY, 1)
p(r"(?i)abc", "aAbBcC", "abc ABC aBc", ASCII)
p(r"(?i)[a-f]+x", "aAfFxXg", "ax FX aFx", ASCII)
p(r"[a-z]+@[a-z]+\.com", "ab@.com", "a@b.com @ a@ .com com")
p(r"\"(?:[^\"\\]|\\.)*\"", "\"\\ab", "\"a\" \"\\\"\" \\\\ \"")
p(r"(?:ab)*+a", "ab", "abab aba ab")
p(r"(?:a|b)*c", "abc", "abc ab c")
p(r"\d+|\s+|[a-z]+", "ab 12!", "ab 12 !")
p(r"([0-9]+)|([a-z]+)|([+*/])|(\s)", "ab12+- !", "ab 12 +- a+1")
p(r"(?=a)", "ab", "a ba", EMPTY)                                 # 60
p(r"(?!a)", "ab", "a ba", EMPTY)
p(r"a*+", "aab", "aa b", EMPTY)
p(r"()", "ab", "a", EMPTY)
p(r"(^)?a", "ab", "a ba", ODD)
p(r"(?:^a)*b", "abx", "ab xb aab")
p(r"^(?:[a-z]+,)*[a-z]+$", "ab,", "a,b ab,a , a,")
p(r"(?:a*)*b", "aab", "aab aaa b", EXP)
p(r"(?:a*?)+b", "aab", "aab aaa b", EXP)
p(r"(?:a?){3}", "aab", "aa aaaa b", EMPTY | EXP)
p(r"(?:|a)+", "aab", "aa b", EMPTY | ODD | EXP)  # 70
p(r"(?:\b|x)*y", "xy ", "xy y xx", BACK | ASCII)
p(r"(?:$|a)*", "aab", "aa b", EMPTY | EXP)
p(r"(?:(?=a)|b)*c", "abc", "abc bbc c")
p(r"(?:a*+)*+b", "aab", "aab aaa", EXP)
p(r"(?:a{0,2}){2,}b", "aab", "aab aaaaab b", EXP)
p(r"[[:digit:]]{2,}", "0a1", "12 1 a", ASCII)
p(r"\x41B?", "ABC", "AB A B")
p(r"a.c", "abc\n", "abc a\nc ac")
p(r"(a)(b)\2\1", "ab", "abba abab abb", NOU8)
p(r"(?:(a)|b)\1", "ab", "aa ba ab", NOU8)                              # 80
p(r"(?<=^|,)[a-z]", "ab,", "a,b ,a", BACK | ODD)
p(r"[^\x00-\x7f]+", "ab", "a", 0)
p(r"[a-z]*?(?=,|$)", "ab,", "a,b ,", EMPTY)
p(r"a|ab|abc", "abc", "abc ab a")
p(r"abc|ab|a", "abc", "abc ab a")
p(r"\h?[^\d\s]", "ab 1\t", "a 1")
p(r"a{260}", "aaab", "aaaa aaaaaaaaaaaaa a b")
p(r"(?:a{250,300})b", "aaab", "aaaa aaaaaaaaaaaaa aab b")
p(r"(?:ab){128,}", "ab", "abab ab abababababab")
p(r"(?:(a)|b){256,}c?", "abc", "ab a bab c")                                # 90
p(r"[a-z]{1,256}?;", "ab;", "ab ; ab;")
p(r"abc|[d-f]+", "aAbBcCdDfFg", "abc ABC dEf aBcD", ASCII, 2)
p(r"(?<w>[a-z]+)\s*=\s*q", "aAzZ= qQ", "ab=q AB = Q a=x", ASCII, 2)
p(r"^[^x]+$", "aAxX\n", "a X\n xA \n", ASCII, 3)
p(r"(a+)B\1", "aAbB", "aba ABA aabAA", ASCII | NOU8, 2)
p(r"x(?=Y)|z", "xXyYzZ", "xy XY z Z", ASCII, 2)
# empty iterations of every shape of loop; here only termination and safety count
for _t in [r"(a?)(?:\1)*+bb", r"(a?)(?:\1)*b", r"(?<x>a?)(?:\g{x})+?b", r"(a*)(?:\1|c)*d", r"(a*)(?:\1){2,}+b", r"(a?)(?:\1){3,9}?b", r"(?:(a*)\1)*b"]:
    p(_t, "aabcd", "aab ab abb aacd", ODD | NOU8 | EXP)
for _t in [r"(?:(?=a)|(?!a))*b", r"(?:a?b?)*+c", r"(?:(a?)|b)*?c", r"(?:a*|b*)*c", r"((a?)*)*b", r"(?:^|$)*a", r"(?:){2,}a", r"(?:a?){2,}+b", r"(?>a*)*b", r"(?:(?>a?))*b", r"(?:a*?){2,}?b", r"(?:a|b|)+c", r"(?:(?:a|)(?:b|))*+c",
           r"(?:(?:a?)+b?)+?c", r"(?:(?!b)a?)*c", r"(?:a??)*b", r"(?:[ab]*?)*+c", r"(?:(a)?(b)?)*c", r"(?:(?:)*)*a", r"(?:(?=(a))?)*b", r"(?:a{0}|b?)+c", r"(?:$|^|a?)+?b"]:
    p(_t, "aabc", "aab ab abc c aac", ODD | EXP)
for _t in [r"(?:\b)*a", r"(?:\B|a)*b", r"(?:(?<=a)|(?<!a))*b", r"(?:(?<=a)b?)*+c", r"(?:\b|\B)*+c"]:
    p(_t, "aabc ", "aab ab a abc c", ODD | EXP | BACK | ASCII)

# as measured by tools/mkpool.py
LONG_HAND = set(range(97)) - {45, 67, 68, 70, 71, 72, 73, 75, 83}
HUGE_HAND = {0, 2, 3, 11, 16, 17, 34, 35, 37, 38, 39, 51, 58}

POOL = os.path.join(HERE, "pool.jsonl")

def all_patterns():
    r = []
    for i, (text, al, fr, fl, mode) in enumerate(H):
        r.append(dict(id=i, text=text, alphabet=al, frags=fr, flags=fl | (LONG if i in LONG_HAND and not fl & ODD else 0) | (HUGE if i in HUGE_HAND else 0), mode=mode, api=i % 3, pool=0, model=None))
    for k, line in enumerate(open(POOL)):
        x = json.loads(line)
        r.append(dict(id=1000 + k, text=x["t"], alphabet=x["a"], frags=x["f"], flags=x["fl"], mode=x["m"], api=k % 3, pool=2 if x["r"] else 1, model=x.get("o")))
    return r

def cstr(s):
    o = '"'
    for ch in s.encode("utf-8").replace(b"\0", b"\xc0\x80"):  # a NUL would end it
        if ch in b'"\\':
            o += "\\" + chr(ch)
        elif ch < 32 or ch > 126:
            o += "\\%03o" % ch
        else:
            o += chr(ch)
    return (o + '"').replace("??", '?""?')

def frag_text(frs):
    return "".join(c for c in "\x1f".join(frs))

STREAMS = ["BIDI_S", "BIDI", "FWD_S", "RA"]
NARROW = ["PTR", "ZT", "SV", "RANGE", "SPAN"]
WIDE = ["U8", "U32", "U16", "W", "WZT"]

def forms_ok(q, forms):
    r = []
    for f in forms:
        if f == "FWD_S" and q["flags"] & BACK:
            continue
        if f == "U8" and q["flags"] & NOU8:
            continue
        if q["flags"] & WIDEONLY and f not in ("U8", "U32", "U16", "W", "WZT"):
            continue
        r.append(f)
    return r

# what is compiled in for each property: evaluations (bit mask), walks (bit mask), extra defines
CONFIG = {
    "C01": dict(evals=7, lazies=7, n=200, pool=200, forms=3),
    "C02": dict(evals=0, lazies=1, n=200, pool=1250, forms=3),
    "C03": dict(evals=0, lazies=2, n=200, pool=850, forms=3),
    "C04": dict(evals=0, lazies=4, n=200, pool=900, forms=3),
    "C05": dict(evals=7, lazies=7, n=200, pool=420, forms=2),
    "C06": dict(evals=2, lazies=7, n=50, pool=250, forms=3),
    "C07": dict(evals=7, lazies=1, n=30, pool=240, forms=9, pforms=3),
    "C08": dict(evals=7, lazies=7, n=40, pool=350, forms=4),
    "C09": dict(evals=7, lazies=0, n=60, pool=250, forms=1, pipe=True),
    "C10": dict(evals=2, lazies=1, n=40, pool=150, forms=4, conv=True),
    "C11": dict(evals=2, lazies=0, n=60, pool=120, forms=2, conv=True),
    "C12": dict(evals=7, lazies=7, n=50, pool=250, forms=2, pipe=True),
}

def pick(rng, q, forms, n):
    """n of those forms the pattern can be used with"""
    ok = forms_ok(q, forms)
    return rng.sample(ok, min(n, len(ok)))

FEATURES = [
    ("literal4", r"[a-z0-9]{4,}(?![*+?{])"), ("literal8", r"[a-z0-9_]{8,}(?![*+?{])"), ("ci", r"\(\?i?m?i|^\x02"), ("multiline", r"\(\?i?m|^\x01"), ("set", r"\[[^^]"), ("negated", r"\[\^"),
    ("class", r"\\[dswhvDSWHVN]"), ("posix", r"\[:"), ("dot", r"(?<!\\)\."), ("lookahead", r"\(\?="), ("not-ahead", r"\(\?!"), ("behind", r"\(\?<[=!]"), ("boundary", r"\\b"), ("no-boundary", r"\\B"),
    ("begin", r"(?<![\[\\])\^|\\A"), ("end", r"(?<!\\)\$|\\[zZ]"), ("star", r"\*"), ("plus", r"[^*+?}]\+"), ("optional", r"[^*+?}(]\?"), ("lazy", r"[*+?}]\?"), ("possessive", r"[*+?}]\+|\(\?>"), ("bounded", r"\{\d"),
    ("many", r"\{\d\d"), ("alternation", r"\|"), ("alternation4", r"\|.*\|.*\|"), ("capture", r"\((?!\?)|\(\?<[a-z]"), ("captures3", r"(?:\((?!\?).*){3}"), ("named", r"\(\?<[a-z]"), ("group", r"\(\?:"), ("group-repeat", r"\)[*+?{]"),
    ("nested-repeat", r"[*+?}]\)+[*+{]"), ("reference", r"\\[1-9]|\\g\{"), ("escape", r"\\[xu0]"), ("wide", r"\\x\{[0-9a-f]{2,}"), ("repeat-repeat", r"[*+?}][^|)]{1,6}[*+?}]"),
]
FEATURES = [(n, re.compile(x)) for n, x in FEATURES]

def features(q):
    t = (chr(q["mode"] & 1) if q["mode"] & 1 else "") + q["text"]
    r = [n for n, x in FEATURES if x.search(t)]
    if q["mode"] & 2:
        r.append("ci")
    if q["flags"] & EMPTY:
        r.append("empty")
    return sorted(set(r)) or ["none"]

def plan(prop, tier):
    cfg = CONFIG[prop]
    rng = random.Random("%s-%s" % (prop, "plan"))
    pats = [q for q in all_patterns() if prop == "C05" or not q["flags"] & ODD]
    if prop in ("C09", "C10", "C11", "C12"):
        pats = [q for q in pats if not q["flags"] & WIDEONLY]
    hand = [q for q in pats if not q["pool"]]
    pool = [q for q in pats if q["pool"] and not q["flags"] & UNI]
    uni = [q for q in pats if q["flags"] & UNI]
    nh, np, nf = min(len(hand), cfg["n"]), cfg["pool"], cfg["forms"]
    if tier == "thorough":
        nh, np, nf = len(hand), cfg["pool"] * 4, cfg["forms"] + 1
    part = float(os.environ.get("VERIF_PART", "1"))  # for trying things out
    nh, np = int(nh * part), int(np * part)
    if nh < len(hand):
        hand = sorted(rng.sample(hand, nh), key=lambda q: q["id"])
    def forms_for(rot, q):
        n = nf if not q["pool"] else cfg.get("pforms", 1)
        if prop == "C09":
            forms = ["SV"]
        elif prop == "C12":
            forms = pick(rng, q, STREAMS, n)
            if q["id"] % 2 == 0:
                forms = forms[:n - 1] + ["SV"]
        elif prop == "C11":
            forms = pick(rng, q, NARROW, n)
        elif prop == "C10":
            forms = [f for g in (NARROW, STREAMS, WIDE) for f in pick(rng, q, g, 1)]
            forms += [f for f in pick(rng, q, WIDE, 3) if f not in forms]
            if n < 3:
                rng.shuffle(forms)
        elif prop == "C07":
            if n > 3:
                forms = forms_ok(q, ["SV", "U32"] + STREAMS) + pick(rng, q, ["PTR", "ZT", "RANGE", "SPAN"], 2) + pick(rng, q, ["U8", "U16", "W", "WZT"], max(1, n - 7))
            else:
                # the one the others are measured by, and others
                wide = rot % 3 == 2 or q["flags"] & WIDEONLY
                forms = ["U32"] if wide else [rng.choice(["SV", "PTR"])]
                forms += pick(rng, q, ["U8", "U16", "W", "WZT"] if wide else STREAMS + ["ZT", "RANGE", "SPAN"], n - 1)
        elif prop == "C08":
            forms = [f for g in (NARROW, ["U8"], STREAMS, ["U32", "U16", "W", "WZT", "ZT", "PTR"]) for f in pick(rng, q, g, 1)]
            if n < 3:
                rng.shuffle(forms)
        else:
            # a rotating mix, a stream and a contiguous form among them
            forms = pick(rng, q, NARROW, 1) + pick(rng, q, STREAMS, 1)
            if n == 1 or rot % 3 == 0:
                rng.shuffle(forms)
            rest = [f for f in forms_ok(q, FORMS) if f not in forms]
            rng.shuffle(rest)
            forms = forms[:1] + rest[:1] + forms[1:] + rest[1:] if rot % 3 == 0 and n > 1 else forms + rest
            if n == 1 and rot % 2:
                rng.shuffle(forms)
        seen = []
        for f in forms:
            if f not in seen and (prop == "C07" and n > 3 or len(seen) < n):
                seen.append(f)
        return seen
    out = [(q, forms_for(rot, q)) for rot, q in enumerate(hand)]
    # of the pool: what has the most pairs of features not yet met on that form
    feat = {q["id"]: features(q) for q in hand + pool}
    covered = set()
    def combos(q, forms):
        return {(f, a, b) for f in forms for i, a in enumerate(feat[q["id"]]) for b in feat[q["id"]][i:]}
    for q, forms in out:
        covered |= combos(q, forms)
    left = list(pool)
    rng.shuffle(left)
    chosen = []
    while left and len(chosen) < np:
        best = None
        for k in rng.sample(range(len(left)), min(24, len(left))):
            forms = forms_for(len(chosen), left[k])
            gain = len(combos(left[k], forms) - covered)
            if best is None or gain > best[0]:
                best = (gain, k, forms)
        gain, k, forms = best
        q = left[k]
        left[k] = left[-1]
        left.pop()
        covered |= combos(q, forms)
        chosen.append((q, forms))
    uni = rng.sample(uni, min(len(uni), np // 20 if tier == "quick" else np // 8))
    chosen += [(q, forms_for(k, q)) for k, q in enumerate(uni)]
    return cfg, out + sorted(chosen, key=lambda x: x[0]["id"])

def emit(prop, tier, outdir, ntu):
    cfg, tabs = plan(prop, tier)
    used = [q for q, _ in tabs]
    with open(os.path.join(outdir, "patterns.cpp"), "w") as f:
        f.write('#include "sim.hpp"\nconst Pattern patterns[] = {\n')
        for q in used:
            f.write("\t{%d, %s, %d, %d, %s, %s, %d, %s},\n" % (q["id"], cstr(q["text"]), q["mode"], q["api"], cstr(q["alphabet"]), cstr(frag_text(q["frags"])), q["flags"], cstr(q["model"]) if q["model"] else "nullptr"))
        f.write("};\nconst int n_patterns = %d;\n" % len(used))
    entries, unicode = [], []
    for q, forms in tabs:
        for fm in forms:
            (unicode if q["flags"] & UNI else entries).append("SIM_ENTRY(%d, %d, %d, F_%s, %s)" % (q["id"], q["api"], q["mode"], fm, cstr(q["text"])))
    # spread neighbours over the units
    files = []
    nuni = (len(unicode) + 19) // 20
    for k in range(ntu + nuni):
        name = os.path.join(outdir, "tab%02d.cpp" % k)
        with open(name, "w") as f:
            f.write("#define SIM_EVAL %d\n#define SIM_LAZY %d\n" % (cfg["evals"], cfg["lazies"]))
            if cfg.get("conv"):
                f.write("#define SIM_CONV\n")
            if cfg.get("pipe"):
                f.write("#define SIM_PIPE\n")
            if k >= ntu:
                f.write('#include <ctre-unicode.hpp>\n')
            f.write('#include "lib.hpp"\n')
            for e in entries[k::ntu] if k < ntu else unicode[k - ntu::nuni]:
                f.write(e + "\n")
        files.append(name)
    return files, len(entries) + len(unicode), len(used)

if __name__ == "__main__":
    os.makedirs(sys.argv[3], exist_ok=True)
    print(emit(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]))[1:])
