"""Candidate patterns for the pool: systematic combinations and random ones.
tools/screen.py keeps those on which the unchanged library agrees with the model."""
import random

BACK, NOU8, EMPTY, ASCII, EXP, WIDEONLY = 1, 2, 4, 8, 32, 64

def systematic():
    r = []
    def p(text, alphabet, frags="", flags=0, mode=0, model=None):
        r.append((text, alphabet, frags.split(), flags, mode, model))
    # atoms and escapes
    mix = "aZ0_ \t\n\r\f\v-.é"
    for e in "dDwWsShHvVN":
        p("\\%s+" % e, mix, "a0 \t\n", 0)
        p("x\\%s*y?" % e, "xy" + mix, "xy x", 0)
        p("[\\%s.]+-" % e, mix, ".- --", 0, 0, r"[^\n]+-" if e == "N" else None)
        if e not in "NDWSHV":  # a negated set holding a negated class does not compile
            p("[^\\%s]{2}" % e, mix, "aa 00", 0)
    p(r"\h+", "a \t\u00a0\u1680\u180e\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u200b\u202f\u205f\u3000", "", 0)
    p(r"\v+", "a\n\x0b\x0c\r\u0085\u2028\u2029\u202a", "", 0)
    p(r"\H\v", "a \n\u00a0\u2028\u2003", "", 0)
    for n in "alnum alpha ascii blank cntrl digit graph lower print punct space upper word xdigit".split():
        al = "aGz09_ \t\n!~@[`{^/:\x7f\x1f\u00e9"
        p("[[:%s:]]+" % n, al, "aG 09 !~", 0)
        p("[^[:%s:]]" % n, al, "aG 09 !~", 0)
        p("[[:^%s:]x]y*" % n, al + "xy", "xy aG", 0)
    p(r"[[:punct:]]", "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~aZ09 ", "", 0)
    p(r"[[:alpha:][:digit:]_\-]+", "aZ09_- .", "aZ 09", 0)
    p(r"\x41\x{42}\x43", "ABC", "ABC AB")
    p(r"[\x41-\x43]+\x44", "ABCDE", "ABCD AD")
    p(r"\u0041\u{42}", "ABC", "AB", 0, 0, r"\x{41}\x{42}")
    p(r"\x{e9}+", "aé\u20ac", "é", WIDEONLY)
    p(r"[\x{e9}-\x{20ac}]+", "aé\u20ac\u00e8\u20ad\u0416", "", WIDEONLY)
    p(r"[^\x{e9}-\x{20ac}]", "aé\u20ac\u00e8\u20ad\u0416", "", WIDEONLY)
    p(r"\x{1f600}|\x{20ac}", "a\u20ac\U0001f600\U0001f601", "", WIDEONLY)
    p(r"\x{7ff}\x{800}?\x{10ffff}*", "\u07ff\u0800\U0010ffff\uffff", "", WIDEONLY)
    p(r"a.b", "ab\u00e9\u20ac\U0001f600\n", "ab", WIDEONLY)
    p(r"(.)(.)", "ab\u00e9\u20ac\U0001f600", "", WIDEONLY)
    p(r"(?<=\x{e9})a", "ab\u00e9\u20ac", "éa", WIDEONLY | BACK)
    p(r"(?<!\x{20ac})b|\x{20ac}", "ab\u00e9\u20ac", "", WIDEONLY | BACK)
    p(r"\b\x{e9}?a\b", "ab\u00e9 ", "", WIDEONLY | BACK)
    p(r"[a-z\x{430}-\x{44f}]+", "azж\u0416\u0430\u044f", "", WIDEONLY)
    p(r"\t|\n|\r|\f|\0", "\t\n\r\fa", "")
    p(r"\a|\x07b", "\x07ab", "")
    p(r"\.\*\+\?\(\)\[\]\{\}\|\^\$\\\/\-", ".*+?()[]{}|^$\\/-", ".*+?()[]{}|^$\\/-")
    p(r"[.*+?(){}|$^/]+", ".*+?(){}|$^/a", "")
    p(r"[\^\-\]\[\\]+", "^-][\\a", "")
    p(r"[a\-z]+", "a-zm", "a-z")
    p(r"[ -~]+", " ~a\x7f\n", "")
    p(r"[a-cx-z0-1_]+q", "abcdwxyz012_q", "aq xq")
    p(r"[^a-cx-z]", "abcdwxyz", "")
    p(r"[^^]+\^", "^ab", "a^")
    p(r"\"[^\"]*\"", "\"ab", "\"a\"")
    p(r"<[^<>]*>", "<>ab", "<a>")
    p(r"a-b:c,d=e!_/", "a-b:c,d=e!_/", "a-b:c,d=e!_/ a-b: c,d=")
    # anchors
    p(r"\Aab", "abc\n", "ab ab", EMPTY)
    p(r"ab\z", "abc\n", "ab ab")
    p(r"\Aab\z", "abc", "ab")
    p(r"a\Z|b", "ab\n", "a\n", 0, 1)
    p(r"\A|b", "ab\n", "a b", EMPTY)
    p(r"b|\z", "ab\n", "a b", EMPTY)
    p(r"\Aa|^b", "ab\n", "a\n b\n", 0, 1)
    p(r"a\z|b$", "ab\n", "a\n b\n", 0, 1)
    p(r"^a+$", "ab\n", "a\n aa\n", 0, 1)
    p(r"^(\w+):(.*)$", "ab:\n", "a:b\n ab: :", 0, 1)
    p(r"^\s*#.*$", "a# \n", "#a\n # a#", 0, 1)
    p(r"$\n^", "ab\n", "a\n\n", 0, 1)
    p(r"^", "a\n", "\n\n a\n", EMPTY, 1)
    p(r"(^|,)([^,\n]*)", "ab,\n", "a,b\n ,,", EMPTY, 1)
    p(r"^(?:a|b)", "abc", "ab ba")
    p(r"(?:^|b)a", "abc", "aba ba")
    p(r"(?:^|a)+b", "abc", "aab ab")
    p(r"^a|^b|c", "abc", "ab c")
    p(r"^?a", "ab", "a", 0, 0, "(?:^)?a")
    p(r"(?:^)?a", "ab", "aa")
    p(r"(^a)|(b$)", "ab", "ab")
    p(r"a$|b", "ab", "ab a")
    p(r"(?:a$)|b", "ab", "ab a")
    p(r"(?:a|$)b?", "ab", "ab", EMPTY)
    p(r"\ba", "ab ", "a ba", BACK)
    p(r"a\b", "ab ", "ab a ", BACK)
    p(r"\Ba", "ab ", "aa", BACK)
    p(r"a\B", "ab ", "aa a ", BACK)
    p(r"\b\w{2}\b", "ab ", "ab abc", BACK)
    p(r"\b|\d", "a1 ", "a 1", BACK | EMPTY)
    for t in [r"a{0,2}\b", r".*\b", r"a?\B", r"\w+\b", r"\w*\B\w", r"[^a]*\b", r"(a*)\b(.*)", r"(?:ab?)*\b", r"[a ]*\b[a ]*", r"(\w+)\B(\w+)"]:
        p(t, "ab -_", "ab a -a", BACK | EMPTY)
    for t in [r"b?^", r"\n*^a", r"[^b]*^", r"(\s*)^(a*)", r"(?:a\n)*^"]:
        p(t, "ab\n", "a\n b\n", EMPTY, 1)
    # lookaround
    p(r"(?=ab)a", "abc", "ab aab")
    p(r"(?=(a+))b?a", "abc", "aa aab")
    p(r"(?!ab)[a-c]+", "abc", "ab ba")
    p(r"a(?!b|c)", "abcd", "ab ad a")
    p(r"(?<=ab)c", "abc", "abc bc", BACK | 128)
    p(r"(?<!b)a+", "abc", "baa caa", BACK)
    p(r"(?<=[a-c])\d", "abc1d", "a1 d1", BACK)
    p(r"(?<=\s)\w+(?=\s)", "ab \n", "ab  a", BACK)
    p(r"(?<!\d)\d{2}(?!\d)", "12a", "12 123", BACK)
    p(r"(?=.*b)a+", "abc", "aab aac")
    p(r"(?=[^b]*c)[ab]+", "abc", "aac aab")
    p(r"x(?=a|$)", "xab", "xa xb x")
    p(r"(?:(?!b).)*", "abc", "aab", EMPTY)
    p(r"(?:(?!--).)+", "a-", "a-- a-a")
    # repeats
    for q in ["{2}", "{0,2}", "{1,3}", "{2,}", "{3,}?", "{0,2}?", "{1,3}+", "{0,}", "{0,1}", "{1}", "{1,1}", "{10}", "{0,12}", "{11,13}"]:
        p("a%sb" % q, "aab", "aaa aaaaaaaaaaab aab", 0)
        p("(?:ab)%s" % q, "abc", "abab abababab", EMPTY if q.startswith("{0") else 0)
        p("[ab]%sa" % q, "abc", "abab aaaaaaaaaaaa", 0)
    p(r"(a{2}){2}", "ab", "aaaa aaa")
    p(r"(a{1,2}){2,3}b?", "ab", "aaaa aab")
    p(r"(?:a{2}|b){3}", "ab", "aab baa")
    p(r"a?b?c?d", "abcd", "abcd acd bd")
    p(r"a??b??c", "abc", "abc ac")
    p(r"a?+b", "ab", "ab")
    p(r"a*?", "ab", "aa", EMPTY)
    p(r"a+?", "ab", "aa")
    p(r"a+?b+?", "ab", "aabb")
    p(r"(a+?)(b*?)c", "abc", "aabbc ac")
    p(r"(a*?)(b+)c?", "abc", "aabbc bc")
    p(r".*b", "abc\n", "aab ab")
    p(r".*?b", "abc\n", "aab ab")
    p(r".*+", "abc\n", "aab", EMPTY)
    p(r".+c", "abc", "abc ac")
    p(r"(.*)(b)(.*)", "abc", "abc b")
    p(r"(.*?)(b)(.*?)c", "abc", "abc b")
    p(r"([^b]*)b", "abc", "aab")
    p(r"([a-z]+)([0-9]*)", "az09 ", "az09 z")
    p(r"([a-z]+?)([0-9]+)", "az09 ", "az09 z0")
    p(r"\s+|\w+", "ab 1", "ab 1")
    p(r"(?:\w+\s)*\w+", "ab 1", "ab 1")
    p(r"(?:,|;)+", "a,;", ",; ,")
    # captures
    p(r"(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)", "abcdefghij", "abcdefghij abcde fghij")
    p(r"((a)(b))", "abc", "ab")
    p(r"((a)|(b))+", "abc", "ab ba")
    p(r"(((a)))", "ab", "a")
    p(r"(a(b(c)?)?)?d", "abcd", "abcd abd ad d")
    p(r"(?<x>a)(?<y>b)?", "abc", "ab a")
    p(r"(?<x>a)|(?<y>b)", "abc", "ab a")
    p(r"(?<a1>\d+)-(?<b_2>\d+)", "12-", "12-1 1-2")
    p(r"(?<x>a+)\g{x}", "ab", "aa aaaa", NOU8)
    p(r"(?<q>['\"])[^'\"]*\g{q}", "'\"a", "'a' \"\"", NOU8)
    p(r"(a)(b)\g{2}\g{1}", "ab", "abba", NOU8)
    p(r"(a|b)\g{-1}", "ab", "aa bb ab", NOU8)
    p(r"(a|b)(c|d)\g{-2}", "abcd", "aca bdb", NOU8)
    p(r"(\w)\1", "abc1", "aa 11", NOU8)
    p(r"(\w+) \1", "ab ", "ab ab a", NOU8)
    p(r"(a*)b\1", "abc", "aba b", NOU8)
    p(r"(a|ab)(c|bcd)(d*)", "abcd", "abcd")
    p(r"(a+)(a+)", "ab", "aaa aa")
    p(r"(a*)(a*)", "ab", "aaa aa", EMPTY)
    p(r"(a*)(a+)(a?)", "ab", "aaa aa")
    p(r"(a)|b|(c)", "abcd", "abc")
    p(r"(|a)b", "abc", "ab b")
    p(r"(a|)b", "abc", "ab b")
    p(r"(?:a|b|)c", "abc", "ac c")
    p(r"|a", "abc", "ab", EMPTY)
    p(r"a|", "abc", "ab", EMPTY)
    p(r"(?:)a", "ab", "a")
    p(r"(?>a|ab)c", "abc", "abc ac")
    p(r"(?>a*)a", "ab", "aa")
    p(r"(?>(?:a|b)+)c", "abc", "abc ab")
    p(r"x(?>ab?)b", "abx", "xab xabb")
    # modes
    p(r"(?i)AbC", "aAbBcC", "abc ABC aBc", ASCII)
    p(r"(?i)[A-F]+", "aAfFgG", "aF", ASCII)
    p(r"(?i)[^a-c]", "aAcCdD", "aF", ASCII)
    p(r"(?i)a\.b[xyz]1", "aA.bBxXyY1", "a.bx1 A.BY1", ASCII)
    p(r"a(?i)b", "aAbB", "ab aB AB", ASCII)
    p(r"a(?i)b(?c)c", "aAbBcC", "abc aBc aBC", ASCII, 0, r"a(?i)b(?-i)c")
    p(r"(?i)(k)(l)", "kKlL", "kl KL", ASCII)
    p(r"(?i)hello|world", "hHelLoOwWrRdD", "hello HELLO World", ASCII)
    p(r"(?m)^a$", "ab\n", "a\n")
    p(r"(?m)a.b", "ab\n", "a\nb aab", 0, 0, r"(?m)a[^\n]b")
    p(r"(?s)a.b", "ab\n", "a\nb aab", 0, 1)
    p(r"(?im)^A", "aAb\n", "a\n A", ASCII)
    p(r"(?mi)a$\n?", "aAb\n", "a\n A", ASCII)
    for t in ["a*A", "a+A", "[a-c]*[A-Z]", "[A-C]*b", "[^a]*A", "[^b]*[^A]", r"\w*A", "a*(?:b|A)", "a?A", "a{1,3}A", "(a*)(A*)", "(?:ab|b)*B", "a*?A", "a*+B"]:
        p("(?i)" + t, "aAbBcC", "aA aB AAb", ASCII)
    # unicode in subject with multi-byte structure
    p(r"[^,]+,", "a,é\u20ac\U0001f600", "a, é,", 0)
    p(r",", "a,é\u20ac\U0001f600", "a, é,", 0)
    p(r"\s*", "a é\u20ac", " a", EMPTY)
    p(r".*?,", "a,é\u20ac\U0001f600", "a, é,", 0)
    p(r".{2}", "aé\u20ac\U0001f600", "", 0)
    p(r".{1,3}?a", "aé\u20ac\U0001f600", "", 0)
    p(r"(a|.)b", "abé\u20ac", "", 0)
    p(r"\B", "aé ", "", BACK | EMPTY)
    p(r"\b", "aé ", "", BACK | EMPTY)
    p(r"$", "aé\n", "", EMPTY, 1)
    p(r"^", "aé\n", "", EMPTY, 1)
    p(r"(?<=a).", "aé\u20ac", "", BACK)
    p(r"(?<=.)a", "aé\u20ac", "", BACK)
    p(r"(?<![^a])b", "abé", "", BACK)
    # realistic
    p(r"([0-9]{1,3})\.([0-9]{1,3})\.([0-9]{1,3})\.([0-9]{1,3})", "0129.", "1.2.3.4 127.0.0.1 1.2.", 0)
    p(r"(?<y>[0-9]{4})/(?<m>[0-9]{1,2})/(?<d>[0-9]{1,2})", "0129/", "2024/1/2 1999/12/31", 0)
    p(r"([a-zA-Z_][a-zA-Z0-9_]*)|([0-9]+)|(\s+)|([\-+*/=;(){}])", "aZ_09 +;(", "a1 12 ; +", 0)
    p(r"//.*$|[^/]+", "a/\n", "//a\n a/", 0, 1)
    p(r"/\*(?:[^*]|\*+[^*/])*\*+/", "/*a", "/*a*/ /**/ */", 0)
    p(r"#([0-9a-fA-F]{2})([0-9a-fA-F]{2})", "#09afG", "#09af #0", 0)
    p(r"[+\-]?[0-9]+(\.[0-9]+)?([eE][+\-]?[0-9]+)?", "+-019.eE", "1.9e+1 -1 1e9", 0)
    p(r"\$\{([a-z]+)\}", "${}ab", "${a} ${ab} $", 0)
    p(r"(?:[a-z]+\.)+[a-z]{2,3}", "ab.", "a.b.ab ab.ab", 0)
    p(r"\"([^\"\\]*(?:\\.[^\"\\]*)*)\"", "\"\\ab", "\"a\" \"\\\"\"", 0)
    p(r"([^,\"]*)(?:,|$)", "a,\"", "a, ,,", EMPTY)
    p(r"<([a-z]+)>[^<]*</\1>", "<>/ab", "<a></a> <b>a</b>", NOU8)
    p(r"([A-Z][a-z]*)+", "ABab ", "Ab ABab", 0)
    p(r"a+b+|b+a+", "ab", "aabb bba", 0)
    # combinations of what repeats with what follows
    kinds = ["a", "[a-c]", "[abx]", "[^a]", "[^a-c]", r"\d", r"\D", r"\w", r"\W", ".", "[^x0]", "(?:ab|x)", "b?x"]
    for i, x in enumerate(kinds):
        for j, y in enumerate(kinds):
            xx = "(?:%s)" % x if len(x) == 3 and x.endswith("?x") else x
            q = ["*", "+", "{1,3}", "*"][(i * 5 + j) % 4]
            fl = 0
            p("%s%s%s" % (xx, q, y), "abcx01 _", "ab abx x0 a1", fl)
            if (i + j) % 3 == 0:
                p("(%s%s)(%s)" % (xx, ["*", "*?", "?"][(i + j) % 9 // 3], y), "abcx01 _", "ab abx x0 a1", fl)
    for x in kinds:
        p("%s*$" % ("(?:%s)" % x), "abcx01 _", "ab abx x0", EMPTY)
        p("(?:%s)*(?:%s|0)" % (x, "cb"), "abcx01 _", "acb ab0", 0)
        p("(?:%s)*(b)?" % x, "abcx01 _", "ab abx", EMPTY)
        p("(?:%s)+(?=b)" % x, "abcx01 _", "ab abx", 0)
        p("(?:%s)?x" % x, "abcx01 _", "ax bx x", 0)
        p("(?:%s)*?(?:x|1)" % x, "abcx01 _", "ax bx x", 0)
    qs = ["", "*", "+", "?", "{2}", "{1,2}", "{0,2}", "{2,}"]
    ms = ["", "?", "+"]
    k = 0
    for q1 in qs[1:]:
        for q2 in qs:
            for m in ms:
                k += 1
                if m and "{2}" in (q1, q2) or m and not q2:
                    continue
                if k % 2:
                    p("a%sa%sb?" % (q1 + m, q2 + m), "aaab", "aaa aab", EMPTY)
                else:
                    p("(a%sa%s)" % (q1 + m, q2 + m), "aaab", "aaa aab", EMPTY)
                if k % 7 == 0:
                    p("(?>ab)%s(?>ab)%sa" % (q1 + m, q2 + m), "ab", "abab aba", 0)
    p(r"[\s\S]+", "a \n", "a", 0)
    p(r"[^\s\d]+", "a1 \n", "a", 0)
    p(r"[\w\-.]+@[\w\-]+\.[a-z]{2,}", "a.-@1", "a@a.aa a.a@1.aa @", 0)
    rng = random.Random(11)
    def cls(neg):
        pieces = []
        for _ in range(rng.randint(1, 4)):
            z = rng.random()
            if z < .35:
                pieces.append(rng.choice("abcxyz019_ "))
            elif z < .7:
                pieces.append(rng.choice(["a-c", "b-d", "x-z", "0-4", "5-9", "A-C", "m-m", " -9"]))
            else:
                pieces.append(rng.choice([r"\d", r"\s", r"\w", "[:alpha:]", "[:digit:]", r"\x41"] + ([] if neg else [r"\D", r"\W"])))
        return ("[^" if neg else "[") + "".join(pieces) + "]"
    seen = set()
    while len(seen) < 150:
        x, y = cls(rng.random() < .4), cls(rng.random() < .4)
        if x[1:3] == "[:" and x.count("[:") > 1 or y.count("[:") > 1:
            pass
        t = rng.choice(["%s%s%s", "%s%s(%s)", "(%s%s)%s", "%s%s%s?", "(?:%s%s|%s)+"]) % (x, rng.choice(["*", "+", "?", "{2}", "*?", "+?", "{1,3}"]), y)
        if t in seen or any(len(c) > 2 and c in t for c in ("][:",)):
            continue
        seen.add(t)
        p(t, "abcdxyz059A_ ", "ab x0 cd", 0)
    return r

def rnd(n, seed=7):
    """Random patterns.  The library never backtracks into a finished iteration of a
    repeated group, so the model gets repeated groups as atomic ones."""
    rng = random.Random(seed)
    out = []
    # style: atoms, alphabet, fragments, prefix, mode
    abc = ("aaabbc", ["[ab]", "[^a]", "[^b]", ".", "[a-c]", "[bc]"], "aabc", ["ab", "aab", "abc", "ca", "bb"], "", 0, 0)
    ci = ("aAbBcC", ["[aB]", "[^a]", "[^B]", ".", "[a-c]", "[B-C]"], "aAbBcC", ["aB", "AAb", "Abc", "cA", "bB"], "(?i)", 0, ASCII)
    lines = ("aab\n", ["[ab]", "[^a]", "^", "$", ".", r"\n", r"\s", "^", "$"], "aab\n", ["a\n", "ab", "\nb", "\n\n"], "", 1, 0)
    words = ("ab1", [r"\w", r"\d", r"\W", r"\s", r"\b", r"\B", r"\D", r"\S", " ", "_"], "ab1 _-", ["a1", "ab ", " b", "-a"], "", 0, BACK)
    behind = ("aab", ["(?<=a)", "(?<!b)", "(?<=[ab])", "(?<!a)", ".", "[^a]"], "aabc", ["ab", "aab", "ba"], "", 0, BACK)
    refs = ("aab", ["[ab]", "[^a]", "."], "aabc", ["ab", "aab", "ba", "abab"], "", 0, NOU8)
    styles = [abc] * 5 + [ci] * 2 + [lines] * 2 + [words] * 2 + [behind] + [refs]
    ZERO = ("^", "$", r"\b", r"\B")
    def build():
        sty = rng.choice(styles)
        chars, sets, alpha, frags, prefix, mode, fl = sty
        ncap = [0]
        def atom(d):
            k = rng.random()
            if k < 0.42:
                c = rng.choice(chars).replace("\n", r"\n")
                return c, c
            if k < 0.55:
                c = rng.choice(sets)
                return c, c
            if k < 0.62 and d > 0:
                t, m = alt(d - 1)
                h = "(?=" if rng.random() < .5 else "(?!"
                return h + t + ")", h + m + ")"
            if d > 0:
                h = "(" if rng.random() < .6 else "(?:"
                if h == "(":
                    ncap[0] += 1
                t, m = alt(d - 1)
                return h + t + ")", h + m + ")"
            c = rng.choice(chars).replace("\n", r"\n")
            return c, c
        def rep(d):
            if sty is refs and ncap[0] and rng.random() < .2:
                c = "\\%d" % rng.randint(1, ncap[0])
                return c, c
            t, m = atom(d)
            k = rng.random()
            if t.startswith(("(?=", "(?!", "(?<")) or t in ZERO or k < 0.5:
                return t, m
            q = rng.choice(["*", "+", "?", "{1,2}", "{2}", "{0,2}", "{2,}"])
            if q != "{2}" and rng.random() < .3:
                q += rng.choice("?+")
            if t[0] == "(":
                m = "(?>" + m + ")"
            return t + q, m + q
        def seq(d):
            l = [rep(d) for _ in range(rng.randint(1, 3))]
            return "".join(t for t, _ in l), "".join(m for _, m in l)
        def alt(d):
            l = [seq(d) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
            return "|".join(t for t, _ in l), "|".join(m for _, m in l)
        t, m = alt(2)
        if prefix:
            t, m = prefix + "(?:" + t + ")", prefix + "(?:" + m + ")"
        k = rng.random()
        if mode == 0:
            if k < .08 and not prefix:
                t, m = "^" + t, "^" + m
            elif k < .14:
                t, m = t + "$", m + "$"
        return t, alpha, frags, fl | EXP, mode, None if m == t else m
    seen = set()
    while len(out) < n:
        c = build()
        if 3 <= len(c[0]) <= 34 and c[0] not in seen:
            seen.add(c[0])
            out.append(c)
    return out

def more():
    """Long literals, wide alternations, a repeat and its follower behind something which
    can be empty, many captures, deep nesting."""
    r = []
    rng = random.Random(23)
    seen = set()
    def p(text, alphabet, frags="", flags=0, mode=0, model=None):
        if (text, mode) not in seen:
            seen.add((text, mode))
            r.append((text, alphabet, frags.split() if isinstance(frags, str) else frags, flags, mode, model))
    # literals: cut, doubled, of the other case, with a wrong character
    words = ["abcd", "hello", "abcabd", "aabaaab", "keyword", "abababac", "continue", "abcdefgh", "namespace", "static_cast", "abcdefghijkl", "the quick brown fox", "aaaaaaaaaaaaaaab",
             "0123456789abcdef", "0123456789abcdefghijklmnopqrstuv", "Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod"]
    for w in words:
        fr = [w, w[:-1], w[:len(w) // 2], w[1:], w + w[:3], w[:2] + w, w.upper(), w.swapcase(), w[:-1] + "~"]
        fr = [f for f in dict.fromkeys(fr) if f]
        al = "".join(sorted(set(w[:4] + w[-1:]))) + " ~"
        alc = "".join(sorted(set(al + al.upper())))
        p(w, al, fr)
        p("(?i)" + w, alc, fr, ASCII)
        p("(%s)|%s" % (w, w[:2]), al, fr)
        p("%s$" % w, al, fr)
        p("^%s" % w, al + "\n", fr, 0, 1)
        p("(?:%s)+" % w, al, fr)
        p("(?:%s)*%s" % (w, w[0]), al, fr)
        p(".*?%s" % w, al, fr)
        p("[^~]*%s" % w, al, fr)
        p(r"\b%s\b" % w, al, fr, BACK | ASCII)
        p("(?<=%s)." % w[:5], al, fr, BACK)
        p("(?i)(%s|%s)x?" % (w[:3], w), alc, fr, ASCII)
        p("%s(?!%s)" % (w, w[0]), al, fr)
        p("(?=%s)(.)" % w, al, fr)
        p("%s%s*" % (w, w[0]), al, fr)
    # alternations
    p(r"a(?:b|c|d|$)", "abcdx", "ab ac a", 0)
    p(r"(?:a|b|c|d|e|f|g|h)+", "abcdefghx", "abc hg")
    p(r"if|else|while|for|do|switch|case|return", "ifelsdorwhcastun ", "if else while for do switch case return re ret ifx")
    p(r"(if)|(else)|(while)|(for)|(do)|(switch)|(case)|(return)", "ifelsdorwhcastun ", "if else while for do switch case return re ret ifx")
    p(r"(?i)true|false|null|nil|none", "tTrRuUeEfFnNlLoOaAsS", "true TRUE False nIl None nul", ASCII)
    p(r"a|ab|abc|abcd|abcde", "abcdex", "abcde abcd a")
    p(r"abcde|abcd|abc|ab|a", "abcdex", "abcde abcd a")
    p(r"(?:a|ab|abc|abcd)d", "abcdx", "abcd abd ad abcdd")
    p(r"(?:abcd|abc|ab|a)d", "abcdx", "abcd abd ad abcdd")
    p(r"(a)|(ab)|(abc)|(b)|(c)", "abcx", "abc ab ca")
    p(r"(?:0|[1-9][0-9]*)|0x[0-9a-f]+|\.[0-9]+", "019axf.", "0x1f 10 .9 0")
    p(r"0x[0-9a-f]+|0[0-7]*|[1-9][0-9]*", "0178xaf", "0x1f 017 10 0")
    p(r"==|=|<=|<|>=|>|!=|&&|\|\|", "=<>!&|a", "== <= >= != && || = <")
    p(r"\+\+|\+=|\+|--|-=|-|\*=|\*|/=|/", "+-*/=a", "++ += -- -= *= /=")
    tails = ["$", r"\b", "(?=c)", "(?!c)", "", "d*", r"\z"]
    for a in ["b|c|d|%s", "b|%s", "b|c|%s", "%s|b", "b|%s|c|d", "bc|b|cd|%s", "(b)|(c)|(d)|(%s)"]:
        for t in tails:
            fl = BACK | ASCII if t == r"\b" else 0
            p("a(?:%s)" % (a % t), "aabcd ", "ab ac ad a abc acd", fl)
            p("(?:%s)a" % (a % t), "aabcd ", "ba ca da a bca cda", fl)
    # a repeat, something which may be empty, what collides with the repeat
    reps = ["a*", "a+", "a{1,3}", "[ab]*", "[a-c]+", "[^c]*", "(?:a|b)*", "(a)*", r"\w*", "a*?", "a{2,}"]
    opts = ["b??", "b?", "b*", "b*?", "(b)?", "(?:b|)", "b{0,2}", "(?:bc)?", "(?:bc)*", "(?=a)", "(?!b)", "()", r"\b", "b?+", "(?:bc){0,1}?", "(?:b?c?)", "(?>b?)", "(b?)", "(?:b??)(?:d*?)", "(?<!d)", "b?d?", "(?:d|b?)", "^?", "$?"]
    ends = ["a", "ac", "[ac]", "[^b]", "(a)", "(?:a|c)", "a+", ".", r"\w", "(?=a).", "b", "[a-d]"]
    k = 0
    for i, x in enumerate(reps):
        for j, y in enumerate(opts):
            for n, z in enumerate(ends):
                if (i + 2 * j + 3 * n) % 5:
                    continue
                fl = EXP
                if y in (r"\b", "(?<!d)"):
                    fl |= BACK | ASCII
                y2 = {"^?": "(?:^)?", "$?": "(?:$)?"}.get(y, y)
                m = None
                t = x + y2 + z
                p(t, "aaabcd", "ab aac abca aabc ba", fl, 0, m)
    # ranges and sets which touch, hold, or miss each other, behind a repeat
    sets = ["[b-d]", "[a-b]", "[d-f]", "[c-c]", "[a-f]", "[^b-d]", "[^a]", "[acf]", "[a-cf]", "[e-gb]", r"[\da-b]", r"[^\d]", r"\w", r"[\wx]", "[[:alpha:]]", "[^a-f]", "c", "[^c]", "[b-ce-f]", r"[^\w]", "."]
    for i, x in enumerate(sets):
        for j, y in enumerate(sets):
            q = ["*", "+", "{1,2}", "*?", "?"][(i * 3 + j) % 5]
            t = [x + q + y + "x?", "(?:" + x + ")" + q + y, "(" + x + ")" + q + "(?:" + y + "|x)", x + q + "(" + y + ")" + y][(i + j) % 4]
            p(t, "abcdefgx1 ", "bcd abf xg c1 fx", 0)
    # captures
    for n in (9, 12, 17):
        t = "".join("(%s)?" % "abcdefghijklmnopqrs"[i] for i in range(n))
        p(t + "z", "abcdefghijklmnopqrsz", "abc defg z abcdefghijkl mnopqz", 0)
        t = "|".join("(%s)" % "abcdefghijklmnopqrs"[i] for i in range(n))
        p(t, "abcdefghijklmnopqrsz", "abc qpo", 0)
    p("(" * 9 + "a" + ")" * 9 + "b", "abc", "ab aab")
    p("(a(b(c(d(e(f)?)?)?)?)?)?g", "abcdefg", "abcdefg abcg ag g")
    p("((((a)b)c)d)*e", "abcde", "abcd abcdabcde e")
    p("(?:(?:(?:(?:a|b)c)?d)*e)+", "abcde", "acde bcdde e")
    p("(?=(a)(b)?)(?=(a)(b|c))a", "abc", "ab ac")
    p(r"(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)\10", "abcdefghij", "abcdefghijj abcdefghij", NOU8)
    p(r"(?<first>a+)(?<second>b+)(?<third>c+)\g{second}", "abcd", "abcb aabbccbb", NOU8)
    p(r"(a)|(b)|(c)\3", "abc", "cc ab", NOU8)
    p(r"(?:(a+)|(b+))\1?", "ab", "aa bb aab", NOU8)
    p(r"(.)(.)\2\1", "abc", "abba cc", NOU8)
    p(r"(?i)(a+)b\1", "aAbB", "aba ABA aabAA", ASCII | NOU8)
    for x in ["a", "a+", "ab?", "a|b", "[ab]", "(?:ab)", ".", "b*"]:
        p(r"(%s)(?:\1)*c" % x, "abc", "aab ab aa abab cc c", NOU8 | EXP)
        p(r"(%s)(?:\1|c)+d?" % x, "abcd", "aab ab aa abab cc c", NOU8 | EXP)
        p(r"(%s)(?:\1b?){2,}" % x, "abc", "aab ab aa abab cc c", NOU8 | EXP)
        p(r"(?<x>%s)(?:\g{x})*?c" % x, "abc", "aab ab aa abab cc c", NOU8 | EXP)
        p(r"(?<x>%s)(?:\g{x}b?)*+c" % x, "abc", "aab ab aa abab cc c", NOU8 | EXP)
        p(r"(?i)(%s)\1{1,3}b" % x, "aAbBc", "aAb ab aA abAB cC c", NOU8 | EXP | ASCII)
    # numbers of iterations
    for q in ["{7}", "{8}", "{16}", "{31,33}", "{64}", "{100,}", "{127,129}", "{255}", "{256}", "{257,}", "{0,256}", "{255,256}?"]:
        p("a%s" % q, "aaaab", ["a" * 7, "a" * 31, "a" * 65, "a" * 128, "a" * 255, "b"], EMPTY if q[1] == "0" else 0)
        p("(?:ab|c)%s" % q, "abc", ["ab" * 8, "ab" * 31, "c" * 64, "abc" * 43, "abcc" * 64], EMPTY if q[1] == "0" else 0)
        p("([ab])%sa" % q, "aaab", ["a" * 8, "ab" * 16, "ab" * 64, "a" * 255], 0)
    # sets
    p("[" + "aceikmoqsuwy02468" + "]+", "abcdefgh0123456789zy", "ace bdf 024 135")
    p("[^" + "aceikmoqsuwy02468" + "]+", "abcdefgh0123456789zy", "ace bdf 024 135")
    p("[a-cg-im-os-u0-24-68]+", "abcdefghijklmnopqrstuvw0123456789", "abc def 024 789")
    p("[^a-cg-im-os-u0-24-68]+", "abcdefghijklmnopqrstuvw0123456789", "abc def 024 789")
    p(r"[\w.%+\-]+@[\w\-]+(?:\.[\w\-]+)+", "a.%+-@1", "a@b.c a.b@c.d.e @ .")
    p(r"[\x{100}-\x{17f}\x{4e00}-\x{9fff}]+", "a\u0100\u017f\u0180\u4e00\u9fff\ua000", "", WIDEONLY)
    p(r"[^\x{100}-\x{17f}]+", "a\u00ff\u0100\u017f\u0180", "", WIDEONLY)
    p(r"\x{100}*\x{101}", "\u0100\u0101a", "", WIDEONLY)
    p(r"[\x{10000}-\x{10ffff}]", "a\uffff\U00010000\U0010ffff", "", WIDEONLY)
    p(r"(\x{1f600}|\x{20ac})+.", "a\u20ac\U0001f600\U0001f601", "", WIDEONLY)
    p(r".\x{e9}$", "a\u00e9\n\u20ac", "", WIDEONLY, 1)
    p(r"\x{20ac}{2,3}?", "a\u20ac\u20ad", "", WIDEONLY)
    p(r"(?i)\x{20ac}a", "aA\u20ac\u20ad", "", WIDEONLY | ASCII)
    # NUL in the subject
    p(r"a\0b", "ab\0", "")
    p(r"[^a]+", "ab\0", "b")
    p(r".b", "ab\0", "b")
    p(r"\x00+", "a\0", "")
    p(r"[\x00-\x1f]+", "a\0\x1f ", "")
    p(r"\W+", "a\0_ ", "a")
    p(r"a*$", "a\0\n", "a", EMPTY)
    p(r"\D*\0", "a1\0", "a")
    # lines
    for t in [r"^[^\n]*\n", r"^.*?;$", r"^\s+|\s+$", r"^(\d+)\s+(\w+)$", r"[^\n]+$", r"^$\n?", r"(?:^a.*\n)+", r"^\n*", r"\n+$", r"a*$\n*^b", r"(?:$\n|a)+", r"^(?:a|b)*$", r"^a*?$", r"(^a|b$)+", r"\Aa.*$", r"^.*\z", r"^a\b|^\b", r"(?<=\n)a", r"(?<!\n)a$", r"$(?=\n)", r"$(?!\n)", r"(?:a$\n?){2}", r"[^a]*$", r"\s*$", r"\W*^", r"(a*)$", r"(?:a|\n)*$", r"(?:a|\n)*?$", r"(?:a|\n)*+$", r".+$\n.+$"]:
        fl = BACK | ASCII if r"\b" in t or "(?<" in t else 0
        p(t, "ab1 ;\n", "a\n b\n \n\n a;\n ab a\nb", fl | EMPTY, 1)
        p(t, "ab1 ;\n", "a\n b\n \n\n a;\n ab a\nb", fl | EMPTY, 0)
    return r

UNI = 512

def unicode():
    """Properties, general categories, scripts: with ctre-unicode.hpp."""
    r = []
    def p(text, alphabet, frags="", flags=0, mode=0, model=None):
        r.append((text, alphabet, frags.split(), flags | UNI | ASCII, mode, model))
    al = "aZ0_ .\u00e9\u00c9\u03b1\u03a9\u0416\u05e9\u0661\u4e2d\u3042\u20ac\u2003\u0301\U0001f60d\U00010330\U0001d400\U00020000"
    fr = "aZ \u00e9\u00c9 \u03b1\u03a9 0\u0661 a0 \u4e2d\u3042"
    asc = "aZ0_ .-$\t"
    for name, model in [("L", 0), ("Lu", 0), ("Ll", 0), ("N", 0), ("Nd", 0), ("P", 0), ("S", 0), ("Sc", 0), ("Z", 0), ("Zs", 0), ("M", 0), ("Mn", 0), ("Lo", 0), ("Letter", "L"), ("Decimal_Number", "Nd"), ("Uppercase_Letter", "Lu"),
                        ("Alphabetic", 0), ("White_Space", 0), ("Uppercase", 0), ("Lowercase", 0), ("Emoji", 0), ("Any", 0), ("ASCII", 0), ("Ideographic", 0), ("Latin", "sc:latin"), ("greek", "sc:greek"), ("script=Cyrillic", "sc:cyrillic"),
                        ("sc=Hebrew", "sc:hebrew"), ("scx=Hira", "scx:hira"), ("Script=Han", "sc:han"), ("sc=Gothic", "sc:gothic")]:
        m = model or name
        for t in [r"\p{%s}", r"\p{%s}+", r"(\p{%s}*)\P{%s}", r"[\p{%s}_.]+", r"[^\p{%s}]", r"\p{%s}*?a", r"(?:\p{%s}\P{%s}?)+", r"\P{%s}+\p{%s}", r"\p{%s}{2,3}", r"(?<=\p{%s})[a-z0]", r"(?=\p{%s})..", r"a(?!\p{%s})", r"^\p{%s}|\p{%s}$",
                  r"\p{%s}*a", r"\p{%s}*[a0]", r"[^\p{%s}]*Z", r"[^\p{%s}]+[a.]", r"a*\p{%s}", r"a*[^\p{%s}]", r"(?:\p{%s}|a)*a", r"\p{%s}+?\p{%s}", r"[\p{%s}0]*0?_", r"\P{%s}*[ a]", r"(\p{%s})|(.)"]:
            n = t.count("%s")
            fl = (BACK if "(?<" in t else 0)
            p(t % ((name,) * n), al, fr, fl | WIDEONLY, 0, t % ((m,) * n) if model else None)
            if name in ("L", "Lu", "Nd", "P", "Alphabetic", "Latin", "White_Space"):
                p(t % ((name,) * n), asc, "aZ a0 0a Z.", fl, 0, t % ((m,) * n) if model else None)
    p(r"\p{block=Cyrillic}+", al, fr, WIDEONLY, 0, r"[\x{400}-\x{4ff}]+")
    p(r"[\p{L}\p{N}_]+", al, fr, WIDEONLY)
    p(r"(\p{Lu}\p{Ll}*)(\p{Nd}+)?", al, fr, WIDEONLY)
    p(r"\p{Lu}\p{Ll}+|\p{Nd}+|\p{P}", asc, "Za aZ 00 .")
    p(r"(\p{L}+)=(\p{N}+)", "aZ\u00e90\u0661=", "a=0 \u00e9=\u0661", WIDEONLY)
    p(r"(?i)\p{L}+Z", asc, "aZ az ZZ")
    p(r"\p{L}+\b", asc, "aZ ", BACK)
    p(r"\w+\p{P}", asc, "a. 0.", 0)
    p(r"\s*\p{L}", asc, "aZ", 0)
    return r

def folding():
    """Ranges which contain letters without being bounded by letters, in case-insensitive mode."""
    r = []
    for cls, al in [("[X-^]", "XxYyZz^_WwA"), ("[@-C]", "@AaBbCcDd`"), ("[0-c]", "09AaBbCcDdZz^"), ("[y-}]", "xXyYzZ{}|~["), ("[^y-}]", "xXyYzZ{}|~["), ("[^X-^]", "XxYyZz^_Ww"), ("[.-~]", "-.aAzZ~! "), ("[!-/A-F]", "!/aAfFgG0"),
                    ("[C-c]", "AaBbCcDdZz_"), ("[^C-c]", "AaBbCcDdZz_"), ("[a-fX-_]", "aAfFgGxXyY_W"), ("[A-z]", "aAzZ^`{@")]:
        fr = [al[1:3], al[3:5], al[:2]]
        for t in ["%s", "%s+", "%s*y", "(%s+)(.)", "%s*?c", "a*%s", "%s{2,3}", "(?:%s|1)+z", "%s*b", "%s+Z", "x*%s", "%s++.", "(?=%s)..", "%s*[a-c]", "[x-z]*%s", r"%s+\b", "^%s*$", "(?:%s|ab)"]:
            back = BACK if r"\b" in t else 0
            r.append(("(?i)" + t % cls, al, fr, back, 0, None))
    return r
