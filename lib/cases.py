"""Which cases each property's check explores, per tier.  A case is one line for
`symdct worker`: a scenario, its sizes, and how much of the input space is
symbolic.  Sizes past the exhaustive part are drawn with VERIF_SEED."""
import random

K1 = ["dct1", "dst1"]
K23 = ["dct2", "dct3", "dst2", "dst3"]
K4 = ["dct4", "dst4"]
K58 = ["dct5", "dst5", "dct8", "dst8"]
K67 = ["dct6", "dct7", "dst6", "dst7"]
ALL = K1 + K23 + K4 + K58 + K67
WINDOWS = ["mp3", "mp3_invertible", "vorbis", "vorbis_invertible", "one", "invertible"]
FFT_KINDS = K1 + K23 + K4 + ["dst6", "dst7"]
# sizes with a structure of their own: around powers of two and three, primes,
# smooth numbers, and whatever makes n-1, n+1, 2n+1 one of these
SPECIAL = [255, 256, 257, 341, 343, 360, 383, 384, 385, 400, 405, 480, 499, 500, 509,
           510, 511, 512, 513, 514, 521, 576, 600, 625, 640, 647, 719, 720, 729, 768, 800, 840,
           900, 960, 997, 1000, 1009, 1019, 1023, 1024, 1025, 1026]
BIG = [1152, 1200, 1215, 1280, 1331, 1440, 1500, 1536, 1543, 1600, 1728, 1799, 1920, 1999, 2000, 2047, 2048, 2049,
       2053, 2187, 2200, 2401, 2500, 2520]
HUGE = [3000, 3072, 3125, 4000, 4095, 4096, 4097, 4099, 5000, 6144, 8191, 8192, 8193]


def valid(k, n):
    return n >= (2 if k == "dct1" else 1)


class Gen:
    def __init__(self, tier, seed):
        self.quick = tier != "thorough"
        self.rng = random.Random(seed)
        self.cases = []

    def q(self, a, b):
        return a if self.quick else b

    def add(self, fam, *kv, **kw):
        self.cases.append(" ".join([fam] + list(kv) + ["%s=%s" % (k, v) for k, v in kw.items()]))

    def draw(self, lo, hi, k):
        return sorted(self.rng.sample(range(lo, hi + 1), min(k, hi + 1 - lo)))


def even(ns):
    return [n for n in ns if n % 2 == 0]


def odd(ns):
    return [n for n in ns if n % 2 == 1]


def definition(g, kinds, naive_only=()):
    """every transform of `kinds` equals its definition"""
    share = 4.0 / len(kinds)
    for k in kinds:
        slow = k in naive_only
        full = g.q(96, 288)
        for n in range(1, full + 1):
            if valid(k, n):
                opt = []
                if n <= g.q(12, 16):
                    opt = ["dag=1"]
                    if n <= 8 or not g.quick:
                        opt.append("cross=1")
                g.add("t", *opt, kind=k, n=n, via="plan")
        # every size a bit further, a 2-dimensional slice of the inputs
        top = g.q(260, 900) if not slow else g.q(180, 500)
        for n in range(full + 1, top + 1):
            g.add("t", kind=k, n=n, via="plan", m="sub", d=2)
        big = SPECIAL + BIG + g.draw(top + 1, 2600, g.q(int(14 * share), int(120 * share)))
        if slow:
            big = [n for n in big if n <= g.q(600, 1600)]
        for n in sorted(set(big)):
            if n > top:
                g.add("t", kind=k, n=n, via="plan", m="sub", d=2)
        if not slow:
            for n in HUGE if not g.quick else [4096, 4099]:
                g.add("t", kind=k, n=n, via="plan", m="sub", d=2)
        # the algorithms constructed directly
        for n in list(range(1, g.q(40, 80) + 1)) + g.draw(41, 200, g.q(3, 12)):
            if valid(k, n):
                g.add("t", kind=k, n=n, via="naive")
        if k in FFT_KINDS:
            for n in list(range(1, g.q(48, 110) + 1)) + g.draw(49, 256, g.q(4, 16)):
                if not valid(k, n) or (k in K4 and n % 2 == 0):
                    continue
                g.add("t", kind=k, n=n, via="fft:r")
        if k in K4:
            for n in even(list(range(2, g.q(48, 110) + 1)) + g.draw(49, 256, g.q(4, 16))):
                for i in ["fft", "plan", "naive"]:
                    g.add("t", kind=k, n=n, via="t3:" + i)
        if k in K23:
            for n in [2, 3, 4, 8, 16]:
                g.add("t", kind=k, n=n, via="bfly")
                g.add("inplace", kind=k, n=n)
            for n in [4, 8, 16, 32, 64, 128] + g.q([], [256, 512]):
                for i in ["fft", "plan", "naive"]:
                    g.add("t", kind=k, n=n, via="split:" + i)


def c01(g):
    definition(g, K1)


def c02(g):
    definition(g, K23)


def c03(g):
    definition(g, K4)


def c04(g):
    definition(g, K58, K58)


def c05(g):
    definition(g, K67, ["dct6", "dct7"])


def c06(g):
    for n in even(range(2, g.q(24, 44) + 1)):
        opt = ["dag=1"] if n <= 6 else []
        g.add("mdct", *opt, n=n, via="plan", win="sym")
        g.add("mdct", n=n, via="plan", win="sym", extra=n + 3)
    for n in even(range(2, g.q(16, 24) + 1)):
        for via in ["naive", "via4", "via4:t3.fft", "via4:s?"]:
            if via == "via4:t3.fft" and n < 4:
                continue
            g.add("mdct", n=n, via=via, win="sym")
    for n in even(range(2, g.q(72, 160) + 1)):
        ws = WINDOWS + ["c3"]
        for w in ws if n <= g.q(24, 72) else [ws[(n // 2) % 7], ws[(n // 2 + 3) % 7]]:
            g.add("mdct", n=n, via="plan", win=w)
    for n in even(range(g.q(74, 162), g.q(260, 700))):
        g.add("mdct", n=n, via="plan", win="c%d" % (n % 11), m="sub", d=2)
    for n in even(sorted(set(SPECIAL + BIG + [1024, 1152, 2048] + g.draw(262, 2600, g.q(16, 120))))):
        if n <= g.q(1300, 4096):
            g.add("mdct", n=n, via="plan", win="c%d" % (n % 11), m="sub", d=2)
    for n in even(g.draw(30, 200, g.q(10, 40))):
        for via in ["naive", "via4"]:
            g.add("mdct", n=n, via=via, win="c5", m="sub", d=2)


def c07(g):
    for k in ALL:
        slow = k in K58 + ["dct6", "dct7"]
        for n in range(1, g.q(80 if slow else 128, 320) + 1):
            if valid(k, n):
                g.add("scr", "kinds=all" if n % 4 == 0 else "kinds=own", kind=k, n=n, via="plan")
        for n in sorted(set(SPECIAL[:: 2 if g.quick else 1] + g.draw(129, 1200, g.q(6, 60)))):
            if not slow or n < 400:
                g.add("scr", kind=k, n=n, via="plan", m="sub", d=2)
        for n in range(1, g.q(24, 64)):
            if valid(k, n):
                g.add("scr", kind=k, n=n, via="naive")
        if k in FFT_KINDS:
            for n in range(1, g.q(40, 100)):
                if valid(k, n) and not (k in K4 and n % 2 == 0):
                    g.add("scr", kind=k, n=n, via="fft:r")
                    if n <= g.q(14, 32):
                        g.add("scr", kind=k, n=n, via="fft:s?")
        if k in K23:
            for n in [4, 8, 16, 32, 64]:
                for i in ["s?", "fs?", "plan", "fft"]:
                    g.add("scr", "kinds=all", kind=k, n=n, via="split:" + i)
            for n in [8, 16, 32]:
                g.add("scr", kind=k, n=n, via="split2:s?")
        if k in K4:
            for n in even(range(2, g.q(20, 48))):
                for i in ["s?", "fs?", "plan", "fft"]:
                    g.add("scr", "kinds=all", kind=k, n=n, via="t3:" + i)
    for n in even(range(2, g.q(96, 260))):
        g.add("scrm", n=n, via="plan", win="sym" if n <= 20 else "c2")
        if n <= g.q(24, 48):
            g.add("scrm", n=n, via="naive", win="c2")
            g.add("scrm", n=n, via="via4:s?", win="c2")
    for n in even(SPECIAL):
        g.add("scrm", n=n, via="plan", win="c2", m="sub", d=2)


def c08(g):
    for k in ALL:
        ns = list(range(1, g.q(40, 130))) + g.draw(40, 300, g.q(6, 30)) + [45, 64, 100, 128, 256]
        for n in sorted(set(ns)):
            if valid(k, n):
                g.add("rej", kind=k, n=n, via="plan")
        for n in range(1, g.q(20, 48)):
            if not valid(k, n):
                continue
            g.add("rej", kind=k, n=n, via="naive")
            if k in FFT_KINDS and not (k in K4 and n % 2 == 0):
                g.add("rej", kind=k, n=n, via="fft:r")
                if n <= 9:
                    g.add("rej", kind=k, n=n, via="fft:s?")
        if k in K23:
            for n in [2, 3, 4, 8, 16]:
                g.add("rej", kind=k, n=n, via="bfly")
            for n in [4, 8, 16, 32]:
                for i in ["s?", "fs?", "plan"]:
                    g.add("rej", kind=k, n=n, via="split:" + i)
        if k in K4:
            for n in even(range(2, 17)):
                for i in ["s?", "fs?", "plan"]:
                    g.add("rej", kind=k, n=n, via="t3:" + i)
    for n in even(range(2, g.q(41, 120))):
        g.add("rejm", "paths=20000", n=n, via="plan")
        g.add("rejm", "paths=20000", n=n, via="naive")
    for n in [100, 128, 256]:
        g.add("rejm", "paths=20000", n=n, via="plan")


# requests that share machinery inside the planner
POOLS = [
    ("dct1.5,dst1.5,dct2.8,dct3.8,dst2.8,dst3.8,dct4.8,dst4.8,dct4.16,mdct.8.mp3,mdct.8.c1", None),
    ("dct2.4,dct3.8,dst2.16,dct2.32,dct4.32,dst4.64,dct2.64,mdct.32.vorbis,dct4.16,dst3.128", None),
    ("dct5.6,dst5.6,dct6.6,dct7.6,dst6.6,dst7.6,dct8.6,dst8.6,dct4.6,dct2.6,mdct.6.mp3,mdct.6.vorbis", None),
    ("dct1.33,dst1.31,dst6.64,dst7.64,dct2.64,dct2.32,dct4.65,dst6.50,dst1.50,dct1.51,dct2.100", None),
    ("mdct.4.mp3,mdct.4.vorbis,mdct.4.one,mdct.4.c1,mdct.4.c2,mdct.8.mp3,dct4.4,dct4.8,dct3.2", None),
    ("dct4.7,dct2.7,dst4.7,dct4.14,dct2.14,dct1.8,dst1.6,dst6.3,dct5.7,mdct.14.mp3,dst2.7", None),
]


def c09(g):
    for pool, _ in POOLS:
        items = pool.split(",")
        for t in items:
            g.add("histc", "paths=20000", depth=2, pool=pool, target=t)
        if not g.quick:
            for t in items:
                g.add("histc", "paths=20000", depth=3, pool=pool, target=t)
    sub3 = "mdct.4.mp3,mdct.4.c1,dct4.4,dct2.2,mdct.4.vorbis"
    for t in sub3.split(","):
        g.add("histc", "paths=20000", depth=g.q(4, 5), pool=sub3, target=t)
    for t in ["mdct.4.mp3", "mdct.4.c1", "dct4.4"]:
        g.add("histc", "paths=20000", depth=3, pool="bad.4.short,bad.4.long,bad.5.odd,mdct.4.one,dct4.4,mdct.4.mp3", target=t)
    # windows themselves arbitrary
    for n in [2, 4, 6]:
        g.add("hist", "paths=20000", steps="mdct.%d.sym,mdct.%d.sym" % (n, n))
        g.add("hist", "paths=20000", steps="mdct.%d.mp3,mdct.%d.sym,mdct.%d.mp3" % (n, n, n))
        g.add("hist", "paths=20000", steps="mdct.%d.sym,dct4.%d,mdct.%d.vorbis,mdct.%d.sym" % (n, n, n, n))
    # all transforms of one length on one planner, in drawn orders, everything handed out checked
    def shuffled(n, m=0):
        steps = ["%s.%d" % (k, n) for k in ALL if valid(k, n)]
        if n % 2 == 0:
            steps += ["mdct.%d.mp3" % n, "mdct.%d.c7" % n]
        g.rng.shuffle(steps)
        return steps
    for n in range(1, g.q(72, 200)):
        g.add("hist", steps=",".join(shuffled(n)))
    # long mixed histories over many lengths
    for i in range(g.q(60, 500)):
        steps = []
        lens = [g.rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24, 25, 32, 40, 44, 45, 46, 48, 64]) for _ in range(6)]
        lens += [2 * lens[0], 2 * lens[1], lens[2] + 1]
        for _ in range(g.q(18, 40)):
            n = g.rng.choice(lens)
            k = g.rng.choice(ALL + ["mdct", "mdct", "bad"])
            if k == "bad":
                steps.append("bad.%d.%s" % (n, g.rng.choice(["short", "long"] + (["odd"] if n % 2 else []))))
                continue
            if k == "mdct":
                n += n % 2
                steps.append("mdct.%d.%s" % (n, g.rng.choice(WINDOWS + ["c1", "c2"])))
            elif valid(k, n):
                steps.append("%s.%d" % (k, n))
        g.add("hist", steps=",".join(steps))
    # the same length asked for again and again, and big lengths next to each other
    for n in g.draw(70, 700, g.q(14, 100)):
        st = shuffled(n)[:7]
        g.add("hist", m="sub", d=2, steps=",".join(st + ["dct2.%d" % (n + 1), "dct4.%d" % (2 * n)] + st))


def c10(g):
    for k in ["dct1", "dst1", "dct2", "dct4", "dct5", "dst5", "dct6", "dst6", "dct8", "dst8"]:
        for n in range(1, g.q(70, 200)):
            if valid(k, n):
                g.add("rep", kind=k, n=n, via="plan", calls=g.q(9, 20))
        for n in g.draw(71, 900, g.q(8, 60)) + [128, 256, 512]:
            if n < 400 or k not in ("dct5", "dst5", "dct6", "dct8", "dst8"):
                g.add("rep", kind=k, n=n, via="plan", m="sub", d=2, calls=7)
        for n in range(1, g.q(16, 48)):
            if valid(k, n):
                g.add("rep", kind=k, n=n, via="naive", calls=9)
                if k in FFT_KINDS and not (k in K4 and n % 2 == 0):
                    g.add("rep", kind=k, n=n, via="fft:r", calls=9)
        # long use of one instance
        for n in [3, 8, 12, 17, 32]:
            g.add("rep", kind=k, n=n, via="plan", calls=g.q(70, 300))
    for n in [4, 8, 16, 32]:
        for i in ["s3", "fs3", "plan"]:
            g.add("rep", kind="dct2", n=n, via="split:" + i, calls=12)
            g.add("rep", kind="dct4", n=n, via="t3:" + i, calls=12)
    for n in even(range(2, g.q(80, 200))):
        g.add("repm", n=n, via="plan", calls=g.q(12, 24))
        if n <= 24:
            g.add("repm", n=n, via="naive", calls=12)
    for n in [4, 6, 16, 64]:
        g.add("repm", n=n, via="plan", calls=g.q(80, 300))


def c11(g):
    for k in FFT_KINDS:
        for n in range(1, g.q(28, 64)):
            if valid(k, n) and not (k in K4 and n % 2 == 0):
                g.add("t", kind=k, n=n, via="fft:s?", api="s")
                if n <= 12:
                    g.add("t", kind=k, n=n, via="fft:s?", api="d")
    for k in K23:
        for n in [4, 8, 16, 32, 64] + g.q([], [128]):
            for i in ["s?", "fs?", "naive", "fft", "plan"]:
                for api in ["s", "d"]:
                    g.add("t", kind=k, n=n, via="split:" + i, api=api)
        for n in [8, 16, 32, 64]:
            for i in ["s?", "fs?"]:
                g.add("t", kind=k, n=n, via="split2:" + i, api="s")
        for n in [2, 3, 4, 8, 16]:
            g.add("inplace", "dag=1" if n < 16 else "dag=0", kind=k, n=n)
            g.add("t", kind=k, n=n, via="bfly", api="s")
    for k in K4:
        for n in even(range(2, g.q(40, 80))):
            for i in ["s?", "fs?", "naive", "plan"]:
                g.add("t", kind=k, n=n, via="t3:" + i, api="s")
    for n in even(range(2, g.q(22, 44))):
        for v in ["via4:s?", "via4:t3.s5", "via4:t3.fs5", "via4:t3.naive"]:
            g.add("mdct", n=n, via=v, win="c4")
        if n <= 12:
            g.add("mdct", n=n, via="via4:s?", win="sym")


def c12(g):
    for k in ALL:
        slow = k in K58 + ["dct6", "dct7"]
        for n in range(1, g.q(72, 200) + 1):
            if valid(k, n):
                g.add("inv", "dag=1" if n <= 8 else "dag=0", kind=k, n=n)
        for n in range(g.q(73, 201), g.q(160, 400)):
            g.add("inv", kind=k, n=n, m="sub", d=2)
        big = sorted(set(SPECIAL + BIG + g.draw(161, 2500, g.q(8, 80))))
        for n in big:
            if n <= g.q(500, 1500) or (not slow and n <= g.q(1100, 2600)):
                g.add("inv", kind=k, n=n, m="sub", d=2)
        for n in range(1, g.q(20, 40)):
            if valid(k, n):
                g.add("inv", kind=k, n=n, via="naive")


def c13(g):
    for w in WINDOWS:
        for n in even(range(2, g.q(64, 160) + 1)):
            g.add("tdac", "dag=1" if n <= 6 else "dag=0", n=n, win=w, blocks=3)
        for n in even(range(2, 21)):
            g.add("tdac", n=n, win=w, blocks=5)
            g.add("tdac", n=n, win=w, blocks=3, via="naive")
        for n in even(range(g.q(66, 162), g.q(200, 500))):
            g.add("tdac", n=n, win=w, blocks=3, m="sub", d=2)
        for n in even(sorted(set(SPECIAL + BIG + g.draw(202, 2500, g.q(6, 60))))):
            if n <= g.q(1200, 2600):
                g.add("tdac", n=n, win=w, blocks=3, m="sub", d=2)
    for n in even(range(2, g.q(600, 2000))):
        g.add("win", len=n)
    for n in even([2048, 2304, 4096] + g.draw(601, 4000, g.q(20, 100))):
        g.add("win", len=n)


def c14(g):
    for what in ["dct1fft", "dst1fft", "t23fft", "t4fft", "dst67fft"]:
        for l in range(1, g.q(130, 400)):
            g.add("ctor", what=what, inner=l)
    for l in range(1, g.q(130, 400)):
        g.add("ctor", what="t3", inner=l)
    g.add("ctor", what="split")
    g.add("ctor", what="mdct")
    g.add("ctor", what="dct1one")
    for k in ALL:
        g.add("ctor", what="naive", kind=k)


def c16(g):
    o = "only=mem"
    for k in ALL:
        ns = list(range(1, g.q(24, 80))) + g.draw(25, 260, g.q(4, 20)) + [27, 31, 32, 33, 45, 64, 81, 100, 128, 243, 256]
        if k not in K58 + ["dct6", "dct7"]:
            ns += g.q([512, 1000, 1024], [512, 1000, 1024, 2048, 4096, 5000])
        for n in sorted(set(ns)):
            if valid(k, n):
                g.add("rej", o, kind=k, n=n, via="plan")
        for n in range(1, g.q(12, 32)):
            if not valid(k, n):
                continue
            g.add("rej", o, kind=k, n=n, via="naive")
            if k in FFT_KINDS and not (k in K4 and n % 2 == 0):
                g.add("rej", o, kind=k, n=n, via="fft:r")
                if n <= 6:
                    g.add("rej", o, kind=k, n=n, via="fft:s?")
        if k in K23:
            for n in [2, 3, 4, 8, 16]:
                g.add("rej", o, kind=k, n=n, via="bfly")
            for n in [4, 8, 16, 32, 64]:
                for i in ["s?", "fs?", "plan"]:
                    g.add("rej", o, kind=k, n=n, via="split:" + i)
        if k in K4:
            for n in even(range(2, 13)):
                for i in ["s?", "fs?", "plan"]:
                    g.add("rej", o, kind=k, n=n, via="t3:" + i)
    for n in even(range(2, g.q(13, 60))) + [64, 100, 128]:
        g.add("rejm", o, "paths=20000", n=n, via="plan")
        g.add("rejm", o, "paths=20000", n=n, via="naive")


def c15(g):
    for p in ["f32r", "f64r"]:
        for k in ALL:
            slow = k in K58 + ["dct6", "dct7"]
            for n in range(1, g.q(56, 150) + 1):
                if valid(k, n):
                    g.add("t", kind=k, n=n, via="plan", prec=p)
            for n in range(g.q(57, 151), g.q(140, 500)):
                g.add("t", kind=k, n=n, via="plan", prec=p, m="sub", d=2)
            big = SPECIAL + BIG + g.draw(141, 2500, g.q(5, 60))
            if slow:
                big = [n for n in big if n <= g.q(400, 1200)]
            elif g.quick:
                big = [n for n in big if n <= 1100] + [2048, 2049]
            for n in sorted(set(big)):
                g.add("t", kind=k, n=n, via="plan", prec=p, m="sub", d=2)
            if not slow and k != "dct7":
                for n in [4096] if g.quick else HUGE:
                    g.add("t", kind=k, n=n, via="plan", prec=p, m="sub", d=2)
            for n in range(1, g.q(16, 40)):
                if valid(k, n):
                    g.add("t", kind=k, n=n, via="naive", prec=p)
        for n in even(range(2, g.q(50, 120))):
            g.add("mdct", n=n, via="plan", win="c%d" % (n % 5), prec=p)
        for n in even(g.draw(52, 1500, g.q(16, 120))):
            g.add("mdct", n=n, via="plan", win="c%d" % (n % 5), prec=p, m="sub", d=2)


TABLE = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
         "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16}


def cases(pid, tier, seed):
    g = Gen(tier, seed)
    TABLE[pid](g)
    seen, out = set(), []
    for c in g.cases:
        if c not in seen:
            seen.add(c)
            out.append(c)
    return out
