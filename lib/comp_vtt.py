"""WebVTT checks: V01 (parsing), V02 (time arithmetic)."""
import os
from vlib import *


def hexs(bs):
    return bytes(bs).hex() or "-"


def gen_docs(n, r):
    """Grammar-based WebVTT texts with local damage."""
    docs = []
    eols = [b"\n", b"\r", b"\r\n"]

    def num(w=None):
        c = r.random()
        if c < .1:
            return str(r.choice([0, 59, 60, 61, 99, 100, 3599, 3600, 86400, 2147483647, 2147483648, 21474836470, 214748364])).encode()
        v = str(r.randrange(0, r.choice([10, 60, 70, 1000])))
        if r.random() < .5:
            v = v.zfill(r.choice([2, 2, 3]))
        return v.encode()

    def frac():
        k = r.choice([0, 0, 1, 2, 3, 3, 3, 3, 4])
        if k == 0:
            return b"" if r.random() < .95 else b"."
        return b"." + "".join(r.choice("0001259") for _ in range(k)).encode()

    def tm():
        k = r.choice([1, 2, 2, 3, 3])
        if r.random() < .8:
            parts = [str(r.randrange(60)).zfill(2).encode() for _ in range(k)]
            if k == 3 and r.random() < .4:
                parts[0] = str(r.randrange(60, 100000)).encode()
            elif k == 1:
                parts = [str(r.choice([r.randrange(60), r.randrange(100000)])).encode()]
            elif r.random() < .15:
                parts[r.randrange(len(parts))] = str(r.choice([59, 60, 61, 0])).encode()
        else:
            parts = [num() for _ in range(k)]
        return b":".join(parts) + frac()

    def word(alpha=b"abcXYZ0189-%>&\xc3\xa9,."):
        return bytes(r.choice(alpha) for _ in range(r.randrange(1, 6)))

    def ws():
        return r.choice([b" ", b" ", b"\t", b"  ", b" \t "])

    def setting():
        c = r.random()
        s = word() + b":" + word()
        if c < .03:
            s = word()
        elif c < .05:
            s = b":" + word()
        elif c < .07:
            s = word() + b":"
        elif c < .09:
            s += b":" + word()
        return s

    for i in range(n):
        mode = r.random()
        eol = (lambda: e0) if mode < .75 else (lambda: r.choice(eols))
        e0 = r.choice(eols)
        d = b""
        if r.random() < .2:
            d += b"\xef\xbb\xbf"
        d += b"WEBVTT" if r.random() < .97 else r.choice([b"WEBVT", b"WEBVTTX", b"webvtt", b"", b"WEBVTT\xff"])
        if r.random() < .25:
            d += r.choice([b" x", b"\tfile", b" ", b"-x", b" - WEBVTT"])
        d += eol()
        if r.random() < .98:
            d += eol()
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            for _ in range(r.choice([0, 0, 0, 1, 3])):
                d += eol()
            if r.random() < .4:
                d += r.choice([word(b"abc 123-"), b"--", b"-- >", b"1"]) + eol()
            d += r.choice([b"", b"", ws()]) + tm() + r.choice([ws(), ws(), ws(), b""]) + r.choice([b"-->"] * 30 + [b"->", b"-- >", b"--->"])
            d += r.choice([ws(), ws(), ws(), b""]) + tm()
            for _ in range(r.choice([0, 0, 1, 2])):
                d += ws() + setting()
            if r.random() < .2:
                d += ws()
            d += eol()
            for _ in range(r.choice([0] + [1, 1, 2, 3] * 6)):
                d += r.choice([word(b"abc <>&:."), word(), b" ", b"-->", b"WEBVTT", b"a\xc3\xa9"]) + eol()
            d += eol()
        d = d.replace(b"\0", b"x")
        if r.random() < .15 and d:
            k = r.randrange(len(d))
            d = d[:k]
        if r.random() < .12 and d:
            k = r.randrange(len(d))
            d = d[:k] + bytes([r.choice([10, 13, 32, 45, 58, 46, 48, 254, 255, 239])]) + d[k + r.randrange(2):]
        err = 0
        if r.random() < .12:
            err = r.randrange(1, len(d) + 2)
        docs.append((d, err))
    return docs


FIXED = [
    (b"WEBVTT\n\n1\n00:00.005 --> 00:01.050\nx\n", 0), (b"WEBVTT", 0), (b"WEBVTT\n", 0), (b"WEBVTT\n\n", 0),
    (b"WEBVTT\r\r\n", 0), (b"\xef\xbb", 0), (b"\xef\xbb\xbfWEBVTT", 0), (b"", 0), (b"WEBVTT\n\na\nb\n", 0),
    (b"WEBVTT\n\n1 --> 2\n" + b"y" * 10000 + b"\n", 0), (b"WEBVTT\n\n1 --> 2\n" + b"y" * 10001 + b"\n", 0),
    (b"WEBVTT\n\n" + b"i" * 10000 + b"\r\n1 --> 2\nq", 0),
    (b"WEBVTT\n\n1 --> 2 a:b\nq\n\n3 --> 4\nz\n", 0),
    (b"WEBVTT\n\nid\n1 --> 2 a:b\nq\nr\n\n3 --> 4\nz", 0),
    (b"WEBVTT\n\n2147483647 --> 2147483648\nq\n", 0), (b"WEBVTT\n\n2147483646 --> 2147483647\nq\n", 0),
    (b"WEBVTT\n\n-->\nq\n", 0), (b"WEBVTT\n\n1 --> \nq\n", 0), (b"WEBVTT\n\n --> 1\nq\n", 0),
    (b"WEBVTT\n\n1 --> 2 --> 3\nq\n", 0), (b"WEBVTT\n\n00:60 --> 00:61\nq\n", 0), (b"WEBVTT\n\n60:00 --> 61:00\nq\n", 0),
]


def v01(ck, tier):
    binp = build("vtt", ["webvtt"])
    docs = list(FIXED)
    mcs = []
    for cfg in ("MCWebVttFull.cfg", "MCWebVttPair.cfg"):
        m = run_tlc("MCWebVtt", cfg)
        if not m.ok:
            raise RuntimeError("model check failed: " + m.out[-3000:])
        ck.add_tlc(m)
        ds = tlc_prints(m.out, "DOC")
        mcs.append(len(ds))
        docs += [(bytes(d), 0) for d in ds]
    r = rng("vtt")
    docs += gen_docs(4000 if tier == "quick" else 60000, r)
    # reader failures at every character of a few texts
    for d, _ in FIXED[12:14]:
        docs += [(d, k) for k in range(1, len(d) + 2)]
    ck.extra["texts_from_model"] = sum(mcs)
    scripts = [(i, "DOC %s %d" % (hexs(d), e)) for i, (d, e) in enumerate(docs)]
    validate(ck, binp, scripts, "WebVttTrace", "WebVttTrace.cfg", lambda t: len(t["ev"]) + 1)
    ck.assumptions += ["texts contain no NUL bytes in timing lines", "line length cap of 10000 is taken as part of the format"]


def v02(ck, tier):
    binp = build("vtt", ["webvtt"])
    m = run_tlc("MCVttTime", "MCVttTime.cfg")
    if not m.ok:
        raise RuntimeError(m.out[-3000:])
    ck.add_tlc(m)
    ops = [(o["t"], o["d"][0] * 3600000 + o["d"][1], o["u"]) for o in tlc_prints(m.out, "OP")]
    r = rng("vtt2")

    def t():
        return [r.choice([0, 1, 23, 99, r.randrange(250), 595, 596, 597, r.randrange(2000), 596523, 596524, 10**9, r.randrange(1 << r.randrange(1, 31))]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)]),
                r.choice([0, 1, 999, r.randrange(1000)])]
    for _ in range(5000 if tier == "quick" else 100000):
        a, b = t(), t()
        if r.random() < .4:
            b = list(a)
            k = r.randrange(4)
            b[k] = t()[k]
        ops.append((a, r.choice([0, 1, -1, 999, 1000, -1000, 60000, -60000, 3600000, r.randrange(-10**8, 10**8), r.randrange(-10**12, 10**12),
                          r.randrange(-10**15, 10**15), -3600000 * a[0], 3600000 * b[0]]), b))
    scripts = [(i, "VTIME %d %d %d %d %d %d %d %d %d" % (*a, d, *b)) for i, (a, d, b) in enumerate(ops)]
    def post(t, sid):
        for f in ("d", "pt", "pu", "diff"):
            t[f] = list(divmod(int(t[f]), 3600000))
        return t
    validate(ck, binp, scripts, "VttTime", "VttTime.cfg", lambda t: 2, post=post)
    ck.assumptions.append("times are normalized; hours of operands and results below 2^31")
