"""R01: readers and writers."""
from vlib import *

STREAMS = ["buffer", "file", "pipe", "sstring", "fstream", "raw"]


def rn(r, n):
    return r.choice([1, 1, 2, 3, 7, max(1, n), n + 1, n // 2 + 1, max(1, n - 1), 1023, 1024, 1025, 4096, 4097, r.randrange(1, n + 20)])


def stream_script(r, what, n):
    t = ["%s %d %d %d" % (what, n, r.randrange(9999), r.choice([1, 3, 16, 64]))]
    for _ in range(r.randrange(3, 14)):
        c = r.random()
        if c < .45:
            t.append("read %d" % rn(r, n))
        elif c < .8:
            t.append("skip %d" % (rn(r, n) if r.random() < .95 else r.choice([1 << 20, (1 << 31) - 1])))
        elif c < .9 and what in ("file", "pipe", "null"):
            t.append("seek %d" % (r.randrange(0, n + 1) if r.random() < .85 else -1))
        elif c < .95:
            t.append("pos")
        else:
            t.append(r.choice(["move", "assign"]))
    return "\n".join(t)


def random_script(r, what, n):
    t = ["%s %d %d" % (what, n, r.randrange(9999))]
    if what == "mkvreader" and r.random() < .9:
        t.append("open file")
    for _ in range(r.randrange(3, 14)):
        c = r.random()
        if c < .7:
            off = r.choice([0, n, n - 1, n + 1, -1, r.randrange(0, n + 2), r.randrange(0, n + 2)])
            ln = r.choice([0, 1, -1, max(0, n - off), max(0, n - off) + 1, r.randrange(0, n + 2)])
            t.append("at %d %d" % (off, ln))
        elif c < .8:
            t.append("length " + r.choice("tab"))
        elif c < .93:
            t.append("open " + r.choice(["file", "file", "none", "null"]))
        else:
            t.append("close")
    return "\n".join(t)


def write_script(r, what):
    t = ["%s 0 0" % what]
    if what == "mkvwriter" and r.random() < .9:
        t.append("open file")
    size = 0
    for _ in range(r.randrange(3, 16)):
        c = r.random()
        if c < .5:
            n = r.choice([0, 1, 2, 5, 100, r.randrange(1, 600)] + ([4095, 4096, 4097, 5000] if r.random() < .2 else []))
            size += n
            t.append("write %d %d" % (n, r.randrange(9999)))
        elif c < .7:
            t.append("goto %d" % r.choice([0, size, r.randrange(0, size + 1), r.randrange(0, size + 1), size + r.randrange(1, 40), -1]))
        elif c < .85:
            t.append("pos")
        elif c < .9:
            t.append("writenull %d" % r.choice([0, 1, 5]))
        elif c < .97:
            t.append("open " + r.choice(["file", "none", "null"]))
        else:
            t.append("close")
            size = 0
    return "\n".join(t)


def r01(ck, tier):
    quick = tier == "quick"
    m = run_tlc("MCIo", "MCIo.cfg" if quick else "MCIoDeep.cfg")
    if not m.ok:
        raise RuntimeError("model check failed: " + m.out[-3000:])
    ck.add_tlc(m)
    r = rng("r01")
    texts = []
    seen = set()
    for h in tlc_prints(m.out, "H"):
        if h["mode"] == "stream":
            for w in STREAMS:
                texts.append("\n".join(["%s %d 1 1" % (w, h["n"])] + ["%s %d" % tuple(o) for o in h["h"]] + ["pos"]))
        else:
            for w in ("mkvwriter", "mkvwriterfp"):
                texts.append("\n".join(["%s 0 0" % w] + (["open file"] if w == "mkvwriter" else []) +
                                       [("write %d %d" % (o[1], i) if o[0] == "write" else "goto %d" % o[1]) for i, o in enumerate(h["h"])] + ["pos"]))
    texts = [t for t in texts if not (t in seen or seen.add(t))]
    r.shuffle(texts)
    texts = texts[:900 if quick else 12000]
    N = 70 if quick else 1500
    for w in STREAMS:
        for _ in range(N):
            texts.append(stream_script(r, w, r.choice([0, 1, 2, 10, 100, 1023, 1024, 1025, 2500, 4096, r.randrange(1, 5000)])))
    for w in ("null", "nulls"):
        for _ in range(6):
            texts.append(stream_script(r, w, 0))
    for w in ("mkvreader", "mkvreaderfp"):
        for _ in range(2 * N):
            texts.append(random_script(r, w, r.choice([0, 1, 2, 10, 100, 1000, 4096, 4097])))
    for w in ("mkvwriter", "mkvwriterfp"):
        for _ in range(2 * N):
            texts.append(write_script(r, w))
    binp = build("io", ["mkvmuxer", "mkvparser", "common", "webm_parser"], ASAN + UBSAN)
    scripts = list(enumerate(texts))
    for k in range(0, len(scripts), 1500):
        validate(ck, binp, scripts[k:k + 1500], "IoTrace", "IoTrace.cfg", "accept")
    ck.assumptions.append("seeks beyond the end of a file and reopening an object that borrowed its first file are outside the contract")
