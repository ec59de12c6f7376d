"""C01, C02: VP9 frame headers, superframe indexes, level statistics."""
from fractions import Fraction

from vlib import *
import comp_pes


class Bits:
    def __init__(self):
        self.s = []

    def put(self, v, n):
        self.s += [(v >> (n - 1 - i)) & 1 for i in range(n)]

    def bytes(self):
        s = self.s + [0] * (-len(self.s) % 8)
        return bytes(int("".join(map(str, s[i:i + 8])), 2) for i in range(0, len(s), 8))


SYNC = 0x498342


def header(r, prof=None, key=None, alt=0, er=None, existing=0, intra=None, w=None, h=None, render=None, refresh=None,
           refs=None, found=None, busy=.3, reset=None, cs=None, depth12=None, inc=None, rows=None, rnd=True, fpm=None):
    """One syntactically correct frame header; unspecified parts are random."""
    def pick(v, c):
        return c if v is None else v
    chance = lambda p: int(r.random() < p)
    b = Bits()
    prof = pick(prof, r.choice([0, 0, 0, 1, 2, 3]))
    b.put(2, 2); b.put(prof & 1, 1); b.put(prof >> 1, 1)
    if prof == 3:
        b.put(0, 1)
    b.put(existing, 1)
    if existing:
        b.put(r.randrange(8), 3)
        return b.bytes()
    key = pick(key, chance(.4))
    er = pick(er, chance(.3))
    b.put(1 - key, 1); b.put(1 - alt, 1); b.put(er, 1)

    def colour():
        if prof >= 2:
            b.put(pick(depth12, chance(.5)), 1)
        c = pick(cs, r.choice([0, 1, 2, 3, 4, 5, 6, 7]) if prof % 2 else r.randrange(7))
        b.put(c, 3)
        if c != 7:
            b.put(chance(.5), 1)
            if prof % 2:
                ss = r.choice([(0, 0), (0, 1), (1, 0)])
                b.put(ss[0], 1); b.put(ss[1], 1); b.put(0, 1)
        elif prof % 2:
            b.put(0, 1)
    W = [None]

    def dim():
        return r.choice([1, 8, 16, 64, 255, 256, 257, 320, 511, 512, 513, 1024, 1920, 4096, 4097, 16384, 65536, r.randrange(1, 65537), r.randrange(1, 2000)])

    def rend():
        d = pick(render, chance(.3))
        b.put(d, 1)
        if d:
            b.put(dim() - 1, 16); b.put(dim() - 1, 16)

    def size():
        W[0] = pick(w, dim())
        b.put(W[0] - 1, 16); b.put(pick(h, dim()) - 1, 16)
        rend()

    def rest():
        if not er:
            b.put(chance(.5), 1); b.put(pick(fpm, chance(.5)), 1)
        b.put(r.randrange(4), 2)
        b.put(r.randrange(64), 6); b.put(r.randrange(8), 3)
        on = chance(busy * 2)
        b.put(on, 1)
        if on:
            up = chance(.6)
            b.put(up, 1)
            if up:
                for _ in range(6):
                    u = chance(.5); b.put(u, 1)
                    if u:
                        b.put(r.randrange(128), 7)
        b.put(r.randrange(256), 8)
        for _ in range(3):
            u = chance(busy); b.put(u, 1)
            if u:
                b.put(r.randrange(32), 5)
        seg = chance(busy); b.put(seg, 1)
        if seg:
            m = chance(.6); b.put(m, 1)
            if m:
                for _ in range(7):
                    u = chance(.5); b.put(u, 1)
                    if u:
                        b.put(r.randrange(256), 8)
                t = chance(.5); b.put(t, 1)
                if t:
                    for _ in range(3):
                        u = chance(.5); b.put(u, 1)
                        if u:
                            b.put(r.randrange(256), 8)
            d = chance(.6); b.put(d, 1)
            if d:
                b.put(chance(.5), 1)
                for i in range(32):
                    u = chance(.3); b.put(u, 1)
                    if u:
                        n = (9, 7, 2, 0)[i % 4]
                        b.put(r.randrange(1 << n), n)
        # tiles: as many bits as any width may need
        k = r.randrange(0, 7) if inc is None else inc
        sb = ((((W[0] or 1) + 7) // 8) + 7) // 8
        lo = 0
        while 64 << lo < sb:
            lo += 1
        hi = 1
        while sb >> hi >= 4:
            hi += 1
        hi -= 1
        for i in range(hi - lo):
            one = int(i < k)
            b.put(one, 1)
            if not one:
                break
        rr = pick(rows, r.randrange(3))
        b.put(int(rr > 0), 1)
        if rr:
            b.put(rr - 1, 1)
        b.put(r.randrange(1, 65536), 16)
    if key:
        b.put(SYNC, 24); colour(); size(); rest()
        return b.bytes()
    intra = pick(intra, chance(.3)) if alt else 0
    if alt:
        b.put(intra, 1)
    if not er:
        b.put(r.randrange(4), 2)
    fl = pick(refresh, r.choice([0, 1, 2, 255, r.randrange(256)]))
    if intra:
        b.put(SYNC, 24)
        if prof:
            colour()
        b.put(fl, 8); size(); rest()
        return b.bytes()
    b.put(fl, 8)
    rf = [r.randrange(8) for _ in range(3)] if refs is None else refs
    for x in rf:
        b.put(x, 3); b.put(chance(.5), 1)
    f = r.randrange(4) if found is None else found        # 3: none
    for i in range(min(f + 1, 3)):
        b.put(int(i == f), 1)
    if f == 3:
        size()
    else:
        W[0] = w          # the caller knows the reference's width (or not)
        rend()
    b.put(chance(.5), 1)
    u = chance(.5); b.put(u, 1)
    if not u:
        b.put(r.randrange(4), 2)
    rest()
    return b.bytes()


def mangle(r, b):
    c = r.random()
    if c < .45:
        return b[:r.randrange(0, len(b))]
    b = bytearray(b)
    for _ in range(r.randrange(1, 4)):
        b[r.randrange(min(len(b), 8) if r.random() < .6 else len(b))] ^= 1 << r.randrange(8)
    return bytes(b)


def hx(b):
    return b.hex() or "-"


def hdr_script(r, n):
    t = []
    prof = r.choice([0, 0, 1, 2, 3])
    alive = False
    size = r.choice([None, 64, 352, 1920, 4096, 9000])
    for _ in range(n):
        c = r.random()
        if c < .08:
            t.append("new")
            alive = False
            continue
        p = prof if r.random() < .9 else r.randrange(4)
        if not alive and r.random() < .85:
            b = header(r, prof=p, key=1, w=size, alt=int(r.random() < .2))
            alive = True
        elif c < .16:
            b = header(r, prof=p, existing=1)
        else:
            b = header(r, prof=p, alt=int(r.random() < .4), w=size)
        d = r.random()
        if d < .15:
            b = mangle(r, b)
        elif d < .4:
            b += bytes(r.randrange(256) for _ in range(r.randrange(1, 20)))
        t.append("hdr " + hx(b))
    return "\n".join(t)


def big(n):
    o = []
    while n:
        o.append(n % 10000)
        n //= 10000
    return o


def post(t, sid):
    ev = []
    for e in t["ev"]:
        e = dict(e)
        if e["op"] == "hdr":
            e["b"] = list(bytes.fromhex(e["b"])) if e["b"] != "-" else []
        elif e["op"] == "frame":
            if not e["ok"]:
                continue
            ns = int(e["t"])
            e["t"] = [ns // 10**9, ns % 10**9]
        elif e["op"] == "set":
            d = int(e["dur"])
            e["dur"] = [d // 10**9, d % 10**9] if d >= 0 else [-1, 0]
        elif e["op"] == "get":
            s = dict(e["s"])
            for k in ("rate", "size"):
                s[k] = big(int(s[k])) if int(s[k]) >= 0 else [-1]
            for k in ("kbps", "peak", "ratio"):
                f = None if s[k] == "nan" else float.fromhex(s[k])
                s[k] = [-1] if f is None or f < 0 or f > 1e22 else big(int(Fraction(f) * 10**8))
            e["s"] = s
        ev.append(e)
    return {"ev": ev}


def superframe(r):
    n = r.randrange(1, 9)
    w = r.randrange(1, 5)
    ln = [r.choice([0, 1, 2, 5, r.randrange(40), r.randrange(200)] + ([300, 1000] if w > 1 else [])) for _ in range(n)]
    if w > 2 and r.random() < .02:
        ln[r.randrange(n)] = 70000
    m = 0xc0 | (w - 1) << 3 | (n - 1)
    idx = bytes([m]) + b"".join(min(x, 256 ** w - 1).to_bytes(w, "little") for x in ln) + bytes([m])
    body = bytes(r.randrange(256) for _ in range(sum(ln) + r.choice([0, 0, 0, 1, 5])))
    b = bytearray(body + idx)
    c = r.random()
    if c < .15:
        b[len(b) - 1 - r.randrange(len(idx))] ^= 1 << r.randrange(8)
    elif c < .25:
        b = b[r.randrange(len(b)):]
    elif c < .3:
        b = b[:r.randrange(1, len(b) + 1)]
    elif c < .35 and len(b) > len(idx):       # one byte less payload than the index says
        b = b[1:]
    return bytes(b)


def c01(ck, tier):
    quick = tier == "quick"
    m = run_tlc("MCVp9", "MCVp9.cfg" if quick else "MCVp9Deep.cfg")
    if not m.ok:
        raise RuntimeError("model check failed: " + m.out[-3000:])
    ck.add_tlc(m)
    r = rng("c01")
    groups = {}
    for h in tlc_prints(m.out, "F"):
        groups.setdefault("+".join(sorted(h["r"])), []).append(bytes(h["b"]))
    # eight reference slots with the sizes of the model
    prefix = ["hdr " + header(r, prof=0, key=1, w=128, h=64).hex()]
    for i in range(8):
        prefix.append("hdr " + header(r, prof=0, key=0, alt=1, intra=1, w=16 * (i + 1), h=8 * (i + 1), refresh=1 << i).hex())
    texts = []
    for g, fs in sorted(groups.items()):
        r.shuffle(fs)
        fs = fs[:700 if quick else 20000]
        for k in range(0, len(fs), 20):
            t = list(prefix)
            for b in fs[k:k + 20]:
                t.append("hdr " + hx(b))
                if r.random() < .2:
                    t.append("hdr " + hx(b[:-1]))
            texts.append("\n".join(t))
    for _ in range(700 if quick else 20000):
        texts.append(hdr_script(r, r.randrange(2, 16)))
    for _ in range(60 if quick else 500):           # every proper prefix of a header is malformed
        b = header(r, busy=r.choice([0, .3, .6]), key=int(r.random() < .6), alt=int(r.random() < .5))
        p = header(r, prof=b[0] >> 4 & 3 if r.random() < .5 else 0, key=1)
        texts.append("\n".join(["hdr " + p.hex()] + ["hdr " + hx(b[:n]) for n in range(len(b) + 1)]))
    for b0 in range(256):
        texts.append("\n".join("hdr %02x%s" % (b0, x) for x in ("", "00", "ff", "498342", "a4c1a1", "9306842800000000000000000000")))
    binp = build("vp9", ["mkvmuxer", "mkvparser", "common"], ASAN + UBSAN)
    scripts = list(enumerate(texts))
    for k in range(0, len(scripts), 1500):
        validate(ck, binp, scripts[k:k + 1500], "Vp9Trace", "Vp9Trace.cfg", "accept", post=post)
    cases = [comp_pes.sf_case(superframe(r)) for _ in range(500 if quick else 20000)]
    for n in range(1, 9):                            # every marker, bodies around the index length
        for w in range(1, 5):
            il = 2 + n * w
            mk = 0xc0 | (w - 1) << 3 | (n - 1)
            for ln in (0, 1, il - 1, il, il + 1, 2 * il - 1, 2 * il, 2 * il + 1):
                per = [ln // n] * (n - 1) + [ln - ln // n * (n - 1)]
                for tot in (ln - 1, ln, ln + 1):
                    if tot >= 0:
                        cases.append(comp_pes.sf_case(bytes(tot) + bytes([mk]) + b"".join(x.to_bytes(w, "little") for x in per) + bytes([mk])))
    comp_pes.run(ck, cases)
    ck.extra["headers"] = sum(t.count("hdr") for t in texts)
    ck.extra["superframes"] = len(cases)
    ck.assumptions.append("headers with reserved bits set or colour formats their profile does not allow may be refused or accepted")


LEVEL_SIZES = [(256, 144), (64, 64), (512, 72), (513, 71), (768, 96), (960, 128), (1280, 720), (1344, 182), (2048, 270), (2752, 357),
               (4160, 535), (4161, 535), (2228224 // 1088, 1088), (4096, 2176), (4097, 2176), (8384, 1063), (8385, 1000), (8192, 4352), (16832, 2118), (16833, 100), (65536, 65536),
               (46341, 46341), (65536, 32768), (40000, 60000)]


def level_script(r, n):
    t = []
    w, h = r.choice(LEVEL_SIZES)
    if r.random() < .3:
        w, h = r.randrange(1, 3000), r.randrange(1, 2000)
    ms = r.choice([0, 0, 0, 500, 10**7])
    ns = ms * 10**6
    style = r.random()
    gap = r.choice([1, 16, 33, 40, 100, 250, 500, 1000, 3000])
    scale = r.choice([20, 200, 2000, 30000] + ([400000, 1500000] if r.random() < .3 else []))
    every = r.choice([0, 0, 3, 4, 5, 6, 7, 10, 11, 12])
    mask = r.choice([0, 1, 3, 7, 15, 31, 63, 127, 255])
    prof = r.choice([0, 0, 0, 2])
    inc = r.choice([0, 1, 2, 6])
    for i in range(n):
        key = int(i == 0 or r.random() < .05)
        alt = int(bool(every) and i % (every + 1) == every and r.random() < .95) if style < .8 else int(r.random() < .2)
        if r.random() < .05:
            w2, h2 = r.choice(LEVEL_SIZES) if r.random() < .3 else (max(1, w // 2), max(1, h // 2))
        else:
            w2, h2 = w, h
        if key:
            b = header(r, prof=prof, key=1, alt=alt, w=w2, h=h2, busy=.1, inc=inc)
        else:
            b = header(r, prof=prof, key=0, alt=alt, intra=0, w=w2, h=h2, found=3, refresh=r.choice([0, 1, 2, 4, 128, r.randrange(256)]) & mask, busy=.1, inc=inc)
        t.append("frame %s %d %d" % (b.hex(), max(len(b), r.randrange(scale) if r.random() < .9 else scale * 3), ns))
        last = ns
        c = r.random()
        step = gap * 10**6 if c < .7 else r.choice([0, 1, 999999999, 10**9, 10**9 + 1, 10**9 - 1, 333333333, 500000000, r.randrange(2 * 10**9)])
        if not alt:
            ns += step
        if r.random() < .1:
            t.append("get")
    end = ns
    span = last - ms * 10**6
    t.append("get")
    c = r.random()
    if c < .6:
        d = r.choice([span, span, span + 1, span - 1, span // 2, 2 * span, end, end + 33 * 10**6, 2 * end, end // 2, 10**9, 10**12])
        t += ["set %d %d %d" % (max(1, d), r.random() < .75, r.choice([15, 0, 100])), "get"]
    elif c < .8:
        t += ["set -1 0 %d" % r.choice([15, 0, 50]), "get"]
    return "\n".join(t)


def model_script(r, hist):
    """A history of the model with real headers."""
    t = []
    for i, f in enumerate(hist):
        kw = dict(prof=0, alt=f["alt"], w=f["w"], h=f["h"], busy=0, inc=0, render=0)
        b = header(r, key=1, **kw) if f["key"] else header(r, key=0, intra=0, found=3, refresh=f["refresh"], **kw)
        t.append("frame %s %d %d" % (b.hex(), 100 * f["sz"], f["t"][0] * 10**9 + f["t"][1]))
        if i in (2, len(hist) - 1):
            t.append("get")
    return "\n".join(t)


def edge_scripts(r):
    """Each criterion at, just below and just above each limit of the table, the others small."""
    T = [(10, 829440, 36864, 512, 200, 400, 2, 1, 4, 8), (11, 2764800, 73728, 768, 800, 1000, 2, 1, 4, 8),
         (20, 4608000, 122880, 960, 1800, 1500, 2, 1, 4, 8), (21, 9216000, 245760, 1344, 3600, 2800, 2, 2, 4, 8),
         (30, 20736000, 552960, 2048, 7200, 6000, 2, 4, 4, 8), (31, 36864000, 983040, 2752, 12000, 10000, 2, 4, 4, 8),
         (40, 83558400, 2228224, 4160, 18000, 16000, 4, 4, 4, 8), (41, 160432128, 2228224, 4160, 30000, 18000, 4, 4, 5, 6),
         (50, 311951360, 8912896, 8384, 60000, 36000, 6, 8, 6, 4), (51, 588251136, 8912896, 8384, 120000, 46000, 8, 8, 10, 4),
         (52, 1176502272, 8912896, 8384, 180000, 0, 8, 8, 10, 4), (60, 1176502272, 35651584, 16832, 180000, 0, 8, 16, 10, 4),
         (61, 2353004544, 35651584, 16832, 240000, 0, 8, 16, 10, 4), (62, 4706009088, 35651584, 16832, 480000, 0, 8, 16, 10, 4)]
    out = []

    def key(w, h, alt=0, inc=0):
        return header(r, prof=0, key=1, alt=alt, w=w, h=h, busy=0, inc=inc, render=0)

    def fr(b, size, ns):
        return "frame %s %d %d" % (b.hex(), max(len(b), size), ns)
    for lv, rate, size, br, kbps, cpb, cr, tiles, alt, refs in T:
        for d in (-1, 0, 1):
            # breadth
            if br + d <= 65536:
                for w, h in ((br + d, 8), (8, br + d)):
                    out.append([fr(key(w, h, inc=6), 30, 0), fr(key(w, h, inc=6), 30, 10**9)])
            # picture size: w*h around the limit
            w = {36864: 256, 73728: 384, 122880: 480, 245760: 640, 552960: 1024, 983040: 1280, 2228224: 2048, 8912896: 4096, 35651584: 8192}[size]
            h = size // w
            out.append([fr(key(w, h + d), 30, 0), fr(key(w, h + d), 30, 10**9)])
            out.append([fr(key(w + d, h), 30, 0), fr(key(w + d, h), 30, 10**9)])
            # sample rate: n frames of one size inside a second
            n = max(2, -(-rate * 1015 // 1000 // size) + 1)
            if n < 60:
                side = int((rate * 1.015 / n) ** .5)
                for k in (n - 1, n, n + 1):
                    out.append([fr(key(side, side, inc=0), 30, i * (10**9 // (n + 2))) for i in range(k)])
            # buffer
            if cpb:
                total = cpb * 125 + d
                q = total // 4
                if total < 3000000:
                    out.append([fr(key(2048, 1088), x, i * 10**9) for i, x in enumerate([q, q, q, total - 3 * q, 20])])
                    out.append([fr(key(2048, 1088), total if i == 2 else 20, i * 3 * 10**9) for i in range(3)])
                else:
                    out.append([fr(key(4096, 2176), total if i == 3 else 40, i * 10**9) for i in range(4)])
            # bitrate over a set duration
            total = kbps * 125 * 2 + d
            f = [fr(key(2048, 1088), min(total - 400, 2000000) if i == 0 else 100, i * 10**8) for i in range(5)]
            bytes_ = sum(int(x.split()[2]) for x in f)
            for e in (-1, 0, 1):
                dur = bytes_ * 10**9 // (125 * kbps) + e * 10**6 * max(1, dur_ms(bytes_, kbps) // 50)
                if dur > 5 * 10**8:
                    out.append(f + ["set %d 0 15" % dur])
            # altref distance
            for gap in (alt - 1, alt, alt + 1):
                for w, h in ((128, 72), (w, h)):
                    out.append([fr(key(w, h, alt=int(i % (gap + 1) == 0)), 30, i * 10**9) for i in range(2 * gap + 3)])
            # references
            for nref in (refs - 1, refs, refs + 1):
                if nref <= 8:
                    f = [fr(key(w, h), 30, 0)]
                    for i in range(nref):
                        b = header(r, prof=0, key=0, alt=0, w=w, h=h, found=3, refresh=1 << (i % 8), busy=0, inc=0, render=0)
                        f.append(fr(b, 30, (i + 1) * 10**9))
                    out.append(f)
            # compression ratio: bytes around raw / ratio
            for wh in ((128, 72), (w, h)):
                raw = wh[0] * wh[1] * 12 * 2 // 8
                c = raw // cr
                if c < 3000000:
                    out.append([fr(key(*wh), c // 2, 0), fr(key(*wh), c - c // 2 + d, 1000 * 10**9)])
            # tiles
    for w in (256, 511, 512, 1024, 2048, 4096, 4097, 8192, 16384, 16832):
        for inc in range(0, 7):
            out.append([fr(key(w, 8, inc=inc), 30, 0), fr(key(w, 8, inc=inc), 30, 10**9)])
    return ["\n".join(x + ["get"]) for x in out]


def dur_ms(b, kbps):
    return b * 8 // kbps


def c02(ck, tier):
    quick = tier == "quick"
    m = run_tlc("MCVp9Level", "MCVp9Level.cfg" if quick else "MCVp9LevelDeep.cfg")
    if not m.ok:
        raise RuntimeError("model check failed: " + m.out[-3000:])
    ck.add_tlc(m)
    r = rng("c02")
    hists = tlc_prints(m.out, "H")
    r.shuffle(hists)
    texts = [model_script(r, h) for h in hists[:900 if quick else 12000]]
    ed = edge_scripts(r)
    texts += ed
    ck.extra["limit cases"] = len(ed)
    for _ in range(350 if quick else 8000):
        texts.append(level_script(r, r.randrange(1, 30)))
    r.shuffle(texts)
    binp = build("vp9", ["mkvmuxer", "mkvparser", "common"], ASAN + UBSAN)
    scripts = list(enumerate(texts))
    for k in range(0, len(scripts), 1500):
        validate(ck, binp, scripts[k:k + 1500], "Vp9Trace", "Vp9Trace.cfg", "accept", post=post)
    ck.assumptions.append("frames in presentation order; only frames whose header parsed are added; the bitrate (and with it the level) of a stream of duration zero is not constrained")
