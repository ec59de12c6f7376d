"""P01-P06: the seeking parser (and the streaming parser where both promise the same) against
Mkv.tla / MkvTrace.tla."""
import struct
import comp_wp
import ebml
import vlib
from vlib import rng

JUNK = [0xEC, 0xEC, 0xBF, 0x4FFE, 0x23BEEF, 0x99]


class Doc:
    """A well-formed file.  After build(): data, and what the generator needs to ask good questions."""

    def __init__(self, r, **k):
        self.r = r
        self.prefix = 0.1          # bytes before the EBML header
        self.unkseg = 0.4
        self.unkclu = 0.35
        self.emptyclu = 0.15
        self.junkp = 0.12
        self.nclu = r.choice([0, 1, 2, 2, 3, 4])
        self.nblk = r.choice([1, 2, 3, 5])
        self.ordered = False       # blocks of a track in time order, as players and cues assume
        self.badblk = 0.0
        self.cuesp = 0.6
        self.lead = 0.0            # blocks before their cluster's time
        self.trail = 0.1           # something after the segment
        self.ntracks = r.choice([1, 1, 2, 3])
        self.junkids = JUNK
        self.position = True       # obsolete; unknown to the streaming parser
        self.__dict__.update(k)

    def el(self, i, body, width=True):
        w = self.r.choice([2, 3, 4, 5, 8]) if width and self.r.random() < 0.15 else None
        return ebml.el(i, body, w)

    def u(self, i, v):
        return self.el(i, ebml.uintb(v, self.r.choice([None, None, 4, 8]) if v < 1 << 32 else None))

    def junk(self, least=0):
        r = self.r
        return self.el(r.choice(self.junkids), bytes(r.randint(0, 255) for _ in range(max(least, r.choice([0, 1, 3, 9])))))

    def mix(self, parts, least=0):
        out = []
        for p in parts:
            if self.r.random() < self.junkp:
                out.append(self.junk(least))
            out.append(p)
        if self.r.random() < self.junkp:
            out.append(self.junk(least))
        return out

    def info(self):
        r = self.r
        self.scale = r.choice([1000000, 1000000, 1, 1000, 33333, 999983])
        p = []
        if self.scale != 1000000 or r.random() < 0.7:
            p.append(self.u(ebml.TSCALE, self.scale))
        if r.random() < 0.6:
            p.append(r.choice([ebml.f4, ebml.f8])(ebml.DURATION, r.choice([0.0, 1.0, 1234.5, 99.25])))
        for i in (ebml.MUXAPP, ebml.WRITEAPP, ebml.TITLE):
            if r.random() < 0.5:
                p.append(self.el(i, r.choice([b"", b"a", b"app 1", b"caf\xc3\xa9"])))
        r.shuffle(p)
        return self.el(ebml.INFO, b"".join(self.mix(p)))

    def track(self, n, ty):
        r = self.r
        p = [self.u(ebml.TNUM, n), self.u(ebml.TUID, r.choice([1, n, 0xffffffff])), self.u(ebml.TTYPE, ty)]
        if r.random() < 0.8:
            p.append(self.el(ebml.CODECID, r.choice([b"V_VP8", b"A_OPUS", b"X"])))
        if r.random() < 0.3:
            p.append(self.el(ebml.CODECPRIV, bytes(r.randint(0, 255) for _ in range(r.choice([1, 3, 8])))))
        if r.random() < 0.3:
            p.append(self.el(0x536E, b"name"))
        if r.random() < 0.3:
            p.append(self.el(0x22B59C, b"eng"))
        if r.random() < 0.3:
            p.append(self.u(0x9C, r.choice([0, 1])))
        for i in (0x23E383, 0x56AA, 0x56BB):
            if r.random() < 0.25:
                p.append(self.u(i, r.choice([0, 1, 6500000])))
        if ty == 1:
            v = [self.u(ebml.PW, r.choice([1, 320])), self.u(ebml.PH, r.choice([1, 240]))]
            if r.random() < 0.3:
                v.append(self.u(0x54B0, 640))
            if r.random() < 0.3:
                v.append(self.u(0x53B8, 1))
            p.append(self.el(ebml.VIDEO, b"".join(v)))
        elif ty == 2:
            a = [r.choice([ebml.f4, ebml.f8])(ebml.RATE, r.choice([8000.0, 48000.0]))]
            if r.random() < 0.7:
                a.append(self.u(ebml.CHANS, r.choice([1, 2])))
            if r.random() < 0.4:
                a.append(self.u(ebml.BITDEPTH, 16))
            p.append(self.el(ebml.AUDIO, b"".join(a)))
        r.shuffle(p)
        return self.el(ebml.TRACKENTRY, b"".join(self.mix(p)))

    def tags(self):
        r = self.r
        st = b"".join(self.el(0x67C8, self.el(0x45A3, b"K%d" % i) + self.el(0x4487, b"v" * r.randint(0, 3))) for i in range(r.randint(1, 2)))
        return self.el(ebml.TAGS, self.el(0x7373, st))

    def chapters(self):
        r = self.r
        disp = self.el(0x80, self.el(0x85, b"ch") + self.el(0x437C, b"eng"))
        atom = self.u(0x73C4, 5) + self.u(0x91, r.choice([0, 7])) + self.u(0x92, 99) + disp
        return self.el(ebml.CHAPTERS, self.el(0x45B9, self.el(0xB6, atom)))

    def block(self, t, rel, key):
        r = self.r
        lk = r.choice([0, 0, 0, 1, 2, 3])
        n = 1 if lk == 0 else r.choice([1, 2, 3, 4])
        fr = [comp_wp.frame(r) if r.random() < 0.1 else bytes(r.randint(0, 255) for _ in range(r.choice([1, 1, 2, 3]))) for _ in range(n)]
        if lk == 2:
            fr = [bytes(r.randint(0, 255) for _ in range(len(fr[0]))) for _ in fr]
        group = r.random() < 0.35
        fl = (0 if group else 0x80 if key else 0) | (8 if r.random() < 0.1 else 0) | lk << 1
        if r.random() < 0.1:
            fl |= r.choice([1, 0x70]) if not group else 0
        b = ebml.vint(t, r.choice([None, None, None, 2, 4, 8])) + struct.pack(">h", rel) + bytes([fl]) + comp_wp.lace(r, fr, lk)
        if r.random() < self.badblk:
            p = r.randrange(len(b))
            b = r.choice([b[:p], b[:p] + bytes([r.choice([0, 1, 0x40, 0x80, 0xC0, 0xFF, 0x3F, 0x7F])]) + b[p + 1:], b + b"\x01"])
        if not group:
            return self.el(ebml.SIMPLEBLOCK, b)
        p = [self.el(ebml.BLOCK, b)]
        if r.random() < 0.5:
            p.append(self.u(ebml.BLOCKDUR, r.choice([0, 1, 20, 300])))
        if not key:
            for _ in range(r.choice([1, 1, 2, 3])):
                v = r.choice([-1, -20, 20, 0, -300, 5])
                p.append(self.el(ebml.REFBLOCK, v.to_bytes(r.choice([2, 4, 8]), "big", signed=True)))
        if r.random() < 0.3:
            v = r.choice([0, 1, -1, 6500000, -70000])
            p.append(self.el(ebml.DISCARD, v.to_bytes(r.choice([4, 8]), "big", signed=True)))
        if r.random() < 0.15:
            p.append(self.el(ebml.BLOCKADDS, self.el(ebml.BLOCKMORE, self.u(ebml.BLOCKADDID, 1) + self.el(ebml.BLOCKADDITIONAL, b"zz"))))
        r.shuffle(p)
        return self.el(ebml.BLOCKGROUP, b"".join(self.mix(p)))

    def cluster(self, tc):
        """Returns (element, [(track, tc, key)])."""
        r = self.r
        blocks, meta = [], []
        if r.random() >= self.emptyclu:
            cur = tc
            for _ in range(r.randint(1, self.nblk)):
                t = r.choice(self.tracks)[0]
                if self.ordered:
                    lo = self.last.get(t, 0)
                    if r.random() < self.lead and tc > 0:
                        cur = max(lo, tc - r.randint(0, 5))
                    else:
                        cur = max(lo, cur + r.choice([0, 0, 1, 2, 7]))
                    at = cur
                    self.last[t] = at
                else:
                    at = max(0, tc + r.choice([0, 0, 1, 5, 40, 300, 32767, -1, -3]))
                if not -32768 <= at - tc <= 32767:
                    continue
                key = r.random() < (0.4 if dict(self.tracks)[t] == 1 else 0.8)
                blocks.append(self.block(t, at - tc, key))
                meta.append((t, at, key))
        first = [self.u(ebml.TIMECODE, tc)]
        if r.random() < 0.2:
            first.append(self.u(ebml.PREVSIZE, 77))
        if r.random() < 0.15 and self.position:
            first.append(self.u(ebml.POSITION, 300))
        if r.random() < 0.5:
            r.shuffle(first)
        k = r.random()
        if not blocks and k < 0.3:
            first = []
        body = b"".join(self.mix(first + blocks))
        unk = r.random() < self.unkclu
        w = r.choice([1, 8, 8, 4, 2]) if unk else r.choice([None, None, 8, 4])
        return ebml.el(ebml.CLUSTER, body, w, unknown=unk), meta

    def cues(self, clusters):
        """clusters: [(position, [(track, tc, key)])] -> the Cues element, with fixed widths."""
        r = self.r
        pts = []
        for t in sorted({b[1] for _, bl in clusters for b in bl}):
            sel = []
            for pos, bl in clusters:
                n = 0
                for j, b in enumerate(bl):
                    if b[1] == t and b[0] not in [s[0] for s in sel]:
                        sel.append((b[0], pos, j + 1))
            sel = [s for s in sel if r.random() < self.cuekeep(s[0])]
            if not sel:
                continue
            tps = []
            for s in sel:
                q = [ebml.u(ebml.CUETRACK, s[0]), ebml.u(ebml.CUECPOS, s[1], 4)]
                k = r.random()
                if k < 0.75 or s[2] != 1:
                    num = s[2] if k < 0.8 else r.choice([1, s[2], 2] + [j + 1 for p, bl in clusters if p == s[1] for j, b in enumerate(bl) if b[1] == t] * 2)
                    if num != 1 or k < 0.5:
                        q.append(ebml.u(ebml.CUEBLOCK, num))
                tps.append(ebml.el(ebml.CUETPOS, b"".join(q)))
            pts.append(ebml.el(ebml.CUEPOINT, ebml.u(ebml.CUETIME, t, 4) + b"".join(tps)))
            self.cuetimes.append(t)
        return ebml.el(ebml.CUES, b"".join(pts), 4)

    def cuekeep(self, t):
        return 0.7

    def build(self):
        r = self.r
        self.last, self.cuetimes = {}, []
        nums = r.sample([1, 2, 3, 5, 126, 127], self.ntracks) if r.random() < 0.5 else list(range(1, self.ntracks + 1))
        self.tracks = [(n, r.choice([1, 1, 2, 2, 17])) for n in nums]
        if self.ordered:
            self.tracks = [(n, t if t != 17 else 2) for n, t in self.tracks]
        head = [self.info(), self.el(ebml.TRACKS, b"".join(self.mix([self.track(n, t) for n, t in self.tracks])))]
        if r.random() < 0.3:
            head.append(self.el(ebml.SEEKHEAD, b"".join(self.el(ebml.SEEK, self.el(ebml.SEEKID, ebml.idb(ebml.CUES)) + self.u(ebml.SEEKPOS, 400)) for _ in range(r.randint(1, 2)))
                                + b"".join(ebml.el(0xEC, bytes(r.choice([0, 0, 1, 5]))) for _ in range(r.choice([0, 0, 1, 3])))))
        if r.random() < 0.25:
            head.append(self.tags())
        if r.random() < 0.25:
            head.append(self.chapters())
        r.shuffle(head)
        head = self.mix(head)
        tc, cl = r.choice([0, 0, 3, 40]), []
        for _ in range(self.nclu):
            cl.append(self.cluster(tc))
            tc += r.choice([0, 1, 5, 30, 700]) if not self.ordered else r.choice([1, 5, 30, 700])
        where = r.choice(["front", "back", "back"]) if r.random() < self.cuesp else None
        # positions depend on the cues only through their length, which does not depend on positions
        st = r.getstate()
        for attempt in (0, 1):
            r.setstate(st)
            self.cuetimes = []
            if attempt == 0:
                poss = [0] * len(cl)
            cues = self.cues(list(zip(poss, [m for _, m in cl]))) if where else b""
            body = b"".join(head) + (cues if where == "front" else b"")
            poss = []
            for e, _ in cl:
                poss.append(len(body))
                body += e
                if r.random() < self.junkp:
                    body += ebml.el(r.choice(self.junkids), b"\x1f\x43\xb6\x75\x81"[:r.randint(0, 5)])
            if where == "back":
                self.cuesat = len(body)
                body += cues
            elif where == "front":
                self.cuesat = len(b"".join(head))
            else:
                self.cuesat = -1
            if r.random() < 0.15:
                body += self.tags() if r.random() < 0.5 else self.junk()
        self.clusters = list(zip(poss, [m for _, m in cl]))
        size = len(body)
        unk = r.random() < self.unkseg
        pre = bytes(r.choice([0, 0x45, 0xff, 0x80]) for _ in range(r.choice([1, 2, 9]))) if r.random() < self.prefix else b""
        eb = self.el(ebml.EBML, b"".join(self.mix([self.u(0x4286, 1), self.u(0x42F7, 1), self.u(0x42F2, 4), self.u(0x42F3, 8),
                                                   self.el(0x4282, r.choice([b"webm", b"matroska"])), self.u(0x4287, r.choice([1, 4])), self.u(0x4285, 2)], 1)))
        mid = ebml.el(0xEC, b"\x18\x53"[:r.randint(0, 2)]) if r.random() < 0.1 else b""
        d = pre + eb + mid
        d += ebml.el(ebml.SEGMENT, body, r.choice([1, 8, 8, 4]) if unk else r.choice([None, None, 8, 4]), unknown=unk)
        self.end = len(d)
        self.base = len(d) - size
        if not unk and r.random() < self.trail:
            d += r.choice([ebml.el(0xEC, b"abc"), b"\x1f\x43\xb6\x75\x80", b"\x00\x00"])
        self.data = d
        return self


def gen(r, **k):
    return Doc(r, **k).build()


FLAGS = vlib.ASAN + vlib.UBSAN


def binary():
    return vlib.build("mkv", ["mkvparser", "webm_parser"], flags=FLAGS)


def judge(ck, cases, filt=None, batch=1500, mode="full"):
    """cases: list of (doc bytes, script lines[, mode])."""
    binp = binary()
    for b in range(0, len(cases), batch):
        scripts, info = [], {}
        for n, c in enumerate(cases[b:b + batch]):
            sid = "k%d" % (b + n)
            scripts.append((sid, "\n".join(["doc " + c[0].hex()] + list(c[1]))))
            info[sid] = (c[0], c[2] if len(c) > 2 else mode)
        # what the headers say when the whole file is there
        whole = {}
        for sid, (d, m) in info.items():
            if m != "free":
                whole.setdefault(d, "doc " + d.hex() + "\neb\nsg\nph")
        keys = list(whole)
        res = vlib.run_harness(binp, [(i, whole[d]) for i, d in enumerate(keys)])
        refs = {}
        for i, d in enumerate(keys):
            hd = [e for e in res[i].get("ev", []) if e["c"] == "hd"]
            refs[d] = hd[0]["dump"] if hd else ""

        def post(t, sid):
            d, m = info[sid]
            t.update(doc=list(d), mode=m, ref=refs.get(d, ""))
            return t
        vlib.validate(ck, binp, scripts, "MkvTrace", "MkvTrace.cfg", "accept", post=post, filt=filt)
        if ck.violations:
            return


def large(r, tier):
    """Files beyond the parser's initial table sizes and search limits."""
    cases = []
    one = lambda t, rel: ebml.el(ebml.SIMPLEBLOCK, ebml.vint(t) + struct.pack(">h", rel) + b"\x80z")
    def doc(clusters, unk):
        d = gen(r, nclu=0, cuesp=0, junkp=0, ntracks=2, unkseg=1.0, prefix=0, trail=0, ordered=True)
        return d, d.data + b"".join(ebml.el(ebml.CLUSTER, ebml.u(ebml.TIMECODE, i) + b"".join(c), unknown=unk) for i, c in enumerate(clusters(d)))
    for n in (1023, 1024, 1025, 2049) if tier != "quick" else (r.choice([1023, 1024, 1025, 1026]),):
        d, x = doc(lambda d: [[one(d.tracks[0][0], i) for i in range(n)]], r.random() < 0.5)
        cases.append((x, OPEN + ["la", "ea", "gl 0"]))
    for gap in (97, 98, 99, 100, 101, 120) if tier != "quick" else (r.choice([97, 98]), r.choice([99, 100, 101])):
        d, x = doc(lambda d: [[one(d.tracks[0][0], 0), one(d.tracks[1][0], 1)]] + [[one(d.tracks[0][0], 0)]] * gap + [[one(d.tracks[1][0], 0)]], False)
        cases.append((x, OPEN + ["la", "ta %d" % d.tracks[0][0], "ta %d" % d.tracks[1][0]]))
    for n in (2047, 2048, 2049, 4097) if tier != "quick" else (r.choice([2048, 2049, 2050]),):
        d, x = doc(lambda d: [[one(d.tracks[0][0], 0)] for _ in range(n)], r.random() < 0.3)
        cases.append((x, OPEN + ["la"] + ["e1 %d" % (n - k) for k in range(1, 6)] + ["e1 %d" % r.randrange(n) for _ in range(6)]))
    return cases


def p01(ck, tier):
    r = rng("p01", tier)
    n = 800 if tier == "quick" else 12000
    cases = []
    for _ in range(n):
        d = gen(r, badblk=0.0, junkp=r.choice([0, 0.12, 0.4]))
        lines = ["eb", "sg", "ph"]
        k = r.random()
        iters = ["la", "ea"] + ["ta %d" % t for t, _ in d.tracks]
        if k < 0.4:
            lines += iters
        elif k < 0.7:       # entries and clusters interleaved
            for _ in range(r.randint(3, 12)):
                lines.append(r.choice(["lc", "e1 %d" % r.randint(0, 5), "tn %d" % r.choice(d.tracks)[0], "gl %d" % r.randint(0, 4)]))
            lines += iters
        else:
            lines += ["lc", "first"] + ["cen", "pn"] * (d.nclu + 1) + iters
        cases.append((d.data, lines))
    for d in sorted({d for d, _ in model(ck, tier != "quick")}):
        cases.append((d, OPEN + ["la", "ea", "ta 1", "ta 2"]))
    cases += large(r, tier)
    judge(ck, cases)


def grow(r, d, exhaustive=False):
    """A session over a file that becomes available bit by bit."""
    n = len(d.data)
    lines = []
    if r.random() < 0.4 and n == d.end:     # while the length is unknown, so is the segment's end
        lines.append("unknown")
    if exhaustive:
        points = list(range(0, n + 1))
    else:
        k = r.random()
        if k < 0.3:
            points = sorted(r.sample(range(n), min(n, r.randint(1, 6))))
        elif k < 0.6:
            points = list(range(r.randint(0, 5), n, r.choice([2, 3, 7, 20])))
        else:          # a dense stretch, so that every byte of a few elements is a boundary
            a = r.randrange(n)
            points = sorted(set(r.sample(range(n), min(n, 3)) + list(range(a, min(n, a + r.randint(5, 40))))))
        points.append(n)
    style = r.choice(["load", "load", "entries", "track", "mix", "next", "pre"])
    full = [c[0] for c in d.clusters if c[1]]
    pre = r.choice(full) if full else None
    if style == "pre" and not full:
        style = "load"
    bounds = {e[0] for e in elements(d.data)}
    if not exhaustive and r.random() < 0.5:      # element boundaries, where an end is easily mistaken
        points = sorted(bounds if r.random() < 0.5 else r.sample(sorted(bounds), min(len(bounds), 12))) + [n]
    lines.append("avail %d" % points[0])
    held = False
    for p in points:
        lines.append("avail %d" % p)
        lines += ["eb", "sg", "ph"]
        if style == "load":
            lines.append("lc" if r.random() < 0.7 else "la")
        elif style == "entries":
            lines += ["lc", "ea"]
        elif style == "track":
            lines += ["lc", "tn %d" % r.choice(d.tracks)[0]]
        elif style == "next":
            lines += ["lc", "first", "cen", "pn"] if r.random() < 0.2 else ["cen", "pn"]
        elif style == "pre":
            if p >= d.base + pre and not held:
                lines.append("pre %d" % pre)
                held = r.random() < 0.7
            lines += r.choice([["pn"], ["cen", "pn"], ["cen"], ["pn", "pn"]]) + r.choice([[], [], ["lc"], ["la"]])
        else:
            lines += r.sample(["lc", "la", "ea", "e1 %d" % r.randint(0, 4), "gl %d" % r.randint(0, 4), "tn %d" % r.choice(d.tracks)[0],
                               "pn", "cen", "cu"], r.randint(1, 3))
    lines += ["la", "ea", "ca"] + ["ta %d" % t for t, _ in d.tracks] + ["gl %d" % i for i in range(3)]
    return lines


def p02(ck, tier):
    r = rng("p02", tier)
    n, m = (500, 60) if tier == "quick" else (8000, 1500)
    cases = [(d.data, grow(r, d)) for d in (gen(r, junkp=r.choice([0, 0.1])) for _ in range(n))]
    for _ in range(m):
        d = gen(r, junkp=0.03, prefix=0.1, nclu=r.choice([1, 2, 3]), nblk=2)
        cases.append((d.data, grow(r, d, True)))
    for d, h in model(ck, tier != "quick"):
        lines = ["unknown"] if r.random() < 0.3 else []
        for a in h:
            lines += ["lc"] if a == 0 else ["avail %d" % a] + OPEN + (["ea"] if r.random() < 0.5 else [])
            if a and r.random() < 0.5:
                lines += r.sample(["ta 1", "ta 2", "gl 0", "lc"], r.randint(1, 2))
        cases.append((d, lines + ["la", "ea", "ta 1", "ta 2"]))
    judge(ck, cases)


def p04docs(r, **k):
    return gen(r, ordered=True, unkclu=r.choice([0, 0, 0.4]), emptyclu=r.choice([0, 0.15]), nclu=r.choice([1, 2, 3, 4, 6, 9]), nblk=r.choice([1, 2, 4]),
               ntracks=r.choice([1, 2, 2]), cuesp=0.9, lead=r.choice([0, 0, 0.3]), junkp=0.05, **k)


def when(r, d):
    """A query time around something that happens in d."""
    ts = [b[1] for _, bl in d.clusters for b in bl] + d.cuetimes + [0, 1]
    t = r.choice(ts) + r.choice([0, 0, 0, 1, -1, 100000])
    return "%d %d" % (max(0, t), r.choice([0, 0, d.scale - 1, d.scale // 2]) if d.scale > 1 else 0)


def p04(ck, tier):
    r = rng("p04", tier)
    cases = []
    for _ in range(500 if tier == "quick" else 8000):
        d = p04docs(r)
        pos = [c[0] for c in d.clusters if c[1]]
        lines = ["eb", "sg", "ph"]
        if d.cuesat >= 0 and r.random() < 0.5:
            lines.append("pc %d" % d.cuesat)
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < 0.35:
                lines.append(r.choice(["lc", "lc", "la"]))
            elif k < 0.45:
                lines.append(r.choice(["cu", "ca"]))
            elif k < 0.55 and pos:
                for _ in range(r.choice([1, 1, 2, 4, 6])):
                    lines.append("pre %d" % r.choice(pos))
            elif k < 0.65:
                lines += r.sample(["cen", "pn", "gn", "first"], 2)
            elif k < 0.72:
                lines.append("ea")
        if r.random() < 0.7:
            lines += r.sample(["la", "ca"], 2)
        for _ in range(r.randint(3, 12)):
            t = r.choice(d.tracks)[0]
            k = r.random()
            if k < 0.35:
                lines.append("fi %d %s" % (t, when(r, d)))
                if r.random() < 0.4:
                    lines += r.sample(["cen", "pn", "gn", "lc", "pn"], r.randint(1, 4))
            elif k < 0.6:
                lines.append("fc " + when(r, d))
            elif k < 0.9:
                lines.append("sk %d %s" % (t, when(r, d)))
            else:
                lines.append(r.choice(["lc", "cu", "ea"]))
        if r.random() < 0.5:
            lines += ["la", "ea"] + ["ta %d" % t for t, _ in d.tracks]
        cases.append((d.data, lines))
    # more clusters found by their offset than the table of clusters first holds
    for n in (2049,) if tier == "quick" else (2048, 2049, 4100):
        d = gen(r, nclu=0, cuesp=0, junkp=0, ntracks=1, unkseg=1.0, prefix=0, trail=0, ordered=True)
        x, seg = d.data, d.data.index(ebml.idb(ebml.SEGMENT)) + 12
        pos = []
        for i in range(n):
            pos.append(len(x) - seg)
            x += ebml.el(ebml.CLUSTER, ebml.u(ebml.TIMECODE, i) + ebml.simple_block(d.tracks[0][0], 0, b"z"))
        ask = pos[:]
        r.shuffle(ask)
        lines = OPEN + ["lc"] * r.randint(1, 3) + ["pre %d" % p for p in ask]
        for _ in range(20):
            lines += ["pre %d" % r.choice(pos), "gn"]
        cases.append((x, lines + ["lc", "lc"]))
    for d in sorted({d for d, _ in model(ck, tier != "quick")}):
        top = 10 * d.count(b"\x1f\x43\xb6\x75") + 7
        cases.append((d, OPEN + ["la"] + ["sk %d %d 0" % (1 + t % 2, t // 2) for t in range(2 * top)] + ["fc %d 0" % t for t in range(0, top, 2)]))
    judge(ck, cases)


def model(ck, deep):
    """Explore the specification on small files; returns the sessions it went through."""
    m = vlib.run_tlc("MCMkv", "MCMkvDeep.cfg" if deep else "MCMkv.cfg")
    if not m.ok:
        raise vlib.TlcError(m.out[-3000:])
    ck.add_tlc(m)
    return [(bytes(h["doc"]), h["h"]) for h in vlib.tlc_prints(m.out, "HIST")]


OPEN = ["eb", "sg", "ph"]


def everything(d):
    return ["la", "ea"] + ["ta %d" % t for t, _ in d.tracks] + ["ca"]


def lacecases(r, limit):
    """Every small arrangement of lace bytes, in a file of their own."""
    for body in comp_wp.laces(r, limit):
        d = gen(r, nclu=0, cuesp=0, junkp=0.02, ntracks=1, unkseg=1.0, prefix=0, trail=0)
        n = d.tracks[0][0]
        body = ebml.vint(n) + body[1:]
        b = ebml.el(0xA3, body) if r.random() < 0.5 else ebml.el(0xA0, ebml.el(0xA1, body))
        if r.random() < 0.5:
            b += ebml.el(0xA3, ebml.vint(n) + b"\0\1\x80z")
        if r.random() < 0.3:
            b = ebml.el(0xA3, ebml.vint(n) + b"\0\1\x80z") + b
        yield d, d.data + ebml.el(ebml.CLUSTER, ebml.u(ebml.TIMECODE, 1) + b, unknown=r.random() < 0.2)


def p03(ck, tier):
    r = rng("p03", tier)
    n = 1200 if tier == "quick" else 30000
    cases = [(x, OPEN + ["la", "ea"]) for d, x in lacecases(r, n)]
    for _ in range(300 if tier == "quick" else 6000):
        d = gen(r, badblk=r.choice([0, 0.3]), nclu=2, nblk=3, junkp=0.02)
        cases.append((d.data, OPEN + ["la", "ea"]))
    # long runs: many frames, 255-runs, every width of EBML size and difference
    for k in range(60 if tier == "quick" else 600):
        d = gen(r, nclu=0, cuesp=0, junkp=0, ntracks=1, unkseg=1.0, prefix=0, trail=0)
        t = d.tracks[0][0]
        lk = r.choice([1, 1, 2, 3, 3])
        cnt = r.choice([1, 2, 3, 8, 40, 256] if tier != "quick" or k < 12 else [1, 2, 3, 8])
        top = 2000 if cnt <= 3 else 600 if cnt <= 8 else 9
        szs = [r.choice([1, 2, 63, 64, 126, 127, 128, 190, 191, 253, 254, 255, 256, 509, 510, 511, 765, top]) if top > 9 else r.randint(1, top) for _ in range(cnt)]
        fr = [bytes([i & 255]) * z for i, z in enumerate(szs)]
        if lk == 2:
            fr = [bytes([i & 255]) * szs[0] for i in range(cnt)]
        b = ebml.vint(t) + b"\0\1" + bytes([lk << 1 | 0x80]) + comp_wp.lace(r, fr, lk)
        x = d.data + ebml.el(ebml.CLUSTER, ebml.u(ebml.TIMECODE, 1) + ebml.el(0xA3, b))
        cases.append((x, OPEN + ["la", "ea"]))
    # differences at the ends of what a width can hold
    edges = [(a, a + x) for w in (1, 2) for x in ((1 << (7 * w - 1)) - 1, (1 << (7 * w - 1)) - 2, 1, 0) for a in (1, 2, 100)]
    edges += [(b, a) for a, b in edges]
    if tier == "quick":
        edges = [p for p in edges if max(p) < 400] + r.sample([p for p in edges if max(p) >= 400], 3)
    for a, b in edges:
        for w in (None, 8) if max(a, b) < 400 else (None,):
            d = gen(r, nclu=0, cuesp=0, junkp=0, ntracks=1, unkseg=1.0, prefix=0, trail=0)
            lo = 1 if abs(b - a) < 64 else 2
            w = w or lo
            h = bytes([2]) + ebml.vint(a) + ((1 << (7 * w)) | (b - a + (1 << (7 * w - 1)) - 1)).to_bytes(w, "big")
            x = ebml.vint(d.tracks[0][0]) + b"\0\1\x86" + h + b"a" * a + b"b" * b + b"c"
            cases.append((d.data + ebml.el(ebml.CLUSTER, ebml.u(ebml.TIMECODE, 1) + ebml.el(0xA3, x)), OPEN + ["la", "ea"]))
    judge(ck, cases)
    if ck.violations:
        return
    # the streaming parser, over the same blocks
    docs = list(comp_wp.lacedocs(r, n)) + [c[0] for c in cases[n:]]
    comp_wp.judge(ck, [(x, None, [comp_wp.sched(r)] if r.random() < 0.3 else []) for x in docs])


def p06(ck, tier):
    r = rng("p06", tier)
    cases = []
    for d, h in model(ck, tier != "quick"):
        cases.append((d, ["cut %d" % h[0]] + OPEN + ["la", "ea", "ta 1", "ta 2", "stream"], "cut"))
    for _ in range(40 if tier == "quick" else 600):
        d = gen(r, junkp=0.1, junkids=[0xEC], position=False, prefix=0, nclu=r.choice([1, 2, 3]), nblk=3, cuesp=0.3, trail=0)
        n = len(d.data)
        cuts = range(n + 1) if tier != "quick" else sorted(r.sample(range(n), min(n, 30)))
        for c in cuts:
            k = r.random()
            lines = ["cut %d" % c] if k < 0.6 else ["avail %d" % c] if k < 0.8 else ["unknown", "avail %d" % c]
            there = [q for q, m in d.clusters if m and d.base + q < c]
            held = ["pre %d" % r.choice([there[-1], r.choice(there)]), "cen"] if there and r.random() < 0.4 else []
            cases.append((d.data, lines + OPEN + (held + everything(d) if r.random() < 0.5 else everything(d) + held) + ["stream"], "cut"))
    judge(ck, cases)


MASTERS = {ebml.EBML, ebml.SEGMENT, ebml.INFO, ebml.TRACKS, ebml.TRACKENTRY, ebml.VIDEO, ebml.AUDIO, ebml.CLUSTER, ebml.BLOCKGROUP, ebml.CUES,
           ebml.CUEPOINT, ebml.CUETPOS, ebml.SEEKHEAD, ebml.SEEK, ebml.TAGS, 0x7373, 0x67C8, ebml.CHAPTERS, 0x45B9, 0xB6, 0x80, 0x6D80, 0x6240,
           0x5034, 0x5035, 0x47E7, 0x55B0, 0x55D0, 0x7670, ebml.BLOCKADDS, ebml.BLOCKMORE}


def elements(d, p=0, end=None):
    """[(offset, header length, id)] of a well-formed file, all levels."""
    out, end = [], len(d) if end is None else end
    while p < end:
        try:
            i, a = ebml.read_id(d, p)
            s, b = ebml.read_vint(d, p + a)
        except ebml.DecodeError:
            return out
        out.append((p, a + b, i))
        unk = s == (1 << (7 * b)) - 1
        stop = end if unk else p + a + b + s
        if i in MASTERS:
            out += elements(d, p + a + b, stop)
        if unk:
            return out
        p = stop
    return out


# children the writer of Doc does not produce: content encodings, colour, projection, a title and more
def rich(r, d):
    """Extra track entries with everything the parser knows, appended as a second Tracks-like file."""
    e, u = ebml.el, ebml.u
    aes = e(0x47E7, u(0x47E8, r.choice([0, 1, 2])))
    enc = e(0x5035, u(0x47E1, r.choice([0, 5, 6])) + e(0x47E2, b"key") + aes + e(0x47E3, b"s") + e(0x47E4, b"k") + u(0x47E5, 1) + u(0x47E6, 1))
    comp = e(0x5034, u(0x4254, r.choice([0, 3, 4])) + e(0x4255, b"\x01\x02"))
    ce = e(0x6D80, e(0x6240, u(0x5031, 0) + u(0x5032, 1) + u(0x5033, r.choice([0, 1])) + r.choice([enc, comp, enc + comp, comp + comp, enc + enc])))
    mm = e(0x55D0, b"".join(ebml.f4(i, r.choice([0.1, 1.0, 0.0])) for i in (0x55D1, 0x55D2, 0x55D3, 0x55D4, 0x55D5, 0x55D6, 0x55D7, 0x55D8, 0x55D9, 0x55DA) if r.random() < 0.9))
    col = e(0x55B0, b"".join(u(i, r.choice([0, 1, 2, 8, 1000])) for i in (0x55B1, 0x55B2, 0x55B3, 0x55B4, 0x55B5, 0x55B6, 0x55B7, 0x55B8, 0x55B9, 0x55BA, 0x55BB, 0x55BC, 0x55BD) if r.random() < 0.7) + mm)
    prj = e(0x7670, u(0x7671, r.choice([0, 1, 2, 3, 4])) + e(0x7672, b"\0\0\0\1") + b"".join(ebml.f4(i, 1.5) for i in (0x7673, 0x7674, 0x7675)))
    v = e(ebml.VIDEO, u(0xB0, 4) + u(0xBA, 3) + u(0x54B0, 4) + u(0x54BA, 3) + u(0x54B2, 0) + u(0x53B8, 1) + u(0x54AA, 1) + u(0x54BB, 1) + u(0x54CC, 1) + u(0x54DD, 1) + col + prj + ebml.f4(0x2383E3, 24.0) + e(0x2EB524, b"abcd"))
    te = e(ebml.TRACKENTRY, u(0xD7, 9) + u(0x73C5, 9) + u(0x83, 1) + e(0x86, b"V_VP9") + e(0x63A2, b"\1\1\1") + e(0x258688, b"codec") + u(0x9C, 0) + v + ce)
    return te


def tree(d, p=0, end=None):
    """[(id, width, unknown, children or bytes)] of a well-formed file."""
    out, end = [], len(d) if end is None else end
    while p < end:
        try:
            i, a = ebml.read_id(d, p)
            s, b = ebml.read_vint(d, p + a)
        except ebml.DecodeError:
            out.append((None, 0, False, d[p:end]))
            return out
        unk = s == (1 << (7 * b)) - 1
        stop = end if unk else min(end, p + a + b + s)
        if unk and i == ebml.CLUSTER:            # up to the next of its kind
            q = p + a + b
            while q < end:
                try:
                    i2, a2 = ebml.read_id(d, q)
                    s2, b2 = ebml.read_vint(d, q + a2)
                except ebml.DecodeError:
                    break
                if i2 in (ebml.CLUSTER, ebml.CUES):
                    break
                q += a2 + b2 + s2
            stop = min(q, end)
        body = d[p + a + b:stop]
        out.append((i, b, unk, tree(d, p + a + b, stop) if i in MASTERS else body))
        p = stop
    return out


def untree(t):
    out = b""
    for i, w, unk, c in t:
        if i is None:
            out += c
            continue
        body = c if isinstance(c, bytes) else untree(c)
        w = w if len(body) < (1 << (7 * w)) - 1 else None
        out += ebml.el(i, body, w, unknown=unk)
    return out


def restructure(r, d):
    """Elements inserted, repeated, emptied, dropped or moved, with all sizes right."""
    t = tree(d)
    masters = []

    def walk(l):
        masters.append(l)
        for x in l:
            if isinstance(x[3], list):
                walk(x[3])
    walk(t)
    for _ in range(r.choice([1, 1, 2, 4])):
        l = r.choice(masters)
        k = r.random()
        at = r.randint(0, len(l))
        if k < 0.3 or not l:
            for _ in range(r.choice([1, 1, 2, 5])):
                l.insert(at, (r.choice([0xEC, 0xEC, 0xBF, r.choice(IDS)]), 1, False, bytes(r.choice([0, 0, 1, 3]))))
        elif k < 0.5:
            x = r.choice(l)
            for _ in range(r.choice([1, 1, 2, 7])):
                l.insert(at, x)
        elif k < 0.7:
            j = r.randrange(len(l))
            i, w, unk, c = l[j]
            if i is not None:
                l.insert(at, (i, w, False, b""))
                if r.random() < 0.5:
                    l.remove(l[j])
        elif k < 0.85:
            l.pop(r.randrange(len(l)))
        else:
            l.insert(at, l.pop(r.randrange(len(l))))
    return untree(t)


def mutate(r, d):
    els = elements(d)
    if not els:
        return d
    k = r.random()
    if k < 0.35:
        return restructure(r, d)
    k = r.random()
    b = bytearray(d)
    off, hl, i = r.choice(els)
    il = len(ebml.idb(i))
    if k < 0.25:            # a size: unknown, huge, zero, off by one
        w = hl - il
        lim = (1 << (7 * w)) - 2
        old = int.from_bytes(b[off + il:off + hl], "big") & ((1 << (7 * w)) - 1)
        v = r.choice([0, 1, 2, 3, 4, 7, 8, 9, old - 1, old + 1, old + 2, old // 2, lim, lim - 1, lim // 2, 1 << 31, 1 << 32, (1 << 62) >> 7, len(d), r.randint(0, 40), None])
        if v is None:
            b[off + il:off + hl] = ebml.vint(ebml.UNKNOWN, w)
        elif r.random() < 0.5:
            b[off + il:off + hl] = ebml.vint(max(0, min(v, lim)), w)
        else:
            b[off + il:off + hl] = ebml.vint(max(0, v), 8)
    elif k < 0.45:          # a value
        p = off + hl
        n = r.randint(1, 8)
        for q in range(p, min(len(b), p + n)):
            b[q] = r.choice([0, 0x7F, 0x80, 0xFF, 1, b[q], b[q]])
    elif k < 0.55:          # any byte
        b[r.randrange(len(b))] = r.choice([0, 1, 0x10, 0x40, 0x7F, 0x80, 0xFF, r.randint(0, 255)])
    elif k < 0.65:          # another identifier
        same = [x for x in IDS if len(ebml.idb(x)) == il]
        if same:
            b[off:off + il] = ebml.idb(r.choice(same))
    elif k < 0.75:          # an element copied somewhere else
        o2, h2, _ = r.choice(els)
        e2 = [x for x in els if x[0] > o2]
        stop = e2[0][0] if e2 else len(b)
        b[off:off] = b[o2:max(stop, o2 + h2)]
    elif k < 0.83:          # an element removed, sizes untouched
        nxt = [x[0] for x in els if x[0] > off]
        del b[off:(nxt[0] if nxt else len(b))]
    elif k < 0.9:
        del b[r.randrange(len(b)):]
    else:                   # a value replaced by an extreme of another width, its size adjusted
        p = off + hl
        nxt = [x[0] for x in els if x[0] > off]
        stop = min(nxt[0] if nxt else len(b), p + 8)
        v = r.choice([b"", b"\0", b"\xff", b"\x7f" + b"\xff" * 7, b"\x80" + b"\0" * 7, b"\xff" * 8, b"\xff" * 9, b"\0" * 9, b"\x7f\xf0" + b"\0" * 6, b"\x7f\x80\0\0", b"\xbf\xf0" + b"\0" * 6])
        b[off + il:stop] = ebml.vint(len(v)) + v
    return bytes(b)


IDS = sorted(MASTERS | {0xA3, 0xA1, 0xE7, 0xEC, 0xBF, 0xD7, 0x83, 0x86, 0x73C5, 0xB3, 0xF7, 0xF1, 0x5378, 0x2AD7B1, 0x4489, 0x4D80, 0x7BA9, 0x63A2, 0xFB, 0x9B, 0x75A2, 0x53AB, 0x53AC, 0x4282,
                       0x4286, 0x42F2, 0x42F3, 0x45A3, 0x4487, 0x91, 0x92, 0x85, 0x437C, 0xB5, 0x9F, 0xB0, 0xBA})


def poke(r, d):
    """A session that tries everything."""
    ts = [t for t, _ in d.tracks] + [9, 1]
    lines = list(OPEN)
    for _ in range(r.randint(3, 14)):
        t = r.choice(ts)
        lines.append(r.choice(["lc", "lc", "la", "ea", "ea", "e1 %d" % r.randint(0, 3), "gl %d" % r.randint(0, 3), "tn %d" % t, "ta %d" % t, "cu", "ca", "first", "cen", "pn", "gn",
                               "fi %d %s" % (t, when(r, d)), "fc " + when(r, d), "sk %d %s" % (t, when(r, d)), "pc %d" % max(0, d.cuesat),
                               "pre %d" % r.choice([c[0] for c in d.clusters] + [0, 5, 1 << 40])]))
    return lines + ["la", "ea"] + ["ta %d" % t for t in ts[:2]]


def p05(ck, tier):
    r = rng("p05", tier)
    cases = []
    for k in range(3000 if tier == "quick" else 60000):
        d = gen(r, junkp=r.choice([0, 0.1]), nclu=r.choice([1, 2, 3]), nblk=2, cuesp=0.9, ordered=r.random() < 0.3)
        x = d.data
        if r.random() < 0.3:      # put a rich track entry in
            tr = [e for e in elements(x) if e[2] == ebml.TRACKS]
            if tr:
                o, h, _ = tr[0]
                s, w = ebml.read_vint(x, o + 4)
                te = rich(r, d)
                if w >= 2 or s + len(te) < 127:
                    x = x[:o + 4] + ebml.vint(s + len(te), w) + te + x[o + h:]
                else:
                    x = x[:o + 4] + ebml.vint(s + len(te), 8) + te + x[o + h:]
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            x = mutate(r, x) if x else x
        lines = []
        q = r.random()
        if q < 0.2:
            lines.append("unknown")
        elif q < 0.3:
            lines.append("under %d" % r.choice([-1, -3, 1]))
        elif q < 0.4:
            lines.append("%s %d %d %d" % (r.choice(["fail", "fail1"]), r.randint(0, 200), r.choice([-1, -3, 1, -2]), r.randint(0, 1)))
        if r.random() < 0.2:
            lines.append("avail %d" % r.randrange(len(x) + 1))
        lines.append("free")
        lines += poke(r, d)
        if r.random() < 0.2:
            lines.append("avail %d" % len(x))
            lines += poke(r, d)
        if r.random() < 0.2:
            lines.append("stream")
        cases.append((x, lines, "free"))
    cases += faults(r, 60, False) if tier == "quick" else faults(r, 300, True)
    judge(ck, cases)


def faults(r, n, every):
    """Reads that fail at some point of a session over a well-formed file."""
    cases = []
    for _ in range(n):
        d = p04docs(r) if r.random() < 0.3 else gen(r, junkp=0.05, nclu=r.choice([1, 2, 3]), nblk=2, cuesp=0.9)
        s = ["ea", "la", "ca", "ta %d" % d.tracks[0][0], "gl 0", "cen"]
        r.shuffle(s)
        lines = OPEN + ["lc", "first"] + s[:r.randint(1, 6)]
        top = 4 * len(d.data)
        for at in (range(0, top, 3) if every else sorted(r.sample(range(top), 12))):
            f = "%s %d %d 0" % (r.choice(["fail", "fail1"]), at, r.choice([-1, -3, 1, -2]))
            cases.append((d.data, [f] + lines, "cut"))
    return cases
