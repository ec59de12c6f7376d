"""W01-W06: the streaming parser against Webm.tla / WebmTrace.tla."""
import os
import re
import struct
import ebml
import vlib
from vlib import rng

ROW = re.compile(r'<<"(\w+)", \\h([0-9A-F]+), "(\w*)", "(\w+)", "([\w-]+)", (TRUE|FALSE), (.*)>>,?$')


def load_schema():
    kids = {}
    for ln in open(os.path.join(vlib.SPECS, "WebmSchema.tla")):
        m = ROW.match(ln.strip())
        if m:
            kids.setdefault(m.group(1), []).append((int(m.group(2), 16), m.group(4), m.group(5), m.group(3)))
    return kids


KIDS = load_schema()
UNKNOWN_IDS = [0xBF, 0x4FFE, 0x1941A469, 0xC8, 0x23BEEF, 0x99]
SEG, EBM, VOID = 0x18538067, 0x1A45DFA3, 0xEC


class Opt:
    """Knobs of the document generator."""

    def __init__(self, **k):
        self.unknown = 0.15     # unknown-size masters
        self.junk = 0.08        # void and unknown elements
        self.wide = 0.2         # over-long sizes
        self.budget = 14        # elements per document, roughly
        self.badlace = 0.0
        self.empty = 0.1
        self.depth = 3
        self.__dict__.update(k)


def uint(r):
    n = r.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8])
    k = r.random()
    if k < 0.25:
        return bytes(n)
    if k < 0.5:
        return b"\xff" * n
    if k < 0.75:
        return b"\x80" + bytes(n - 1)
    return bytes(r.randint(0, 255) for _ in range(n))


def flt(r):
    if r.random() < 0.5:
        k = r.random()
        if k < 0.3:
            return struct.pack(">f", r.choice([0.0, -0.0, 1.0, -1.5, 44100.0, 0.1, 1e-45, 1.17549435e-38, 3.4e38, float("inf"), float("-inf"), 5.877e-39]))
        b = bytes(r.randint(0, 255) for _ in range(4))
        return b if (b[0] & 127) * 2 + b[1] // 128 != 255 else bytes([b[0], 0]) + b[2:]
    if r.random() < 0.3:
        return struct.pack(">d", r.choice([0.0, -0.0, 1.0, -1.5, 48000.0, 0.1, 5e-324, 1.8e308, float("inf")]))
    b = bytes(r.randint(0, 255) for _ in range(8))
    return b if (b[0] & 127) != 127 else bytes([b[0] & 0xBF]) + b[1:]


def text(r):
    n = r.choice([1, 2, 3, 4, 7])
    s = bytes(r.choice([65, 66, 122, 0, 0xC3, 0xA9, 32]) for _ in range(n))
    return s + bytes(r.choice([0, 0, 1, 3]))


def frame(r):
    n = r.choice([1, 1, 2, 3, 5, 8]) if r.random() < 0.93 else r.choice([126, 127, 128, 254, 255, 256, 300, 510, 511])
    return bytes([r.randint(0, 255)]) * n if n > 20 else bytes(r.randint(0, 255) for _ in range(n))


def lace(r, frames, kind):
    n = len(frames)
    body = b"".join(frames)
    if kind == 0:
        return body
    h = bytes([n - 1])
    sz = [len(f) for f in frames]
    if kind == 1:
        for s in sz[:-1]:
            h += b"\xff" * (s // 255) + bytes([s % 255])
    elif kind == 3 and n > 1:
        for i, s in enumerate(sz[:-1]):
            if i == 0:
                h += ebml.vint(s, r.choice([None, None, 2, 3, 8]) if s < 127 else r.choice([2, 4, 8] if s < 16383 else [3]))
            else:
                d = s - sz[i - 1]
                ws = [w for w in range(1, 9) if -(1 << (7 * w - 1)) < d < (1 << (7 * w - 1))]
                w = r.choice([ws[0], ws[0], r.choice(ws)])
                h += ((1 << (7 * w)) | (d + (1 << (7 * w - 1)) - 1)).to_bytes(w, "big")
    return h + body


def block(r, o, kind):
    t = r.choice([1, 1, 2, 3, 126, 127, 128, 300])
    tr = ebml.vint(t, r.choice([None, None, 2, 4, 8]) if t < 127 else r.choice([2, 3, 8]))
    tc = struct.pack(">h", r.choice([0, 1, 5, -1, -32768, 32767, r.randint(-32768, 32767)]))
    if kind == "vblock":
        return tr + tc + bytes([r.randint(0, 255)])
    lk = r.choice([0, 0, 1, 2, 3])
    n = 1 if lk == 0 else r.choice([1, 2, 2, 3, 4, 6])
    fr = [frame(r) for _ in range(n)]
    if lk == 2:
        fr = [fr[0]] + [bytes(r.randint(0, 255) for _ in range(len(fr[0]))) for _ in fr[1:]]
    elif lk and r.random() < 0.1 and n > 1:
        fr[r.randrange(n - 1)] = b""
    fl = r.choice([0, 0x80, 0x81, 0x08, 0x88, 0x71, r.randint(0, 255)]) & 0xF9 | lk << 1
    b = tr + tc + bytes([fl]) + lace(r, fr, lk)
    if r.random() < o.badlace:
        k = r.random()
        if k < 0.4:
            p = r.randrange(len(b))
            b = b[:p] + bytes([r.choice([0, 1, 0x40, 0x80, 0xC0, 0xFF, 0x3F, 0x7F])]) + b[p + 1:]
        elif k < 0.7:
            b = b[:r.randrange(1, len(b) + 1)]
        else:
            b = b + bytes(r.randint(1, 3))
    return b


class Doc:
    def __init__(self, r, o):
        self.r, self.o = r, o
        self.left = o.budget
        self.marks = []          # element offsets, relative to the piece being built
        self.elems = []          # (offset, header length, id, size width) of every element

    def wrap(self, i, body, kids, unknown=False):
        """Element with its body; kids are (offset in body, ...) tuples to be shifted."""
        r = self.r
        w = None
        if r.random() < self.o.wide:
            w = r.choice([2, 3, 4, 5, 6, 7, 8])
        if unknown:
            w = r.choice([1, 1, 2, 4, 8, 8, 3, 5, 6, 7])
            h = ebml.idb(i) + ebml.vint(ebml.UNKNOWN, w)
        else:
            if w and len(body) > (1 << (7 * w)) - 2:
                w = None
            h = ebml.idb(i) + ebml.vint(len(body), w)
        return h + body, [(0, len(h), i)] + [(k[0] + len(h),) + k[1:] for k in kids]

    def leaf(self, i, kind):
        r, o = self.r, self.o
        if kind not in ("id", "block", "sblock", "vblock") and r.random() < o.empty:
            body = b""
        elif kind in ("uint", "int"):
            body = uint(r)
        elif kind == "date":
            body = (uint(r) + bytes(8))[:8]
        elif kind == "float":
            body = flt(r)
        elif kind == "bool":
            body = bytes(r.choice([0, 0, 0, 1, 3, 7])) + bytes([r.randint(0, 1)])
        elif kind == "str":
            body = text(r)
        elif kind == "bin":
            body = bytes(r.randint(0, 255) for _ in range(r.choice([1, 2, 5])))
        elif kind == "id":
            body = r.choice([b"\x1f\x43\xb6\x75", b"\xec", b"\x4d\xbb", bytes(r.randint(0, 255) for _ in range(r.randint(1, 4)))])
        else:
            body = block(r, o, kind)
        return self.wrap(i, body, [])

    def junk(self):
        r = self.r
        i = VOID if r.random() < 0.5 else r.choice(UNKNOWN_IDS)
        return self.wrap(i, bytes(r.randint(0, 255) for _ in range(r.choice([0, 1, 3, 9]))), [])

    def seq(self, parts):
        body, kids = b"", []
        for b, k in parts:
            kids += [(x[0] + len(body),) + x[1:] for x in k]
            body += b
        return body, kids

    def master(self, i, name, depth, want=None):
        r, o = self.r, self.o
        parts = []
        n = r.choice([0, 1, 2, 3, 4]) if depth else r.choice([2, 3, 4, 5])
        plan = [want] if want else []
        for _ in range(n):
            if r.random() < o.junk:
                plan.append("junk")
            else:
                plan.append(self.pick(name, depth))
        r.shuffle(plan)
        for c in plan:
            if c is None:
                continue
            if self.left <= 0 and c != want:
                break
            self.left -= 1
            if c == "junk":
                parts.append(self.junk())
            elif c[1] == "master":
                parts.append(self.master(c[0], c[2], depth + 1))
            else:
                parts.append(self.leaf(c[0], c[1]))
        body, kids = self.seq(parts)
        return self.wrap(i, body, kids, unknown=r.random() < o.unknown)

    def pick(self, name, depth):
        r = self.r
        ks = KIDS[name]
        ms = [k for k in ks if k[1] == "master"]
        ls = [k for k in ks if k[1] != "master"]
        bl = [k for k in ks if k[1] in ("block", "sblock", "vblock")]
        if bl and r.random() < 0.5:
            return r.choice(bl)
        if name == "Segment" and r.random() < 0.5:
            return next(k for k in ks if k[2] == "Cluster")
        if ms and (not ls or r.random() < (0.5 if depth < self.o.depth else 0.15)):
            return r.choice(ms)
        return r.choice(ls) if ls else None

    def build(self):
        r = self.r
        parts = []
        if r.random() < 0.6:
            parts.append(self.master(EBM, "Ebml", 1))
        if r.random() < 0.15:
            parts.append(self.junk())
        for _ in range(r.choice([1, 1, 1, 2])):
            parts.append(self.master(SEG, "Segment", 0))
            if r.random() < 0.12:
                parts.append(self.junk())
            if r.random() < 0.08:
                parts.append(self.master(EBM, "Ebml", 1))
        return self.seq(parts)


def gen(r, **k):
    return Doc(r, Opt(**k)).build()


def nest(path, leafbody, unknown=()):
    """Hand-made nesting: path is a list of ids."""
    b = leafbody
    for n, i in enumerate(reversed(path)):
        b = ebml.el(i, b, unknown=(len(path) - 1 - n) in unknown)
    return b


# ---------------------------------------------------------------- scripts

def script(doc, *lines, at=None):
    s = ["doc " + (doc.hex() or "=")]
    if at is not None:
        s.append("at %d" % at)
    return "\n".join(s + [l for l in lines if l] + ["run"])


def sched(r):
    k = r.random()
    if k < 0.25:
        return "sched 1 0"
    if k < 0.4:
        return "sched 1"
    if k < 0.55:
        return "sched 0 0 0 1000"
    if k < 0.7:
        return "sched 2 0 1 0 3"
    return "sched " + " ".join(str(r.choice([0, 0, 1, 1, 2, 3, 5, 8, 40])) for _ in range(r.randint(3, 15))) + " 7"


PAUSES = [-1, -2, -2, 100, -5000, 1]


def post(t, sid, docs):
    t["doc"], t["at"] = list(docs[sid][0]), docs[sid][1] or 0
    return t


def judge(ck, cases, filt=None, batch=1500):
    """cases: list of (doc, start or None, extra script lines)."""
    binp = vlib.build("wp", ["webm_parser"])
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        scripts, docs = [], {}
        for n, (d, at, lines) in enumerate(part):
            sid = "w%d" % (b + n)
            scripts.append((sid, script(d, *lines, at=at)))
            docs[sid] = (d, at)
        vlib.validate(ck, binp, scripts, "WebmTrace", "WebmTrace.cfg", "accept", post=lambda t, s: post(t, s, docs), filt=filt)
        if ck.violations:
            return


def model(ck, deep):
    """Explore the specification on small documents; returns its finished behaviours."""
    m = vlib.run_tlc("MCWebm", "MCWebmDeep.cfg" if deep else "MCWebm.cfg")
    if not m.ok:
        raise vlib.TlcError(m.out[-3000:])
    ck.add_tlc(m)
    return [(bytes(h["doc"]), h["skips"]) for h in vlib.tlc_prints(m.out, "HIST")]


def skipline(s):
    return "skip " + " ".join(map(str, s)) if s else ""


def w01(ck, tier):
    judge(ck, [(d, None, []) for d, s in model(ck, tier != "quick") if not s])
    r = rng("w01", tier)
    n = 700 if tier == "quick" else 12000
    cases = []
    for k in range(n):
        u = r.choice([0.0, 0.1, 0.1, 0.4, 0.9])
        d, _ = gen(r, unknown=u, budget=r.choice([6, 12, 20, 30]), depth=r.choice([2, 3, 6]))
        cases.append((d, None, []))
    judge(ck, cases)


def w02(ck, tier):
    r = rng("w02", tier)
    judge(ck, [(d, None, [skipline(s), sched(r)]) for d, s in model(ck, tier != "quick") if tier != "quick" or r.random() < 0.3])
    n = 600 if tier == "quick" else 12000
    cases = []
    for k in range(n):
        d, els = gen(r, unknown=r.choice([0.0, 0.1, 0.4]), budget=r.choice([5, 10, 18]), badlace=r.choice([0, 0, 0.2]))
        lines = [sched(r)] if r.random() < 0.8 else []
        if d and r.random() < 0.3:      # the end of the input is an interruption, too
            ends = [e[0] for e in els] + [len(d)]
            c = min(len(d), r.choice(ends) + r.choice([0, 1, 1, 2, 3, 4, 5])) if r.random() < 0.7 else r.randrange(len(d))
            d = d[:c]
        if r.random() < 0.6:
            p = r.choice([0.05, 0.2, 0.5])
            idx = [i for i in range(90) if r.random() < p]
            lines.append("ret " + " ".join("%d %d" % (i, r.choice(PAUSES)) for i in idx) if idx else "")
            pi = [i for i in idx if r.random() < 0.7]
            lines.append("part " + " ".join("%d %d" % (i, r.randint(0, 4)) for i in pi) if pi else "")
            if r.random() < 0.4:
                sk = [i for i in idx + list(range(90)) if r.random() < 0.15]
                lines.append("skip " + " ".join(map(str, sk)) if sk else "")
        if r.random() < 0.1:
            lines += ["feed", "swap"]
        cases.append((d, None, lines))
    judge(ck, cases)


def w03(ck, tier):
    r = rng("w03", tier)
    judge(ck, [(d, None, [skipline(s)]) for d, s in model(ck, tier != "quick")])
    n = 700 if tier == "quick" else 12000
    cases = []
    for k in range(n):
        d, _ = gen(r, unknown=r.choice([0.0, 0.15, 0.5, 0.9]), budget=r.choice([5, 10, 18]), badlace=r.choice([0, 0, 0.2]))
        p = r.choice([0.03, 0.1, 0.3, 0.6])
        sk = [i for i in range(120) if r.random() < p]
        lines = ["skip " + " ".join(map(str, sk)) if sk else ""]
        if r.random() < 0.15:
            lines.append("keep " + " ".join(str(i) for i in range(120) if r.random() < 0.3 and i not in sk))
        if r.random() < 0.3:
            lines.append(sched(r))
        cases.append((d, None, lines))
    judge(ck, cases)


def w04(ck, tier):
    r = rng("w04", tier)
    cases = []
    for d, s in model(ck, tier != "quick"):
        if not s and len(d) > 5:
            cases.append((d, 5, []))
            els = [p for p in range(6, len(d))]
            cases.append((d, None, ["sched " + "1 " * r.randint(0, 14) + "0", "feed", "seek 5", "sched 1000"]))
    judge(ck, cases)
    n = 90 if tier == "quick" else 1500
    cases = []
    for k in range(n):
        d, els = gen(r, unknown=r.choice([0.0, 0.1, 0.4]), budget=r.choice([8, 14, 25]), depth=r.choice([3, 7]))
        offs = [e[0] for e in els]
        r.shuffle(offs)
        for p in offs[:8]:
            if r.random() < 0.6 and p:
                cases.append((d, p, [sched(r)] if r.random() < 0.2 else []))
            else:   # in the middle of a parse, possibly twice
                lines = []
                if r.random() < 0.4:     # what was skipped before the seek must not matter after it
                    lines.append(skipline([i for i in range(12) if r.random() < 0.3]))
                if r.random() < 0.4:
                    lines.append(r.choice(["feed", "run", "sched 1000\nfeed"]))
                else:
                    lines.append("sched " + " ".join(str(r.choice([0, 1, 2, 9])) for _ in range(r.randint(1, 12))) + " 0")
                    lines += ["feed"] * r.randint(0, 4)
                lines.append("seek %d" % p)
                if r.random() < 0.3:
                    lines += ["feed", "seek %d" % r.choice(offs)]
                if r.random() < 0.3:
                    sk = [i for i in range(60) if r.random() < 0.1]
                    lines.append("skip " + " ".join(map(str, sk)) if sk else "")
                lines.append("sched 1000")
                cases.append((d, None, lines))
    # every identifier of the grammar, directly after a seek
    for name, ks in KIDS.items():
        for (i, kind, sub, fld) in ks:
            dd = Doc(r, Opt(unknown=0, budget=6))
            b, _ = dd.master(i, sub, 3) if kind == "master" else dd.leaf(i, kind)
            sib = ks[r.randrange(len(ks))]
            b2, _ = dd.master(sib[0], sib[2], 4) if sib[1] == "master" else dd.leaf(sib[0], sib[1])
            pad = ebml.el(VOID, b"x")
            cases.append((pad + b + b2, len(pad), []))
    judge(ck, cases)


def damage(r, d, els):
    """One violation of the grammar somewhere."""
    k = r.random()
    b = bytearray(d)
    off, hl, i = r.choice(els)
    if off + max(hl, len(ebml.idb(i)) + 1) > len(b):
        return d
    il = len(ebml.idb(i))
    if k < 0.2:                                   # anything, anywhere
        p = r.randrange(len(b))
        b[p] = r.choice([0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xFF, r.randint(0, 255)])
    elif k < 0.3:                                 # identifier
        b[off] = r.choice([0, 1, 8, 0x0F, 0x08])
    elif k < 0.5:                                 # size field, kept small to keep allocations sane
        p = off + il
        w = 1
        while w < 8 and not (b[p] & (0x80 >> (w - 1))):
            w += 1
        j = r.random()
        if j < 0.15:
            b[p] = 0
        elif j < 0.35:
            b[p:p + w] = ebml.vint(ebml.UNKNOWN, w)
        else:
            lim = (1 << (7 * w)) - 2
            v = max(0, min(lim, r.choice([0, 1, 2, 3, 5, 7, 9, 20, 100]) if r.random() < 0.6 else
                           (int.from_bytes(b[p:p + w], "big") & ((1 << (7 * w)) - 1)) + r.choice([-2, -1, 1, 2])))
            if v > 1 << 20:
                v = 60
            b[p:p + w] = ebml.vint(v, w)
    elif k < 0.65:                                # cut
        b = b[:r.randrange(len(b))]
    elif k < 0.75:                                # delete or duplicate bytes
        p = r.randrange(len(b))
        n = r.randint(1, 4)
        if r.random() < 0.5:
            del b[p:p + n]
        else:
            b[p:p] = b[p:p + n]
    elif k < 0.85:                                # another identifier of the same length
        same = [x for ks in KIDS.values() for x in (q[0] for q in ks) if len(ebml.idb(x)) == il]
        if same:
            b[off:off + il] = ebml.idb(r.choice(same))
    else:                                         # body bytes
        p = off + hl
        if p < len(b):
            b[p] = r.choice([0, 1, 2, 0x7F, 0x80, 0xFF])
    return bytes(b)


def sane(d):
    """No element claims more than a megabyte unless it is refused before anything is allocated."""
    p = 0
    for p in range(len(d)):
        try:
            i, n = ebml.read_id(d, p)
            s, m = ebml.read_vint(d, p + n)
        except ebml.DecodeError:
            continue
        if s > 1 << 24:
            return False
    return True


def laces(r, limit):
    """Small blocks with every lacing, frame count and arrangement of size bytes."""
    alpha = [0, 1, 2, 0x40, 0x80, 0x81, 0x82, 0xBE, 0xBF, 0xC0, 0xC1, 0xFF]
    res = []
    for lk in range(4):
        for cnt in range(4):
            for n in range(0, 5):
                combos = [()]
                for _ in range(n):
                    combos = [c + (a,) for c in combos for a in alpha]
                    if len(combos) > 400:
                        combos = r.sample(combos, 400)
                for c in combos:
                    body = b"\x81\0\0" + bytes([lk << 1]) + (bytes([cnt]) if lk else b"") + bytes(c)
                    res.append(body)
                    if r.random() < 0.2:
                        res.append(body + bytes(r.randint(1, 6)))
    r.shuffle(res)
    return res[:limit]


def lacedocs(r, limit):
    for body in laces(r, limit):
        b = ebml.el(0xA3, body) if r.random() < 0.5 else ebml.el(0xA0, ebml.el(0xA1, body))
        yield nest([SEG, 0x1F43B675], ebml.u(0xE7, 1) + b + ebml.el(VOID, b"q"), (0,) if r.random() < 0.2 else ())


def w05(ck, tier):
    r = rng("w05", tier)
    cases = []
    for d, s in model(ck, tier != "quick"):
        if not s:     # every cut
            cuts = range(6, len(d)) if tier != "quick" else ([r.randrange(6, len(d))] if len(d) > 6 else [])
            cases += [(d[:c], None, [sched(r)] if r.random() < 0.3 else []) for c in cuts]
    cases += [(d, None, [sched(r)] if r.random() < 0.2 else []) for d in lacedocs(r, 500 if tier == "quick" else 20000)]
    judge(ck, cases)
    n = 900 if tier == "quick" else 16000
    cases = []
    for k in range(n):
        d, els = gen(r, unknown=r.choice([0.0, 0.1, 0.4]), budget=r.choice([4, 8, 14]), badlace=r.choice([0, 0.3]))
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            d = damage(r, d, [e for e in els if e[0] + e[1] < len(d)] or [(0, 2, SEG)]) if d else d
        lines = [sched(r)] if r.random() < 0.4 else []
        if r.random() < 0.2:
            sk = [i for i in range(60) if r.random() < 0.15]
            lines.append("skip " + " ".join(map(str, sk)) if sk else "")
        if r.random() < 0.1:
            lines += ["run", "swap"]
        cases.append((d, None, lines))
    # sizes far beyond the document, in parents that cannot refuse them
    for name, i, w in (("Info", 0x7BA9, 8), ("TrackEntry", 0x63A2, 8), ("SimpleTag", 0x4487, 7), ("BlockMore", 0xA5, 8), ("Cluster", 0xA3, 8)):
        path = {"Info": [SEG, 0x1549A966], "TrackEntry": [SEG, 0x1654AE6B, 0xAE], "SimpleTag": [SEG, 0x1254C367, 0x7373, 0x67C8],
                "BlockMore": [SEG, 0x1F43B675, 0xA0, 0x75A1, 0xA6], "Cluster": [SEG, 0x1F43B675]}[name]
        for v in (1 << 31, 1 << 33, 1 << 40, (1 << (7 * w)) - 2):
            cases.append((nest(path, ebml.idb(i) + ebml.vint(v, w) + b"\x81\0\0\x80abc", tuple(range(len(path)))), None, [r.choice(["", "sched 1 0"])]))
    # nesting around the limit, both recursive kinds, known and unknown sizes
    for base, i in (([SEG, 0x1254C367, 0x7373], 0x67C8), ([SEG, 0x1043A770, 0x45B9], 0xB6)):
        for depth in range(24, 30):
            for unk in ((), tuple(range(len(base) + depth)), tuple(range(len(base)))):
                cases.append((nest(base + [i] * depth, b"", unk) + ebml.el(VOID, b""), None, []))
    judge(ck, cases)


def w06(ck, tier):
    """Every element of every structure with every encoding length, plus combinations."""
    r = rng("w06", tier)
    cases = []
    paths = {"Ebml": [EBM], "Segment": [SEG]}
    grow = True
    while grow:
        grow = False
        for name, ks in KIDS.items():
            if name in paths:
                for (i, kind, sub, fld) in ks:
                    if kind == "master" and sub not in paths:
                        paths[sub] = paths[name] + [i]
                        grow = True
    reps = 1 if tier == "quick" else 12
    for name, ks in sorted(KIDS.items()):
        for (i, kind, sub, fld) in ks:
            if kind in ("master", "block", "sblock", "vblock"):
                continue
            lens = {"float": [0, 4, 8], "date": [0, 8], "id": [1, 2, 3, 4]}.get(kind, list(range(9)))
            for _ in range(reps):
                bodies = []
                for n in lens:
                    if kind == "bool":
                        bodies.append((bytes(n - 1) + bytes([r.randint(0, 1)])) if n else b"")
                    elif kind == "float" and n:
                        b = flt(r)
                        while len(b) != n:
                            b = flt(r)
                        bodies.append(b)
                    elif kind == "str":
                        bodies.append((text(r) + text(r) + text(r))[:n] if r.random() < 0.7 else bytes(n))
                    else:
                        bodies.append(r.choice([bytes(n), b"\xff" * n, (b"\x80" + bytes(8))[:n], (b"\x7f" + b"\xff" * 8)[:n],
                                                bytes(r.randint(0, 255) for _ in range(n)), (bytes(8) + b"\x01")[9 - n:]]))
                for b in bodies:
                    e = ebml.el(i, b)
                    if r.random() < 0.3:      # repeated element: the last one counts / all are kept
                        e += ebml.el(i, r.choice(bodies))
                    if r.random() < 0.3:
                        o = r.choice(ks)
                        if o[1] not in ("master", "block", "sblock", "vblock"):
                            e += Doc(r, Opt()).leaf(o[0], o[1])[0]
                    cases.append((nest(paths[name], e), None, []))
    for k in range(200 if tier == "quick" else 4000):
        d, _ = gen(r, unknown=0.05, budget=r.choice([15, 30]), depth=7, empty=r.choice([0.1, 0.4]))
        cases.append((d, None, [sched(r)] if r.random() < 0.2 else []))
    judge(ck, cases)
