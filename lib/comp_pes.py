"""m2ts checks: T01 (PES round trip), T02 (start codes), T03 (TS packets); superframes for C01."""
import os, random
from vlib import *
import ebml as E


def B(hexs):
    return list(bytes.fromhex(hexs))


class Case:
    def __init__(self, text, trace):
        self.text, self.trace = text, trace


def frame_rec(c, ns, b):
    return {"c": c, "ms": ns // 1000000, "rem": ns % 1000000, "b": list(b)}


def pes_case(frames):
    t = "\n".join("F %d %d %s" % (c, ns, b.hex() or "-") for c, ns, b in frames) + "\nPES x"
    return Case(t, {"kind": "pes", "fr": [frame_rec(*f) for f in frames]})


def superframe(parts, w, extra=b""):
    m = 0xc0 | (w - 1) << 3 | (len(parts) - 1)
    return b"".join(parts) + extra + bytes([m]) + b"".join(len(p).to_bytes(w, "little") for p in parts) + bytes([m])


PTS_EDGE = [0, 1, 11111, 1000000, 46603377777, 46603377778, 46700000000, 364 * 10**9, 365 * 10**9, 11930464711111, 11930464722223,
            23861 * 10**9, 47722 * 10**9, 95443 * 10**9, 60 * 10**9, 3600 * 10**9]


def rnd_ns(r):
    c = r.random()
    if c < .25:
        return r.choice(PTS_EDGE)
    if c < .6:
        return r.randrange(0, 1 << r.randrange(1, 47))
    return r.randrange(0, 95000000) * 1000000


def rnd_bytes(r, n, zeros):
    if zeros:
        return bytes(r.choice([0, 0, 0, 1, 1, 3, 3, r.randrange(256)]) for _ in range(n))
    return E.payload(r.randrange(1 << 30), n)


def rnd_frame(r, zeros=.5, big=False):
    c = r.choice([8, 9])
    if big:
        n = r.choice([32767, 32768, 32769, 40000, 65535, 65536, 65537, 66000])
    else:
        n = r.choice([1, 2, 3, 5, 20, 237, 244, 245, 246, 500, r.randrange(1, 700)])
    b = rnd_bytes(r, n, r.random() < zeros)
    if c == 9:
        k = r.random()
        if k < .3 and not big:
            nf = r.randrange(1, 9)
            w = r.randrange(1, 5)
            parts = [rnd_bytes(r, r.choice([1, 3, r.randrange(1, 60)]), r.random() < zeros) for _ in range(nf)]
            if r.random() < .03:
                parts[r.randrange(nf)] = b""
            b = superframe(parts, w, rnd_bytes(r, r.randrange(4), False) if r.random() < .2 else b"")
            if r.random() < .1:
                b = bytearray(b)
                b[r.randrange(max(0, len(b) - 12), len(b))] ^= 1 << r.randrange(8)
                b = bytes(b)
        elif b[-1] >> 5 == 6 and r.random() < .8:
            b = b[:-1] + bytes([b[-1] & 0x1f])
    return c, rnd_ns(r), b


def webm(frames, tnum=1, extra_first=False, codec="V_VP9", unk=False, lace=False, key=True):
    """frames: list of (ms, bytes); other tracks' blocks interleaved when extra_first."""
    vt = E.el(E.TRACKENTRY, E.u(E.TNUM, tnum) + E.u(E.TUID, 77) + E.u(E.TTYPE, 1) + E.s(E.CODECID, codec)
              + E.el(E.VIDEO, E.u(E.PW, 64) + E.u(E.PH, 48)))
    at = b""
    anum = tnum + 1 if not extra_first else (tnum - 1 if tnum > 1 else 5)
    if extra_first:
        at = E.el(E.TRACKENTRY, E.u(E.TNUM, anum) + E.u(E.TUID, 78) + E.u(E.TTYPE, 2) + E.s(E.CODECID, "A_OPUS")
                  + E.el(E.AUDIO, E.f4(E.RATE, 48000) + E.u(E.CHANS, 2)))
    body = E.el(E.INFO, E.u(E.TSCALE, 1000000) + E.s(E.MUXAPP, "x") + E.s(E.WRITEAPP, "y")) + E.el(E.TRACKS, at + vt)
    cl = []
    for ms, b in frames:
        if not cl or ms - cl[-1][0] > 5000 or ms < cl[-1][0] or len(cl[-1][1]) > 3:
            cl.append((ms, []))
        cl[-1][1].append((ms, b))
    for tc, bl in cl:
        cb = E.u(E.TIMECODE, tc)
        for ms, b in bl:
            if extra_first:
                cb += E.simple_block(anum, ms - tc, b"audio")
            cb += E.simple_block(tnum, ms - tc, b)
        body += E.el(E.CLUSTER, cb, unknown=unk)
    return E.ebml_header() + E.el(E.SEGMENT, body, 8)


def conv_case(r, kind, nfr, big=False):
    codec = r.choice(["V_VP8", "V_VP9"])
    c = 8 if codec == "V_VP8" else 9
    frames = []
    ms = r.choice([0, 40, 46600, 100000, 12000000, 24000000])
    while len(frames) < nfr:
        b = rnd_frame(r, big=big)[2]
        if r.random() < .3 and kind == "w2t":
            b = E.payload(len(frames) + r.randrange(1000), 184 * r.randrange(0, 4) + r.randrange(110, 230))
        if c == 9 and b[-1] >> 5 == 6:
            # only well-formed superframes
            parts = [E.payload(r.randrange(99999), r.randrange(1, 90)) for _ in range(r.randrange(1, 5))]
            b = superframe(parts, r.randrange(1, 4))
        frames.append((ms, b))
        ms += r.choice([0, 1, 33, 40, 1000])
    tnum = r.choice([1, 1, 2, 3, 9])
    first = r.random() < .5
    doc = webm(frames, tnum, first, codec, unk=r.random() < .3)
    return Case("%s %s" % (kind.upper(), doc.hex()),
                {"kind": kind, "fr": [frame_rec(c, m * 1000000, b) for m, b in frames]})


def sf_case(b):
    return Case("SF " + (b.hex()), {"kind": "sf", "b": list(b)})


def lace(fs, how):
    """(lacing bits, block data) of several frames."""
    if how == 0 or len(fs) == 1 and how == 2:
        return 0, fs[0]
    head = bytes([len(fs) - 1])
    if how == 2:
        return 2, head + b"".join(fs)
    if how == 1:
        return 1, head + b"".join(b"\xff" * (len(f) // 255) + bytes([len(f) % 255]) for f in fs[:-1]) + b"".join(fs)
    szs = E.vint(len(fs[0])) if len(fs) > 1 else b""
    for a, b in zip(fs, fs[1:-1]):
        szs += E.vint(len(b) - len(a) + 8191, 2)
    return 3, head + szs + b"".join(fs)


DAMAGE = [b"\xa3\x84\x81\0\0\x86",                            # laced, without a lace header
          b"\xa3\x87\x81\0\0\x82\x01\x50a",                  # Xiph lace: longer than the block
          b"\xa3\x88\x81\0\0\x84\x01abc",                    # fixed size lace that does not divide
          b"\xa3\x87\x81\0\0\x86\x01\x90a",                  # EBML lace: longer than the block
          b"\xa3\x85\x80\0\0\x80a",                          # track number 0
          b"\xa0\x87\xa1\x85\x80\0\0\0a",                    # the same in a block group
          b"\xa0\x89\xa1\x87\x81\0\0\x02\x01\x50a"]          # damaged lace in a block group


def webm2(tracks, blocks, unk=False):
    """tracks: (number, type, codec); blocks: (number, ms, frames, lacing, group), or (None, ms, bytes, 0, 0): a damaged block."""
    ts = b""
    for i, (n, ty, c) in enumerate(tracks):
        ts += E.el(E.TRACKENTRY, E.u(E.TNUM, n) + E.u(E.TUID, 70 + i) + E.u(E.TTYPE, ty) + E.s(E.CODECID, c)
                   + (E.el(E.VIDEO, E.u(E.PW, 64) + E.u(E.PH, 48)) if ty == 1 else b"")
                   + (E.el(E.AUDIO, E.f4(E.RATE, 48000) + E.u(E.CHANS, 2)) if ty == 2 else b""))
    body = E.el(E.INFO, E.u(E.TSCALE, 1000000) + E.s(E.MUXAPP, "x") + E.s(E.WRITEAPP, "y")) + E.el(E.TRACKS, ts)
    cl = []
    for b in blocks:
        if not cl or b[1] - cl[-1][0] > 5000 or len(cl[-1][1]) > 3:
            cl.append((b[1], []))
        cl[-1][1].append(b)
    for tc, bl in cl:
        cb = E.u(E.TIMECODE, tc)
        for n, ms, fs, how, group in bl:
            if n is None:
                cb += fs
                continue
            bits, data = lace(fs, how)
            sb = E.simple_block(n, ms - tc, data, lacing=bits)
            if group:
                n1 = E.read_id(sb, 0)[1]
                n2 = E.read_vint(sb, n1)[1]
                sb = E.el(E.BLOCKGROUP, E.el(E.BLOCK, sb[n1 + n2:]))
            cb += sb
        body += E.el(E.CLUSTER, cb, unknown=unk)
    return E.ebml_header() + E.el(E.SEGMENT, body, 8)


CODECS = {"V_VP8": 8, "V_VP9": 9}


def tracks_case(r, bad=0., damage=0.):
    """A file of several tracks: document, tracks, frames of its first video track up to the damage, whether there is damage."""
    nums = r.sample([1, 2, 3, 5, 40, 126], r.choice([0, 1, 1, 2, 2, 3]) if bad else r.choice([1, 2, 3]))
    tracks = []
    for n in nums:
        ty = r.choice([1, 1, 1, 2, 2, 17])
        tracks.append((n, ty, r.choice(["V_VP8", "V_VP9", "V_VP9"] + (["V_AV1", "V_VP10", "V_MPEG4"] if r.random() < bad else [])) if ty == 1
                       else "A_OPUS" if ty == 2 else "S_TEXT/UTF8"))
    if not bad and not any(t[1] == 1 for t in tracks):
        tracks[r.randrange(len(tracks))] = (nums[0], 1, r.choice(["V_VP8", "V_VP9"])) if len(tracks) == 1 else (99, 1, "V_VP9")
    vid = next((t for t in tracks if t[1] == 1), None)
    blocks, fr, ms, hit = [], [], r.choice([0, 40, 100000]), False
    for _ in range(r.randrange(0, 9) if tracks else 0):
        if not hit and r.random() < damage:
            hit = True
            blocks.append((None, ms, r.choice(DAMAGE), 0, 0))
        t = r.choice(tracks)
        how = r.choice([0, 0, 0, 1, 2, 3])
        nf = 1 if how == 0 else r.randrange(1, 5)
        fs = []
        c = CODECS.get(t[2], 8)
        for _ in range(nf):
            b = rnd_frame(r)[2][:r.choice([30, 300, 700])]
            if b[-1] >> 5 == 6 or bad and r.random() < .2:
                b = superframe([E.payload(r.randrange(999), r.randrange(1, 40)) for _ in range(r.randrange(1, 4))], r.randrange(1, 4))
                if t is vid and r.random() < bad:
                    b = r.choice([b[1:], b[1:], b[:-1] + bytes([b[-1] ^ 1]), b"\xc0", superframe([b"ab", b""], 1)])
            fs.append(b)
        if how == 2:
            fs = [fs[0]] * nf
        blocks.append((t[0], ms, fs, how, int(r.random() < .4)))
        if t is vid and not hit:
            fr += [frame_rec(c, ms * 1000000, b) for b in fs]
        ms += r.choice([0, 1, 33, 1000])
    if damage and r.random() < damage / 2 and tracks and not hit:
        hit = True
        blocks.append((None, ms, r.choice(DAMAGE), 0, 0))
    doc = webm2(tracks, blocks, unk=r.random() < .3)
    return doc, [{"type": t[1], "codec": CODECS.get(t[2], 0)} for t in tracks], fr, int(hit)


def lace_case(r, kind):
    while True:
        doc, tracks, fr, _ = tracks_case(r)
        if kind == "w2p" or fr:
            break
    return Case("%s %s" % (kind.upper(), doc.hex()), {"kind": kind, "fr": fr})


def fail_case(r):
    doc, tracks, fr, dmg = tracks_case(r, bad=r.choice([0., .5, .5]), damage=r.choice([0., 0., .2]))
    webm, outok, inp = 1, 1, doc.hex()
    c = r.random()
    if c < .06:
        webm, inp = 0, "none"
    elif c < .12:
        webm, inp = 0, r.choice(["00", E.payload(r.randrange(999), r.randrange(1, 300)).hex(), doc[:r.randrange(1, 40)].hex(), (b"\x1aE\xdf\xa3\x80" * 3).hex()])
    elif c < .2:
        outok = 0
    lim = sorted({r.choice([0, 1, 2, 187, 188, 189, 376, 4095, 4096, 4097, r.randrange(3000), r.randrange(300), -1, -1, -2, -3, -188, -189, -r.randrange(1, 400), 10**6]) for _ in range(8)})
    sk = sorted({r.choice([0, 1, 1, 2, 3, r.randrange(1, 12), 99]) for _ in range(3)})
    if not webm:
        tracks, fr, dmg = [], [], 0
    t = r.choice("pt")
    return Case("CONV %s %s %d %s %s" % (t, inp, outok, " ".join("L%d" % n for n in lim), " ".join("S%d" % k for k in sk)),
                {"kind": "conv", "webm": webm, "outok": outok, "tracks": tracks, "fr": fr, "dmg": dmg})


def escape(body, before=b"\xff"):
    o, z = bytearray(), 0
    for x in before:
        z = z + 1 if x == 0 else 0
    for x in body:
        if z >= 2 and x in (1, 3):
            o.append(3)
            z = 0
        o.append(x)
        z = z + 1 if x == 0 else 0
    return bytes(o)


def pts_bytes(t, pre=2):
    return bytes([pre << 4 | (t >> 29) & 14 | 1, t >> 22 & 255, (t >> 14) & 254 | 1, t >> 7 & 255, (t << 1) & 254 | 1])


def raw_packets(r, pay, wild):
    """The packets of one frame, cut anywhere; wild: with a chance of unusual or wrong fields."""
    o = lambda x, y: r.choice(y) if r.random() < wild else x
    out, left, first = b"", pay, True
    while first or left:
        n = len(left) if r.random() < .5 else r.randrange(1 if not first else 0, len(left) + 1)
        if first and n == 0:
            n = min(1, len(left))
        body = bytes([o(0x80, [0, 0x40, 0x84, 0xff]), o(0x80 if first else 0, [0, 0x80, 0xc0, 0x40, 1]), o(6, [5, 7, 0, 8])])
        ts = r.choice([0, 1, 90000, 0x1ffffffff, r.randrange(1 << 33), 3 << 15, 1 << 30])
        body += (pts_bytes(ts, o(2, [0, 3, 15])) if body[1] & 0x80 and r.random() > wild / 8 else b"\xff" * 5) + bytes([o(255, [0, 3])])
        if first:
            body += o(b"BCMV", [b"BCMW", b"\0\0\1V"]) + o(len(pay) + 10, [10, 9, 0, 11, len(pay), 1 << 24, (1 << 32) - 1]).to_bytes(4, "big") + o(b"\0\0", [b"\0\1", b"\1\0"])
        body += left[:n]
        ln = len(body)
        if first and n == len(left) and r.random() < .2:
            ln = 0
        ln = o(ln, [ln + 1, ln - 1, 0, 9, 8, 10, 19, 20, 65535])
        hd = b"\0\0\1" + bytes([o(0xe0, [0xe1, 0xef, 0xdf, 0xf0, 0xbd])]) + (ln & 65535).to_bytes(2, "big")
        out += hd + escape(body, hd)
        left, first = left[n:], False
        if r.random() < .1:
            out += r.choice([b"\0", b"\xff\xff", b"\0\0", b"\0\0\2", b"abc"])
    return out


def raw_case(r):
    s = b""
    wild = r.choice([0, 0, .02, .06])
    pk = []
    for _ in range(r.randrange(1, 5)):
        pay = rnd_bytes(r, r.choice([1, 2, 3, 5, 9, 10, 19, r.randrange(1, 60)]), r.random() < .7)
        pk.append(raw_packets(r, pay, wild))
    c = r.random()
    if c < .15 and len(pk) > 1:                       # a packet lost between two frames
        i = r.randrange(len(pk) - 1)
        q = pk[i].find(b"\0\0\1", 4)
        if q > 0:
            pk[i] = pk[i][:q]
    s = b"".join(pk)
    if .15 < c < .3:
        s = s[:r.randrange(1, len(s))]
    elif c < .5 and c > .3:
        m = bytearray(s)
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(m))
            k = r.randrange(3)
            if k == 0:
                m[i] = r.choice([0, 1, 3, 255, m[i] ^ 1 << r.randrange(8)])
            elif k == 1:
                m[i:i] = bytes([r.choice([0, 0, 1, 3, 66])])
            else:
                del m[i:i + r.randrange(1, 4)]
        s = bytes(m) or b"\0"
    elif .5 < c < .53:
        s = rnd_bytes(r, r.randrange(1, 90), True)
    before = ""
    if r.random() < .15:
        before = b"".join(raw_packets(r, rnd_bytes(r, r.randrange(1, 30), True), r.choice([0, .1])) for _ in range(r.randrange(1, 5))).hex()
    return Case("RAW %s %s" % (s.hex(), before), {"kind": "raw", "s": list(s)})


def post_factory(cases):
    def post(t, sid):
        tr = dict(cases[sid].trace)
        if tr["kind"] == "pes":
            tr["w"] = [{"ok": w["ok"], "out": B(w["out"])} for w in t["w"]]
        if tr["kind"] in ("pes", "w2p", "raw"):
            tr["p"] = [dict(p, b=B(p["b"])) for p in t["p"]]
            tr["open"] = t["open"]
        if tr["kind"] == "w2p":
            tr.update(ok=t["ok"], out=B(t["out"]), bw=t["bw"])
        if tr["kind"] == "w2t":
            o = bytes.fromhex(t["out"])
            tr.update(ok=t["ok"], pk=[list(o[i:i + 188]) for i in range(0, len(o) // 188 * 188, 188)], tail=len(o) % 188)
        if tr["kind"] == "conv":
            tr.update(ok=t["ok"], size=t["size"], lim=t["lim"], sink=t["sink"])
        if tr["kind"] == "sf":
            tr.update(ok=t["ok"], err=t["err"], r=t["r"])
        return tr
    return post


def nst(t):
    return 2 if t["kind"] in ("sf", "w2p", "conv") else len(t["p"]) + 2 if t["kind"] == "raw" else len(t["fr"]) + 2


def run(ck, cases, filt=None):
    binp = build("pes", ["m2ts", "common", "mkvparser", "mkvmuxer"])
    scripts = [(i, c.text) for i, c in enumerate(cases)]
    validate(ck, binp, scripts, "PesTrace", "PesTrace.cfg", nst, post=post_factory(cases), filt=filt)


def mc(ck, tier):
    m = run_tlc("MCPes", "MCPes.cfg" if tier == "quick" else "MCPesThorough.cfg")
    if not m.ok:
        raise RuntimeError("model check failed: " + m.out[-3000:])
    ck.add_tlc(m)
    return [bytes(b) for b in tlc_prints(m.out, "B")]


def t01(ck, tier):
    mc(ck, tier)
    r = rng("t01")
    cases = []
    for ns in PTS_EDGE:
        cases.append(pes_case([(8, ns, b"\x10abc"), (9, ns + 33333333, b"\x82xyz")]))
    N = 250 if tier == "quick" else 4000
    for _ in range(N):
        cases.append(pes_case([rnd_frame(r, .3) for _ in range(r.randrange(1, 6))]))
    for _ in range(10 if tier == "quick" else 60):
        cases.append(pes_case([rnd_frame(r, .3, big=True), rnd_frame(r, .3)]))
    for _ in range(80 if tier == "quick" else 1500):
        cases.append(conv_case(r, "w2p", r.randrange(0, 8)))
    for _ in range(3 if tier == "quick" else 20):
        cases.append(conv_case(r, "w2p", 2, big=True))
    for _ in range(80 if tier == "quick" else 1500):
        cases.append(lace_case(r, "w2p"))
    run(ck, cases)
    ck.assumptions.append("PTS compared within one 90 kHz tick (rounding direction is not part of the property)")


def t02(ck, tier):
    pays = mc(ck, tier)
    r = rng("t02")
    cases = []
    for k in range(0, len(pays), 16):
        cases.append(pes_case([(8, 1000000 * i, b) for i, b in enumerate(pays[k:k + 16])]))
    for _ in range(150 if tier == "quick" else 3000):
        cases.append(pes_case([(8, rnd_ns(r), rnd_bytes(r, r.choice([1, 7, 246, 502, 758, r.randrange(1, 400)]), True)) for _ in range(r.randrange(1, 5))]))
    for _ in range(6 if tier == "quick" else 40):
        # zero runs straddling the fragment boundary
        n = r.choice([32769, 32800, 40000, 65540])
        b = bytearray(rnd_bytes(r, n, True))
        for c in (32768, 65536):
            if c + 4 < n:
                z = r.randrange(0, 4)
                b[c - z:c - z + 4] = [b"\0\0\0\1", b"\0\0\1\0", b"\0\0\3\1", b"\0\1\0\0"][r.randrange(4)]
        cases.append(pes_case([(8, 0, bytes(b)), (8, 1000000, b"\1\2")]))
    run(ck, cases, filt=lambda w: "PTS" not in w)


def t03(ck, tier):
    mc(ck, tier)
    r = rng("t03")
    cases = []
    for lo in range(1, 420 if tier == "quick" else 800, 10):
        fr = [(i * 10, E.payload(i + lo, lo + i)) for i in range(10)]
        fr = [(m, b[:-1] + bytes([b[-1] & 0x1f])) for m, b in fr]
        cases.append(Case("W2T " + webm(fr).hex(), {"kind": "w2t", "fr": [frame_rec(9, m * 1000000, b) for m, b in fr]}))
    for _ in range(80 if tier == "quick" else 1500):
        cases.append(conv_case(r, "w2t", r.randrange(1, 10)))
    for _ in range(2 if tier == "quick" else 10):
        cases.append(conv_case(r, "w2t", 2, big=True))
    for _ in range(50 if tier == "quick" else 1000):
        cases.append(lace_case(r, "w2t"))
    run(ck, cases, filt=lambda w: "PTS" not in w)


def t04(ck, tier):
    mc(ck, tier)
    r = rng("t04")
    cases = [fail_case(r) for _ in range(600 if tier == "quick" else 12000)]
    ck.extra["limited conversions"] = sum(c.text.count(" L") for c in cases)
    run(ck, cases)
    ck.assumptions.append("output is limited through the file size limit of the process, so a write fails at the given byte")


def t05(ck, tier):
    mc(ck, tier)
    r = rng("t05")
    cases = []
    # every byte of a stream of three packets (one whole frame, one in two parts) set to telling values, and every cut
    base = random.Random(5)
    for body in ([b"\5\0\0\1", b"\7\0\0\3\1\2"], [b"\0", b"\0\0\0\1\1"]):
        s = b"".join(raw_packets(base, b, 0) for b in body)
        for i in range(len(s)):
            for v in {0, 1, 3, 255, s[i] ^ 1, s[i] ^ 0x80, s[i] ^ 0x40}:
                m = s[:i] + bytes([v]) + s[i + 1:]
                cases.append(Case("RAW " + m.hex(), {"kind": "raw", "s": list(m)}))
            if i:
                cases.append(Case("RAW " + s[:i].hex(), {"kind": "raw", "s": list(s[:i])}))
    for _ in range(1500 if tier == "quick" else 30000):
        cases.append(raw_case(r))
    ck.extra["damaged streams"] = len(cases)
    run(ck, cases)
