"""S03: the report of webm_info (Info.tla, InfoTrace.tla, MCInfo.tla)."""
import os
import re
import struct
import subprocess
from vlib import *
import ebml as E
import comp_vp9
from comp_tools import Died, validate_cases, FRATE, STEREO, DW, DH, COLOUR, PROJ, NAME, DELAY, PREROLL, PTYPE, PPRIV, PYAW, PPITCH, PROLL

NAMES = ["video", "audio", "size", "offset", "times_seconds", "ebml_header", "segment", "seekhead", "segment_info", "tracks", "clusters",
         "blocks", "codec_info", "clusters_size", "encrypted_info", "cues", "frame_stats", "vp9_level"]
CNAME, DEFDUR, DUNIT = 0x258688, 0x23E383, 0x54B2
ENCS, ENC, ENCORD, ENCSCOPE, ENCTYPE, ENCRYPT = 0x6D80, 0x6240, 0x5031, 0x5032, 0x5033, 0x5035
EALGO, EKEY, ESIG, ESIGKEY, ESIGALGO, ESIGHASH, EAES, ECIPHER = 0x47E1, 0x47E2, 0x47E3, 0x47E4, 0x47E5, 0x47E6, 0x47E7, 0x47E8
COLF = ["MatrixCoefficients", "BitsPerChannel", "ChromaSubsamplingHorz", "ChromaSubsamplingVert", "CbSubsamplingHorz", "CbSubsamplingVert",
        "ChromaSitingHorz", "ChromaSitingVert", "Range", "TransferCharacteristics", "Primaries", "MaxCLL", "MaxFALL"]
FACTS = ["TrackType", "TrackNumber", "Name", "CodecID", "CodecName", "PrivateData(size)", "VP9 profile", "VP9 level", "VP9 bit_depth",
         "VP9 chroma subsampling", "DefaultDuration", "ContentEncodingOrder", "ContentEncodingScope", "ContentEncodingType", "ContentEncAlgo",
         "ContentEncKeyID", "ContentSignature", "ContentSigKeyID", "ContentSigAlgo", "ContentSigHashAlgo", "CipherMode"] + COLF + [
         "Primary%sChromaticity%s" % (c, a) for c in "RGB" for a in "XY"] + ["WhitePointChromaticityX", "WhitePointChromaticityY", "LuminanceMax",
         "LuminanceMin", "ProjectionType", "ProjectionPrivate(size)", "ProjectionPoseYaw", "ProjectionPosePitch", "ProjectionPoseRoll",
         "PixelWidth", "PixelHeight", "FrameRate", "DisplayWidth", "DisplayHeight", "DisplayUnit", "Channels", "BitDepth", "SamplingFrequency",
         "CodecDelay", "SeekPreRoll"]


def g32(v):
    return "%g" % struct.unpack(">f", struct.pack(">f", v))[0]


def word(r):
    return "".join(r.choice("abcdefXYZ019_%.-") for _ in range(r.randint(1, 12)))


def blob(r, n=20):
    return bytes(r.randint(0, 255) for _ in range(r.randint(1, n)))


def track(r, n, ty, codec, enc):
    """(TrackEntry body, facts)"""
    f = dict.fromkeys(FACTS, "")
    t = {"n": n, "ty": ty, "codec": codec, "f": f, "privbad": False, "enc": False, "encoded": False, "colour": False, "master": False, "proj": False}
    f["TrackType"], f["TrackNumber"], f["CodecID"] = str(ty), str(n), codec
    b = E.u(E.TNUM, n) + E.u(E.TUID, r.randint(1, 10**6)) + E.u(E.TTYPE, ty) + E.s(E.CODECID, codec)
    if r.random() < .4:
        f["Name"] = word(r)
        b += E.s(NAME, f["Name"])
    if r.random() < .3:
        f["CodecName"] = word(r)
        b += E.s(CNAME, f["CodecName"])
    if r.random() < .5:
        if codec == "V_VP9":
            p = {}
            for i, key, vals in ((1, "VP9 profile", range(4)), (2, "VP9 level", [10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62]),
                                 (3, "VP9 bit_depth", [8, 10, 12]), (4, "VP9 chroma subsampling", range(4))):
                if r.random() < .6:
                    p[i] = r.choice(vals)
                    f[key] = str(p[i])
            if not p:
                p[1] = 2
                f["VP9 profile"] = "2"
            pv = b"".join(bytes([i, 1, p[i]]) for i in sorted(p, key=lambda i: r.random()))
            if r.random() < .06:
                t["privbad"] = True
                pv = r.choice([b"\x01", b"\x01\x01\x09", b"\x03\x01\x07", b"\x05\x01\x01"])
        else:
            pv = blob(r)
        b += E.el(E.CODECPRIV, pv)
        f["PrivateData(size)"] = str(len(pv))
    if r.random() < .4:
        d = r.choice([1, 20000000, 33333333, 2**40])
        f["DefaultDuration"] = str(d)
        b += E.u(DEFDUR, d)
    if enc:
        t["encoded"] = True
        f["ContentEncodingOrder"], f["ContentEncodingScope"], f["ContentEncodingType"] = str(r.choice([0, 1])), str(r.choice([1, 1, 2, 3])), "1"
        e = b""
        if r.random() < .8:
            k = blob(r)
            e += E.el(EKEY, k)
            f["ContentEncKeyID"] = "".join("0x%02x, " % x for x in k).strip()
        for i, key in ((ESIG, "ContentSignature"), (ESIGKEY, "ContentSigKeyID")):
            if r.random() < .4:
                k = blob(r)
                e += E.el(i, k)
                f[key] = "0x" + k.hex()
        for i, key in ((ESIGALGO, "ContentSigAlgo"), (ESIGHASH, "ContentSigHashAlgo")):
            v = r.choice([0, 1, 2])
            e += E.u(i, v)
            f[key] = str(v)
        f["ContentEncAlgo"], f["CipherMode"] = "5", "1"
        t["enc"] = True
        e = E.u(EALGO, 5) + e + E.el(EAES, E.u(ECIPHER, 1))
        b += E.el(ENCS, E.el(ENC, E.u(ENCORD, int(f["ContentEncodingOrder"])) + E.u(ENCSCOPE, int(f["ContentEncodingScope"])) + E.u(ENCTYPE, 1) + E.el(ENCRYPT, e)))
    if ty == 1:
        w, h = r.choice([1, 176, 320, 1920, 70000]), r.choice([1, 144, 1080, 16383])
        v = E.u(E.PW, w) + E.u(E.PH, h)
        f["PixelWidth"], f["PixelHeight"] = str(w), str(h)
        f["DisplayWidth"], f["DisplayHeight"], f["DisplayUnit"] = str(w), str(h), "0"
        if r.random() < .3:
            x = r.choice([24.0, 29.97, 30.0, .5])
            v += E.f4(FRATE, x) if r.random() < .5 else E.f8(FRATE, x)
            f["FrameRate"] = g32(x)
        if r.random() < .4:
            for i, key in ((DW, "DisplayWidth"), (DH, "DisplayHeight")):
                if r.random() < .7:
                    x = r.choice([int(f[key]), r.randint(1, 4000)])
                    v += E.u(i, x)
                    f[key] = str(x)
        if r.random() < .2:
            x = r.randint(0, 3)
            v += E.u(DUNIT, x)
            f["DisplayUnit"] = str(x)
        if r.random() < .4:
            lim = [10, 16, 2, 2, 2, 2, 2, 2, 3, 18, 10, 10000, 10000]
            c = b""
            for i in range(13):
                if r.random() < .5:
                    x = r.randint(0, lim[i])
                    c += E.u(0x55B1 + i, x)
                    f[COLF[i]] = str(x)
            m = b""
            if r.random() < .6:
                for i, key in ((0x55D9, "LuminanceMax"), (0x55DA, "LuminanceMin")):
                    if r.random() < .6:
                        x = r.choice([100.0, 500.5, 9999.0, 9000.25]) if i == 0x55D9 else r.choice([0.25, .01, 5.0])
                        m += E.f4(i, x)
                        f[key] = g32(x)
                for i, key in ((0x55D1, "PrimaryRChromaticity"), (0x55D3, "PrimaryGChromaticity"), (0x55D5, "PrimaryBChromaticity"), (0x55D7, "WhitePointChromaticity")):
                    if r.random() < .6:
                        x, y = r.choice([.25, .708, .3127]), r.choice([.125, .292, .329])
                        m += E.f4(i, x) + E.f4(i + 1, y)
                        f[key + "X"], f[key + "Y"] = g32(x), g32(y)
            if m:
                t["master"] = True
                c += E.el(0x55D0, m)
            if c:
                t["colour"] = True
                v += E.el(COLOUR, c)
        if r.random() < .3:
            x = r.randint(0, 3)
            p = E.u(PTYPE, x)
            f["ProjectionType"] = str(x)
            t["proj"] = True
            if x and r.random() < .7:
                k = blob(r)
                p += E.el(PPRIV, k)
                f["ProjectionPrivate(size)"] = str(len(k))
            for i, key in ((PYAW, "ProjectionPoseYaw"), (PPITCH, "ProjectionPosePitch"), (PROLL, "ProjectionPoseRoll")):
                if r.random() < .7:
                    y = r.choice([0.0, .5, -90.0, 45.25])
                    p += E.f4(i, y)
                    f[key] = g32(y)
            v += E.el(PROJ, p)
        b += E.el(E.VIDEO, v)
    elif ty == 2:
        ch, ra, bd = r.choice([1, 2, 6]), r.choice([8000.0, 44100.0, 48000.0, 22050.5]), r.choice([0, 16, 24])
        f["Channels"], f["SamplingFrequency"] = str(ch), g32(ra)
        a = E.f4(E.RATE, ra) + E.u(E.CHANS, ch)
        if bd:
            a += E.u(E.BITDEPTH, bd)
            f["BitDepth"] = str(bd)
        for i, key in ((DELAY, "CodecDelay"), (PREROLL, "SeekPreRoll")):
            if r.random() < .4:
                x = r.choice([1, 6500000, 80000000])
                b += E.u(i, x)
                f[key] = str(x)
        b += E.el(E.AUDIO, a)
    return E.el(E.TRACKENTRY, b), t


def vp8_frame(r):
    if r.random() < .15:
        return bytes(r.randrange(256) for _ in range(r.randint(1, 7)))
    key = r.random() < .4
    x = int(not key) | r.randrange(4) << 1 | (r.random() < .7) << 4 | r.randrange(1 << 19) << 5
    b = x.to_bytes(3, "little") + (b"\x9d\x01\x2a" if key else b"")
    return b + bytes(r.randrange(256) for _ in range(r.randint(0, 8)))


class Vp9Source:
    def __init__(self, r, odd):
        self.r, self.alive, self.odd = r, False, odd
        self.w = r.choice([64, 352, 1920, 4096])
        self.prof = r.choice([0, 0, 1, 2, 3])

    def one(self, alt=None):
        r = self.r
        if not self.alive or r.random() < .12:
            self.alive = True
            return comp_vp9.header(r, prof=self.prof, key=1, w=self.w, h=r.randint(1, 2000), alt=int(r.random() < .1) if alt is None else alt)
        if alt is None and r.random() < .08:
            return comp_vp9.header(r, prof=self.prof, existing=1)
        return comp_vp9.header(r, prof=self.prof, key=0, w=self.w, h=r.randint(1, 2000), alt=int(r.random() < .25) if alt is None else alt)

    def block(self):
        r = self.r
        c = r.random()
        if c < .7:
            b = self.one()
            if r.random() < .5:
                b += bytes(r.randrange(256) for _ in range(r.randint(1, 12)))
        else:
            fs = [self.one(alt=1) for _ in range(r.choice([1, 1, 1, 2, 3]))] + [self.one(alt=0)]
            w = r.randint(1, 4)
            if r.random() < .5:
                fs = [x + bytes(r.randrange(256) for _ in range(r.choice([0, 1, 20, 250 if w > 1 else 5, 600 if w > 1 else 9]))) for x in fs]
                if w == 1:
                    fs = [x[:255] for x in fs]
            m = 0xc0 | (w - 1) << 3 | (len(fs) - 1)
            ln = [len(x) for x in fs]
            if self.odd and r.random() < .3:
                ln[r.randrange(len(ln))] += r.choice([200, -1, 1])
            b = b"".join(fs) + bytes([m]) + b"".join(min(max(x, 0), 256 ** w - 1).to_bytes(w, "little") for x in ln) + bytes([m])
            if self.odd and ln != [len(x) for x in fs]:
                self.alive = False
        if self.odd and r.random() < .1:
            b = comp_vp9.mangle(r, b) or b"\x00"
            self.alive = False
        return b


def info_case(r):
    for _ in range(100):
        c = gen(r)
        if c:
            return c


def gen(r):
    u = r.choice([1000, 1000, 1000, 1000, 1, 10, 500, 20000])
    kinds = r.choice([[1], [1], [1, 2], [1, 2], [2, 1], [2], [1, 17], [17, 1, 2], [1, 33], [1, 1, 2]])
    nums = r.sample(range(1, 100), len(kinds))
    odd = r.random() < .12
    trks, body, src = [], b"", {}
    vp9 = False
    for n, ty in zip(nums, kinds):
        codec = r.choice(["V_VP8", "V_VP9", "V_VP9", "V_AV1"]) if ty == 1 else "A_OPUS" if ty == 2 else "D_WEBVTT/SUBTITLES"
        if codec == "V_VP9":
            if vp9:
                codec = "V_VP8"
            vp9 = True
        e, t = track(r, n, ty, codec, ty in (1, 2) and r.random() < .25)
        body += e
        trks.append(t)
        src[n] = Vp9Source(r, odd) if codec == "V_VP9" else None
    by = {t["n"]: t for t in trks}
    # blocks
    t = r.choice([0, 0, 5, 1000])
    step = max(1, r.choice([20, 33, 100, 250]) * 1000 // u)
    nb = r.choice([0, 1, 3, 8, 14])
    cl, cur, last = [], None, 0
    for _ in range(nb):
        t += r.choice([0, 1, step, step, step, 4 * step])
        if t * u >= 900 * 10**6:
            return None
        if cur is None or r.random() < .25 or t - cur["t"] > 30000:
            cur = {"t": max(0, t - r.choice([0, 0, 3])), "bs": []}
            cl.append(cur)
        k = by[r.choice(nums)]
        fr = []
        for _ in range(r.choice([1] * 6 + [2, 3]) if k["codec"] != "V_VP9" else 1):
            d = vp8_frame(r) if k["codec"] == "V_VP8" else src[k["n"]].block() if src[k["n"]] else blob(r)
            if k["enc"]:
                s = r.choice([0, 0, 1, 3])
                iv = bytes(r.randrange(256) for _ in range(8))
                if s == 3:
                    p = [r.randrange(1 << 30) for _ in range(r.choice([0, 1, 2, 4]))]
                    d = b"\x03" + iv + bytes([len(p)]) + b"".join(struct.pack(">I", x) for x in p) + d
                    if odd and r.random() < .5:
                        d = d[:r.randint(1, 14)]
                        if src[k["n"]]:
                            src[k["n"]].alive = False
                elif s == 1:
                    d = b"\x01" + iv + d
                    if src[k["n"]]:
                        src[k["n"]].alive = False      # what was in this frame is unknown
                    if odd and r.random() < .5:
                        d = d[:r.randint(1, 8)]
                else:
                    d = b"\x00" + d
            fr.append(d)
        tt = t
        if k["ty"] != 1 and r.random() < .15:
            tt = max(cur["t"], t - r.randint(0, 5))
        group = r.random() < .35
        cur["bs"].append({"trk": k["n"], "t": tt, "group": group, "key": r.random() < .5, "pad": r.choice([0, 0, 1, -500, 2500000]) if group else 0, "fr": fr})
        last = max(last, t)
    # bytes
    def block(b, ct):
        lac = 0 if len(b["fr"]) == 1 else 1
        d = b["fr"][0]
        if lac:
            d = bytes([len(b["fr"]) - 1]) + b"".join(b"\xff" * (len(x) // 255) + bytes([len(x) % 255]) for x in b["fr"][:-1]) + b"".join(b["fr"])
        hd = E.vint(b["trk"]) + struct.pack(">h", b["t"] - ct)
        if not b["group"]:
            return E.el(E.SIMPLEBLOCK, hd + bytes([(0x80 if b["key"] else 0) | lac << 1]) + d)
        g = E.el(E.BLOCK, hd + bytes([lac << 1]) + d)
        if r.random() < .3:
            g = E.u(E.BLOCKDUR, r.randint(1, 50)) + g
        if not b["key"]:
            g += E.el(E.REFBLOCK, r.choice([b"\xff", b"\xfe", b"\x05"]))
        if b["pad"]:
            g += E.el(E.DISCARD, b["pad"].to_bytes(4, "big", signed=True))
        return E.el(E.BLOCKGROUP, g)

    clb = []
    for c in cl:
        x = E.u(E.TIMECODE, c["t"])
        if r.random() < .3:
            x += E.u(E.PREVSIZE, 1)
        clb.append(E.el(E.CLUSTER, x + b"".join(block(b, c["t"]) for b in c["bs"])))
    title, mux, wr = (word(r) if r.random() < .6 else "" for _ in range(3))
    # a duration as the last block's time or anything
    dur = None if r.random() < .15 else r.choice([last, last + 10, last * 2 + 7, last // 2 + 1])
    if dur is not None and dur * u >= 999 * 10**6:
        return None
    info = E.u(E.TSCALE, u * 1000)
    if dur is not None:
        info += E.f8(E.DURATION, float(dur)) if r.random() < .5 or dur > 10**6 else E.f4(E.DURATION, float(dur))
    for i, v in ((E.TITLE, title), (E.MUXAPP, mux), (E.WRITEAPP, wr)):
        if v:
            info += E.s(i, v)
    cues = []
    cueb = None
    if r.random() < .6:
        cb = b""
        for i in range(r.choice([0, 1, 2, 4])):
            p = {"t": i * 7 + r.randint(0, 5), "tp": []}
            pb = E.u(E.CUETIME, p["t"])
            for n in r.sample(nums, r.randint(1, len(nums))):
                q = {"trk": n, "pos": r.randint(0, 5000), "bn": r.choice([1, 1, 2, 300])}
                pb += E.el(E.CUETPOS, E.u(E.CUETRACK, n) + E.u(E.CUECPOS, q["pos"]) + (E.u(E.CUEBLOCK, q["bn"]) if q["bn"] != 1 or r.random() < .5 else b""))
                p["tp"].append(q)
            cues.append(p)
            cb += E.el(E.CUEPOINT, pb)
        cueb = E.el(E.CUES, cb)
        if not cues:
            cueb = None
    seekb, seeks = None, []
    if r.random() < .6:
        sb = b""
        for _ in range(r.randint(0, 3)):
            i, p = r.choice([E.INFO, E.TRACKS, E.CHAPTERS, 0x1254C367]), r.randint(0, 9000)
            seeks.append({"id": "%x" % i, "pos": p})
            sb += E.el(E.SEEK, E.el(E.SEEKID, E.idb(i)) + E.u(E.SEEKPOS, p, r.choice([None, 8])))
            if r.random() < .3:
                sb += E.el(E.VOID, bytes(r.randint(0, 5)))
        seekb = E.el(E.SEEKHEAD, sb)
    hdr = [1, 1, 4, 8, r.choice(["webm", "matroska"]), r.choice([2, 4]), 2]
    void = lambda: E.el(E.VOID, bytes(r.randint(0, 9))) if r.random() < .15 else b""
    first = r.random() < .4
    segb = (seekb or b"") + void() + E.el(E.INFO, info) + void() + E.el(E.TRACKS, body) + void()
    if cueb and first:
        segb += cueb
    segb += b"".join(x + void() for x in clb)
    if cueb and not first:
        segb += cueb
    doc = E.el(E.EBML, E.u(0x4286, hdr[0]) + E.u(0x42F7, hdr[1]) + E.u(0x42F2, hdr[2]) + E.u(0x42F3, hdr[3]) + E.s(0x4282, hdr[4]) +
               E.u(0x4287, hdr[5]) + E.u(0x4285, hdr[6])) + E.el(E.SEGMENT, segb, width=r.choice([None, 8]))
    # where things are
    top, _ = E.decode(doc)
    sg = top[1]
    at = lambda e: {"at": e.off, "sz": e.hdr + e.size}
    d = {"u": u, "hdr": [str(x) for x in hdr], "seg": at(sg), "seek": [], "info": dict(at(sg.kid(E.INFO)), dur=-1 if dur is None else dur * u, title=title, mux=mux, wr=wr),
         "tracks": at(sg.kid(E.TRACKS)), "trk": [], "cl": [], "cues": []}
    if seekb:
        s = sg.kid(E.SEEKHEAD)
        d["seek"] = [dict(at(s), es=[dict(x, **at(e)) for x, e in zip(seeks, s.all(E.SEEK))], vs=[at(e) for e in s.all(E.VOID)])]
    for t, e in zip(trks, sg.kid(E.TRACKS).kids):
        d["trk"].append(dict(t, **at(e)))
    for c, e in zip(cl, sg.all(E.CLUSTER)):
        bs = []
        for b, k in zip(c["bs"], [k for k in e.kids if k.id in (E.SIMPLEBLOCK, E.BLOCKGROUP)]):
            x = k.kid(E.BLOCK) if k.id == E.BLOCKGROUP else k
            fr = b["fr"][0]
            bs.append({"trk": b["trk"], "t": b["t"], "group": b["group"], "key": b["key"], "pad": str(b["pad"]) if b["pad"] else "",
                       "at": x.off + x.hdr, "sz": x.size, "fr": [list(f) for f in b["fr"]],
                       "iv": "%x" % int.from_bytes(fr[1:9], "little")})
        d["cl"].append(dict(at(e), t=c["t"], bs=bs))
    if cueb:
        d["cues"] = [dict(at(sg.kid(E.CUES)), ps=cues)]
    # options
    args = []
    if r.random() < .3:
        args.append({"k": "all", "on": True})
    most = r.random() < .5
    for n in sorted(NAMES, key=lambda n: r.random()):
        if r.random() < .45:
            args.append({"k": n, "on": r.random() < (.8 if most else .5)})
    if r.random() < .2:
        args.insert(r.randint(0, len(args)), {"k": "all", "on": True})
    def on():
        o = {"video", "audio", "times_seconds", "ebml_header", "segment", "segment_info", "tracks"}
        for a in args:
            if a["k"] == "all":
                o = set(NAMES)
            elif a["on"]:
                o.add(a["k"])
            else:
                o.discard(a["k"])
        return o
    o = on()
    if "times_seconds" in o and u % 1000:
        args.append({"k": "times_seconds", "on": False})
    if "codec_info" in o and "encrypted_info" not in o and any(t["enc"] for t in trks):
        args.append({"k": "encrypted_info", "on": True})
    if "frame_stats" in o and (u % 1000 or not dur):
        args.append({"k": "frame_stats", "on": False})
    c = {"doc": doc, "facts": d, "args": args, "dmg": False, "dur": dur, "u": u}
    if r.random() < .25:
        c["dmg"] = True
        c["doc"] = damage(r, doc)
    return c


def damage(r, doc):
    c = r.random()
    if c < .25:
        return doc[:r.randrange(len(doc))]
    b = bytearray(doc)
    if c < .45:         # one element under another name, so that it is missing
        ids = [E.idb(x) for x in (E.INFO, E.TRACKS, E.CLUSTER, E.CUES, E.TIMECODE, E.CUEPOINT, E.VIDEO, E.SEEKHEAD, E.TNUM, E.SEEK)]
        for x in r.sample(ids, 3):
            i = b.find(x)
            if i > 0:
                b[i:i + len(x)] = {1: b"\xec", 2: b"\x42\x10", 4: b"\x10\x43\xa7\x71"}[len(x)]
                break
        return bytes(b)
    for _ in range(r.choice([1, 1, 2, 5])):
        i = r.randrange(len(b))
        b[i] = r.choice([0, 255, b[i] ^ 1 << r.randrange(8), r.randrange(256)])
    return bytes(b)


def norm(s):
    s = re.sub(r"\s*:\s*", ":", re.sub(r"\s+", " ", s.strip()))
    s = re.sub(r":(?=@:|size:)", ": ", s)
    return re.sub(r"^VP8 data:(?=.)", "VP8 data: ", s)


def info_run(c, d):
    p = os.path.join(d, "in.webm")
    with open(p, "wb") as f:
        f.write(c["doc"])
    args = []
    for a in c["args"]:
        args.append("-all" if a["k"] == "all" else ("-" if a["on"] else "-no") + a["k"])
    args = args[:c["at"]] + ["-i", "in.webm"] + args[c["at"]:] if "at" in c else ["-i", "in.webm"] + args
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["ASAN_OPTIONS"] = e.get("ASAN_OPTIONS", "") + ":hard_rss_limit_mb=2000"
    try:
        q = subprocess.run([info_run.tool] + args, cwd=d, env=e, capture_output=True, timeout=30, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Died("timeout")
    if q.returncode not in (0, 1):
        raise Died("exit %d: %s" % (q.returncode, summarize_crash(q.stderr.decode("latin1"))))
    if c["dmg"]:
        return {"dmg": True, "rc": q.returncode, "args": [], "doc": {}, "out": [], "lvl": []}
    out, lvl, part = [], [], None
    for l in q.stdout.decode("latin1").split("\n"):
        if not l.strip():
            continue
        x = norm(l)
        m = re.fullmatch(r"VP9 Level:(-?\d+)", x)
        if m:
            part = int(m.group(1))
            continue
        m = re.fullmatch(r"mlsr:(\d+) mlps:(\d+) mlpb:(\d+) abr:(\S+) mcs:\S+ cr:\S+ mct:(\d+) mad:(-?\d+) mrf:(\d+)", x)
        if m and part is not None:
            a = float(m.group(4))
            big = comp_vp9.big
            lvl.append({"level": part, "rate": big(int(m.group(1))), "size": big(int(m.group(2))), "breadth": int(m.group(3)),
                        "kbps": big(round(a * 10**8)) if 0 <= a < 1e20 else [-1], "cols": int(m.group(5)), "alt": int(m.group(6)), "refs": int(m.group(7))})
            continue
        m = re.fullmatch(r"Actual fps:(\S+) Displayed fps:(\S+)", x)
        if m and c["dur"]:
            s = c["dur"] * c["u"] / 1e6
            n = []
            for v in m.groups():
                v = float(v) * s
                n.append(round(v) if abs(v - round(v)) < 1e-3 else -999)
            x = "fps*duration:%d displayed:%d" % tuple(n)
        out.append({"d": (len(l) - len(l.lstrip(" "))) // 2, "x": x})
    return {"dmg": False, "rc": q.returncode, "args": c["args"], "doc": c["facts"], "out": out, "lvl": lvl}


def info_desc(c):
    return "options %s | damaged %s | file %s" % (["%s%s" % ("" if a["on"] else "no", a["k"]) for a in c["args"]], c["dmg"], c["doc"].hex())


def s03(ck, tier):
    r = run_tlc("MCInfo", "MCInfo.cfg")
    if r.rc != 0:
        raise TlcError("MCInfo: " + r.out[-2000:])
    ck.add_tlc(r)
    info_run.tool = build("tool", ["mkvmuxer", "mkvparser", "common"], extra_src=["webm_info.cc"])
    g = rng("S03")
    n = 700 if tier == "quick" else 6000
    cases = [info_case(g) for _ in range(n)]
    ts, _ = validate_cases(ck, cases, info_run, "InfoTrace", "InfoTrace.cfg", info_desc)
    ck.extra["lines_judged"] = sum(len(t.get("out", [])) for t in ts)
    ck.extra["damaged_files"] = sum(1 for c in cases if c["dmg"])
    ck.assumptions.append("text in ASCII; at most one VP9 track; frames in time order per video track; times shown in seconds are whole milliseconds below 1000 s")
