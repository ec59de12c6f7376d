"""Muxer checks: M01-M05, M07-M11 (spec Mux.tla, MuxTrace.tla, MCMux.tla)."""
import hashlib
import math
import os
import shutil
import struct
from vlib import *
import ebml as E

IDN = {E.INFO: "info", E.TRACKS: "tracks", E.CHAPTERS: "chapters", E.TAGS: "tags", E.CLUSTER: "cluster",
       E.CUES: "cues", E.SEEKHEAD: "seekhead", E.VOID: "void"}
WEBM = ("V_VP8", "V_VP9", "V_AV1", "A_OPUS", "A_VORBIS", "D_WEBVTT/CAPTIONS", "D_WEBVTT/DESCRIPTIONS",
        "D_WEBVTT/METADATA", "D_WEBVTT/SUBTITLES")
VERSION = "libwebm-"


def dig(b):
    return hashlib.md5(bytes(b)).hexdigest()[:10]


_pl = {}


def pdig(seed, n):
    if n == 0:
        return ""
    k = (seed, n)
    if k not in _pl:
        _pl[k] = dig(E.payload(seed, n))
    return _pl[k]


def intw(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return n


class Session:
    """Builds the script for the harness and the call list for the specification."""

    def __init__(self, scale=1000000, upt=4, base=0, seek=1):
        self.scale, self.upt, self.base, self.seek = scale, upt, base, seek
        self.lines, self.calls = [], []
        self.codecs = []
        self.mapp = self.wapp = None
        self.date = None
        self.chunk = None
        self.nf = 0
        self.fail = "-1 n"
        self.known = []
        self.copyargs = None
        if scale != 1000000:
            self._c("SCALE %d" % scale, {"op": "SCALE"})

    def ns(self, t):
        return self.base * self.scale + t * self.scale // self.upt

    def _c(self, line, call):
        self.lines.append(line)
        self.calls.append(call)

    def vt(self, n=0, codec=None):
        self._c("VT 320 240 %d" % n, {"op": "VT", "n": n})
        self._codec(codec, "V_VP8")

    def at(self, n=0, codec=None):
        self._c("AT 48000 2 %d" % n, {"op": "AT", "n": n})
        self._codec(codec, "A_VORBIS")

    def gt(self, n=0, ty=17, codec="D_WEBVTT/SUBTITLES"):
        self._c("GT %d %d %s" % (n, ty, codec), {"op": "GT", "n": n, "ty": ty})
        self.codecs.append(codec)

    def _codec(self, codec, dflt):
        self.codecs.append(dflt)

    def setcodec(self, idx, num, codec):
        self._c("CODEC %d %s" % (num, codec), {"op": "CODEC"})
        self.codecs[idx] = codec

    def ct(self, n):
        self._c("CT %d" % n, {"op": "CT", "n": n})

    def flag(self, op, v):
        self._c("%s %d" % (op, v), {"op": op, "v": v})

    def live(self):
        self._c("MODE live", {"op": "MODE", "v": 1})

    def maxdur(self, ticks, frac=0):
        # any limit in (ticks-1, ticks] ticks cuts at the same frames
        nsv = 0 if ticks == 0 else ticks * self.scale - frac * self.scale // 4
        self._c("MAXDUR %d" % nsv, {"op": "MAXDUR", "v": ticks})

    def maxsize(self, n):
        self._c("MAXSIZE %d" % n, {"op": "MAXSIZE", "v": n})

    def dur(self, units):
        self._c("DUR %r" % (units / self.upt), {"op": "DUR", "v": units})

    def info(self, date=None, mapp=None, wapp=None):
        if date is not None:
            self.date = date
            self._c("DATE %d" % date, {"op": "DATE"})
        if mapp is not None:
            self.mapp = mapp
            self._c("MAPP %s" % (mapp.encode().hex() or "-"), {"op": "MAPP"})
        if wapp is not None:
            self.wapp = wapp
            self._c("WAPP %s" % (wapp.encode().hex() or "-"), {"op": "WAPP"})

    def chap(self, i):
        self._c("CHAP %d %d chapter%d%s" % (i * 1000000000, (i + 1) * 1000000000, i, " id%d" % i if i % 2 else ""), {"op": "CHAP"})

    def tag(self, i, val="v"):
        self._c("TAG name%d %s" % (i, val), {"op": "TAG"})

    def fc(self):
        self._c("FC", {"op": "FC"})

    def cp(self, t, trk):
        self._c("CP %d %d" % (self.ns(t), trk), {"op": "CP", "t": t, "trk": trk})

    def fin(self):
        self._c("FIN", {"op": "FIN"})

    def copy(self, seek=1):
        self._c("COPY", {"op": "COPY", "v": seek})

    def frame(self, trk, t, key=1, ln=8, dur=None, dp=0, al=0, aid=1, ref=None, api=None):
        self.nf += 1
        seed, aseed = self.nf * 7 + 1, self.nf * 7 + 2
        plain = dur is None and ref is None
        if api is None:
            api = "f" if plain and not dp and not al else "g"
        bad = api in "nNe" or api == "z" and al == 0 or api == "a" and al == 0
        if api == "f" or api == "n":
            dur, dp, al, ref = None, 0, 0, None
        elif api == "d":
            dur, al, ref = None, 0, None
        elif api == "a":
            dur, dp, ref = None, 0, None
        elif api == "m":
            dp, al, ref, key, dur = 0, 0, None, 1, dur or 0
        self._c("F %s %d %d %d %d %d %s %d %d %d %d %s" % (
            api, trk, self.ns(t), key, ln, seed, "-" if dur is None else dur * self.scale // self.upt, dp, al, aid, aseed,
            "-" if ref is None else self.ns(ref)),
            {"op": "F", "f": {"id": 0, "trk": trk, "t": t, "key": bool(key), "len": ln, "p": pdig(seed, ln),
                              "dur": dur or 0, "ds": dur is not None, "dp": str(dp), "dpw": intw(dp), "al": al,
                              "aid": aid if al else 0, "ap": pdig(aseed, al) if al else "", "ref": -1 if ref is None else ref,
                              "bad": bad, "adur": False}})

    def started(self):
        """a frame that must have been accepted was added"""
        nums = set(self.known)
        return any(c["op"] == "F" and not c["f"]["bad"] and c["f"]["len"] and c["f"]["trk"] in nums for c in self.calls)

    def text(self):
        lines = ["COPY " + self.copyargs if l == "COPY" and self.copyargs else l for l in self.lines]
        return "\n".join(["W %d %s" % (self.seek, self.fail)] + lines)

    def dt(self):
        return "webm" if all(c in WEBM for c in self.codecs) else "matroska"

    def trace(self, res):
        """harness result -> trace for MuxTrace"""
        calls = []
        for c, r, f in zip(self.calls, res["r"], res["f"]):
            calls.append(dict(c, r=r, x=f))
        fin = any(c["op"] == "FIN" and c["r"] == 1 for c in calls)
        out = decode_out(bytes.fromhex(res["out"]), self) if fin else {}
        return {"kind": "mux", "upt": self.upt, "tcw": 0 if not self.base else intw_u(self.base), "seek": self.seek,
                "maxd": -(-30000000000 // self.scale), "calls": calls, "out": out, "moved": res["moved"],
                "dt": self.dt(), "scale": str(self.scale), "mapp": self.mapp or "*", "wapp": self.wapp or "*",
                "date": str(self.date), "dsc": self.dsc()}

    def dsc(self):
        """resolution of the duration comparison in parts of a unit (TLC integers are 32 bit)"""
        big = max([c["f"]["t"] + c["f"]["dur"] for c in self.calls if c["op"] == "F"] or [0])
        return 16 if big < 1 << 22 else 1


def intw_u(v):
    return max(1, (v.bit_length() + 7) // 8)


def fint(v):
    """interval of reals that round to the float32 v"""
    b = struct.unpack(">I", struct.pack(">f", v))[0]
    up = struct.unpack(">f", struct.pack(">I", b + 1))[0]
    dn = struct.unpack(">f", struct.pack(">I", b - 1))[0] if b else 0.0
    return (v + dn) / 2, (v + up) / 2


BIG = 1 << 30


def clamp(x):
    return max(-BIG, min(BIG, x))


EMPTY = {"err": "", "cl": [], "cues": [], "ncues": 0, "seek": [], "top": [], "pay": 0, "segsz": -1, "dt": "", "dv": 0,
         "drv": 0, "scale": "", "mapp": "", "wapp": "", "date": "None", "dur": []}


def decode_block(e, group):
    b = e.body
    trk, n = E.read_vint(b, 0)
    rel = struct.unpack(">h", b[n:n + 2])[0]
    fl = b[n + 2]
    if fl & ~0x80 or group and fl:
        raise E.DecodeError("block flags %x" % fl)
    return trk, rel, bool(fl & 0x80), b[n + 3:]


def decode_cluster(c, ses):
    bl = []
    tc = None
    for e in c.kids:
        if e.id == E.TIMECODE:
            if tc is not None or bl:
                raise E.DecodeError("cluster timecode misplaced")
            tc = e.uint()
        elif e.id == E.SIMPLEBLOCK:
            trk, rel, key, d = decode_block(e, False)
            bl.append({"trk": trk, "rel": rel, "key": key, "simple": True, "dur": 0, "dp": "0", "al": 0, "aid": 0, "ap": "",
                       "ref": -1, "len": len(d), "p": dig(d)})
        elif e.id == E.BLOCKGROUP:
            r = {"dur": 0, "dp": "0", "al": 0, "aid": 0, "ap": "", "ref": -1, "simple": False, "key": True}
            seen = set()
            for x in e.kids:
                if x.id in seen:
                    raise E.DecodeError("duplicate %x in block group" % x.id)
                seen.add(x.id)
                if x.id == E.BLOCK:
                    trk, rel, _, d = decode_block(x, True)
                    r.update(trk=trk, rel=rel, len=len(d), p=dig(d))
                elif x.id == E.BLOCKDUR:
                    r["dur"] = clamp(x.uint())
                elif x.id == E.REFBLOCK:
                    r["ref"] = clamp(x.uint() - ses.base)
                    r["key"] = False
                elif x.id == E.DISCARD:
                    r["dp"] = str(x.sint())
                elif x.id == E.BLOCKADDS:
                    if len(x.kids) != 1 or x.kids[0].id != E.BLOCKMORE:
                        raise E.DecodeError("block additions")
                    m = x.kids[0]
                    d = m.kid(E.BLOCKADDITIONAL).body
                    ai = m.kid(E.BLOCKADDID)
                    r.update(al=len(d), ap=dig(d), aid=ai.uint() if ai else 1)
                else:
                    raise E.DecodeError("unexpected %x in block group" % x.id)
            if "p" not in r:
                raise E.DecodeError("block group without block")
            bl.append(r)
        else:
            raise E.DecodeError("unexpected %x in cluster" % e.id)
    if tc is None:
        raise E.DecodeError("cluster without timecode")
    return {"off": c.off, "size": c.size, "tc": clamp(tc - ses.base), "bl": bl}


def decode_cues(c):
    res = []
    for p in c.kids:
        if p.id != E.CUEPOINT:
            raise E.DecodeError("unexpected %x in cues" % p.id)
        t = p.kid(E.CUETIME).uint()
        tp = p.all(E.CUETPOS)
        if len(tp) != 1 or len(p.kids) != 2:
            raise E.DecodeError("cue point")
        bn = tp[0].kid(E.CUEBLOCK)
        res.append((t, tp[0].kid(E.CUETRACK).uint(), tp[0].kid(E.CUECPOS).uint(), bn.uint() if bn else 1))
    return res


def decode_out(b, ses):
    o = dict(EMPTY)
    try:
        top, _ = E.decode(b)
        if [t.id for t in top] != [E.EBML, E.SEGMENT]:
            raise E.DecodeError("top level %s" % [hex(t.id) for t in top])
        h, sg = top
        o["dt"] = h.kid(0x4282).body.decode("latin1")
        o["dv"], o["drv"] = h.kid(0x4287).uint(), h.kid(0x4285).uint()
        for i, v in ((0x4286, 1), (0x42F7, 1), (0x42F2, 4), (0x42F3, 8)):
            if h.kid(i).uint() != v:
                raise E.DecodeError("EBML header %x" % i)
        o["pay"] = sg.off + sg.hdr
        o["segsz"] = -1 if sg.size < 0 else (1 if sg.end == len(b) else 0)
        o["top"] = [{"id": IDN.get(e.id, hex(e.id)), "off": e.off} for e in sg.kids]
        for e in sg.kids:
            if e.id == E.INFO:
                ids = [k.id for k in e.kids]
                if len(set(ids)) != len(ids):
                    raise E.DecodeError("duplicate info field")
                o["scale"] = str(e.kid(E.TSCALE).uint())
                o["mapp"] = e.kid(E.MUXAPP).body.decode("latin1")
                o["wapp"] = e.kid(E.WRITEAPP).body.decode("latin1")
                if ses.mapp is None and o["mapp"].startswith(VERSION):
                    o["mapp"] = "*"
                if ses.wapp is None and o["wapp"].startswith(VERSION):
                    o["wapp"] = "*"
                d = e.kid(E.DATE)
                o["date"] = str(d.sint()) if d else "None"
                du = e.kid(E.DURATION)
                if du:
                    lo, hi = fint(du.flt())
                    o["dur"] = [clamp(math.floor((lo - ses.base) * ses.upt * ses.dsc())),
                                clamp(math.ceil((hi - ses.base) * ses.upt * ses.dsc()))]
            elif e.id == E.SEEKHEAD:
                for sk in e.kids:
                    i = sk.kid(E.SEEKID).body
                    o["seek"] = o["seek"] + [{"id": IDN.get(int.from_bytes(i, "big"), i.hex()), "pos": clamp(sk.kid(E.SEEKPOS).uint())}]
            elif e.id == E.CLUSTER:
                o["cl"] = o["cl"] + [decode_cluster(e, ses)]
            elif e.id == E.CUES:
                o["ncues"] += 1
                o["cues"] = [{"time": clamp(t - ses.base), "trk": k, "pos": clamp(p), "bn": n} for t, k, p, n in decode_cues(e)]
            elif e.id not in IDN:
                raise E.DecodeError("unexpected %x in segment" % e.id)
    except (E.DecodeError, AttributeError, IndexError, struct.error, ValueError) as ex:
        o["err"] = "%s: %s" % (type(ex).__name__, ex)
        o["err"] = o["err"][:200]
    return o


# ---------------------------------------------------------------- generators

def rnd_tracks(r, s, prof):
    """returns list of (number, type)"""
    lay = r.choice(prof.get("layouts", ["V", "A", "VA", "VA", "VA", "AV", "VAA", "VAM", "VM", "AM", "VVA", "AA", "M", "VAS"]))
    used = []
    for ch in lay:
        n = 0
        if r.random() < .25:
            n = r.choice([1, 2, 3, 5, 7, 100, 126])
        if r.random() < prof.get("badtrack", .05):
            k = r.choice([-1, 127, 200, used[0][0] if used else -5])
            (s.vt if r.random() < .5 else s.at)(k)
            s.codecs.pop()
        if n in [u[0] for u in used]:
            n = 0
        if ch == "V":
            s.vt(n)
        elif ch == "A":
            s.at(n)
        elif ch == "M":
            s.gt(n, 33, "D_WEBVTT/METADATA")
        else:
            s.gt(n, 17, "D_WEBVTT/SUBTITLES")
        if n == 0:
            n = len(used) + 1
            while n in [u[0] for u in used]:
                n += 1
        used.append((n, {"V": 1, "A": 2, "M": 33, "S": 17}[ch]))
        if r.random() < .1:
            s.setcodec(len(used) - 1, n, r.choice(["A_OPUS", "V_VP9", "A_AAC", "V_MPEG4/ISO/AVC"]))
    return used


def rnd_session(r, prof):
    scale = r.choice(prof.get("scales", [1000000, 1000000, 1000000, 1000, 40, 4000000]))
    base = 0
    if r.random() < prof.get("base", .1):
        base = r.choice([1 << 33, (1 << 40) + 5, 1 << 31, 3000000000]) if scale <= 1000000 else 1 << 33
    s = Session(scale, 4, base, 0 if r.random() < prof.get("nonseek", .15) else 1)
    P = lambda k, d: r.random() < prof.get(k, d)
    trk = rnd_tracks(r, s, prof)
    s.known = [n for n, _ in trk]
    live = P("live", .15)
    if live:
        s.live()
    if P("nocues", .12):
        s.flag("CUES", 0)
    acc = P("acc", .15)
    if acc:
        s.flag("ACC", 1)
    if P("fix", .15):
        s.flag("FIX", 1)
    cap = 4 * 30000000
    if not base and P("est", .15):
        s.flag("EST", 1)
        cap = 1200000
    if P("udur", .07):
        s.dur(r.choice([1, 4, 10, 4000, 123457]) + (base * 0))
        if base:
            s.lines.pop()
            s.calls.pop()
    if P("maxd", .3):
        s.maxdur(r.choice([0, 1, 2, 5, 10, 50, 100, 1000, 20000, 32767, 32768, 40000]), r.randrange(4))
    sized = not base and P("maxs", .25)
    if sized:
        s.maxsize(r.choice([1, 10, 20, 30, 50, 64, 100, 128, 200, 300, 1000]))
    if P("ct", .25):
        s.ct(r.choice(trk)[0])
    if P("ctbad", .03):
        s.ct(r.choice([0, 99]))
    if P("info", .2):
        s.info(date=r.choice([None, 0, 1, -1, 1 << 40, -(1 << 62), (1 << 63) - 1]), mapp=r.choice([None, "m", "x" * 126, "y" * 127, "z" * 300]),
               wapp=r.choice([None, "w", "a" * 130]))
    if P("cbn", .08):
        s.flag("CBN", 0)
    for i in range(r.choice([0, 0, 0, 1, 2]) if P("chap", .3) else 0):
        s.chap(i)
    for i in range(r.choice([0, 1, 3]) if P("tag", .3) else 0):
        s.tag(i, "v" * r.choice([1, 100, 126, 127, 128, 200]))
    n = r.choice(prof.get("nframes", [1, 2, 3, 5, 8, 12, 20, 30]))
    step = r.choice(prof.get("steps", [0, 1, 3, 4, 33 * 4, 120, 1000, 16000, 40000]))
    t = r.choice([0, 0, 0, 1, 3, 50, 4 * 250, 4 * 65530, 4 * 16777210]) if not base else r.choice([0, 5, 100])
    t = min(t, cap)
    last = 0
    for _ in range(n):
        c = r.random()
        if c < .06:
            s.fc()
        elif c < .06 + prof.get("cpp", .04):
            s.cp(t, r.choice(trk)[0])
        elif c < .12 and P("reset", .3):
            k = r.randrange(4)
            if k == 0:
                s.maxdur(r.choice([0, 1, 10, 100]), r.randrange(4))
            elif k == 1 and not base:
                s.maxsize(r.choice([0, 10, 40, 100]))
            elif k == 2:
                s.flag("FIX", r.randrange(2))
            else:
                s.ct(r.choice(trk)[0])
        num, ty = r.choice(trk)
        ft = t
        j = r.random()
        if j < prof.get("jitter", .25):
            ft = max(0, t + r.choice([-step, -step // 2, -1, 1, 2, step, 2 * step, 5 * step]))
        elif j < prof.get("jitter", .25) + prof.get("gap", .04):
            ft = t + 4 * r.choice([32766, 32767, 32768, 32769, 40000, 65535, 65536, 70000])
            t = ft
        elif j > 1 - prof.get("back", .02):
            ft = max(0, t - r.choice([1, 4, 100, 4 * 33000]))
        ft = min(ft, cap)
        bad = r.random()
        key = 1 if ty not in (1,) and r.random() < .85 else int(r.random() < prof.get("key", .3))
        ln = r.choice([1, 2, 5, 10, 30, 60, 100, 121, 122, 123, 124, 200, 1000] if P("big", .5) else [1, 3, 8])
        if P("huge", .01):
            ln = r.choice([16376, 16377, 16378, 16379, 16380, 17000])
        pb = prof.get("bad", .08)
        if bad < pb:
            k = r.randrange(8)
            if k == 7:    # tracks cannot be added once the header is written
                if s.nf and any(c["op"] == "F" and not c["f"]["bad"] for c in s.calls):
                    a, b = list(s.codecs), r.randrange(3)
                    (s.vt if b == 0 else s.at if b == 1 else s.gt)(r.choice([0, 0, 50]))
                    if s.started():
                        s.codecs = a
                    else:
                        s.lines.pop()
                        s.calls.pop()
                        s.codecs = a
            elif k == 0:
                s.frame(num, ft, key, 0)
            elif k == 1:
                s.frame(r.choice([x for x in (1, 2, 3, 4, 9, 126, 127, 130) if x not in [u[0] for u in trk]]), ft, key, ln)
            elif k == 2:
                s.frame(num, ft, key, ln, api="n")
            elif k == 3:
                s.frame(num, ft, key, ln, api="N")
            elif k == 4:
                s.frame(num, ft, key, ln, api=r.choice("az"), al=0)
            elif k == 5:
                s.frame(num, ft, key, 0, api="e")
            else:
                s.frame(num, max(0, last - r.choice([1, 4, 50])), key, ln, dp=r.choice([0, 5]))
            continue
        kind = r.random()
        w = prof.get("rich", .3)
        if kind > w:
            s.frame(num, ft, key, ln)
        else:
            k = r.randrange(6)
            dp = r.choice([1, -1, 127, 128, -128, -129, 32767, 32768, 1 << 31, -(1 << 31) - 1, 1 << 40, -(1 << 62), (1 << 63) - 1])
            if k == 0:
                s.frame(num, ft, key, ln, dp=dp, api="d")
            elif k == 1:
                s.frame(num, ft, key, ln, al=r.choice([1, 2, 100, 126, 127, 128, 1000]), aid=r.choice([1, 2, 4, 255, 256, 70000]), api="a")
            elif k == 2:
                s.frame(num, ft, key, ln, dur=r.choice([0, 1, 3, 4, 100, 4 * 255, 4 * 256, 4 * 65536]), api="m")
            elif k == 3:
                s.frame(num, ft, key, ln, dur=r.choice([0, 1, 4, 7, 500, 4 * 300]))
            else:
                s.frame(num, ft, key, ln, dur=r.choice([None, 0, 2, 4, 400]), dp=r.choice([0, dp]), al=r.choice([0, 3, 130]),
                        aid=r.choice([1, 5, 300]), ref=r.choice([None, max(0, ft - 8), 0]), api="g")
        last = ft
        t += r.choice([0, 1, step, step, step, 2 * step])
        t = min(t, cap)
    s.fin()
    return s


FULL = {}
PROFILES = {
    "M01": [{}, {"acc": 0}, {"layouts": ["VA", "VAA", "VAM", "AV"], "jitter": .5}, {"rich": .8}, {"gap": .25}, {"live": .6}],
    "M02": [{}, {"gap": .3, "layouts": ["VA", "A", "V", "VAM", "AM", "M"]}, {"maxd": .9, "jitter": .3}, {"maxs": 1, "base": 0, "rich": .6, "nframes": [12, 25]},
            {"layouts": ["VA", "VAA"], "jitter": .6, "key": .5}],
    "M03": [{"nonseek": .05, "live": .05}, {"ct": .8, "cpp": .2, "live": .05, "nonseek": 0}, {"layouts": ["VA", "AV", "VAA"], "key": .6, "live": 0, "nonseek": 0},
            {"acc": .6, "live": 0, "nonseek": 0}, {"nocues": .4}],
    "M04": [{"chap": .6, "tag": .6}, {"nonseek": .5}, {"live": .5}, {"rich": .9, "huge": .1}, {"base": .5}, {"info": .8}],
    "M05": [{"est": .6, "live": 0, "nonseek": 0, "base": 0}, {"udur": .4, "info": .5}, {"rich": .8, "layouts": ["VA", "AV", "VAM"], "live": 0}, {"base": .4},
            {"info": 1, "live": .3}],
    "M09": [{"acc": 1}, {"acc": 1, "layouts": ["VA", "VAA", "VAM", "AA", "VVA"], "jitter": .5, "key": .4}, {"acc": 1, "rich": .6}, {"acc": 1, "live": .5}, {"acc": 1, "gap": .2}],
    "M10": [{"bad": .4, "badtrack": .4, "ctbad": .2, "back": .1}, {"bad": .6, "layouts": ["VA", "AV"]}, {"bad": .5, "acc": .5},
            {"layouts": ["VAA", "VA", "VVA"], "jitter": .6, "back": .25, "bad": .2, "steps": [4, 40, 400]}],
}


def harness():
    return build("mux", ["mkvmuxer", "mkvparser"])


def run_sessions(ck, sessions, tags, kind=None, timeout=800):
    """sessions: list of Session.  Validate and report rejections mentioning one of tags."""
    b = harness()
    d = scratch()
    scripts = [(i, s.text()) for i, s in enumerate(sessions)]
    def post(t, sid):
        return sessions[sid].trace(t)
    try:
        return validate(ck, b, scripts, "MuxTrace", "MuxTrace.cfg",
                        lambda t: len(t["calls"]) + 2, args=[d], post=post,
                        filt=lambda why: any(x in why for x in tags), timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sessions_for(prop, n, salt=""):
    r = rng(prop, salt)
    pr = PROFILES[prop]
    return [rnd_session(r, pr[i % len(pr)]) for i in range(n)]


def mc_session(x):
    c = x["cfg"]
    s = Session(1000000, 4, 0, 1)
    for ch in c["lay"]:
        s.vt() if ch == "V" else s.at() if ch == "A" else s.gt(0, 33, "D_WEBVTT/METADATA")
    s.known = list(range(1, len(c["lay"]) + 1))
    if c["acc"]:
        s.flag("ACC", 1)
    s.maxdur(c["maxd"])
    s.maxsize(c["maxs"])
    for e in x["h"]:
        if e["op"] == "F":
            s.frame(e["trk"], e["t"], e["key"], 8)
        elif e["op"] == "FC":
            s.fc()
        elif e["op"] == "CP":
            s.cp(e["t"], e["trk"])
        else:
            s.fin()
    return s


def model(ck, tier, prop):
    """exhaustive exploration of the session model; its histories are replayed into the code"""
    r = run_tlc("MCMux", "MCMux.cfg")
    if r.rc != 0:
        raise TlcError("MCMux: %s" % r.out[-3000:])
    ck.add_tlc(r)
    hs = tlc_prints(r.out, "H")
    ck.extra["model"] = {"module": "MCMux", "states": r.distinct, "histories": len(hs)}
    g = rng(prop, "mc")
    if tier == "quick":
        hs = g.sample(hs, 1500)
    else:
        r = run_tlc("MCMux", "MCMuxDeep.cfg", timeout=1500, heap="16g")
        if r.rc != 0:
            raise TlcError("MCMuxDeep: %s" % r.out[-3000:])
        ck.add_tlc(r)
        ck.extra["model_deep"] = {"states": r.distinct}
    for k in range(0, len(hs), 6000):
        run_sessions(ck, [mc_session(x) for x in hs[k:k + 6000]], [prop])
        if ck.violations:
            return


def generic(prop):
    def f(ck, tier):
        model(ck, tier, prop)
        n = 1600 if tier == "quick" else 40000
        for part in range(1 if tier == "quick" else 20):
            if ck.violations:
                return
            run_sessions(ck, sessions_for(prop, n if tier == "quick" else n // 20, part), [prop])
    return f


m01, m02, m03, m04, m05, m09, m10 = [generic(p) for p in ("M01", "M02", "M03", "M04", "M05", "M09", "M10")]


# ---------------------------------------------------------------- M07: writer failures

def faulted(ck, sessions, picks, tags):
    """every session is run once cleanly, then with the writer failing one operation"""
    b = harness()
    d = scratch()
    try:
        base = run_harness(b, [(i, s.text()) for i, s in enumerate(sessions)], args=[d])
        var = []
        for i, s in enumerate(sessions):
            t = base[i]
            if "crash" in t:
                ck.violate("harness died: %s %s" % (t["crash"], summarize_crash(t.get("stderr", ""))), {"script": s.text()})
                continue
            for op, mode, second in picks(i, t):
                var.append((s, op, mode, second))
        scripts = []
        for k, (s, op, mode, second) in enumerate(var):
            f, c = s.fail, s.copyargs
            if second:
                s.copyargs = "1 %d %s" % (op, mode)
            else:
                s.fail = "%d %s" % (op, mode)
            scripts.append((k, s.text()))
            s.fail, s.copyargs = f, c

        def post(t, sid):
            x = var[sid][0].trace(t)
            x["kind"] = "fault"
            x["out"] = {}
            return x
        return validate(ck, b, scripts, "MuxTrace", "MuxTrace.cfg", lambda t: len(t["calls"]) + 2, args=[d], post=post,
                        filt=lambda why: any(x in why for x in tags))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def m07(ck, tier):
    r = rng("M07")
    prof = [{"nframes": [2, 3, 5]}, {"acc": 1, "nframes": [3, 6], "layouts": ["VA", "VAA", "AA"]},
            {"chap": 1, "tag": 1, "nframes": [2]}, {"layouts": ["VA", "AV"], "jitter": .5, "nframes": [5, 9]},
            {"live": .5, "nonseek": .5, "nframes": [3, 6]}, {"rich": 1, "nframes": [3]}, {"info": 1, "nframes": [1]}]
    quick = tier == "quick"
    for part in range(1 if quick else 12):
        ss = []
        for i in range(42 if quick else 120):
            s = rnd_session(r, prof[i % len(prof)])
            s._c("FC", {"op": "FC"})       # the object stays usable after a failure
            if i % 3 == 0:
                s.copy()
            ss.append(s)

        def picks(i, t):
            ops = list(range(t["ops"]))
            lim = 60 if quick else 400
            if len(ops) > lim:
                ops = sorted(set(r.sample(ops, lim - 20) + ops[-20:]))
            for o in ops:
                yield o, "tp+"[(o + i) % 3] if quick else r.choice("tp+"), False
            ops = list(range(t["ops2"]))
            if len(ops) > 40:
                ops = sorted(r.sample(ops, 40))
            for o in ops:
                yield o, r.choice("tp+"), True
        faulted(ck, ss, picks, ["M07"])
        if ck.violations:
            return


# ---------------------------------------------------------------- M08: cues in front

def copy_part(s, res, tr):
    """compare the rewritten file with the original"""
    a, b = bytes.fromhex(res["out"]), bytes.fromhex(res["out2"])
    o2 = decode_out(b, s)
    c = {"r": tr["calls"][-1]["r"], "err": o2["err"], "same": 0, "segsz": o2["segsz"], "tops": [x["id"] for x in o2["top"]],
         "cues": o2["cues"], "seek": o2["seek"], "top": o2["top"], "cluoff": -1, "ncues": o2["ncues"]}
    want = []
    if not o2["err"] and not tr["out"]["err"]:
        ka, kb = E.decode(a)[0], E.decode(b)[0]
        skip = (E.SEEKHEAD, E.VOID, E.CUES)
        cont = lambda top, raw: [(e.id, raw[e.off:e.end]) for e in top[1].kids if e.id not in skip]
        hdr = lambda top, raw: raw[top[0].off:top[0].end]
        c["same"] = int(cont(ka, a) == cont(kb, b) and hdr(ka, a) == hdr(kb, b))
        ids = [IDN.get(e.id, hex(e.id)) for e in ka[1].kids]
        rest = [x for x in ids if x != "cues"]
        k = rest.index("cluster") if "cluster" in rest else len(rest)
        want = rest[:k] + (["cues"] if "cues" in ids else []) + rest[k:]
        cl = [e for e in kb[1].kids if e.id == E.CLUSTER]
        c["cluoff"] = cl[0].off if cl else -1
    tr["copy"], tr["wanttops"] = c, want
    tr["kind"] = "copy"
    return tr


def m08_sessions(r, n):
    prof = [{"live": 0, "nonseek": 0, "nocues": 0, "base": 0}, {"live": 0, "nonseek": 0, "chap": 1, "tag": 1},
            {"live": 0, "nonseek": 0, "acc": 1}, {"live": .3, "nonseek": .3, "nocues": .3}]
    out = []
    for i in range(n):
        if i % 2:
            s = rnd_session(r, prof[(i // 2) % 4])
        else:
            # sizes around the widths of cue positions and of the cues element itself
            s = Session(1000000, 4, 0, 1)
            s.vt(0)
            s.known = [1]
            if r.random() < .3:
                s.flag("CBN", 0)
            for k in range(r.choice([0, 0, 1, 2])):
                s.tag(k, "v" * r.choice([1, 50, 120, 126, 127, 128]))
            nc = r.choice([1, 2, 5, 6, 7, 8, 9, 10, 11, 12, 40] + ([600, 1300] if r.random() < .1 else []))
            big = r.choice([1, 1, 10, 30, 100, 240])
            t = 0
            for k in range(nc):
                ln = big + r.randrange(0, 40)
                if nc < 40 and r.random() < .25:
                    # place a later cluster close to a position of 2^8, 2^16
                    ln = r.choice([60000, 64500, 64800, 65000, 65100, 65200, 65300, 65400, 65480]) + r.randrange(0, 100)
                s.frame(1, t, 1, ln)
                t += r.choice([1, 4, 40, 400, 4 * 200])
            s.fin()
        s.copy()
        if r.random() < .2:
            s.copy()     # copying again gives the same file
        out.append(s)
    return out


def m08(ck, tier):
    b = harness()
    for part in range(1 if tier == "quick" else 15):
        ss = m08_sessions(rng("M08", part), 360 if tier == "quick" else 600)
        d = scratch()

        def post(t, sid):
            s = ss[sid]
            tr = s.trace(t)
            if tr["out"] and "out2" in t:
                tr = copy_part(s, t, tr)
            return tr
        try:
            validate(ck, b, [(i, s.text()) for i, s in enumerate(ss)], "MuxTrace", "MuxTrace.cfg", lambda t: len(t["calls"]) + 2,
                     args=[d], post=post, filt=lambda why: "M08" in why)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if ck.violations:
            return


# ---------------------------------------------------------------- M11: chunked output

def m11(ck, tier):
    b = harness()
    prof = [{"nonseek": 0}, {"nonseek": 0, "acc": 1}, {"nonseek": 0, "chap": 1, "tag": 1}, {"nonseek": 0, "nocues": .5},
            {"nonseek": 0, "maxs": 1, "maxd": .8, "nframes": [12, 30]}, {"nonseek": 0, "live": .5}]
    for part in range(1 if tier == "quick" else 15):
        r = rng("M11", part)
        ss = [rnd_session(r, prof[i % len(prof)]) for i in range(500 if tier == "quick" else 1000)]
        d = scratch()
        try:
            scripts = []
            for i, s in enumerate(ss):
                t = s.text().split("\n")
                # chunking may be requested before or after the other settings
                k = 1 if r.random() < .5 else 1 + next((j for j, l in enumerate(t[1:]) if l[0] == "F"), 0)
                scripts.append((i, "\n".join(t[:k] + ["CHUNK c%d" % i] + t[k:])))
            plain = run_harness(b, [(i, s.text()) for i, s in enumerate(ss)], args=[d])
            pos = [x[1].split("\n").index("CHUNK c%d" % i) - 1 for i, x in enumerate(scripts)]

            def post(t, sid):
                s, p = ss[sid], plain[sid]
                if "crash" in p:
                    return None
                tr = s.trace(p)
                rr = t["r"][:pos[sid]] + t["r"][pos[sid] + 1:]
                same = n = 0
                off = []
                if tr["out"] and not tr["out"]["err"]:
                    parts = [bytes.fromhex(x) if x != "none" else b"" for x in t["chunks"]]
                    cues = [bytes.fromhex(x) for x in t["ccues"]]
                    n = len(parts) - 1
                    o = len(parts[0])
                    for x in parts[1:]:
                        off.append(o)
                        o += len(x)
                    same = int(b"".join(parts + cues) == bytes.fromhex(p["out"]))
                tr["kind"] = "chunk"
                tr["chunk"] = {"same": same, "n": n, "off": off, "rets": int(rr == p["r"] and t["r"][pos[sid]] == 1),
                               "badfile": int(t["out"] != "")}
                return tr
            validate(ck, b, scripts, "MuxTrace", "MuxTrace.cfg", lambda t: len(t["calls"]) + 2, args=[d], post=post,
                     filt=lambda why: "M11" in why)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if ck.violations:
            return
