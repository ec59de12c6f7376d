"""M06: metadata given to the muxer is read back by both parsers (Meta.tla, MetaTrace.tla)."""
import struct
import vlib
from vlib import rng

UINTS = [0, 1, 2, 3, 7, 127, 128, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, (1 << 31) - 1, 1 << 31,
         (1 << 32) - 1, 1 << 32, (1 << 40) - 1, (1 << 48), (1 << 56) - 1, 1 << 56, (1 << 63) - 2]
COLI = ["matrix", "bits", "csx", "csy", "cbx", "cby", "sitx", "sity", "range", "transfer", "primaries", "cll", "fall"]


def f32(n):
    """n/1024 exactly representable as a 32-bit float?"""
    v = n / 1024.0
    return struct.unpack("<f", struct.pack("<f", v))[0] == v


def flt(r, lo, hi):
    while True:
        n = r.choice([r.randint(lo, hi), r.randint(lo, hi) // 1024 * 1024, lo, hi, r.randint(max(lo, -2000), max(lo, min(hi, 2000)))])
        if lo <= n <= hi and f32(n):
            return n


def text(r, nonempty=True):
    n = r.choice([1, 1, 2, 3, 5, 8, 20, 60, 126, 127, 128, 129, 300]) if nonempty else r.choice([0, 3])
    k = r.random()
    if k < 0.7:
        return bytes(r.randint(32, 126) for _ in range(n))
    if k < 0.9:
        return "".join(chr(r.choice([0xe9, 0x3b1, 0x20ac, 0x1f600, 65])) for _ in range(n)).encode()
    return bytes(r.randint(1, 255) for _ in range(n))


def blob(r):
    n = r.choice([1, 1, 2, 3, 8, 16, 40, 126, 127, 128, 200, 1000, 16382, 16383, 16384]) if r.random() < 0.5 else r.randint(1, 40)
    return bytes(r.randint(0, 255) for _ in range(min(n, 64))) * (n // 64 + 1) if n > 64 else bytes(r.randint(0, 255) for _ in range(n))


class Sess:
    """Builds the script and, in parallel, the events of the trace."""

    def __init__(self):
        self.s, self.ev, self.kinds = [], [], []
        self.used = set()

    def add(self, line, **ev):
        self.s.append(line)
        self.ev.append(ev)

    def text(self):
        return "\n".join(self.s)

    def info(self, o, v):
        self.add("%s %s" % (o, v), o=o, v=str(v) if o in ("scale", "date") else "s" + v)

    def track(self, kind, a, b, num):
        if kind == "track":
            self.add("track %d" % num, o=kind, num=num, defs={"type": "0"})
        elif kind == "video":
            self.add("video %d %d %d" % (a, b, num), o=kind, num=num,
                     defs={"type": "1", "codec_id": "s" + b"V_VP8".hex(), "width": str(a), "height": str(b)})
        else:
            self.add("audio %d %d %d" % (a, b, num), o=kind, num=num,
                     defs={"type": "2", "codec_id": "s" + b"A_VORBIS".hex(), "rate": str(a * 1024), "channels": str(b)})
        ok = 0 <= num <= 126 and num not in self.used and len(self.kinds) < 126
        if ok:
            self.kinds.append(kind)
            if num:
                self.used.add(num)
            else:   # the generator only needs to avoid none or all: approximate, the trace has the real one
                n = len(self.kinds)
                while n in self.used:
                    n = n + 1 if n < 126 else 1
                self.used.add(n)
        return len(self.kinds) if ok else 0

    def set(self, t, f, v):
        if isinstance(v, bytes):
            self.add("set %d %s %s" % (t, f, v.hex() or "="), o="set", t=t, f=f, v="s" + v.hex())
        elif v is None:
            self.add("set %d %s -" % (t, f), o="set", t=t, f=f, v="none")
        else:
            self.add("set %d %s %d" % (t, f, v), o="set", t=t, f=f, v=str(v))

    def enc(self, t, key):
        self.add("enc %d %s" % (t, "-" if key is None else key.hex() or "="), o="enc", t=t,
                 v="none" if key is None else "s" + key.hex())

    def colour(self, t, u, lmax=(), lmin=(), q=None, mm=False):
        q = q or {}
        w = ["%s=%d" % (k, u[k]) for k in COLI if k in u]
        if mm:
            w.append("mm=1")
        if lmax:
            w.append("lmax=%d" % lmax[0])
        if lmin:
            w.append("lmin=%d" % lmin[0])
        for c in "rgbw":
            if c in q:
                w.append("%s=%d,%d" % (c, q[c][0], q[c][1]))
        self.add("colour %d %s" % (t, " ".join(w)), o="colour", t=t,
                 c={"set": True, "u": {k: str(u[k]) if k in u else "none" for k in COLI}, "lmax": list(lmax),
                    "lmin": list(lmin), "r": list(q.get("r", ())), "g": list(q.get("g", ())), "b": list(q.get("b", ())),
                    "w": list(q.get("w", ()))})

    def proj(self, t, typ, y, p, ro, priv, bad=""):
        """bad: how SetProjectionPrivate is then called with nothing ('null' pointer or 'empty' data), which it must refuse."""
        self.add("proj %d %d %d %d %d %s %s" % (t, typ, y, p, ro, priv.hex() if priv else "-", bad or "-"), o="proj", t=t, bad=bad,
                 p={"set": True, "type": str(typ), "yaw": str(y), "pitch": str(p), "roll": str(ro),
                    "priv": "s" + priv.hex() if priv else "none"})

    def chapter(self, ident, start, stop, uid, disp, scale):
        self.add("chapter", o="chapter", uid=None)
        if uid is not None:
            self.add("ch uid %d" % uid, o="ch", f="uid", v=str(uid))
        if ident is not None:
            self.add("ch id %s" % (ident.hex() or "-"), o="ch", f="id", v="s" + ident.hex())
        self.add("ch time %d %d" % (start, stop), o="ch", f="time", v=[str(start // scale), str(stop // scale)])
        for d in disp:
            self.add("ch str " + " ".join("-" if x is None else x.hex() for x in d), o="ch", f="disp",
                     v=["none" if x is None else "s" + x.hex() for x in d])

    def tag(self, st):
        self.add("tag", o="tag")
        for d in st:
            self.add("st " + " ".join("-" if x is None else x.hex() or "=" for x in d), o="st",
                     v=["none" if x is None else "s" + x.hex() for x in d])

    def trace(self, res):
        ev = []
        mkv = res.get("mkv", {"ok": 0, "info": {}, "tracks": [], "chapters": [], "tags": []})
        nch = 0
        for e, r in zip(self.ev, res["ret"]):
            e = dict(e)
            if isinstance(r, dict):
                e["n"], e["uid"] = int(r["n"]), r["uid"]
            else:
                e["r"] = r
            if e["o"] == "chapter":
                ch = mkv["chapters"]
                e["uid"] = ch[nch]["uid"] if nch < len(ch) else "%d" % (nch + 1)
                nch += 1
            ev.append(e)
        return {"ev": ev, "mkv": mkv, "wp": res.get("wp", mkv)}


def uint(r, lo=0):
    while True:
        v = r.choice(UINTS) if r.random() < 0.6 else r.randint(0, r.choice([10, 300, 70000, 1 << 33]))
        if v >= lo:
            return v


def rnd_colour(s, r, t, invalid):
    u = {}
    en = {"matrix": range(0, 11), "sitx": range(0, 3), "sity": range(0, 3), "range": range(0, 4),
          "transfer": range(1, 19), "primaries": list(range(0, 11)) + [22]}
    p = r.choice([0.0, 0.2, 0.6, 1.0])
    for k in COLI:
        if r.random() < p:
            u[k] = r.choice(list(en[k])) if k in en else uint(r)
            if u[k] == (1 << 64) - 1:
                u[k] = 5
    q, lmax, lmin = {}, (), ()
    mm = r.random() < 0.6
    if mm:
        for c in "rgbw":
            if r.random() < 0.6:
                q[c] = (flt(r, 0, 1024), flt(r, 0, 1024))
        k = r.random()
        if k < 0.5:
            lmin = (flt(r, 0, 1023989),)
            lmax = (flt(r, lmin[0], 10239990),)
        elif k < 0.7:
            lmin = (flt(r, 0, 1023989),)
    if invalid:
        k = r.choice(["matrix", "sitx", "sity", "range", "transfer", "primaries", "chroma", "lum"])
        if k == "chroma":
            q[r.choice("rgbw")] = r.choice([(1025, 3), (3, 1025), (-1, 5), (5, -1)])
        elif k == "lum":
            lmin, lmax = r.choice([((-1,), (2000,)), ((1023990,), (2048000,)), ((50 * 1024,), (49 * 1024,)), ((11,), (10239991,))])
        else:
            u[k] = {"matrix": r.choice([11, 12, 255]), "sitx": r.choice([3, 9]), "sity": r.choice([3, 9]), "range": r.choice([4, 77]),
                    "transfer": r.choice([0, 19, 400]), "primaries": r.choice([11, 21, 23])}[k]
    s.colour(t, u, lmax, lmin, q, mm)


def rnd(r, bad=0.12):
    s = Sess()
    scale = 1000000
    if r.random() < 0.3:
        scale = r.choice([1000, 100000, 1000000, 999, 1000001, 1])
        s.info("scale", scale)
    if r.random() < 0.4:
        s.info("mux", text(r).hex())
    if r.random() < 0.4:
        s.info("wri", text(r).hex())
    if r.random() < 0.4:
        s.info("date", r.choice([0, 1, -1, 10 ** 18, -10 ** 17, 2 ** 62, r.randint(0, 10 ** 17)]))
    nt = r.choice([1, 1, 2, 2, 3, 5])
    for _ in range(nt):
        kind = r.choice(["video", "video", "audio", "track"])
        num = r.choice([0, 0, 0, 1, 2, 3, 5, 126]) if r.random() > bad else r.choice([-1, 127, 500, 1, 2])
        if kind == "video":
            t = s.track(kind, r.choice([1, 16, 320, 65535, 1 << 20]), r.choice([1, 240, 70000]), num)
        elif kind == "audio":
            t = s.track(kind, r.choice([8000, 44100, 48000, 1, 192000]), r.choice([1, 2, 6, 300]), num)
        else:
            t = s.track(kind, 0, 0, num)
        if not t:
            continue
        if kind == "track":
            if r.random() > bad / 3:
                s.set(t, "type", r.choice([3, 16, 17, 18, 32, 33, 254]))
            if r.random() > bad / 3:
                s.set(t, "codec_id", r.choice([b"D_WEBVTT/SUBTITLES", b"S_TEXT", text(r)]))
        fields = [("codec_id", 0.2), ("language", 0.4), ("name", 0.4), ("codec_private", 0.4), ("uid", 0.2),
                  ("codec_delay", 0.4), ("seek_pre_roll", 0.4), ("default_duration", 0.4), ("mbai", 0.2)]
        if kind == "video":
            fields += [(f, 0.3) for f in ("display_width", "display_height", "pixel_width", "pixel_height", "cl", "cr", "ct", "cb",
                                          "frame_rate", "colour_space", "stereo", "alpha", "width", "height")]
        if kind == "audio":
            fields += [(f, 0.35) for f in ("bit_depth", "channels", "rate")]
        r.shuffle(fields)
        for _pass in range(r.choice([1, 1, 2])):
            for f, p in fields:
                if r.random() > p:
                    continue
                if f in ("codec_id", "language", "name", "colour_space"):
                    s.set(t, f, None if r.random() < 0.05 else (b"V_AV1" if f == "codec_id" and r.random() < 0.15 else text(r)))
                elif f == "codec_private":
                    s.set(t, f, blob(r))
                elif f == "stereo":
                    s.set(t, f, r.choice([0, 1, 2, 3, 11]) if r.random() > bad else r.choice([4, 5, 10, 12, 15, 99]))
                elif f == "alpha":
                    s.set(t, f, r.choice([0, 1]) if r.random() > bad else r.choice([2, 3, 255]))
                elif f == "frame_rate":
                    s.set(t, f, r.choice([0, flt(r, 1, 240 * 1024)]))
                elif f == "rate":
                    s.set(t, f, flt(r, 1, 400000 * 1024))
                elif f in ("width", "height", "channels", "uid"):
                    s.set(t, f, uint(r, 1) if f != "uid" else r.getrandbits(63) | 1)
                else:
                    s.set(t, f, uint(r))
        if kind != "track":
            for _e in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
                s.enc(t, blob(r) if r.random() > bad / 3 else r.choice([None, b""]))
        if kind == "video":
            for _c in range(r.choice([0, 1, 1, 2])):
                rnd_colour(s, r, t, r.random() < bad / 2)
            for _c in range(r.choice([0, 0, 1, 2])):
                s.proj(t, r.randint(0, 3), flt(r, -180 * 1024, 180 * 1024), flt(r, -90 * 1024, 90 * 1024), flt(r, -180 * 1024, 180 * 1024),
                       blob(r) if r.random() < 0.6 else None)
    if r.random() < 0.5:
        for _ in range(r.choice([1, 2, 3, 5, 9])):
            a = r.choice([0, r.randint(0, 10 ** 7), r.randint(0, 10 ** 14), r.choice(UINTS) % (10 ** 17)])
            b = a + r.choice([0, 1, r.randint(0, 10 ** 10)])
            disp = [(text(r) if r.random() > bad / 20 else None, r.choice([None, b"eng", text(r)]), r.choice([None, b"us", text(r)]))
                    for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
            s.chapter(text(r) if r.random() < 0.7 else None, a, b, r.getrandbits(r.choice([1, 8, 16, 32, 63])) | 1 if r.random() < 0.5 else None,
                      disp, scale)
    if r.random() < 0.5:
        for _ in range(r.choice([1, 2, 3, 5])):
            s.tag([(text(r) if r.random() > bad / 20 else None, text(r)) for _ in range(r.choice([0, 1, 2, 3, 5]))])
    s.add("go", o="go")
    return s


def single_field():
    """One session per field and boundary value (the value is the only thing set)."""
    out = []

    def one(kind, fn):
        s = Sess()
        t = s.track(kind, *((320, 240) if kind == "video" else (48000, 2) if kind == "audio" else (0, 0)), 0)
        if kind == "track":
            s.set(t, "type", 17)
            s.set(t, "codec_id", b"S_TEXT")
        fn(s, t)
        s.add("go", o="go")
        out.append(s)
    for kind in ("video", "audio", "track"):
        for f in ("codec_delay", "seek_pre_roll", "default_duration", "mbai"):
            for v in UINTS:
                one(kind, lambda s, t: s.set(t, f, v))
    for f in ("display_width", "display_height", "pixel_width", "pixel_height", "cl", "cr", "ct", "cb"):
        for v in UINTS:
            one("video", lambda s, t: s.set(t, f, v))
    for v in range(0, 18):
        one("video", lambda s, t: s.set(t, "stereo", v))
        one("video", lambda s, t: s.set(t, "alpha", v))
    for v in UINTS:
        one("audio", lambda s, t: s.set(t, "bit_depth", v))
        if v:
            one("audio", lambda s, t: s.set(t, "channels", v))
    for k in COLI:
        for v in (UINTS if k not in ("matrix", "sitx", "sity", "range", "transfer", "primaries") else range(0, 26)):
            one("video", lambda s, t: s.colour(t, {k: v}))
    for c in "rgbw":
        for x, y in ((0, 0), (1024, 0), (0, 1024), (1024, 1024), (512, 333), (1, 1)):
            one("video", lambda s, t: s.colour(t, {}, q={c: (x, y)}, mm=True))
    for lo, hi in ((0, 0), (0, 1), (11, 10239990), (1023989, 1023989), (1024, 1025)):
        one("video", lambda s, t: s.colour(t, {}, (hi,), (lo,), mm=True))
    one("video", lambda s, t: s.colour(t, {}, mm=True))
    one("video", lambda s, t: s.colour(t, {}))
    for typ in range(4):
        for p in (None, b"x", bytes(range(64)) * 3):
            for bad in ("", "null", "empty"):
                one("video", lambda s, t: s.proj(t, typ, -180 * 1024, 90 * 1024, 17, p, bad))
    for n in (1, 2, 125, 126, 127, 128, 129, 16380, 16381, 16382, 16383, 16384, 16385):
        b = (b"abcdefg" * (n // 7 + 1))[:n]
        for kind in ("video", "audio", "track"):
            one(kind, lambda s, t: s.set(t, "codec_private", b))
            one(kind, lambda s, t: s.set(t, "name", b))
        one("video", lambda s, t: s.enc(t, b))
        one("video", lambda s, t: s.proj(t, 3, 0, 0, 0, b))
        one("video", lambda s, t: s.chapter(b, 0, 5, None, [(b, b, b)], 1000000))
        one("video", lambda s, t: s.tag([(b, b), (b"x", b)]))
    one("video", lambda s, t: s.set(t, "codec_private", b""))
    one("video", lambda s, t: s.set(t, "codec_id", b"V_AV1"))
    for n in range(0, 8):
        one("audio", lambda s, t: [s.enc(t, bytes([i + 1] * 16)) for i in range(n)])
        one("video", lambda s, t: [s.chapter(bytes([65 + i]), i, i + 1, None, [(bytes([97 + j]), None, None) for j in range(n)], 1000000) for i in range(n)])
        one("video", lambda s, t: [s.tag([(bytes([97 + j]), b"v%d" % j) for j in range(n)]) for i in range(n)])
    return out


def numbering():
    """Track numbering, up to the limit of 126 tracks."""
    out = []
    for plan in ([0] * 5, [3, 0, 0, 0], [2, 0, 0], [126, 0, 0], [1, 1, 0], [5, 0, 5, 0, 0, 0, 0], [127, 0, -1, 0],
                 [126] + [0] * 127, [0] * 130, list(range(126, 0, -1)) + [0, 3], [125, 126] + [0] * 126, list(range(2, 127)) + [0, 0]):
        s = Sess()
        for n in plan:
            s.track("audio", 8000, 1, n)
        s.add("go", o="go")
        out.append(s)
    return out


def m06(ck, tier):
    binp = vlib.build("meta", ["mkvmuxer", "mkvparser", "webm_parser", "common"])
    n = 1500 if tier == "quick" else 20000
    ss = single_field() + numbering()
    mc = vlib.run_tlc("MCMeta", "MCMeta.cfg")
    if not mc.ok:
        raise vlib.TlcError(mc.out[-2000:])
    ck.add_tlc(mc)
    for h in sorted({tuple(x) for x in vlib.tlc_prints(mc.out, "H")}):
        s = Sess()
        for q in h:
            s.track("audio", 8000, 1, q)
        s.add("go", o="go")
        ss.append(s)
    ss += [rnd(rng("m06", i), 0.0 if i % 3 else 0.25) for i in range(n)]
    ck.extra["sessions"] = len(ss)
    for b in range(0, len(ss), 4000):
        part = ss[b:b + 4000]
        vlib.validate(ck, binp, [(i, s.text()) for i, s in enumerate(part)], "MetaTrace", "MetaTrace.cfg",
                      lambda t: len(t["ev"]) + 1, post=lambda t, i: part[i].trace(t))
