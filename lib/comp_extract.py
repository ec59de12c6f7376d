"""The WebVTT extraction tool on hand-made files: S04 (VttExtract.tla, VttExtractTrace.tla, MCVttExtract.tla)."""
import os
import struct
from vlib import *
import ebml as E
from comp_tools import validate_cases, run_tool, word, line

KINDS = ["SUBTITLES", "CAPTIONS", "DESCRIPTIONS", "METADATA"]
EDITION, ATOM, CUID, CSUID, CSTART, CEND, CDISP, CSTR, CLANG, CCTRY = 0x45B9, 0xB6, 0x73C4, 0x5654, 0x91, 0x92, 0x80, 0x85, 0x437C, 0x437E


def tool():
    return build("tool", ["mkvmuxer", "mkvparser", "common", "webvtt"], extra_src=["vttdemux.cc"])


def text(r, bad):
    """Bytes of a block: identifier, settings, lines."""
    eol = r.choice(["\n", "\n", "\n", "\r\n", "\r"])
    ls = [r.choice(["", word(r), "cue 7", "a b", " ", "-->", "%s%n"]), r.choice(["", "", word(r, "abcXYZ09-%") + ":" + word(r, "abc09-%,"), "x", "  "])]
    ls += [line(r) for _ in range(r.choice([1, 1, 2, 3, 6]))]
    if r.random() < .15:      # what follows an empty line is not part of the cue
        ls.insert(r.randint(3, len(ls)), "")
    if r.random() < .04:      # the longest line there may be
        ls[r.randrange(len(ls))] = "y" * r.choice([9999, 10000])
    d = eol.join(ls) + r.choice(["", eol, eol + eol])
    d = bytearray(d.encode())
    if bad:
        k = r.random()
        if k < .5:
            n = r.randint(0, 2)
            d = bytearray(eol.join(ls[:n]).encode()) + (eol.encode() if r.random() < .5 else b"")
        elif k < .75:
            d[r.randrange(len(d))] = r.choice([0xfe, 0xff])
        elif k < .9:
            d = bytearray(eol.join(ls[:2] + [""] + ls[2:]).encode())
        else:
            d = bytearray(eol.join(ls[:2] + ["z" * 10001]).encode())
        if not d:
            d = bytearray(b"\n")
    return bytes(d)


def case(r):
    u = r.choice([10, 10, 10, 5, 1, 3, 7, 15, 333, 10000, 36000])
    codes = []
    n = 0
    for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
        n += r.choice([1, 1, 1, 5, 40])
        if n > 126:
            break
        k = r.choice(KINDS + KINDS + ["", ""])
        codes.append({"n": n, "kind": k})
    if r.random() < .5:
        r.shuffle(codes)
    wrong = r.random() < .18
    blocks = []
    t = 0
    clusters = []
    far = 2000000000 // u
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        t = min(t + r.choice([0, 1, 1000, 32000, 360000, far // 3]), far // 4)
        bl = []
        for _ in range(r.choice([0, 1, 1, 2, 5, 9])):
            tr = r.choice(codes)
            rel = min(far // 4, r.choice([0, 1, 7, 999, 1000, 32767, r.randint(0, 5000)]))
            grp = r.random() < .7
            dur = r.choice([None, 0, 1, 40, 1000, min(far // 4, 30000)]) if grp else None
            data = text(r, wrong and r.random() < .3) if tr["kind"] or r.random() < .3 else bytes(r.randint(0, 255) for _ in range(r.randint(1, 30)))
            bl.append((tr["n"], rel, grp, dur, data, r.random() < .2))
        clusters.append((t, bl))
    chap = None
    if r.random() < .45:
        chap = []
        for _ in range(1 if r.random() < .85 else r.choice([0, 2])):
            ed = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                k = r.random()
                disp = []
                for _ in range(0 if k < .08 else 1 if k < .97 else 2):
                    s = r.choice(["\n", "\n", "\r", "\r\n"]).join(r.choice([word(r) + " " + word(r), word(r), "X", line(r)]) for _ in range(r.choice([1, 1, 2, 3])))
                    if r.random() < .1:
                        s += r.choice(["\n", "\n\nmore", "\r\nx", "\r", "\r\rx"])
                    if r.random() < .03:
                        s = r.choice(["\n", "", "\n" + s])
                    s = s.encode()
                    if r.random() < .01:
                        s = r.choice([s + b"\xff", b"\xfe" + s, b"q" * 10001, b"q" * 10000])
                    disp.append((s, r.choice([b"", b"eng", b"eng", b"eng"]) if r.random() < .96 else r.choice([b"fre", b"en", b"engl"]),
                                 r.random() < .2))
                a, b = r.randint(0, 5000), r.choice([0, 1, 5000, far // 2])
                ed.append({"uid": r.choice([b"", b"", word(r).encode(), b"c 1"]), "a": None if r.random() < .02 else a, "b": None if r.random() < .02 else a + b,
                           "disp": disp})
            chap.append(ed)
    name = r.choice(["in.webm"] * 9 + ["a.b.webm", "x.", "noext"])
    return {"u": u, "tracks": codes, "clusters": clusters, "chap": chap, "name": name, "webm": r.random() > .04, "unk": r.random() < .3,
            "cuts": r.random() < .5, "seed": r.randrange(1 << 30), "late": r.random() < .2}


def document(c):
    """The file, the offsets where every block and its cluster end, and where the headers end."""
    tr = b""
    for t in c["tracks"]:
        if t["kind"]:
            tr += E.el(E.TRACKENTRY, E.u(E.TNUM, t["n"]) + E.u(E.TUID, t["n"] + 5) + E.u(E.TTYPE, 17 if t["kind"] in KINDS[:2] else 33) + E.s(E.CODECID, "D_WEBVTT/" + t["kind"]))
        else:
            tr += E.el(E.TRACKENTRY, E.u(E.TNUM, t["n"]) + E.u(E.TUID, t["n"] + 5) + E.u(E.TTYPE, 2) + E.s(E.CODECID, ["A_VORBIS", "D_WEBVTT", "D_WEBVTT/CAPTION", "S_TEXT/UTF8"][t["n"] % 4])
                       + E.el(E.AUDIO, E.f4(E.RATE, 48000.0) + E.u(E.CHANS, 2)))
    info = E.el(E.INFO, E.u(E.TSCALE, c["u"] * 100000) + E.s(E.MUXAPP, "m") + E.s(E.WRITEAPP, "w"))
    ch = b""
    if c["chap"] is not None:
        eds = b""
        for ed in c["chap"]:
            ats = E.u(0x45BD, 0) if not ed else b""
            for i, a in enumerate(ed):
                x = E.u(CUID, i + 1)
                if a["uid"]:
                    x += E.s(CSUID, a["uid"])
                if a["a"] is not None:
                    x += E.u(CSTART, a["a"])
                if a["b"] is not None:
                    x += E.u(CEND, a["b"])
                for s, l, cc in a["disp"]:
                    x += E.el(CDISP, (E.s(CLANG, l) if l else b"") + (E.s(CSTR, s) if s else b"") + (E.s(CCTRY, "us") if cc else b"") or E.u(0xEC, 0))
                ats += E.el(ATOM, x)
            eds += E.el(EDITION, ats)
        ch = E.el(E.CHAPTERS, eds or E.el(0xEC, b"\0"))
    head = info + (ch if c["late"] else b"") + E.el(E.TRACKS, tr) + (b"" if c["late"] else ch)
    body = head
    ends = []
    whole = []
    for t, bl in c["clusters"]:
        cl = E.u(E.TIMECODE, t)
        pend = []
        for trk, rel, grp, dur, data, void in bl:
            raw = E.vint(trk) + struct.pack(">h", rel) + (b"\x00" if grp else b"\x80") + data
            if grp:
                cl += E.el(E.BLOCKGROUP, E.el(E.BLOCK, raw) + (E.u(E.BLOCKDUR, dur) if dur is not None else b""))
            else:
                cl += E.el(E.SIMPLEBLOCK, raw)
            pend.append(len(cl))
            if void:
                cl += E.el(E.VOID, b"\0\0\0")
        x = E.el(E.CLUSTER, cl, unknown=c["unk"])
        start = len(body) + len(x) - len(cl)
        ends += [start + p for p in pend]
        body += x
        whole += [len(body)] * len(bl)
    pre = E.ebml_header("webm" if c["webm"] else "matroska") + E.idb(E.SEGMENT)
    pre += E.vint(E.UNKNOWN if c["unk"] else len(body), 8)
    return pre + body, [len(pre) + e for e in ends], [len(pre) + e for e in whole], len(pre) + len(head)


def tojson(c):
    bl = [{"trk": b[0], "t": t + b[1], "d": b[3] or 0, "data": list(b[4])} for t, bs in c["clusters"] for b in bs]
    eds = [[{"uid": list(a["uid"]), "a": -1 if a["a"] is None else a["a"], "b": -1 if a["b"] is None else a["b"],
             "disp": [{"str": list(s), "lang": list(l)} for s, l, _ in a["disp"]]} for a in ed] for ed in c["chap"] or []]
    return {"u": c["u"], "ext": "." in c["name"], "webm": c["webm"], "nochap": c["chap"] is None, "tracks": c["tracks"], "eds": eds, "blocks": bl}


def once(c, d):
    b, ends, whole, head = document(c)
    base = c["name"].rsplit(".", 1)[0]
    r = __import__("random").Random(c["seed"])

    def go(b):
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        with open(os.path.join(d, c["name"]), "wb") as f:
            f.write(b)
        rc = run_tool(once.tool, [c["name"]], d)
        fs = []
        for f in sorted(os.listdir(d)):
            if f != c["name"]:
                fs.append({"name": f[len(base) + 1:-4] if f.startswith(base + "_") and f.endswith(".vtt") else "?" + f,
                           "txt": list(open(os.path.join(d, f), "rb").read()) if rc == 0 else []})
        return rc, fs

    rc, fs = go(b)
    ev = [{"o": "run", "rc": rc, "files": fs, "left": 0, "whole": 0}]
    if c["cuts"]:
        cuts = [r.randint(head, len(b)) for _ in range(3)]
        if ends:
            cuts += [r.choice(ends) + r.choice([0, 0, -1, 1, -2, 2])]
        for n in cuts:
            n = min(max(n, head), len(b))
            rc, fs = go(b[:n])
            ev.append({"o": "cut", "rc": rc, "files": fs, "left": sum(1 for e in ends if e <= n), "whole": sum(1 for e in whole if e <= n)})
    if r.random() < .4:
        x = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 5])):
            x[r.randrange(len(x))] = r.choice([0, 1, 0x7f, 0x80, 0xff, r.randint(0, 255)])
        rc, fs = go(bytes(x))
        ev.append({"o": "damage", "rc": rc, "files": [], "left": 0, "whole": 0})
    return {"doc": tojson(c), "ev": ev}


def describe(c):
    return "tick %d/10 ms, tracks %s, clusters %s, chapters %s, file %s" % (
        c["u"], [(t["n"], t["kind"]) for t in c["tracks"]], [(t, [(b[0], b[1], b[3], b[4][:60]) for b in bl]) for t, bl in c["clusters"]], c["chap"], c["name"])


def s04(ck, tier):
    r = run_tlc("MCVttExtract", "MCVttExtract.cfg")
    if r.rc != 0:
        raise TlcError("MCVttExtract: " + r.out[-2000:])
    ck.add_tlc(r)
    once.tool = tool()
    g = rng("S04")
    n = 600 if tier == "quick" else 5000
    ts, _ = validate_cases(ck, [case(g) for _ in range(n)], once, "VttExtractTrace", "VttExtractTrace.cfg", describe)
    ck.extra["runs"] = sum(len(t.get("ev", [])) for t in ts)
    ck.extra["runs_extracted"] = sum(1 for t in ts for x in t.get("ev", []) if x["rc"] == 0)
    ck.extra["runs_cut_extracted"] = sum(1 for t in ts for x in t.get("ev", []) if x["rc"] == 0 and x["o"] == "cut")
    ck.assumptions.append("text without NUL; blocks of one frame; ticks that are multiples of 0.1 ms; no times before zero")
