"""Command-line tools, end to end: S02 (WebVTT in WebM; VttMux.tla, VttMuxTrace.tla, MCVttMux.tla)."""
import concurrent.futures as cf
import hashlib
import os
import resource
import shutil
import struct
import subprocess
from vlib import *
import ebml as E
import comp_vtt

MUXLIBS = ["mkvmuxer", "mkvparser", "common", "webvtt", "metadata"]
KINDS = ["SUBTITLES", "CAPTIONS", "DESCRIPTIONS", "METADATA", "CHAPTERS"]
CODEC = {"D_WEBVTT/" + k: k for k in KINDS[:4]}


def tools():
    return (build("tool", MUXLIBS, extra_src=["mkvmuxer_sample.cc"]),
            build("tool", ["mkvmuxer", "mkvparser", "common", "webvtt"], extra_src=["vttdemux.cc"]))


def dig(b):
    return hashlib.md5(bytes(b)).hexdigest()[:10]


class Died(Exception):
    pass


def limited(n):
    return lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))


def run_tool(binp, args, cwd, timeout=30, fsize=None):
    """Exit status of one run; a crash, sanitizer report or timeout raises Died."""
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["ASAN_OPTIONS"] = e.get("ASAN_OPTIONS", "") + ":hard_rss_limit_mb=2000"    # a runaway run must not take the machine with it
    try:
        p = subprocess.run([binp] + args, cwd=cwd, env=e, capture_output=True, timeout=timeout, stdin=subprocess.DEVNULL,
                           restore_signals=False,    # SIGXFSZ stays ignored: a write beyond the limit fails
                           preexec_fn=None if fsize is None else limited(fsize))
    except subprocess.TimeoutExpired:
        raise Died("timeout")
    if p.returncode not in (0, 1):
        raise Died("exit %d: %s" % (p.returncode, summarize_crash(p.stderr.decode("latin1"))))
    return p.returncode


def validate_cases(ck, cases, run, module, cfg, describe):
    """Like vlib.validate for cases run by a Python function: run(case, dir) -> trace."""
    late = []

    def once(c):
        if len(late) > 15:      # enough is known
            return {"died": "not run: too many timeouts"}
        d = scratch("vtool-")
        try:
            return run(c, d)
        except Died as ex:
            if "timeout" in str(ex) or "rss" in str(ex).lower():
                late.append(1)
            return {"died": str(ex)}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge(cs):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            ts = list(ex.map(once, cs))
        live = [i for i, t in enumerate(ts) if "died" not in t]
        rej, dist, gen = tlc_traces(module, cfg, [ts[i] for i in live], "accept")
        bad = {i: "tool died: " + t["died"] for i, t in enumerate(ts) if "died" in t}
        bad.update({live[i]: "trace rejected by %s: %s" % (module, w) for i, w in rej.items()})
        return ts, bad, dist, gen, len(live)

    ts, bad, dist, gen, n = judge(cases)
    ck.states += dist
    ck.transitions += gen
    ck.traces += n
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        ck.sample(describe(c)[:400])
    pick = sorted(i for i in bad if "not run" not in bad[i])[:12]
    if pick:
        late.clear()
        ts2, bad2, _, _, _ = judge([cases[i] for i in pick])
        for j, i in enumerate(pick):
            if j in bad2:
                ck.violate(bad2[j], {"case": describe(cases[i]), "trace": ts2[j]})
    return ts, bad


# ---------------------------------------------------------------- reading WebM files

def block_of(b):
    trk, n = E.read_vint(b, 0)
    return trk, struct.unpack(">h", b[n:n + 2])[0], b[n + 2], b[n + 3:]


def segment(b):
    top, _ = E.decode(b)
    if [t.id for t in top] != [E.EBML, E.SEGMENT]:
        raise E.DecodeError("top level")
    return top[1]


def blocks_of(seg):
    """[(cluster index, cluster ticks, track, ticks, key, duration or None, discard padding, data)]"""
    out = []
    for ci, c in enumerate(seg.all(E.CLUSTER)):
        ct = c.kid(E.TIMECODE).uint()
        for e in c.kids:
            if e.id == E.SIMPLEBLOCK:
                trk, rel, fl, d = block_of(e.body)
                out.append((ci, ct, trk, ct + rel, bool(fl & 0x80), None, 0, d))
            elif e.id == E.BLOCKGROUP:
                trk, rel, fl, d = block_of(e.kid(E.BLOCK).body)
                du, dp = e.kid(E.BLOCKDUR), e.kid(E.DISCARD)
                out.append((ci, ct, trk, ct + rel, e.kid(E.REFBLOCK) is None, du.uint() if du else None, dp.sint() if dp else 0, d))
    return out


# ---------------------------------------------------------------- S02: WebVTT in WebM

def tstr(ms, r):
    h, m, s, f = ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000
    if h == 0 and r.random() < .5:
        return "%02d:%02d.%03d" % (m, s, f)
    return "%02d:%02d:%02d.%03d" % (h, m, s, f)


def word(r, alpha="abcXYZ0189-%>&é,._/"):
    return "".join(r.choice(alpha) for _ in range(r.randint(1, 6)))


def line(r):
    k = r.random()
    if k < .05:
        return "x" * r.choice([100, 1000, 5000])
    if k < .1:
        return word(r) + " --> " + word(r)
    if k < .14:
        return r.choice(["WEBVTT", " ", "\t", "<i>x</i>", "%s%d%n", "00:01.000"])
    return " ".join(word(r) for _ in range(r.randint(1, 4)))


def vtt(r, span):
    """A file with ordered cues; sometimes one rule is broken."""
    cues = []
    t = 0
    n = r.choice([0, 1, 1, 2, 3, 4, 6])
    for _ in range(n):
        k = r.random()
        t += 0 if k < .2 else r.randint(1, 40) if k < .5 else r.randint(1, max(1, span // 2)) if k < .95 else r.randint(1, 300000)
        d = 0 if r.random() < .12 else r.choice([1, 2, 7, 500, 1000, 2500, 59999, 70000, 7300000])
        ident = "" if r.random() < .4 else r.choice([word(r), "cue %d" % len(cues), "a b c", " x", "%s"])
        st = [word(r, "abcXYZ09-%") + ":" + word(r, "abcXYZ09-%,") for _ in range(r.choice([0, 0, 1, 2, 3]))]
        pay = [line(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        cues.append([ident, t, t + d, st, pay])
    bad = r.random()
    if cues and bad < .05:      # the end before the start
        c = r.choice(cues)
        c[1], c[2] = c[1] + 5, c[1]
    elif len(cues) > 1 and bad < .1:   # out of order
        cues[-1][1] = max(0, cues[0][1] - 1)
    eol = r.choice(["\n", "\n", "\r\n", "\r"])
    out = ["\ufeff" if r.random() < .1 else "", "WEBVTT", r.choice(["", "", " title", "\tx"]), eol, eol]
    for ident, a, b, st, pay in cues:
        if ident:
            out += [ident, eol]
        out += [tstr(a, r), r.choice([" --> ", "-->", "\t-->\t"]), tstr(b, r)]
        for s in st:
            out += [r.choice([" ", "  ", "\t"]), s]
        out.append(eol)
        for p in pay:
            out += [p, eol]
        out += [eol] * r.choice([1, 1, 2])
    b = "".join(out).encode()
    if r.random() < .04 and len(b) > 8:
        b = bytearray(b)
        b[r.randrange(len(b))] = r.choice([0xff, 0xfe, 10, 45, 58])
        b = bytes(b)
    return b


def vtt_case(r):
    # u: the tick in tenths of a millisecond where it does not divide a millisecond (times are then rounded), else 0
    u = r.choice([0, 0, 0, 3, 4, 7, 8, 15, 20, 30, 70, 333])
    scale = u * 100000 if u else r.choice([1000000, 1000000, 1000000, 500000, 100000, 10000])
    per = 1 if u else 1000000 // scale
    span = r.choice([200, 2000, 20000, 100000])
    nt = r.choice([1, 1, 2])
    ft = sorted(r.randint(0, span * 10 // u if u else span) for _ in range(r.randint(1, 8)))
    nt = min(nt, len(ft))
    frames = [(i + 1 if i < nt else r.randint(1, nt), t, bytes(r.randint(0, 255) for _ in range(r.randint(1, 20)))) for i, t in enumerate(ft)]
    kinds = [r.choice(KINDS) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    if kinds.count("CHAPTERS") > 1 and r.random() < .7:
        kinds = [k for i, k in enumerate(kinds) if k != "CHAPTERS" or i == kinds.index("CHAPTERS")]
    if r.random() < .06:
        kinds = []
    files = [(k, vtt(r, span)) for k in kinds]
    opts = []
    if r.random() < .3:
        opts += ["-max_cluster_duration", "%g" % (r.choice([1, 50, 5000]) / 1000)]
    if r.random() < .2:
        opts += ["-max_cluster_size", str(r.choice([1, 100, 1000]))]
    if r.random() < .2:
        opts += ["-output_cues", "0"]
    elif r.random() < .15:
        opts += ["-cues_before_clusters", "1"]
    if r.random() < .15:
        opts += ["-accurate_cluster_duration", "1"]
    if r.random() < .15:
        opts += ["-fixed_size_cluster_timecode", "1"]
    return {"scale": scale, "per": per, "u": u, "nt": nt, "frames": frames, "files": files, "opts": opts,
            "vtype": r.choice([1, 2]), "limit": r.choice([None, None, -1, 1, 1, 3, 20, 100000])}


def vtt_input(c):
    tr = b""
    for n in range(1, c["nt"] + 1):
        ty = c["vtype"] if n == 1 else 3 - c["vtype"]
        sub = E.el(E.VIDEO, E.u(E.PW, 320) + E.u(E.PH, 240)) if ty == 1 else E.el(E.AUDIO, E.f4(E.RATE, 48000.0) + E.u(E.CHANS, 2))
        tr += E.el(E.TRACKENTRY, E.u(E.TNUM, n) + E.u(E.TUID, n + 5) + E.u(E.TTYPE, ty) + E.s(E.CODECID, "V_VP8" if ty == 1 else "A_VORBIS") + sub)
    body = E.el(E.INFO, E.u(E.TSCALE, c["scale"]) + E.s(E.MUXAPP, "m") + E.s(E.WRITEAPP, "w")) + E.el(E.TRACKS, tr)
    for trk, t, d in c["frames"]:
        body += E.el(E.CLUSTER, E.u(E.TIMECODE, t * c["per"]) + E.simple_block(trk, 0, d))
    return E.ebml_header() + E.el(E.SEGMENT, body)


def vtt_run(c, d):
    mux, demux = vtt_run.tools
    with open(os.path.join(d, "in.webm"), "wb") as f:
        f.write(vtt_input(c))
    args = ["-i", "in.webm", "-o", "out.webm"] + c["opts"]
    ev = []
    meta = []
    n = c["nt"]
    for i, (k, doc) in enumerate(c["files"]):
        with open(os.path.join(d, "f%d.vtt" % i), "wb") as f:
            f.write(doc)
        args += ["-webvtt-" + k.lower(), "f%d.vtt" % i]
        trk = 0
        if k != "CHAPTERS":
            n += 1
            trk = n
            meta.append((k, trk))
        ev.append({"o": "load", "kind": k, "trk": trk, "doc": list(doc)})
    for trk, t, _ in c["frames"]:
        ev.append({"o": "frame", "trk": trk, "t": t * (c["u"] or 1)})
    rc = run_tool(mux, args, d)
    # the muxing tool numbers the tracks of the input in their order, then those of the files
    e = {"o": "mux", "rc": rc, "err": "", "blocks": [], "tracks": list(range(1, n + 1)), "meta": [], "av": [], "inav": []}
    ev.append(e)
    if rc == 0:
        try:
            seg = segment(open(os.path.join(d, "out.webm"), "rb").read())
            per = c["per"]
            if seg.kid(E.INFO).kid(E.TSCALE).uint() != c["scale"]:
                raise E.DecodeError("timecode scale")
            bl = blocks_of(seg)
            for _, _, trk, t, key, du, dp, data in bl:
                if t % per or (du or 0) % per:
                    raise E.DecodeError("time of a block of track %d" % trk)
                m = c["u"] or 1
                e["blocks"].append({"trk": trk, "a": t // per * m, "b": (t + (du or 0) if trk > c["nt"] else t) // per * m})
            e["av"] = [[b[2], b[3] // per, dig(b[7])] for b in bl if b[2] <= c["nt"]]
            e["inav"] = [[trk, t, dig(x)] for trk, t, x in c["frames"]]
            for k, trk in meta:
                te = [x for x in seg.kid(E.TRACKS).all(E.TRACKENTRY) if x.kid(E.TNUM).uint() == trk]
                e["meta"].append({"kind": k, "ty": te[0].kid(E.TTYPE).uint(), "codec": te[0].kid(E.CODECID).body.decode("latin1")}
                                 if len(te) == 1 else {"kind": k, "ty": -1, "codec": ""})
        except (E.DecodeError, AttributeError, IndexError, struct.error, ValueError) as ex:
            e["err"] = ("file: %s %s" % (type(ex).__name__, ex))[:200]
        before = set(os.listdir(d))
        rc2 = run_tool(demux, ["out.webm"], d)
        files = []
        if rc2 == 0:
            for f in sorted(set(os.listdir(d)) - before):
                nm = f[len("out_"):-len(".vtt")] if f.startswith("out_") and f.endswith(".vtt") else f
                files.append({"name": nm, "doc": list(open(os.path.join(d, f), "rb").read())})
        if rc2 == 0 and files and c["limit"] is not None:
            for f in set(os.listdir(d)) - before:
                os.remove(os.path.join(d, f))
            big = max(len(f["doc"]) for f in files)
            lim = max(1, big - c["limit"]) if c["limit"] >= 0 else big
            ev.append({"o": "full", "limit": lim, "size": big, "rc": run_tool(demux, ["out.webm"], d, fsize=lim)})
        kinds = [k for k, _ in meta]
        ev.append({"o": "demux", "rc": rc2, "files": files,
                   "want": [{"name": k + (str(trk) if kinds.count(k) > 1 else ""), "trk": trk} for k, trk in meta]})
    return {"ev": ev, "u": c["u"]}


def vtt_desc(c):
    return "%s | frames %s | scale %d | options %s" % (
        ["%s %r" % (k, d.decode("latin1")[:120]) for k, d in c["files"]], [(a, b) for a, b, _ in c["frames"]], c["scale"], c["opts"])


def s02(ck, tier):
    r = run_tlc("MCVttMux", "MCVttMux.cfg")
    if r.rc != 0:
        raise TlcError("MCVttMux: " + r.out[-2000:])
    ck.add_tlc(r)
    vtt_run.tools = tools()
    g = rng("S02")
    n = 500 if tier == "quick" else 4000
    cases = [vtt_case(g) for _ in range(n)]
    ts, _ = validate_cases(ck, cases, vtt_run, "VttMuxTrace", "VttMuxTrace.cfg", vtt_desc)
    ok = sum(1 for t in ts if any(x["o"] == "demux" and x["rc"] == 0 for x in t.get("ev", [])))
    ck.extra["sessions_extracted"] = ok
    ck.assumptions.append("cue text without NUL; timecode scales that are multiples of 0.1 ms or divide one millisecond; frames of the input in time order")


# ---------------------------------------------------------------- S01: remuxing

FRATE, STEREO, DW, DH, COLOUR, PROJ, NAME, DELAY, PREROLL = 0x2383E3, 0x53B8, 0x54B0, 0x54BA, 0x55B0, 0x7670, 0x536E, 0x56AA, 0x56BB
PTYPE, PPRIV, PYAW, PPITCH, PROLL = 0x7671, 0x7672, 0x7673, 0x7674, 0x7675
TAG, STAG, TAGNAME, TAGSTR = 0x7373, 0x67C8, 0x45A3, 0x4487
COLUINT = {0x55B1, 0x55B2, 0x55B3, 0x55B4, 0x55B5, 0x55B6, 0x55B7, 0x55B8, 0x55B9, 0x55BA, 0x55BB, 0x55BC, 0x55BD}


def fields(te):
    """The metadata of a TrackEntry as texts."""
    ty = te.kid(E.TTYPE).uint()

    def get(parent, i, how, zero=False):
        k = parent.kid(i) if parent is not None else None
        if k is None:
            return "none"
        v = {"u": lambda: str(k.uint()), "f": lambda: "%r" % k.flt(), "s": lambda: k.body.decode("latin1"),
             "b": lambda: k.body.hex()}[how]()
        return "none" if zero and v in ("0", "0.0", "") else v

    f = {"codec": get(te, E.CODECID, "s"), "priv": get(te, E.CODECPRIV, "b", True), "name": get(te, NAME, "s", True)}
    if ty == 1:
        v = te.kid(E.VIDEO)
        f.update(w=get(v, E.PW, "u"), h=get(v, E.PH, "u"), dw=get(v, DW, "u"), dh=get(v, DH, "u"), rate=get(v, FRATE, "f", True),
                 stereo=get(v, STEREO, "u"))
        c = v.kid(COLOUR)
        cols = []
        for k in (c.kids if c is not None else []):
            if k.id in COLUINT:
                cols.append("%x=%d" % (k.id, k.uint()))
            else:
                for m in k.kids:
                    cols.append("%x=%r" % (m.id, m.flt()))
        f["col"] = " ".join(sorted(cols)) or "none"
        p = v.kid(PROJ)
        f.update(ptype=get(p, PTYPE, "u"), ppriv=get(p, PPRIV, "b"), pyaw=get(p, PYAW, "f"), ppitch=get(p, PPITCH, "f"),
                 proll=get(p, PROLL, "f"))
    elif ty == 2:
        a = te.kid(E.AUDIO)
        f.update(rate=get(a, E.RATE, "f"), ch=get(a, E.CHANS, "u"), bits=get(a, E.BITDEPTH, "u", True),
                 delay=get(te, DELAY, "u", True), pre=get(te, PREROLL, "u", True))
    return f


def text_(r):
    return "".join(r.choice("abcdefXYZ 019_é") for _ in range(r.randint(1, 12))).encode()


def blob_(r, n=40):
    return bytes(r.randint(0, 255) for _ in range(r.choice([1, 2, 3, 8, r.randint(1, n), 130])))


def remux_video(r):
    codec = r.choice(["V_VP8", "V_VP9", "V_VP9", "V_VP9", "V_AV1", "V_TEST"])
    v = E.u(E.PW, r.choice([1, 176, 320, 1920, 65535])) + E.u(E.PH, r.choice([1, 144, 240, 1080, 4320]))
    if r.random() < .3:
        v += E.u(DW, r.randint(1, 4000)) + E.u(DH, r.randint(1, 4000))
    if r.random() < .3:
        v += E.f4(FRATE, r.choice([1.0, 24.5, 30.0, 60.0]))
    if r.random() < .2:
        v += E.u(STEREO, r.choice([1, 2, 3]))
    if r.random() < .4:
        # MatrixCoefficients ... MaxFALL; any subset
        lim = {0x55B1: 10, 0x55B2: 16, 0x55B3: 2, 0x55B4: 2, 0x55B5: 2, 0x55B6: 2, 0x55B7: 2, 0x55B8: 2, 0x55B9: 3, 0x55BA: 18, 0x55BB: 10,
               0x55BC: 10000, 0x55BD: 10000}
        c = b"".join(E.u(i, r.randint(1 if i == 0x55BA else 0, lim[i])) for i in sorted(COLUINT) if r.random() < .5)
        if r.random() < .5:
            m = b""
            if r.random() < .7:
                m += E.f4(0x55D9, r.choice([100.0, 500.5, 9999.0])) + E.f4(0x55DA, r.choice([0.25, 0.5, 5.0]))
            for i in (0x55D1, 0x55D3, 0x55D5, 0x55D7):
                if r.random() < .6:
                    m += E.f4(i, r.choice([0.25, 0.5, 0.75])) + E.f4(i + 1, r.choice([0.125, 0.25, 0.5]))
            if m:
                c += E.el(0x55D0, m)
        if c:
            v += E.el(COLOUR, c)
    if r.random() < .3:
        t = r.randint(0, 3)
        v += E.el(PROJ, E.u(PTYPE, t) + (E.el(PPRIV, blob_(r)) if t else b"") +
                  b"".join(E.f4(i, float(r.choice([0, 0.5, -90, 45.25]))) for i in (PYAW, PPITCH, PROLL)))
    return codec, E.el(E.VIDEO, v)


def interleave(r, a, o):
    """The options in another order, some of them given first with another value: of an option
    given more than once the last one counts, and the order of different ones does not (but for
    the two that choose the track of the cue points)."""
    pairs = [a[i:i + 2] for i in range(0, len(a), 2)]
    named = {"-video": "video", "-audio": "audio", "-switch_tracks": "switch", "-live": "live", "-output_cues": "cues",
             "-output_cues_block_number": "cuebn", "-copy_tags": "tags"}
    for name, key in named.items():
        if r.random() < .15:
            if name not in [p[0] for p in pairs]:
                pairs.append([name, "1" if o[key] else "0"])
            at = [p[0] for p in pairs].index(name)
            pairs.insert(r.randint(0, at), [name, "0" if o[key] else "1"])
    group = lambda p: "cues" if p[0].startswith("-cues_on_") else p[0]
    order = [group(p) for p in pairs]
    r.shuffle(order)
    left = {}
    for p in pairs:
        left.setdefault(group(p), []).append(p)
    return [x for g in order for x in left[g].pop(0)]


def remux_case(r):
    kinds = r.choice([[1], [1], [2], [1, 2], [1, 2], [1, 2], [2, 1], [2, 1], [17, 1], [2, 17, 1], [1, 33, 2]])
    nums = r.sample(range(1, 9), len(kinds)) if r.random() < .5 else list(range(1, len(kinds) + 1))
    tr = b""
    for n, ty in zip(nums, kinds):
        x = E.u(E.TNUM, n) + E.u(E.TUID, n + 50) + E.u(E.TTYPE, ty)
        if r.random() < .5:
            x += E.s(NAME, text_(r))
        if ty == 1:
            codec, sub = remux_video(r)
        elif ty == 2:
            codec = r.choice(["A_VORBIS", "A_OPUS", "A_TEST"])
            sub = E.f4(E.RATE, float(r.choice([1, 8000, 44100, 48000, 96000]))) + E.u(E.CHANS, r.choice([1, 2, 6, 255]))
            if r.random() < .4:
                sub += E.u(E.BITDEPTH, r.choice([8, 16, 24]))
            sub = E.el(E.AUDIO, sub)
            if r.random() < .4:
                x += E.u(DELAY, r.choice([1, 6500000, 1 << 40]))
            if r.random() < .4:
                x += E.u(PREROLL, r.choice([1, 80000000, 1 << 40]))
        else:
            codec, sub = "S_TEST", b""
        x += E.s(E.CODECID, codec)
        if r.random() < (.85 if codec == "V_AV1" else .5):
            x += E.el(E.CODECPRIV, b"\x81\x00\x0c\x00" + blob_(r) if codec == "V_AV1" else blob_(r))
        tr += E.el(E.TRACKENTRY, x + sub)
    scale = r.choice([1000000, 1000000, 100000, 333333, 2000000])
    blocks = []
    t = r.choice([0, 0, 5, 40000])
    nb = 0 if r.random() < .03 else r.randint(1, 12)
    for i in range(nb):
        j = r.randrange(len(kinds))
        fr = [bytes([r.randint(0, 255) for _ in range(r.choice([1, 2, 5, 30, 200]))]) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        blocks.append({"trk": nums[j], "t": t, "key": i == 0 or r.random() < .6, "dp": r.choice([0, 0, 0, 0, 1, -5, 100000000]), "fr": fr})
        t += r.choice([0, 1, 7, 33, 500, 5000, 33000])
    if len(kinds) > 1 and nb > 3:     # the first frame of each track is a key frame
        seen = set()
        for b in blocks:
            if b["trk"] not in seen:
                b["key"] = True
            seen.add(b["trk"])
    body = E.u(E.TSCALE, scale) + E.s(E.MUXAPP, "m") + E.s(E.WRITEAPP, "w")
    dur = r.choice([None, 1, 1000, 123456])
    if dur:
        body += E.f4(E.DURATION, float(dur))
    body = E.el(E.INFO, body) + E.el(E.TRACKS, tr)
    tags = [[[text_(r), text_(r)] for _ in range(r.randint(1, 3))] for _ in range(r.choice([0, 0, 1, 2]))]
    if tags:
        body += E.el(E.TAGS, b"".join(E.el(TAG, b"".join(E.el(STAG, E.s(TAGNAME, a) + E.s(TAGSTR, b)) for a, b in g)) for g in tags))
    cl, ct, cur = [], None, b""
    for b in blocks:
        if ct is None or b["t"] - ct > 30000 or r.random() < .25:
            if ct is not None:
                cl.append((ct, cur))
            ct, cur = b["t"], b""
        lac = 0 if len(b["fr"]) == 1 else r.choice([1, 3])
        f = b["fr"]
        pre = b""
        if lac:
            pre = bytes([len(f) - 1])
            if lac == 1:
                for x in f[:-1]:
                    pre += b"\xff" * (len(x) // 255) + bytes([len(x) % 255])
            else:
                pre += E.vint(len(f[0]))
                for p, q in zip(f, f[1:-1]):
                    d = len(q) - len(p)
                    w = 1 if -63 <= d <= 63 else 2
                    pre += E.vint(d + (1 << (7 * w - 1)) - 1, w)
        data = pre + b"".join(f)
        hdr = E.vint(b["trk"]) + struct.pack(">h", b["t"] - ct)
        if b["dp"] or r.random() < .2:
            g = E.el(E.BLOCK, hdr + bytes([lac << 1]) + data)
            if not b["key"]:
                g += E.el(E.REFBLOCK, struct.pack(">b", -3))
            if b["dp"]:
                n = 1
                while not -(1 << (8 * n - 1)) <= b["dp"] < (1 << (8 * n - 1)):
                    n += 1
                g += E.el(E.DISCARD, b["dp"].to_bytes(n, "big", signed=True))
            cur += E.el(E.BLOCKGROUP, g)
        else:
            cur += E.el(E.SIMPLEBLOCK, hdr + bytes([(0x80 if b["key"] else 0) | lac << 1]) + data)
    if ct is not None:
        cl.append((ct, cur))
    body += b"".join(E.el(E.CLUSTER, E.u(E.TIMECODE, a) + b) for a, b in cl)
    doc = E.ebml_header() + E.el(E.SEGMENT, body)

    # options
    o = {"video": True, "audio": True, "switch": False, "vnum": 0, "anum": 0, "over": {}, "vp9": "none", "vp9bad": False,
         "cues": True, "live": False, "cuesaudio": False, "cuesvideo": True, "cuebn": True, "cb4": False, "tags": False, "dur": False}
    a = []

    def flag(name, key, p, val=None):
        if r.random() < p:
            v = r.random() < .5 if val is None else val
            o[key] = v
            a.extend(["-" + name, "1" if v else "0"])

    flag("video", "video", .12)
    flag("audio", "audio", .12)
    flag("switch_tracks", "switch", .25, True)
    flag("live", "live", .12)
    flag("output_cues", "cues", .2)
    flag("output_cues_block_number", "cuebn", .3)
    if r.random() < .35:
        # the one asked for last counts; one that is asked for puts the other off
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            w, v = r.choice(["audio", "audio", "video"]), r.random() < .75
            o["cues" + w] = v
            if v:
                o["cuesvideo" if w == "audio" else "cuesaudio"] = False
            a += ["-cues_on_%s_track" % w, "1" if v else "0"]
    flag("cues_before_clusters", "cb4", .15)
    flag("copy_tags", "tags", .5)
    if dur:
        flag("copy_input_duration", "dur", .5)
    for name, key in (("video_track_number", "vnum"), ("audio_track_number", "anum")):
        if r.random() < .2:
            o[key] = r.choice([1, 2, 3, 77, 126, 127])
            a += ["-" + name, str(o[key])]
    for name, key in (("display_width", "dw"), ("display_height", "dh"), ("pixel_width", "w"), ("pixel_height", "h")):
        if r.random() < .12:
            o["over"][key] = str(r.choice([1, 640, 65536]))
            a += ["-" + name, o["over"][key]]
    if r.random() < .12:
        o["over"]["stereo"] = str(r.choice([1, 2, 3, 11]))
        a += ["-stereo_mode", o["over"]["stereo"]]
    pfile = None
    if r.random() < .15:
        t = r.randint(0, 3)
        o["over"]["ptype"] = str(t)
        a += ["-projection_type", str(t)]
        if r.random() < (.2 if t == 0 else .5 if t == 1 else .85):
            pfile = blob_(r)
            o["over"]["ppriv"] = pfile.hex()
            a += ["-projection_file", "p.bin"]
    for name, key in (("roll", "proll"), ("pitch", "ppitch"), ("yaw", "pyaw")):
        if r.random() < .1:
            v = r.choice([0.25, 10.0, -45.5])
            o["over"][key] = "%r" % v
            a += ["-projection_pose_" + name, "%r" % v]
    prof = r.choice([0, 1, 2, 3, 4, 9]) if r.random() < .2 else None
    lev = r.choice([10, 11, 20, 41, 62, 52, 12, 0, 70]) if r.random() < .2 else None
    if prof is not None:
        a += ["-profile", str(prof)]
    if lev is not None:
        a += ["-level", str(lev)]
    if prof is not None or lev is not None:
        o["vp9bad"] = prof is not None and prof > 3 or lev is not None and lev not in (10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62)
        o["vp9"] = (bytes([1, 1, prof]) if prof is not None else b"").hex() + (bytes([2, 1, lev]) if lev is not None else b"").hex()
    # how the frames are put into clusters
    big = {"ticks": -(-30000000000 // scale), "size": 0, "wide": False, "exact": True}
    if r.random() < .2:
        v = r.choice(["0.001", "0.1", "5", "0", "12.5"])
        a += ["-max_cluster_duration", v]
        if v != "0":
            big["ticks"] = -(-int(float(v) * 1000000000) // scale)
    if r.random() < .2:
        v = r.choice([1, 100, 1000, 5000, 0])
        a += ["-max_cluster_size", str(v)]
        big["size"] = v
    if r.random() < .15:
        a += ["-accurate_cluster_duration", "1"]
        big["exact"] = False
    if r.random() < .15:
        v = r.random() < .7
        a += ["-fixed_size_cluster_timecode", "1" if v else "0"]
        big["wide"] = v
    chunk = not o["cb4"] and r.random() < .12
    if chunk:
        a += ["-chunking", "part"]
        big["exact"] = False
    a = interleave(r, a, o)
    o["bad"] = r.random() < .02      # an option without its value
    if o["bad"]:
        a.append("-webvtt-" + r.choice(KINDS).lower())
    return {"big": big, "doc": doc, "blocks": blocks, "opt": o, "args": a, "scale": scale, "dur": dur, "tags": tags, "pfile": pfile, "chunk": chunk,
            "limit": r.choice([None, None, 1, 5, 300, 0])}


def remux_run(c, d):
    mux = remux_run.tool
    with open(os.path.join(d, "in.webm"), "wb") as f:
        f.write(c["doc"])
    if c["pfile"] is not None:
        with open(os.path.join(d, "p.bin"), "wb") as f:
            f.write(c["pfile"])
    seg = segment(c["doc"])
    tin = [{"n": t.kid(E.TNUM).uint(), "ty": t.kid(E.TTYPE).uint(), "f": fields(t)} for t in seg.kid(E.TRACKS).kids]
    tags = [[[x.decode("latin1") for x in st] for st in g] for g in c["tags"]]
    ev = [{"o": "track", "i": i + 1} for i in range(len(tin))]
    ev += [{"o": "block", "trk": b["trk"], "t": b["t"], "key": b["key"], "dp": str(b["dp"]), "fr": [dig(x) for x in b["fr"]]} for b in c["blocks"]]
    args = ["-i", "in.webm", "-o", "out.webm"] + c["args"]
    rc = run_tool(mux, args, d)
    e = {"o": "out", "rc": rc, "err": "", "scale": 0, "trk": [], "blocks": [], "cues": [], "ncues": 0, "first": False, "tags": [], "dur": 0, "cl": []}
    ev.append(e)
    out = os.path.join(d, "out.webm")
    if rc == 0:
        try:
            if c["chunk"]:      # the header file and the chunks after it are the file
                parts = [open(os.path.join(d, "part.hdr"), "rb").read()]
                i = 0
                while os.path.exists(os.path.join(d, "part_%06d.chk" % i)):
                    parts.append(open(os.path.join(d, "part_%06d.chk" % i), "rb").read())
                    i += 1
                for nm in sorted(os.listdir(d)):     # and the cues of a file are last
                    if nm.startswith("part_") and nm.endswith(".cues"):
                        parts.append(open(os.path.join(d, nm), "rb").read())
                doc = b"".join(parts)
            else:
                doc = open(out, "rb").read()
            sg = segment(doc)
            inf = sg.kid(E.INFO)
            e["scale"] = inf.kid(E.TSCALE).uint()
            du = inf.kid(E.DURATION)
            e["dur"] = int(du.flt()) if du and du.flt() == int(du.flt()) else -1
            e["trk"] = [{"n": t.kid(E.TNUM).uint(), "ty": t.kid(E.TTYPE).uint(), "f": fields(t)} for t in (sg.kid(E.TRACKS).kids if sg.kid(E.TRACKS) else [])]
            e["blocks"] = [{"trk": b[2], "t": b[3], "key": b[4], "dp": str(b[6]), "fr": dig(b[7])} for b in blocks_of(sg)]
            for ci, x in enumerate(sg.all(E.CLUSTER)):
                ks = [y for y in x.kids if y.id in (E.SIMPLEBLOCK, E.BLOCKGROUP)]
                tc = x.kid(E.TIMECODE)
                e["cl"].append({"t": tc.uint(), "size": x.end - x.off - x.hdr, "wide": len(tc.body) == 8, "bl": [
                    {"trk": b[2], "t": b[3], "key": b[4], "at": y.off - (x.off + x.hdr)} for y, b in zip(ks, [b for b in blocks_of(sg) if b[0] == ci])]})
            cu = sg.all(E.CUES)
            e["ncues"] = len(cu)
            for k in cu:
                for p in k.kids:
                    tp = p.kid(E.CUETPOS)
                    # the place of the block in its cluster
                    trk, tm = tp.kid(E.CUETRACK).uint(), p.kid(E.CUETIME).uint()
                    offs = [x.off for x in sg.all(E.CLUSTER)]
                    pos = tp.kid(E.CUECPOS).uint() + sg.off + sg.hdr
                    bl = [b for b in blocks_of(sg) if b[0] == (offs.index(pos) if pos in offs else -1)]
                    nb = [i + 1 for i, b in enumerate(bl) if b[2] == trk and b[3] == tm]
                    bn = tp.kid(E.CUEBLOCK)
                    e["cues"].append({"trk": trk, "bn": bn.uint() if bn else 0, "at": nb})
            order = [k.id for k in sg.kids]
            e["first"] = bool(cu) and (E.CLUSTER not in order or order.index(E.CUES) < order.index(E.CLUSTER))
            tg = sg.kid(E.TAGS)
            e["tags"] = [[[st.kid(TAGNAME).body.decode("latin1"), st.kid(TAGSTR).body.decode("latin1")] for st in g.kids] for g in (tg.kids if tg else [])]
        except (E.DecodeError, AttributeError, IndexError, struct.error, ValueError) as ex:
            e["err"] = ("file: %s %s" % (type(ex).__name__, ex))[:200]
        if c["limit"] is not None and not c["opt"]["live"] and not c["chunk"]:
            size = os.path.getsize(out)
            os.remove(out)
            lim = max(1, size - c["limit"])
            ev.append({"o": "full", "size": size, "limit": lim, "rc": run_tool(mux, args, d, fsize=lim)})
    return {"ev": ev, "in": tin, "opt": c["opt"], "big": c["big"], "scale": c["scale"], "dur": c["dur"] or 0, "tags": tags}


def remux_desc(c):
    return "options %s | blocks %s | scale %d | tags %s | file %s" % (
        c["args"], [(b["trk"], b["t"], b["key"], b["dp"], [len(x) for x in b["fr"]]) for b in c["blocks"]], c["scale"], c["tags"], c["doc"].hex())


def s01(ck, tier):
    r = run_tlc("MCRemux", "MCRemux.cfg")
    if r.rc != 0:
        raise TlcError("MCRemux: " + r.out[-2000:])
    ck.add_tlc(r)
    remux_run.tool = build("tool", MUXLIBS, extra_src=["mkvmuxer_sample.cc"])
    g = rng("S01")
    n = 1200 if tier == "quick" else 6000
    cases = [remux_case(g) for _ in range(n)]
    ts, _ = validate_cases(ck, cases, remux_run, "RemuxTrace", "RemuxTrace.cfg", remux_desc)
    ck.extra["runs_that_wrote_a_file"] = sum(1 for t in ts if any(x["o"] == "out" and x["rc"] == 0 for x in t.get("ev", [])))
    ck.assumptions.append("inputs with at most one video and one audio track, blocks in time order, no block additions")
