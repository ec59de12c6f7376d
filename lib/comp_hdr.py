"""H01: codec private features and colour metadata."""
from vlib import *

FLOATS = ["00000000", "80000000", "3f800000", "3f000000", "3dcccccd", "7f7ffffe", "447a0000", "461c4000", "461c3c00", "00800000", "bf800000", "3eb33333"]


def rf(r):
    return r.choice(FLOATS) if r.random() < .7 else "%08x" % r.choice([r.randrange(0x3f800000), r.randrange(0x7f7fffff)])


def rmm(r, p):
    opt = lambda v: v if r.random() < p else "none"
    return [opt(rf(r)), opt(rf(r))] + [opt(rf(r) + "," + rf(r)) for _ in range(4)]


def rint(r):
    return str(r.choice([0, 1, 2, 3, 8, 9, 10, 16, 22, 255, 256, 65536, 2**31 - 1, 2**31, 2**32, 2**63 - 2, r.randrange(2**62)]))


def h01(ck, tier):
    quick = tier == "quick"
    m = run_tlc("MCHdr", "MCHdr.cfg" if quick else "MCHdrDeep.cfg")
    if not m.ok:
        raise RuntimeError("model check failed: " + m.out[-3000:])
    ck.add_tlc(m)
    r = rng("h01")
    ps = [bytes(b) for b in tlc_prints(m.out, "P")]
    r.shuffle(ps)
    lines = ["null"] + ["priv " + (b.hex() or "-") for b in ps[:6000 if quick else 200000]]
    for i in range(256):                      # every value of every feature, every id, every length
        for fid in range(5):
            lines.append("priv %02x01%02x" % (fid, i))
        lines += ["priv %02x0101" % i, "priv 01%02x01" % i, "priv 02010b%02x010a" % i, "priv 0201%02x02010a" % i, "priv 02010a0201%02x" % i]
    for _ in range(2500 if quick else 60000):
        n = r.randrange(1, 9)
        b = b""
        vals = {1: r.randrange(4), 2: r.choice([10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62]), 3: r.choice([8, 10, 12]), 4: r.randrange(4)}
        for _ in range(n):
            i = r.randrange(1, 5)
            v = vals[i]
            c = r.random()
            if c < .04:
                v = r.randrange(256)
            elif c < .06:
                i = r.randrange(256)
            b += bytes([i, 1 if r.random() < .97 else r.randrange(256), v])
        if r.random() < .15:
            b = b[:-r.randrange(1, 3)]
        elif r.random() < .1:
            b += bytes(r.choice([0, 1, 2, 11]) for _ in range(r.randrange(1, 3)))
        lines.append("priv " + b.hex())
    none = ["none"] * 20
    lines.append("colour " + " ".join(none))
    for k in range(13):                       # every field alone, and all but one
        for v in ("0", "1", "9"):
            lines.append("colour " + " ".join(none[:k] + [v] + none[k + 1:]))
        a = [str(i + 20) for i in range(13)]
        a[k] = "none"
        lines.append("colour " + " ".join(a + none[13:]))
    for k in range(6):
        for v in FLOATS:
            q = ["none"] * 6
            q[k] = v if k < 2 else v + "," + FLOATS[(FLOATS.index(v) + 1) % len(FLOATS)]
            lines += ["mm " + " ".join(q), "colour " + " ".join(none[:13] + ["mm"] + q)]
    lines.append("colour " + " ".join(none[:13] + ["mm"] + none[14:]))
    for _ in range(2500 if quick else 60000):
        p = r.choice([.1, .5, .9, 1])
        mm = r.random() < .6
        lines.append("colour " + " ".join([rint(r) if r.random() < p else "none" for _ in range(13)] + (["mm"] + rmm(r, p) if mm else ["none"] * 7)))
        if r.random() < .3:
            lines.append("mm " + " ".join(rmm(r, p)))
    r.shuffle(lines)
    binp = build("hdr", ["mkvmuxer", "mkvparser", "common"], ASAN + UBSAN)
    scripts = [(k // 40, "\n".join(lines[k:k + 40])) for k in range(0, len(lines), 40)]
    for k in range(0, len(scripts), 1000):
        validate(ck, binp, scripts[k:k + 1000], "HdrTrace", "HdrTrace.cfg", "accept")
    ck.extra["events"] = len(lines)
