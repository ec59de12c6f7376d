"""E01: EBML numbers, written by the muxer's primitives and read by both parsers'."""
from vlib import *

IDS = ["80", "ec", "fe", "81", "4286", "7fff", "4001", "2ad7b1", "3fffff", "200001", "1a45dfa3", "1f43b675", "10000001", "1fffffff"]


def rv(r):
    c = r.random()
    if c < .35:
        k = r.choice([r.randrange(64), 7 * r.randrange(1, 9), 8 * r.randrange(0, 8), 8 * r.randrange(0, 8) + 7])
        return ((1 << k) + r.choice([-3, -2, -1, 0, 1, r.randrange(-300, 300)])) % (1 << 64)
    if c < .6:
        return int.from_bytes(bytes(r.choice([0, 0, 1, 127, 128, 254, 255, 255, r.randrange(256)]) for _ in range(8)), "big")
    return r.randrange(1 << r.randrange(1, 65))


def sg(v):
    return v - (1 << 64) if v >> 63 else v


def rbytes(r, n):
    return bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(n))


def hx(b):
    return b.hex() or "-"


def e01(ck, tier):
    quick = tier == "quick"
    m = run_tlc("MCCoding", "MCCoding.cfg" if quick else "MCCodingDeep.cfg")
    if not m.ok:
        raise RuntimeError("model check failed: " + m.out[-3000:])
    ck.add_tlc(m)
    edges = sorted({int.from_bytes(bytes(v), "big") for v in tlc_prints(m.out, "V")})
    r = rng("e01")
    lines = []
    for v in edges:
        lines.append("VAL %d" % v)
        lines.append("ELU %s %d %d" % (r.choice(IDS), v, r.randrange(0, 10)))
        lines.append("ELI %s %d" % (r.choice(IDS), sg(v)))
        lines.append("ELM %s %d" % (r.choice(IDS), v))
    for i in IDS:
        for n in range(10):
            lines.append("ELU %s %d %d" % (i, rv(r) >> r.randrange(64), n))
        lines.append("ELD %s %d" % (i, sg(rv(r))))
    N = 1500 if quick else 60000
    for _ in range(N):
        lines.append("VAL %d" % rv(r))
    for _ in range(N):
        i = r.choice(IDS)
        lines.append(r.choice(["ELU %s %d %d" % (i, rv(r), r.randrange(10)), "ELI %s %d" % (i, sg(rv(r))), "ELD %s %d" % (i, sg(rv(r))),
                               "ELM %s %d" % (i, rv(r)), "ELF %s %d" % (i, rv(r) & 0xffffffff)]))
    for n in [0, 1, 2, 125, 126, 127, 128, 129, 254, 255, 256, 16381, 16382, 16383, 16384, 16385]:
        for op in ("ELS", "ELB"):
            lines.append("%s %s %d %d" % (op, r.choice(IDS), n, r.randrange(1000)))
    for n in [2097150, 2097151, 2097152]:
        lines.append("ELB %s %d %d" % (r.choice(IDS), n, r.randrange(1000)))
    for n in list(range(0, 300 if quick else 700)) + [4000, 16383, 16384, 16385, 16386, 16387, 16388]:
        lines.append("VOID %d" % n)
    # arbitrary bytes: every first byte, every cut
    for b0 in range(256):
        for n in ((1, 4, 8) if quick else range(1, 11)):
            lines.append("DEC %s %d" % (hx(bytes([b0]) + rbytes(r, n - 1)), r.choice([-1, -1, 0, 1, 2, 3, 4, 5, 8, 9, 12])))
        if b0:
            w = 9 - b0.bit_length()
            lines.append("DEC %s -1" % hx(bytes([b0]) + b"\xff" * (w - 1)))
    for i in IDS:
        for w in range(1, 9):
            v = rv(r) % ((1 << 7 * w))
            if r.random() < .3:
                v = (1 << 7 * w) - 1 - r.randrange(2)
            b = bytes.fromhex(i) + (v | 1 << 7 * w).to_bytes(w, "big")
            for cut in (len(b), r.randrange(len(b))):
                lines.append("DEC %s %d" % (hx(b[:cut]), r.choice([-1, -1, 0, 1, len(b) // 2, len(b) - 1, len(b), len(b) + 1])))
    lines.append("DEC - -1")
    for _ in range(600 if quick else 30000):
        n = r.randrange(0, 11)
        b = rbytes(r, n if r.random() < .7 else max(0, n - r.randrange(1, 4)))
        if r.random() < .2:
            b = bytes(max(0, n - 1)) + bytes([r.randrange(3)])
        lines.append("NUM %s %d" % (hx(b), n))
    for e in (0, 1, 2, 127, 128, 254, 255):      # floats: exponents and mantissas
        for man in (0, 1, 2, 0x400000, 0x3fffff, 0x7fffff, 0x7ffffe, r.randrange(1 << 23)):
            for s in (0, 1):
                u = s << 31 | e << 23 | man
                lines.append("NUM %08x 4" % u)
                lines.append("ELF %s %d" % (r.choice(IDS), u))
    for e in (0, 1, 1023, 2046, 2047):
        for man in (0, 1, 1 << 51, (1 << 52) - 1, r.randrange(1 << 52)):
            for s in (0, 1):
                lines.append("NUM %016x 8" % (s << 63 | e << 52 | man))
    scripts = []
    r.shuffle(lines)
    for k in range(0, len(lines), 40):
        scripts.append((len(scripts), "\n".join(lines[k:k + 40])))
    binp = build("coding", ["mkvmuxer", "mkvparser", "common", "webm_parser"], ASAN + UBSAN)
    B = 400
    for k in range(0, len(scripts), B):
        validate(ck, binp, scripts[k:k + B], "CodingTrace", "CodingTrace.cfg", "accept")
    ck.extra["events"] = len(lines)
    ck.assumptions.append("unsigned values of 2^63 and more are not representable in the seeking parser's signed interface; refusing them counts as agreement")
