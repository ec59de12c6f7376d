"""Independent EBML encoder/decoder used to build documents and read muxer output."""
import struct

UNKNOWN = -1


def payload(seed, n):
    x = (seed * 2654435761 + 12345) & 0xffffffff
    m = min(n, 2039)
    r = bytearray(m)
    for i in range(m):
        x ^= (x << 13) & 0xffffffff
        x ^= x >> 17
        x ^= (x << 5) & 0xffffffff
        r[i] = (x >> 11) & 0xff
    return (bytes(r) * (n // 2039 + 1))[:n] if n > m else bytes(r)


def idb(i):
    return i.to_bytes((i.bit_length() + 7) // 8, "big")


def vint(v, width=None):
    if v == UNKNOWN:
        w = width or 8
        return bytes([0xff >> (w - 1)]) + b"\xff" * (w - 1) if w < 8 else b"\x01" + b"\xff" * 7
    w = width
    if w is None:
        w = 1
        while v > (1 << (7 * w)) - 2:
            w += 1
    return ((1 << (7 * w)) | v).to_bytes(w, "big")


def el(i, body, width=None, unknown=False):
    return idb(i) + (vint(UNKNOWN, width) if unknown else vint(len(body), width)) + body


def uintb(v, n=None):
    if n is None:
        n = max(1, (v.bit_length() + 7) // 8)
    return v.to_bytes(n, "big")


def u(i, v, n=None, width=None):
    return el(i, uintb(v, n), width)


def f4(i, v):
    return el(i, struct.pack(">f", v))


def f8(i, v):
    return el(i, struct.pack(">d", v))


def s(i, v, width=None):
    return el(i, v if isinstance(v, bytes) else v.encode(), width)


# IDs
EBML, SEGMENT, SEEKHEAD, SEEK, SEEKID, SEEKPOS = 0x1A45DFA3, 0x18538067, 0x114D9B74, 0x4DBB, 0x53AB, 0x53AC
INFO, TSCALE, DURATION, DATE, TITLE, MUXAPP, WRITEAPP = 0x1549A966, 0x2AD7B1, 0x4489, 0x4461, 0x7BA9, 0x4D80, 0x5741
TRACKS, TRACKENTRY, TNUM, TUID, TTYPE, CODECID, CODECPRIV = 0x1654AE6B, 0xAE, 0xD7, 0x73C5, 0x83, 0x86, 0x63A2
VIDEO, PW, PH, AUDIO, RATE, CHANS, BITDEPTH = 0xE0, 0xB0, 0xBA, 0xE1, 0xB5, 0x9F, 0x6264
CLUSTER, TIMECODE, PREVSIZE, POSITION, SIMPLEBLOCK = 0x1F43B675, 0xE7, 0xAB, 0xA7, 0xA3
BLOCKGROUP, BLOCK, BLOCKDUR, REFBLOCK, DISCARD = 0xA0, 0xA1, 0x9B, 0xFB, 0x75A2
BLOCKADDS, BLOCKMORE, BLOCKADDID, BLOCKADDITIONAL = 0x75A1, 0xA6, 0xEE, 0xA5
CUES, CUEPOINT, CUETIME, CUETPOS, CUETRACK, CUECPOS, CUEBLOCK = 0x1C53BB6B, 0xBB, 0xB3, 0xB7, 0xF7, 0xF1, 0x5378
CHAPTERS, TAGS, VOID, CRC, ATTACH = 0x1043A770, 0x1254C367, 0xEC, 0xBF, 0x1941A469


def ebml_header(doctype="webm", ver=4, read=2):
    return el(EBML, u(0x4286, 1) + u(0x42F7, 1) + u(0x42F2, 4) + u(0x42F3, 8) + s(0x4282, doctype) + u(0x4287, ver) + u(0x4285, read))


def simple_block(track, tc, data, key=True, lacing=0, flags=0):
    return el(SIMPLEBLOCK, vint(track) + struct.pack(">h", tc) + bytes([(0x80 if key else 0) | lacing << 1 | flags]) + data)


# ---------------------------------------------------------------- decoding

MASTERS = {EBML, SEGMENT, SEEKHEAD, SEEK, INFO, TRACKS, TRACKENTRY, VIDEO, AUDIO, CLUSTER, BLOCKGROUP, BLOCKADDS,
           BLOCKMORE, CUES, CUEPOINT, CUETPOS, CHAPTERS, 0x45B9, 0xB6, 0x80, TAGS, 0x7373, 0x63C0, 0x67C8,
           0x6D80, 0x6240, 0x5035, 0x5034, 0x47E7, 0x55B0, 0x55D0, 0x7670, 0x8E, 0xE8}


class DecodeError(Exception):
    pass


def read_id(b, p):
    if p >= len(b):
        raise DecodeError("id past end at %d" % p)
    n = 1
    while n <= 4 and not (b[p] & (0x80 >> (n - 1))):
        n += 1
    if n > 4 or p + n > len(b):
        raise DecodeError("bad id at %d" % p)
    return int.from_bytes(b[p:p + n], "big"), n


def read_vint(b, p):
    if p >= len(b):
        raise DecodeError("size past end at %d" % p)
    n = 1
    while n <= 8 and not (b[p] & (0x80 >> (n - 1))):
        n += 1
    if n > 8 or p + n > len(b):
        raise DecodeError("bad size at %d" % p)
    v = int.from_bytes(b[p:p + n], "big") & ((1 << (7 * n)) - 1)
    if v == (1 << (7 * n)) - 1:
        return UNKNOWN, n
    return v, n


class El:
    __slots__ = ("id", "off", "hdr", "size", "body", "kids", "end", "wsize")

    def __repr__(self):
        return "<%x@%d+%d sz %d>" % (self.id, self.off, self.hdr, self.size)

    def kid(self, i):
        for k in self.kids or []:
            if k.id == i:
                return k
        return None

    def all(self, i):
        return [k for k in self.kids or [] if k.id == i]

    def uint(self):
        return int.from_bytes(self.body, "big")

    def sint(self):
        return int.from_bytes(self.body, "big", signed=True)

    def flt(self):
        return struct.unpack(">f" if len(self.body) == 4 else ">d", self.body)[0] if self.body else 0.0


TOPLEVEL = {SEGMENT, EBML}
L1 = {SEEKHEAD, INFO, TRACKS, CLUSTER, CUES, CHAPTERS, TAGS, ATTACH}


def decode(b, p=0, end=None, parent=None):
    """Strict decode of b[p:end] into a list of El; children must tile their parents."""
    end = len(b) if end is None else end
    out = []
    while p < end:
        e = El()
        e.off = p
        e.id, n = read_id(b, p)
        if parent == CLUSTER and (e.id in L1 or e.id in TOPLEVEL):
            return out, p   # ends an unknown-size cluster
        e.size, m = read_vint(b, p + n)
        e.hdr = n + m
        e.wsize = m
        q = p + e.hdr
        if e.size == UNKNOWN:
            if e.id not in (SEGMENT, CLUSTER):
                raise DecodeError("unknown size not allowed for %x at %d" % (e.id, p))
            e.body = None
            if e.id == CLUSTER:
                e.kids, e.end = decode(b, q, end, CLUSTER)
            else:
                e.kids, e.end = decode(b, q, end, SEGMENT)
        else:
            if q + e.size > end:
                raise DecodeError("element %x at %d exceeds its parent" % (e.id, p))
            e.end = q + e.size
            e.body = bytes(b[q:e.end])
            e.kids = None
            if e.id in MASTERS:
                ks, pe = decode(b, q, e.end, None)
                e.kids = ks
        out.append(e)
        p = e.end
    return out, p
