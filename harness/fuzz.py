"""Random links: built field by field, then possibly damaged.

Only a source of inputs.  What has to come out of them is decided by the TLA+ specification.
"""
import random
import struct

CLSID = bytes.fromhex("0114020000000000c000000000000046")
STRNAMED = bytes.fromhex("05d5cdd59c2e1b10939708002b2cf9ae")
SIGS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12]
CODEPAGES = [None, None, None, "cp1252", "cp437", "cp1251", "latin-1", "ascii", "cp874", "cp1253",
             "mac-roman", "koi8-r", "iso8859-8", "utf-8", "utf-8", "cp932", "cp936", "cp949", "cp950"]
ALPHA = "abcXYZ01 .\\/\"%:-_\t'#{}[]&*!|>@`,?"
B85 = "!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~"


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    # --- values -----------------------------------------------------------------------------
    def u32(self):
        r = self.r
        return r.choice([0, 1, 2, 3, 7, 19, 20, 21, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000,
                         0xFFFFFFFF, 0x80000001, 0xFFFF0000, r.getrandbits(32), r.getrandbits(32),
                         r.getrandbits(16)])

    def u16(self):
        r = self.r
        return r.choice([0, 1, 2, 20, 255, 256, 0x7FFF, 0x8000, 0xFFFF, r.getrandbits(16)])

    def guid(self):
        r = self.r
        return r.choice([bytes(16), bytes(range(16)), b"\xff" * 16, r.randbytes(16), r.randbytes(16)])

    def filetime(self):
        r = self.r
        k = r.random()
        if k < 0.2:
            return bytes(8)
        if k < 0.6:
            return struct.pack("<q", r.randrange(116444736000000000, 150000000000000000))
        if k < 0.8:
            return struct.pack("<q", r.randrange(1, 2650467743990000000))
        if k < 0.9:
            return struct.pack("<q", r.randrange(-504911232000000000, 0))
        return r.randbytes(8)

    def dostime(self):
        r = self.r
        if r.random() < 0.2:
            return r.choice([bytes(4), b"\xff" * 4, r.randbytes(4)])
        d = (r.randrange(0, 128) << 9) | (r.randrange(0, 14) << 5) | r.randrange(0, 32)
        t = (r.randrange(0, 26) << 11) | (r.randrange(0, 61) << 5) | r.randrange(0, 31)
        return struct.pack("<HH", d, t)

    def text(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 2, 3, 5, 8, 13, 30])
        k = r.random()
        if k < 0.6:
            return "".join(r.choice(ALPHA) for _ in range(n))
        if k < 0.8:
            return "".join(chr(r.choice([65, 0xE9, 0x20AC, 0x17D, 0x416, 0x3B1, 0xA0, 0x81])) for _ in range(n))
        if k < 0.9:
            return "".join(chr(r.choice([0x1F600, 65, 0x4E2D, 0xFFFD, 0xFFFE, 0xD7FF, 0xE000, 0x10FFFF]))
                           for _ in range(n))
        return "".join(chr(r.choice([1, 9, 10, 13, 27, 127, 0x85, 0x2028, 0x20, 0xFEFF])) for _ in range(n))

    def abytes(self, n=None):
        """Bytes of an 8-bit text without NUL."""
        r = self.r
        t = self.text(n)
        k = r.random()
        if k < 0.4:
            b = t.encode("ascii", "replace")
        elif k < 0.6:
            b = t.encode("cp1252", "replace")
        elif k < 0.85:
            b = t.encode("utf-8")
        else:
            b = bytes(r.choice([0x41, 0x81, 0x8D, 0xC3, 0xA9, 0xE2, 0x82, 0xAC, 0xF0, 0x9F, 0x98, 0x80, 0xFF,
                                0xC0, 0xED, 0xA0, 0xF4, 0x90, 0x90]) for _ in range(r.randrange(0, 8)))
        return bytes(x or 1 for x in b)

    def wbytes(self, n=None):
        """UTF-16LE units without NUL, sometimes ill-formed."""
        r = self.r
        if r.random() < 0.8:
            return self.text(n).encode("utf-16le")
        return b"".join(struct.pack("<H", r.choice([0x41, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0xDE00, 0x20AC]))
                        for _ in range(r.randrange(0, 6)))

    def z(self, wide):
        return (self.wbytes() + b"\0\0") if wide else (self.abytes() + b"\0")

    # --- structures -------------------------------------------------------------------------
    def header(self, flags):
        r = self.r
        hs = 76
        pad = b""
        if r.random() < 0.02:
            hs = r.choice([77, 80, 100, 77, 80, 100, 0, 4, 24, 75, self.u32()])
            pad = r.randbytes(r.choice([hs - 76, 0])) if 76 < hs < 200 else b""
        clsid = CLSID if r.random() < 0.95 else self.guid()
        res = b"".join(struct.pack(f, 0 if r.random() < 0.9 else self.u16()) for f in ("<H", "<I", "<I"))
        hk = r.choice([b"\0\0", r.randbytes(2), bytes([r.randrange(0x2F, 0x92), r.randrange(0, 9)])])
        return (struct.pack("<I", hs) + clsid + struct.pack("<II", flags, self.u32())
                + self.filetime() + self.filetime() + self.filetime()
                + struct.pack("<III", self.u32(), self.u32(), r.choice([0, 1, 2, 3, 7, 11, self.u32()]))
                + hk + res + pad)

    def item_body(self, kind=None):
        r = self.r
        kind = kind or r.choice(["file", "file", "file", "volume", "network", "root", "control", "category", "cpl",
                                 "users", "plain", "unknown"])
        if kind == "file":
            t = 0x30 | r.randrange(16) | r.choice([0, 0, 0x80])
            return (bytes([t, r.randrange(256)]) + struct.pack("<I", self.u32()) + self.dostime()
                    + struct.pack("<H", self.u16()) + self.z(t & 4) + r.choice([b"", r.randbytes(6)]))
        if kind == "volume":
            t = 0x20 | r.randrange(16) | r.choice([0, 0x80])
            if t & 1:
                return bytes([t]) + self.z(False) + r.choice([b"", bytes(20), r.randbytes(9)])
            return bytes([t, 0]) + self.guid() + r.choice([b"", b"x"])
        if kind == "network":
            c = r.choice([0, 0x80, 0x40, 0xC0, r.randrange(256)])
            return (bytes([0x40 | r.randrange(16), r.randrange(256), c])
                    + b"".join(self.z(False) for _ in range(r.randrange(0, 4))) + r.choice([b"", self.abytes(), b"\0\0"]))
        if kind == "root":
            return bytes([r.choice([0x1E, 0x1F]), r.choice([0, 0x42, 0x44, 0x48, 0x4C, 0x50, 0x54, 0x58, 0x60, 0x68,
                                                           0x70, 0x78, 0x80, r.randrange(256)])]) + self.guid() + r.choice([b"", b"ab"])
        if kind == "control":
            return bytes([r.choice([0x70, 0x71]), 0]) + r.randbytes(12) + self.guid() + r.choice([b"", b"\0"])
        if kind == "category":
            return bytes([1, 0]) + struct.pack("<II", 0x39DE2184, r.choice([r.randrange(14), self.u32()])) + r.choice([b"", b"\0\0"])
        if kind == "cpl":
            a, b, c = self.text(), self.text(), self.text()
            if r.random() < 0.5:
                s = [x.encode("utf-16le") + b"\0\0" for x in (a, b, c)]
                return (bytes([0, 0]) + struct.pack("<I", self.u32()) + bytes(12)
                        + struct.pack("<HH", len(s[0]) // 2, r.choice([0, (len(s[0]) + len(s[1])) // 2])) + b"".join(s))
            s = [x.encode("cp1252", "replace") + b"\0" for x in (a, b, c)]
            return (bytes([0, 0]) + struct.pack("<I", self.u32())
                    + struct.pack("<HH", len(s[0]), r.choice([0, len(s[0]) + len(s[1])])) + b"".join(s))
        if kind == "users":
            f = self.item_body("file")
            f = struct.pack("<H", len(f) + 2) + f
            inner = r.choice([len(f) + 4, 4 + len(f), self.u16() % 64])
            tail = self.guid() + self.guid()
            return (bytes([0x74, 0]) + struct.pack("<H", inner) + r.choice([b"CFSF", b"\0\x80ab", r.randbytes(4)]) + f + tail
                    + r.choice([b"", b"zz"]))
        if kind == "plain":
            return bytes([r.choice([0x52, 0x61, 0x72, 0x73])]) + r.randbytes(r.randrange(0, 9))
        return bytes([r.choice([0x02, 0x10, 0x2E & 0x8F, 0x50, 0x60, 0x75, 0x80, 0x9F, 0xD3, 0xFF, r.randrange(256)])]) + r.randbytes(r.randrange(0, 9))

    def item(self):
        r = self.r
        b = self.item_body()
        if r.random() < 0.08:
            b = b[:r.randrange(1, len(b) + 1)]
        return struct.pack("<H", len(b) + 2) + b

    def idlist(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 1, 2, 3, 5])
        b = b"".join(self.item() for _ in range(n))
        return b + (b"" if r.random() < 0.05 else b"\0\0")

    def linkinfo(self):
        r = self.r
        kind = r.choice([1, 1, 1, 2, 2, 3, 0])
        uni = r.random() < 0.3
        hs = 0x24 if uni else 0x1C
        out = bytearray(hs)
        put = lambda o, v: out.__setitem__(slice(o, o + 4), struct.pack("<I", v))
        vol = base = cnrl = suf = bu = su = 0
        if kind & 1:
            vol = len(out)
            v = bytearray()
            label_u = r.random() < 0.3
            lab = self.z(label_u)
            if label_u:
                off = 20
                v += struct.pack("<5I", 20 + len(lab), r.choice([3, r.randrange(9), self.u32()]), self.u32(), off, 20) + lab
            else:
                v += struct.pack("<4I", 16 + len(lab), r.choice([3, r.randrange(9), self.u32()]), self.u32(), 16) + lab
            out += v
            base = len(out)
            out += self.z(False)
        if kind & 2:
            cnrl = len(out)
            nu = r.random() < 0.4
            nh = 28 if nu else 20
            net, dev = self.z(False), self.z(False)
            body = net
            devoff = 0
            if r.random() < 0.6:
                devoff = nh + len(body)
                body += dev
            nou = dou = 0
            if nu:
                nou = nh + len(body)
                body += self.z(True)
                if r.random() < 0.6:
                    dou = nh + len(body)
                    body += self.z(True)
            prov = r.choice([0x20000, 0x1A0000, 0x430000, 0x2E0000, 0, self.u32(), r.randrange(0x1A, 0x46) << 16,
                             r.randrange(0x1A, 0x46) << 12])
            c = struct.pack("<5I", nh + len(body), r.choice([2, 3, 1, 0, self.u32()]), nh, devoff, prov)
            if nu:
                c += struct.pack("<2I", nou, dou)
            out += c + body
        if r.random() < 0.85:
            suf = len(out)
            out += self.z(False)
        if uni:
            if r.random() < 0.8:
                bu = len(out)
                out += self.z(True)
            if r.random() < 0.8:
                su = len(out)
                out += self.z(True)
        put(0, len(out))
        put(4, hs)
        put(8, kind | r.choice([0, 0, 0x100]))
        put(12, vol)
        put(16, base)
        put(20, cnrl)
        put(24, suf)
        if uni:
            put(28, bu)
            put(32, su)
        return bytes(out)

    def strdata(self, uni, i):
        r = self.r
        if r.random() < 0.04:
            n = r.choice([259, 260, 261, 300, 600])
            t = self.text(n)
        else:
            t = self.text()
        if uni:
            b = t.encode("utf-16le") if r.random() < 0.9 else self.wbytes()
            n = len(b) // 2
        else:
            b = t.encode("cp1252", "replace") if r.random() < 0.6 else self.abytes()
            n = len(b)
        if i < 3 and n > 260:
            # what a producer padding beyond the limit leaves behind
            pass
        return struct.pack("<H", n) + b

    def fixed(self, wide, size):
        b = (self.wbytes() + b"\0\0") if wide else (self.abytes() + b"\0")
        b = b[:size]
        return b + (bytes(size - len(b)) if self.r.random() < 0.7 else self.r.randbytes(size - len(b)))

    def typed(self):
        r = self.r
        k = r.random()
        pad = 0 if r.random() < 0.9 else 1
        if k < 0.4:
            w = self.wbytes() + b"\0\0"
            n = r.choice([len(w) // 2, len(w) // 2, len(w) // 2 + r.randrange(-1, 3)])
            return struct.pack("<HHI", 0x1F, pad, max(0, n)) + w
        if k < 0.6:
            return struct.pack("<HHh", 2, pad, r.choice([0, 1, -1, 32767, -32768])) + b"\0\0"
        ty = r.choice([0, 1, 3, 4, 5, 8, 10, 11, 0x13, 0x15, 0x1E, 0x40, 0x41, 0x42, 0x48, 0x101F, 0x1011, 0x2017,
                       0x2002, 9, 0x7777])
        return struct.pack("<HH", ty, pad) + r.randbytes(r.choice([2, 4, 8]))

    def propstore(self):
        r = self.r
        out = b""
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            named = r.random() < 0.3
            vals = b""
            for _ in range(r.choice([0, 1, 2, 3])):
                if named:
                    nm = self.wbytes() + b"\0\0"
                    body = struct.pack("<I", len(nm)) + bytes([r.choice([0, 1])]) + nm + self.typed()
                else:
                    body = struct.pack("<I", self.u32()) + bytes([r.choice([0, 7])]) + self.typed()
                size = len(body) + 4
                if r.random() < 0.03:
                    size = r.choice([1, 4, 8, 13, size + 1, size + 50, self.u32() or 1])
                vals += struct.pack("<I", size) + body
            fid = STRNAMED if named else self.guid()
            body = b"1SPS" + fid + vals + bytes(4)
            size = len(body) + 4
            if r.random() < 0.03:
                size = r.choice([1, 8, 24, size - 4, size + 1, self.u32() or 1])
            out += struct.pack("<I", size) + body
        return out + (bytes(4) if r.random() < 0.95 else b"")

    def darwin(self):
        r = self.r
        q = lambda: "".join(r.choice(B85[:40]) for _ in range(20))
        k = r.random()
        if k < 0.5:
            return q() + self.text().replace(">", "") + ">" + q() + r.choice(["", "x"])
        if k < 0.7:
            return q() + "Feature" + "<"
        if k < 0.8:
            return q() + ">" + q()
        if k < 0.9:
            return q()[:r.randrange(20)] + ">" + q()[:r.randrange(20)]
        return self.text()

    def block(self):
        r = self.r
        sig = r.choice(SIGS + [0, 10, 13, 0xFF, None])
        w, a = (lambda n: self.fixed(True, n)), (lambda n: self.fixed(False, n))
        if sig in (1, 7):
            body = a(260) + w(520)
        elif sig == 6:
            d = self.darwin()
            body = (d.encode("ascii", "replace") + bytes(260))[:260] + (d.encode("utf-16le") + bytes(520))[:520]
        elif sig == 2:
            body = (struct.pack("<8H", *(self.u16() for _ in range(8))) + r.randbytes(8)
                    + struct.pack("<3I", self.u32(), self.u32(), self.u32()) + w(64)
                    + struct.pack("<8I", *(self.u32() for _ in range(8))) + r.randbytes(64))
        elif sig == 3:
            body = (struct.pack("<II", r.choice([88, 88, 88, self.u32()]), r.choice([0, 0, self.u32()])) + a(16)
                    + self.guid() + self.guid() + self.guid() + self.guid())
        elif sig == 4:
            body = struct.pack("<I", self.u32())
        elif sig == 5:
            body = struct.pack("<II", self.u32(), self.u32())
        elif sig == 8:
            body = self.wbytes() + b"\0\0" + bytes(r.randrange(0, 6))
        elif sig == 9:
            body = self.propstore()
        elif sig == 11:
            body = self.guid() + struct.pack("<I", self.u32())
        elif sig == 12:
            body = self.idlist()
        else:
            body = r.randbytes(r.choice([0, 1, 3, 20, 51, 52, 56, 64, 100]))
        s = 0xA0000000 | sig if sig is not None else self.u32()
        if r.random() < 0.05:
            body = body[:r.randrange(0, len(body) + 1)]
        if r.random() < 0.03:
            body += r.randbytes(r.randrange(1, 9))
        return struct.pack("<II", 8 + len(body), s) + body

    def extra(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 0, 1, 1, 2, 3, 6])
        b = b"".join(self.block() for _ in range(n))
        if r.random() < 0.9:
            b += struct.pack("<I", r.choice([0, 0, 0, 1, 2, 3]))
            if r.random() < 0.25:
                b += r.randbytes(r.choice([1, 2, 3, 4, 5, 8, 60, 130]))
        return b

    def link(self):
        r = self.r
        flags = 0
        for k, p in ((0, .5), (1, .5), (2, .4), (3, .5), (4, .4), (5, .4), (6, .3), (7, .7), (8, .05)):
            if r.random() < p:
                flags |= 1 << k
        if r.random() < 0.3:
            flags |= r.getrandbits(32) & ~0x1FF
        parts = [self.header(flags)]
        if flags & 1:
            b = self.idlist()
            n = len(b)
            if r.random() < 0.04:
                n = max(0, n + r.choice([-3, -2, -1, 1, 2, 5]))
            parts.append(struct.pack("<H", n) + b)
        if flags & 2:
            parts.append(self.linkinfo())
        for i in range(5):
            if flags >> (2 + i) & 1:
                parts.append(self.strdata(flags & 0x80, i))
        parts.append(self.extra())
        return parts

    def damage(self, b):
        r = self.r
        b = bytearray(b)
        k = r.random()
        if k < 0.35:
            return bytes(b[:r.randrange(76, len(b) + 1)])
        if k < 0.7:
            for _ in range(r.choice([1, 1, 1, 2, 4])):
                i = r.randrange(0 if r.random() < 0.1 else 76, max(77, len(b)))
                if i < len(b):
                    b[i] = r.choice([0, 1, 2, 4, 0x14, 0x7F, 0x80, 0xFF, b[i] ^ (1 << r.randrange(8)), (b[i] + 1) % 256,
                                     (b[i] - 1) % 256])
            return bytes(b)
        if k < 0.85 and len(b) > 80:
            i = r.randrange(76, len(b) - 3)
            b[i:i + 4] = struct.pack("<I", self.u32())
            return bytes(b)
        i = r.randrange(76, len(b) + 1)
        if r.random() < 0.5:
            return bytes(b[:i] + r.randbytes(r.randrange(1, 9)) + b[i:])
        return bytes(b[:i] + b[i + r.randrange(1, 9):])

    def case(self, damage=0.4):
        b = b"".join(self.link())
        if self.r.random() < damage:
            b = self.damage(b)
        return b


DOUBLE = ["cp932", "cp936", "cp949", "cp950"]


def codepage_tables(names):
    """What every byte, and every pair of bytes, stands for in a code page."""
    def point(b, n):
        try:
            c = b.decode(n)
        except UnicodeDecodeError:
            return -1
        return ord(c) if len(c) == 1 else -1

    out = {}
    for n in names:
        one = [point(bytes([i]), n) for i in range(256)]
        out[n] = {"kind": "utf8" if n == "utf-8" else "double" if n in DOUBLE else "single", "one": one, "two": {}}
        if n in DOUBLE:
            for i in range(256):
                if one[i] == -1:
                    t = [point(bytes([i, k]), n) for k in range(256)]
                    if any(x != -1 for x in t):
                        out[n]["two"][str(i)] = t
    return out
