"""Independent STUN encoder/decoder (RFC 5389/8489), used to make stimuli and to abstract
datagrams into the records of the client and server specifications.  It shares no code
with the repository; acceptance of malformed data is decided by spec/stun, not here."""
import hashlib, hmac, struct, zlib

COOKIE = 0x2112A442
REQUEST, INDICATION, SUCCESS, ERROR = 0, 1, 2, 3
CLS = {"request": 0, "indication": 1, "success": 2, "error": 3}
CLSN = ["request", "indication", "success", "error"]
MAPPED, USERNAME, MI, ERRCODE, UNKNOWN, XORMAPPED, PRIO, USECAND = 1, 6, 8, 9, 0xA, 0x20, 0x24, 0x25
SOFTWARE, ALTSRV, FP, ICECLED, ICECLING = 0x8022, 0x8023, 0x8028, 0x8029, 0x802A
KNOWN = {MAPPED, USERNAME, MI, ERRCODE, UNKNOWN, XORMAPPED, PRIO, USECAND, SOFTWARE, ALTSRV, FP, ICECLED, ICECLING}


def msg_type(cls, method):
    return ((method & 0xF80) << 2) | ((method & 0x70) << 1) | (method & 0xF) | ((cls & 2) << 7) | ((cls & 1) << 4)


def split_type(t):
    return ((t >> 7) & 2) | ((t >> 4) & 1), (t & 0xF) | ((t >> 1) & 0x70) | ((t >> 2) & 0xF80)


def attr(t, v, pad=0):
    return struct.pack(">HH", t, len(v)) + v + bytes([pad]) * (-len(v) % 4)


def hdr(cls, method, tid, length, cookie=COOKIE, typ=None):
    t = msg_type(cls, method) if typ is None else typ
    if len(tid) == 16:
        return struct.pack(">HH", t, length) + tid
    return struct.pack(">HHI", t, length, cookie) + tid


def mac(key, before):
    """HMAC-SHA1 over the message up to MESSAGE-INTEGRITY, length as if it ended after it."""
    m = before[:2] + struct.pack(">H", len(before) + 24 - 20) + before[4:]
    return hmac.new(key, m, hashlib.sha1).digest()


def fpval(before, total_after=True):
    """FINGERPRINT value for `before` (header length already includes the attribute)."""
    return (zlib.crc32(before) ^ 0x5354554E) & 0xFFFFFFFF


def build(cls, method, tid, attrs, key=None, fp=False, after_mi=(), badmi=None, cookie=COOKIE, typ=None, pad=0):
    """attrs: (type, value) pairs. after_mi: attributes placed between MI and FINGERPRINT."""
    body = b"".join(attr(t, v, pad) for t, v in attrs)
    if key is not None or badmi is not None:
        b = hdr(cls, method, tid, 0, cookie, typ) + body
        d = badmi if badmi is not None else mac(key, b)
        body += attr(MI, d)
    body += b"".join(attr(t, v, pad) for t, v in after_mi)
    if fp:
        b = hdr(cls, method, tid, len(body) + 8, cookie, typ) + body
        body += attr(FP, struct.pack(">I", fpval(b) ^ (0 if fp is True else fp)))
    return hdr(cls, method, tid, len(body), cookie, typ) + body


def addr_value(ip, port):
    return struct.pack(">BBH", 0, 1 if len(ip) == 4 else 2, port) + ip


def xaddr_value(ip, port, tid):
    mask = (struct.pack(">I", COOKIE) + tid)[:len(ip)]
    return struct.pack(">BBH", 0, 1 if len(ip) == 4 else 2, port ^ (COOKIE >> 16)) + bytes(a ^ b for a, b in zip(ip, mask))


# networks with a meaning of their own: (prefix, number of bits)
SPECIAL4 = [(b"\0", 8), (b"\x7f", 8), (b"\x0a", 8), (b"\x64\x40", 10), (b"\xa9\xfe", 16), (b"\xac\x10", 12), (b"\xc0\0\0", 24), (b"\xc0\0\2", 24), (b"\xc0\xa8", 16),
            (b"\xc6\x12", 15), (b"\xe0", 4), (b"\xe0\0\0", 24), (b"\xef", 8), (b"\xf0", 4), (b"\xff\xff\xff", 24)]
SPECIAL6 = [(b"", 96), (bytes(10) + b"\xff\xff", 96), (bytes(8) + b"\xff\xff\0\0", 96), (b"\0\x64\xff\x9b", 96), (b"\0\x64\xff\x9b\0\1", 48), (b"\1", 64), (b"\x20\1", 32), (b"\x20\1\x0d\xb8", 32),
            (b"\x20\2", 16), (b"\xfc", 8), (b"\xfd", 8), (b"\xfe\x80", 64), (b"\xfe\x80\0\0\0\0\0\0\0\0\0\xff\xfe", 64), (b"\xfe\xc0", 10), (b"\xff\2", 112), (b"\xff\5", 16), (b"\xff", 8), (b"\x20", 3)]


def special_ip(r, n=None):
    """An address of a network that code may treat differently from others."""
    n = n or r.choice([4, 16])
    p, bits = r.choice(SPECIAL4 if n == 4 else SPECIAL6)
    keep = ((1 << bits) - 1) << (8 * n - bits)
    fill = r.choice([0, 1, (1 << 8 * n) - 1, r.getrandbits(8 * n), r.getrandbits(8 * n), r.getrandbits(32)])
    return ((int.from_bytes(p.ljust(n, b"\0"), "big") & keep) | (fill & ~keep)).to_bytes(n, "big")


def errcode_value(code, reason=b"", reserved=0):
    return struct.pack(">I", (reserved << 11) | ((code // 100) << 8) | (code % 100)) + reason


def parse(d):
    """Well-formed message -> dict, else None."""
    if len(d) < 20:
        return None
    t, ln, ck = struct.unpack(">HHI", d[:8])
    if ln % 4 or ln != len(d) - 20 or t & 0xC000:
        return None
    cls, method = split_type(t)
    old = ck != COOKIE
    if old and cls != REQUEST:
        return None
    tid = d[4:20] if old else d[8:20]
    pos, attrs, mi, fpseen, order = 20, [], None, False, []
    while pos < len(d):
        if fpseen:
            return None
        if pos + 4 > len(d):
            return None
        at, al = struct.unpack(">HH", d[pos:pos + 4])
        end = pos + 4 + al + (-al % 4)
        if end > len(d):
            return None
        v = d[pos + 4:pos + 4 + al]
        order.append(at)
        if at == FP:
            fpseen = True
            if al < 4 or struct.unpack(">I", v[:4])[0] != fpval(d[:pos]):
                return None
            attrs.append((at, v, pos))
        elif mi is None:
            if at == MI:
                mi = pos
            if not legal(at, v):
                return None
            attrs.append((at, v, pos))
        pos = end
    first = {}
    for at, v, p in attrs:
        if at in KNOWN and at not in first:
            first[at] = v
    return {"cls": cls, "method": method, "tid": tid, "old": old, "attrs": [(a, v) for a, v, _ in attrs], "first": first,
            "unknown": [(a, v) for a, v, _ in attrs if a not in KNOWN], "mi": mi, "order": order, "fp": fpseen}


def legal(t, v):
    n = len(v)
    if t in (MAPPED, ALTSRV, XORMAPPED):
        return n >= 4 and ((v[1] == 1 and n == 8) or (v[1] == 2 and n == 20))
    if t == MI:
        return n == 20
    if t == PRIO:
        return n >= 4
    if t in (ICECLED, ICECLING):
        return n >= 8
    if t == USECAND:
        return n == 0
    if t == UNKNOWN:
        return n % 2 == 0
    if t == ERRCODE:
        return n >= 4
    return True


def mi_ok(d, p, key):
    """Does the MESSAGE-INTEGRITY of parsed message p of datagram d verify under key?"""
    return p["first"][MI] == mac(key, d[:p["mi"]])


def ep_of(v, tid=None):
    port = struct.unpack(">H", v[2:4])[0]
    ip = v[4:]
    if tid is not None:
        port ^= COOKIE >> 16
        mask = (struct.pack(">I", COOKIE) + tid)[:len(ip)]
        ip = bytes(a ^ b for a, b in zip(ip, mask))
    return f"{ip.hex()}:{port}"


def errcode_of(v):
    w = struct.unpack(">I", v[:4])[0]
    return ((w >> 8) & 7) * 100 + (w & 0xFF), v[4:]


def types_of(v):
    return ",".join(str(x[0]) for x in struct.iter_unpack(">H", v))


def refp(d):
    """The message with its FINGERPRINT, if it has one at the end, made right again."""
    if len(d) >= 28 and d[-8:-4] == struct.pack(">HH", FP, 4):
        return d[:-4] + struct.pack(">I", fpval(d[:-8]))
    return d


def near(r, d, pool, tids=()):
    """A message close to d, which was seen before: another id, another's digest, one changed byte. Nothing is signed again."""
    p = parse(d)
    if p is None:
        return d
    k = r.randrange(6)
    b = bytearray(d)
    if k == 0 and tids:
        t = r.choice(list(tids))
        if len(t) == 12:
            b[8:20] = t
    elif k == 1:
        b[r.randrange(8, 20)] ^= 1 << r.randrange(8)
    elif k == 2 and p["mi"] is not None:      # the digest of another message
        o = [x for x in pool if x != d and (parse(x) or {"mi": None})["mi"] is not None]
        if o:
            x = r.choice(o)
            q = parse(x)["mi"]
            b[p["mi"] + 4:p["mi"] + 24] = x[q + 4:q + 24]
    elif k == 3 and p["mi"] is not None:
        b[p["mi"] + 4 + r.randrange(20)] ^= 1 << r.randrange(8)
    elif k == 4:
        b[r.randrange(20, len(b)) if len(b) > 20 else 19] ^= 1 << r.randrange(8)
    else:
        b[1] ^= r.choice([0, 2, 0x20])        # method
    return refp(bytes(b))
