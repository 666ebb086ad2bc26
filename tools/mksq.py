"""A small squashfs 4.0 writer for demonstrations: a tree of D/F/L/N objects -> image bytes."""
import struct, zlib
class D:
    def __init__(s, **kids): s.k = dict(kids)
class F:
    """data: bytes; hole blocks (all zero) are stored as holes if holes; the tail goes into a fragment if frag"""
    def __init__(s, data=b'', frag=True, holes=True, ext=False): s.data, s.frag, s.holes, s.ext = data, frag, holes, ext
class FB:
    """count blocks stored once each, made by fn(i); None is a hole"""
    def __init__(s, count, fn, ext=False): s.count, s.fn, s.ext = count, fn, ext
class L:
    def __init__(s, to, ext=False): s.to, s.ext = to, ext
class N:
    """device, fifo or socket"""
    def __init__(s, kind, major=0, minor=0, ext=False): s.kind, s.major, s.minor, s.ext = kind, major, minor, ext
class _Md:
    def __init__(s, comp): s.out, s.buf, s.comp, s.raw = b'', b'', comp, 0
    def flush(s):
        if s.buf:
            z = zlib.compress(s.buf) if s.comp else s.buf
            if s.comp and len(z) < len(s.buf): s.out += struct.pack('<H', len(z)) + z
            else: s.out += struct.pack('<H', len(s.buf) | 0x8000) + s.buf
            s.buf = b''
    def pos(s):
        if len(s.buf) == 8192: s.flush()
        return len(s.out), len(s.buf)
    def put(s, b):
        s.raw += len(b)
        while b:
            if len(s.buf) == 8192: s.flush()
            k = 8192 - len(s.buf); s.buf += b[:k]; b = b[k:]
def build(root, log=12, comp=True, export=True, index=True, offset=0, minor=0, major=4, compid=1, ids=(0,), fragments=True, number=None, mtime=1000000, onefrag=False, fragpad=0):
    bs = 1 << log; out = bytearray(96); frags = [(0, 1 << 24)] * fragpad; fb = [b'']; order = []
    def walk(o):
        order.append(o)
        if isinstance(o, D):
            for n in sorted(o.k, key=lambda n: n.encode()):
                if o.k[n] not in order: walk(o.k[n])
    walk(root)
    num = number(order) if number else {id(o): i + 1 for i, o in enumerate(order)}
    def flushf():
        if fb[0]:
            z = zlib.compress(fb[0]) if comp else fb[0]
            c = comp and len(z) < len(fb[0]); z = z if c else fb[0]
            frags.append((len(out), len(z) | (0 if c else 1 << 24))); out.extend(z); fb[0] = b''
    def block(b):
        z = zlib.compress(b) if comp else b
        c = comp and len(z) < len(b); z = z if c else b
        out.extend(z); return len(z) | (0 if c else 1 << 24)
    for o in order:
        if isinstance(o, (F, FB)):
            o.start = len(out); o.hdr = []; o.fi, o.fo = 0xffffffff, 0
            if isinstance(o, FB):
                o.size = o.count * bs
                for i in range(o.count): b = o.fn(i); o.hdr.append(0 if b is None else block(b))
                continue
            o.size = len(o.data); d = o.data
            while d:
                b, d = d[:bs], d[bs:]
                if o.holes and not any(b) and (len(b) == bs or not o.frag): o.hdr.append(0)
                elif len(b) < bs and o.frag and fragments:
                    if len(fb[0]) + len(b) > bs or onefrag: flushf()
                    o.fi, o.fo = len(frags), len(fb[0]); fb[0] += b
                else: o.hdr.append(block(b))
    flushf()
    im, dm = _Md(comp), _Md(comp); done = set()
    T = {'b': 4, 'c': 5, 'p': 6, 's': 7}
    def typ(o): return 1 if isinstance(o, D) else 2 if isinstance(o, (F, FB)) else 3 if isinstance(o, L) else T[o.kind]
    def base(o, t): return struct.pack('<HHHHII', t, 0o755 if t in (1, 8) else 0o644, 0, 0, mtime, num[id(o)])
    def ino(o, b): p = im.pos(); o.ref = (p[0] << 16) | p[1]; im.put(b); done.add(id(o))
    def emit(o, parent):
        if id(o) in done: return
        if isinstance(o, (F, FB)):
            h = b''.join(struct.pack('<I', x) for x in o.hdr)
            if o.ext: ino(o, base(o, 9) + struct.pack('<QQQIIII', o.start, o.size, 0, 1, o.fi, o.fo, 0xffffffff) + h)
            else: ino(o, base(o, 2) + struct.pack('<IIII', o.start, o.fi, o.fo, o.size) + h)
        elif isinstance(o, L):
            t = o.to.encode(); ino(o, base(o, 10 if o.ext else 3) + struct.pack('<II', 1, len(t)) + t + (struct.pack('<I', 0xffffffff) if o.ext else b''))
        elif isinstance(o, N):
            t = T[o.kind] + (7 if o.ext else 0); b = base(o, t) + struct.pack('<I', 1)
            if o.kind in 'bc': b += struct.pack('<I', (o.major & 0xfff) << 8 | o.minor & 0xff | (o.minor & 0xfff00) << 12)
            ino(o, b + (struct.pack('<I', 0xffffffff) if o.ext else b''))
        else:
            names = sorted(o.k, key=lambda n: n.encode())
            for n in names: emit(o.k[n], num[id(o)])
            sb, so = dm.pos(); st = dm.raw; idx = []; last = 0; i = 0
            while i < len(names):
                h = o.k[names[i]]; j = i; run = dm.raw - st + 12
                while j < len(names) and j - i < 256:
                    c = o.k[names[j]]
                    if c.ref >> 16 != h.ref >> 16 or not -32768 <= num[id(c)] - num[id(h)] <= 32767: break
                    if j > i and run - last > 8192 and run - (dm.raw - st) > 6000: break
                    run += 8 + len(names[j].encode()); j += 1
                p = dm.raw - st
                if p and p - last > 8192: idx.append((p, dm.pos()[0], names[i].encode())); last = p
                dm.put(struct.pack('<III', j - i - 1, h.ref >> 16, num[id(h)]))
                for n in names[i:j]:
                    c = o.k[n]; e = n.encode(); dm.put(struct.pack('<HhHH', c.ref & 0xffff, num[id(c)] - num[id(h)], typ(c), len(e) - 1) + e)
                i = j
            sz = dm.raw - st + 3; nl = 2 + sum(isinstance(c, D) for c in o.k.values())
            if sz > 65535 or index and idx:
                if not index: idx = []
                ino(o, base(o, 8) + struct.pack('<IIIIHHI', nl, sz, sb, parent, len(idx), so, 0xffffffff) + b''.join(struct.pack('<III', a, b, len(n) - 1) + n for a, b, n in idx))
            else: ino(o, base(o, 1) + struct.pack('<IIHHI', sb, nl, sz, so, parent))
    emit(root, len(order) + 1); im.flush(); dm.flush()
    its = len(out); out.extend(im.out); dts = len(out); out.extend(dm.out)
    def table(b):
        pos = []
        for i in range(0, len(b), 8192):
            m = _Md(comp); m.put(b[i:i + 8192]); m.flush(); pos.append(len(out)); out.extend(m.out)
        st = len(out)
        for p in pos: out.extend(struct.pack('<Q', p))
        return st
    fts = table(b''.join(struct.pack('<QII', a, s, 0) for a, s in frags)) if frags else len(out)
    xts = 0xffffffffffffffff
    if export:
        x = [0] * len(order)
        for o in order: x[num[id(o)] - 1] = o.ref
        xts = table(b''.join(struct.pack('<Q', v) for v in x))
    idt = table(b''.join(struct.pack('<I', v) for v in ids))
    used = len(out)
    out[0:96] = struct.pack('<IIIIIHHHHHHQQQQQQQQ', 0x73717368, len(order), 0, bs, len(frags), compid, log, 0x200 | (128 if export else 0) | (0 if comp else 11), len(ids), major, minor, root.ref, used, idt, 0xffffffffffffffff, its, dts, fts, xts)
    while len(out) % 4096: out.append(0)
    return bytes(b'\xee' * offset + out)
def pat(n, seed=1):
    """n bytes that do not compress away and differ everywhere"""
    r = bytearray(); x = seed * 2654435761 & 0xffffffff or 1
    while len(r) < n:
        x ^= x << 13 & 0xffffffff; x ^= x >> 17; x ^= x << 5 & 0xffffffff; r += struct.pack('<I', x)
    return bytes(r[:n])
