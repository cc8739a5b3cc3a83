"""Compressed and packaged files, built with as many of the options of their formats as possible.

Every builder returns (bytes, frames, safe): frames is the list of (end in the file, end in the data)
of its parts that are complete files of their own; from offset safe on nothing the data depends on is left."""
import bz2, gzip, io, struct, subprocess, zipfile, zlib

M32 = 0xffffffff
P1, P2, P3, P4, P5 = 2654435761, 2246822519, 3266489917, 668265263, 374761393


def rotl(x, r):
    return ((x << r) | (x >> (32 - r))) & M32


def xxh32(b, seed=0):
    n, i = len(b), 0
    if n >= 16:
        v = [(seed + P1 + P2) & M32, (seed + P2) & M32, seed, (seed - P1) & M32]
        for i in range(0, n - 15, 16):
            w = struct.unpack_from('<4I', b, i)
            for k in range(4):
                v[k] = rotl((v[k] + w[k] * P2) & M32, 13) * P1 & M32
        i += 16
        h = rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18) & M32
    else:
        h = (seed + P5) & M32
    h = (h + n) & M32
    while i + 4 <= n:
        h = rotl((h + struct.unpack_from('<I', b, i)[0] * P3) & M32, 17) * P4 & M32
        i += 4
    while i < n:
        h = rotl((h + b[i] * P5) & M32, 11) * P1 & M32
        i += 1
    h ^= h >> 15
    h = h * P2 & M32
    h ^= h >> 13
    h = h * P3 & M32
    return h ^ (h >> 16)


assert xxh32(b'') == 0x02CC5D05 and xxh32(b'Nobody inspects the spammish repetition') == 0xE2293B2F


# ----------------------------------------------------------------------- gzip
def gz_member(data, level=6, extra=None, name=None, comment=None, hcrc=False, strategy=zlib.Z_DEFAULT_STRATEGY, flush=0):
    flg = (4 if extra is not None else 0) | (8 if name is not None else 0) | (16 if comment is not None else 0) | (2 if hcrc else 0)
    h = b'\x1f\x8b\x08' + bytes([flg]) + b'\x01\x02\x03\x04\x00\x03'
    if extra is not None:
        h += struct.pack('<H', len(extra)) + extra
    if name is not None:
        h += name + b'\0'
    if comment is not None:
        h += comment + b'\0'
    if hcrc:
        h += struct.pack('<H', zlib.crc32(h) & 0xffff)
    c = zlib.compressobj(level, zlib.DEFLATED, -15, 8, strategy)
    body = b''
    if flush:
        for i in range(0, len(data), flush):
            body += c.compress(data[i:i + flush]) + c.flush(zlib.Z_FULL_FLUSH)
    else:
        body = c.compress(data)
    body += c.flush()
    return h + body + struct.pack('<II', zlib.crc32(data), len(data) & M32)


def framed(parts, one, skip=None):
    """frames of the data in parts, built by one, each with a skippable frame in front"""
    out, frames, p = b'', [], 0
    for x in parts:
        if skip is not None:
            out += struct.pack('<II', 0x184D2A50 + len(skip) % 16, len(skip)) + skip
            if frames:
                frames.append((len(out), p))
        out += one(x)
        p += len(x)
        frames.append((len(out), p))
    return out, frames, len(out)


def gz(data, cuts=(), **k):
    return framed(split(data, cuts), lambda x: gz_member(x, **k))


def split(data, cuts):
    c = [0] + list(cuts) + [len(data)]
    return [data[c[i]:c[i + 1]] for i in range(len(c) - 1)]


# ----------------------------------------------------------------------- zstd
def zstd_frame(data, args=()):
    return subprocess.run(['zstd', '-q', '-c'] + list(args), input=data, stdout=subprocess.PIPE, check=True).stdout


def zst(data, cuts=(), args=(), skip=None):
    """skip: contents of a skippable frame in front of every frame"""
    return framed(split(data, cuts), lambda x: zstd_frame(x, args), skip)


# ------------------------------------------------------------------------ lz4
def lz4_block(data, start, end, dependent=False, accel=1):
    """one block of data[start:end]"""
    out, table, lit, i = bytearray(), {}, start, start
    lo = max(0, start - 65535) if dependent else start
    for j in range(lo, start):
        table[data[j:j + 4]] = j

    def emit(lit, upto, mlen, off):
        n = upto - lit
        t = (min(n, 15) << 4) | (min(mlen - 4, 15) if mlen else 0)
        out.append(t)
        if n >= 15:
            out.extend(b'\xff' * ((n - 15) // 255) + bytes([(n - 15) % 255]))
        out.extend(data[lit:upto])
        if mlen:
            out.extend(struct.pack('<H', off))
            if mlen - 4 >= 15:
                out.extend(b'\xff' * ((mlen - 19) // 255) + bytes([(mlen - 19) % 255]))
    while i + 12 < end:
        k = data[i:i + 4]
        j = table.get(k)
        table[k] = i
        if j is None or i - j > 65535 or j < lo:
            i += accel
            continue
        m = 4
        while i + m < end - 5 and data[j + m] == data[i + m]:
            m += 1
        emit(lit, i, m, i - j)
        i += m
        lit = i
    emit(lit, end, 0, 0)
    return bytes(out)


SIZES = {4: 65536, 5: 262144, 6: 1 << 20, 7: 4 << 20}


def lz4_frame(data, bd=4, independent=True, bsum=False, csize=False, csum=True, block=None, store=False, mixed=False):
    flg = 0x40 | (0x20 if independent else 0) | (0x10 if bsum else 0) | (8 if csize else 0) | (4 if csum else 0)
    h = bytes([flg, bd << 4]) + (struct.pack('<Q', len(data)) if csize else b'')
    out = [struct.pack('<I', 0x184D2204), h, bytes([(xxh32(h) >> 8) & 255])]
    # linked blocks: a stored block in front of others only if asked for, see known_findings.txt
    block = min(block or SIZES[bd], SIZES[bd] if independent else SIZES[bd] * 99 // 100)
    for i in range(0, len(data), block):
        e = min(i + block, len(data))
        c = data[i:e] if store else lz4_block(data, i, e, not independent)
        raw = store or (len(c) >= e - i and (independent or mixed or e == len(data)))
        if raw:
            c = data[i:e]
        out += [struct.pack('<I', len(c) | (0x80000000 if raw else 0)), c]
        if bsum:
            out.append(struct.pack('<I', xxh32(c)))
    out.append(b'\0\0\0\0')
    if csum:
        out.append(struct.pack('<I', xxh32(data)))
    return b''.join(out)


def lz4(data, cuts=(), skip=None, **k):
    return framed(split(data, cuts), lambda x: lz4_frame(x, **k), skip)


def lz4b(data, block=65536, store=False, end=True):
    """lz4-java's block stream"""
    level = max(0, (block - 1).bit_length() - 10)
    out, parts, n = [], [], 0
    for i in range(0, len(data), block):
        d = data[i:i + block]
        c = d if store else lz4_block(d, 0, len(d))
        raw = store or len(c) >= len(d)
        if raw:
            c = d
        out.append(b'LZ4Block' + bytes([(0x10 if raw else 0x20) | level]) + struct.pack('<III', len(c), len(d), xxh32(d, 0x9747b28c) & 0x0fffffff) + c)
        n += len(out[-1])
        parts.append((n, i + len(d)))
    if end or not out:
        out.append(b'LZ4Block' + bytes([0x10 | level]) + b'\0' * 12)
    b = b''.join(out)
    # a stream may end behind any block, the empty block at the end is not required
    return b, parts + [(len(b), len(data))], len(b)


def lz4b_checked(b):
    """the bytes of checksums and of contents that are not compressed"""
    i, out = 0, []
    while i < len(b):
        n = struct.unpack('<I', b[i + 9:i + 13])[0]
        if n:
            out += range(i + 17, i + 21 + (n if b[i + 8] & 0x10 else 0))
        i += 21 + n
    return out


# ------------------------------------------------------------------------ lzf
def lzf_chunk(d):
    out, table, lit, i = bytearray(), {}, 0, 0

    def literals(a, b):
        while a < b:
            n = min(32, b - a)
            out.append(n - 1)
            out.extend(d[a:a + n])
            a += n
    while i + 3 <= len(d):
        k = d[i:i + 3]
        j = table.get(k)
        table[k] = i
        if j is None or i - j > 8192:
            i += 1
            continue
        m = 3
        while i + m < len(d) and m < 264 and d[j + m] == d[i + m]:
            m += 1
        literals(lit, i)
        off = i - j - 1
        if m - 2 < 7:
            out.append((m - 2) << 5 | off >> 8)
        else:
            out.append(7 << 5 | off >> 8)
            out.append(m - 9)
        out.append(off & 255)
        i += m
        lit = i
    literals(lit, len(d))
    return bytes(out)


def lzf(data, block=65535, store=False):
    out, parts, n = [], [(0, 0)], 0
    for i in range(0, len(data), block):
        d = data[i:i + block]
        c = d if store else lzf_chunk(d)
        if store or len(c) >= len(d):
            out.append(b'ZV\0' + struct.pack('>H', len(d)) + d)
        else:
            out.append(b'ZV\1' + struct.pack('>HH', len(c), len(d)) + c)
        n += len(out[-1])
        parts.append((n, i + len(d)))
    # a stream may end behind any chunk
    return b''.join(out), parts, n


# ------------------------------------------------------------------------ zip
class Unseekable(io.BytesIO):
    def seekable(self):
        return False

    def seek(self, *a):
        raise io.UnsupportedOperation('seek')

    def tell(self):
        raise io.UnsupportedOperation('tell')


def zips(files, method=zipfile.ZIP_DEFLATED, level=None, stream=False, comment=b'', zip64=False, extra=b'', fcomment=b''):
    """files: list of (name, data); stream: sizes behind the data"""
    f = Unseekable() if stream else io.BytesIO()
    with zipfile.ZipFile(f, 'w', method, compresslevel=level) as z:
        for name, data in files:
            i = zipfile.ZipInfo(name)
            i.compress_type = method
            i.extra = extra
            i.comment = fcomment
            if name.endswith('/'):
                z.writestr(i, b'')
            else:
                with z.open(i, 'w', force_zip64=zip64) as w:
                    w.write(data)
        z.comment = comment
    b = f.getvalue()
    n = sum(len(d) for _, d in files)
    return b, [(len(b), n)], len(b) - len(comment)


def zip64_full(name, data):
    """all sizes and offsets, and the central directory, in 64 bit records"""
    c = zlib.compressobj(6, zlib.DEFLATED, -15)
    body = c.compress(data) + c.flush()
    crc = zlib.crc32(data)
    ex = struct.pack('<HHQQ', 1, 16, len(data), len(body))
    local = struct.pack('<IHHHHHIIIHH', 0x04034b50, 45, 0, 8, 0, 33, crc, M32, M32, len(name), len(ex)) + name + ex + body
    cx = struct.pack('<HHI', 0x7777, 4, 5) + struct.pack('<HHQQQ', 1, 24, len(data), len(body), 0)
    central = struct.pack('<IHHHHHHIIIHHHHHII', 0x02014b50, 45, 45, 0, 8, 0, 33, crc, M32, M32, len(name), len(cx), 0, 0, 0, 0, M32) + name + cx
    e64 = struct.pack('<IQHHIIQQQQ', 0x06064b50, 44, 45, 45, 0, 0, 1, 1, len(central), len(local))
    loc = struct.pack('<IIQI', 0x07064b50, 0, len(local) + len(central), 1)
    end = struct.pack('<IHHHHIIH', 0x06054b50, 0, 0, 0xffff, 0xffff, M32, M32, 0)
    b = local + central + e64 + loc + end
    return b, [(len(b), len(data))], len(b)
