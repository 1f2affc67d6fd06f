"""Reference definitions for chunking (C25): analysed, never executed."""
import struct
from dashlivesim.dashlib import chunker


# ------------------------------------------------------------------ dividing samples over chunks
def code_partition(s, samples, duration):
    out = []
    for part in chunker.partition(samples, duration):
        out.append(part)
    return out


def partition(s, samples, duration):
    # a chunk is closed when the total duration reaches the next multiple of the chunk duration that was started
    out = []
    part = []
    total = 0
    limit = duration
    for x in samples:
        if total >= limit:
            out.append(part)
            part = []
            limit = limit + duration
        part.append(x)
        total = total + x.duration
    if part:
        out.append(part)
    return out


# ------------------------------------------------------------------ whole segments
def code_chunk(s, b):
    return chunker.chunk(b.stored, b.duration, b.trex)


def u32(x):
    return struct.pack('>I', x & 0xffffffff)


def box(name, body):
    return u32(8 + len(body)) + name + body


def one_chunk(b, part):
    """part: list of (duration, flags, composition offset, data), time: decode time of the first"""
    offsets = False
    signed = False
    for duration, flags, cto, data in part[1]:
        if cto != 0:
            offsets = True
        if cto < 0:
            signed = True
    run = b''
    body = b''
    n = 0
    for duration, flags, cto, data in part[1]:
        run = run + u32(duration) + u32(len(data)) + (b'\x02\x00\x00\x00' if flags & 0x10000 == 0 else b'\x01\x01\x00\x00')
        if offsets:
            run = run + u32(cto)
        body = body + data
        n = n + 1
    tfhd = box(b'tfhd', b'\x00\x02\x00\x00' + u32(b.track))
    tfdt = box(b'tfdt', b'\x01\x00\x00\x00' + struct.pack('>Q', part[0]))
    size = 8 + 16 + 8 + len(tfhd) + len(tfdt) + 20 + len(run)
    trun = box(b'trun', u32(0x701 + (0x800 if offsets else 0) + (0x1000000 if signed else 0)) + u32(n) + u32(size + 8) + run)
    moof = box(b'moof', box(b'mfhd', u32(0) + u32(b.nr)) + box(b'traf', tfhd + tfdt + trun))
    return moof + box(b'mdat', body)


def chunk(s, b):
    out = []
    for part in b.parts:
        out.append(one_chunk(b, part))
    return out


class Reader:
    """stands for the coroutine mp4.parse_generator: each send reads the fields of a format at the current position"""
    def __init__(self, data):
        self.data = data
        self.pos = 0

    def __next__(self):
        return None

    def send(self, fmt):
        r = struct.unpack_from(fmt, self.data, self.pos)
        self.pos = self.pos + struct.calcsize(fmt)
        return r


def reader(data):
    return Reader(data)
