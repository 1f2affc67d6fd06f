"""Reference definitions for segment rewriting (analysed, never executed)."""
import struct
import time

from dashlivesim.dashlib.mediasegmentfilter import MediaSegmentFilter
from dashlivesim.dashlib.initsegmentfilter import InitFilter, InitLiveFilter
from dashlivesim.dashlib.segmentmuxer import MultiplexInits, MultiplexMediaSegments
from dashlivesim.dashlib import emsg as emsg_module


def u32(data, pos):
    return struct.unpack('>I', data[pos:pos + 4])[0]


def u64(data, pos):
    return struct.unpack('>Q', data[pos:pos + 8])[0]


def p32(x):
    return struct.pack('>I', x)


def p64(x):
    return struct.pack('>Q', x)


# ---------------------------------------------------------------- the code under analysis, composed
def make(s):
    return MediaSegmentFilter(s.file, s.nr, s.dur, s.offset, s.lmsg, s.timescale, s.scte, s.rel_path, s.ttml,
                              s.default_dur, s.sidx, s.emsg, s.now)


def code_mfhd(s, data):
    return make(s).process_mfhd(data)


def code_tfdt(s, data):
    f = make(s)
    out = f.process_tfdt(data)
    return (out, f.get_tfdt_value())


def code_trun(s, tfdt, trun):
    f = make(s)
    f.process_tfdt(tfdt)
    return f.process_trun(trun)


def code_saio(s, tfdt, saio):
    f = make(s)
    f.process_tfdt(tfdt)
    return f.process_saio(saio)


def code_duration(s, tfhd, trun):
    f = make(s)
    f.process_tfhd(tfhd)
    f.process_trun(trun)
    return f.get_duration()


def code_tfhd(s, data):
    return make(s).process_tfhd(data)


def code_sidx(s, data):
    return make(s).process_sidx(data)


def code_styp(s, data):
    return make(s).process_styp(data)


# ---------------------------------------------------------------- reference
def mfhd(s, data):
    return data[:12] + p32(s.nr)


def shifted(s, stored):
    if s.timescale is None:
        return stored
    return stored + s.offset * s.timescale


def grows(s, tfdt):
    """only a 32-bit time that does not fit any more is widened"""
    return tfdt[8] == 0 and shifted(s, u32(tfdt, 12)) > 0xffffffff


def tfdt(s, data):
    if data[8] != 0:
        time = shifted(s, u64(data, 12))
        return (data[:12] + p64(time), time)
    time = shifted(s, u32(data, 12))
    if time <= 0xffffffff:
        return (data[:12] + p32(time), time)
    return (p32(u32(data, 0) + 4) + data[4:8] + b'\x01' + data[9:12] + p64(time), time)


def trun(s, tfdt, trun):
    if grows(s, tfdt) and u32(trun, 8) & 1:
        return trun[:16] + struct.pack('>i', struct.unpack('>i', trun[16:20])[0] + 4) + trun[20:]
    return trun


def saio(s, tfdt, saio):
    growth = 4 if grows(s, tfdt) else 0
    start = 24 if u32(saio, 8) & 1 else 16
    count = u32(saio, start - 4)
    out = saio[:start]
    if saio[8] == 0:
        for i in range(count):
            out += p32(u32(saio, start + 4 * i) + growth)
    else:
        for i in range(count):
            out += p64(u64(saio, start + 8 * i) + growth)
    return out


def fields_before_duration(trun):
    flags = u32(trun, 8)
    return 16 + (4 if flags & 1 else 0) + (4 if flags & 4 else 0)


def default_duration(s, tfhd):
    flags = u32(tfhd, 8)
    if flags & 8:
        return u32(tfhd, 20 if flags & 2 else 16)
    return s.default_dur


def duration(s, tfhd, trun):
    flags = u32(trun, 8)
    count = u32(trun, 12)
    first = fields_before_duration(trun)
    step = (4 if flags & 0x100 else 0) + (4 if flags & 0x200 else 0) + (4 if flags & 0x400 else 0) + (4 if flags & 0x800 else 0)
    total = 0
    for i in range(count):
        if flags & 0x100:
            total += u32(trun, first + i * step)
        elif default_duration(s, tfhd) is not None:
            total += default_duration(s, tfhd)
    return total


def tfhd(s, data):
    return data


def sidx(s, data):
    return b''


def styp(s, data):
    brands = []
    for pos in range(8, u32(data, 0), 4):
        if data[pos:pos + 4] != b'lmsg':
            brands.append(data[pos:pos + 4])
    if s.lmsg:
        brands.append(b'lmsg')
    return p32(8 + 4 * len(brands)) + b'styp' + b''.join(brands)


# ---------------------------------------------------------------- whole segments
def box(name, payload):
    return p32(8 + len(payload)) + name + payload


def code_filter(s, boxes):
    return make(s).filter()


def traf_children(s, boxes):
    out = b''
    for name, data in boxes.traf:
        if name == 'tfdt':
            out += tfdt(s, data)[0]
        elif name == 'trun':
            out += trun(s, boxes.tfdt, data)
        elif name == 'saio':
            out += saio(s, boxes.tfdt, data)
        else:
            out += data
    return out


def new_sidx(s, size, boxes):
    return (box(b'sidx', b'\x01\x00\x00\x00' + p32(1) + p32(s.timescale) + p64(tfdt(s, boxes.tfdt)[1]) + p64(0) +
                p32(1) + p32(size) + p32(duration(s, boxes.tfhd, boxes.trun)) + b'\x90\x00\x00\x00'))


def whole(s, boxes):
    out = b''
    moof = box(b'moof', mfhd(s, boxes.mfhd) + box(b'traf', traf_children(s, boxes)) + boxes.moof_rest)
    for name, data in boxes.top:
        if name == 'styp':
            out += styp(s, data)
        elif name == 'moof':
            if s.emsg:
                out += emsg("urn:mpeg:dash:event:2012", "1", 1, 2, 0, 0,
                            time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(s.now)))
            if s.sidx:
                out += new_sidx(s, len(moof) + boxes.mdat_size, boxes)
            out += moof
        elif name != 'sidx':
            out += data
    return out



def emsg(uri, value, timescale, delta, event_duration, emsg_id, message):
    return box(b'emsg', b'\x00\x00\x00\x00' + uri.encode('utf-8') + b'\x00' + value.encode('utf-8') + b'\x00' +
               p32(timescale) + p32(delta) + p32(event_duration) + p32(emsg_id) + message.encode('utf-8'))


def code_emsg(s, uri, value, timescale, delta, event_duration, emsg_id, message):
    return emsg_module.create_emsg(uri, value, timescale, delta, event_duration, emsg_id, message)


def ref_emsg(s, uri, value, timescale, delta, event_duration, emsg_id, message):
    return emsg(uri, value, timescale, delta, event_duration, emsg_id, message)


# ---------------------------------------------------------------- live subtitles
def code_ttml(s, mdat, tfhd):
    f = make(s)
    out = f.update_ttml_mdat(mdat)
    return (out, f.process_tfhd(tfhd))


def ttml_sample(s, mdat):
    return TTML(mdat[8:], s.offset, s.nr)


def ttml_tfhd(s, mdat, tfhd):
    """the default sample size follows the new sample"""
    pos = 16
    flags = u32(tfhd, 8)
    if flags & 2:
        pos += 4
    if flags & 8:
        pos += 4
    return tfhd[:pos] + p32(len(ttml_sample(s, mdat))) + tfhd[pos + 4:]


def ttml(s, mdat, tfhd):
    return (box(b'mdat', ttml_sample(s, mdat)), ttml_tfhd(s, mdat, tfhd))


def whole_ttml(s, boxes):
    out = b''
    tf = ttml_tfhd(s, boxes.mdat, boxes.tfhd)
    children = b''
    for name, data in boxes.traf:
        if name == 'tfhd':
            children += tf
        elif name == 'tfdt':
            children += tfdt(s, data)[0]
        elif name == 'trun':
            children += trun(s, boxes.tfdt, data)
        else:
            children += data
    for name, data in boxes.top:
        if name == 'styp':
            out += styp(s, data)
        elif name == 'moof':
            out += box(b'moof', mfhd(s, boxes.mfhd) + box(b'traf', children) + boxes.moof_rest)
        elif name == 'mdat':
            out += box(b'mdat', ttml_sample(s, data))
        elif name != 'sidx':
            out += data
    return out


# ---------------------------------------------------------------- init segments
def code_init(s, boxes):
    return InitLiveFilter(s.file).filter()


def code_initdata(s, boxes):
    return InitLiveFilter(data=boxes.stored).filter()


def without_duration(name, data):
    if name == 'tkhd':
        if data[8] == 1:
            return data[:36] + b'\x00\x00\x00\x00\x00\x00\x00\x00' + data[44:]
        return data[:28] + b'\x00\x00\x00\x00' + data[32:]
    if data[8] == 1:
        return data[:32] + b'\x00\x00\x00\x00\x00\x00\x00\x00' + data[40:]
    return data[:24] + b'\x00\x00\x00\x00' + data[28:]


def live_init(s, boxes):
    out = b''
    for name, data in boxes.all:
        if name in ('mvhd', 'tkhd', 'mdhd'):
            out += without_duration(name, data)
        else:
            out += data
    return out


def code_facts(s, boxes):
    f = InitFilter(s.file)
    f.filter()
    return (f.track_id, f.track_timescale, f.handler_type, f.default_sample_duration, f.default_sample_size,
            f.default_sample_flags)


def facts(s, boxes):
    return (u32(boxes.tkhd, 28 if boxes.tkhd[8] == 1 else 20), u32(boxes.mdhd, 28 if boxes.mdhd[8] == 1 else 20),
            boxes.hdlr[16:20], u32(boxes.trex, 20), u32(boxes.trex, 24), u32(boxes.trex, 28))


# ---------------------------------------------------------------- multiplexing
def code_muxinit(s, a, b):
    return MultiplexInits(data1=a.stored, data2=b.stored).construct_muxed()


def muxinit(s, a, b):
    return a.ftyp + box(b'moov', a.mvhd + box(b'mvex', a.trex + b.trex) + a.trak + b.trak)


def code_mux(s, a, b):
    return MultiplexMediaSegments(data1=a.stored, data2=b.stored).mux_on_sample_level()


def code_muxfrag(s, a, b):
    return MultiplexMediaSegments(data1=a.stored, data2=b.stored).mux_on_fragment_level()


def moved(x, offset):
    """the traf with every data offset increased"""
    out = b''
    for name, data in x.traf:
        if name == 'trun' and u32(data, 8) & 1:
            out += data[:16] + p32(u32(data, 16) + offset) + data[20:]
        else:
            out += data
    return box(b'traf', out)


def mux(s, a, b):
    # payload of a: after the longer moof and the same mdat header; payload of b: after the payload of a as well
    size_a = len(a.trafbox)
    size_b = len(b.trafbox)
    traf_a = moved(a, size_b)
    traf_b = moved(b, size_a + len(a.payload))
    return a.styp + box(b'moof', a.mfhd + traf_a + traf_b) + box(b'mdat', a.payload + b.payload)


def muxfrag(s, a, b):
    return a.styp + a.moof + a.mdat + b.moof + b.mdat


def fragment(s, boxes):
    return box(b'moof', mfhd(s, boxes.mfhd) + box(b'traf', traf_children(s, boxes)) + boxes.moof_rest) + boxes.mdat


def two_fragments(s, a, b):
    """each movie fragment of a segment by itself"""
    return styp(s, a.styp) + fragment(s, a) + fragment(s, b)


def code_two(s, a, b):
    return make(s).filter()


# ---------------------------------------------------------------- ad insertion
SPLICES = {1: (10,), 2: (10, 40), 3: (10, 30, 50)}
SCTE35 = '''<SpliceInfoSection ptsAdjustment="0" scte35:tier="4095">
<SpliceInsert spliceEventId="%d" spliceEventCancelIndicator="false" outOfNetworkIndicator="false" uniqueProgramId="0" \
availNum="0" availsExpected="0" spliceImmediateFlag="false" >
<Program><SpliceTime ptsTime="%d"/></Program>
<BreakDuration autoReturn="true" duration="%d"/>
</SpliceInsert>
</SpliceInfoSection>'''


def splice(s, n):
    """the first splice that is announced in the segment: 8 s or 6 s before it"""
    start = s.nr * s.dur
    end = start + s.dur
    minute = start - start % 60
    if n in SPLICES:
        for second in SPLICES[n] + (60 + 10,):
            at = minute + second
            if start <= at - 8 <= end or start <= at - 6 <= end:
                return at
    return None


def ads(s, n, data):
    at = splice(s, n)
    out = styp(s, data)
    if at is not None:
        pts = at * 90000 % (2 ** 33)
        out += emsg("urn:scte:scte35:2013:xml", "999", 90000, at * 90000 - s.nr * s.dur * 90000, 10 * 90000, at // 10,
                    SCTE35 % (at // 10, pts, 10 * 90000))
    return out


def code_ads(s, n, data):
    return make(s).process_styp(data)
