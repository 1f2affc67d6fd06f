"""Reference definitions for the box generators (C07): analysed, never executed."""
import struct
from dashlivesim.dashlib import boxes


def w8(x):
    return (x & 0xff).to_bytes(1, 'big')


def w16(x):
    return struct.pack('>H', x)


def w32(x):
    return struct.pack('>I', x)


def w64(x):
    return struct.pack('>Q', x)


def sized(data, name):
    """the box with this type whose contents are those of data"""
    return w32(len(data)) + name + data[8:]


def box(name, body):
    return w32(len(body) + 8) + name + body


class Raw:
    """a child box with any bytes"""
    def __init__(self, data):
        self.data = data

    def __iter__(self):
        yield self.data

    def size(self):
        return len(self.data)

    def serialize(self):
        return self.data


# ---- boxes whose size is compared with the bytes

def code_ftyp(s, major, minor, brands):
    return boxes.FTYPBox(major, minor, brands).serialize()


def code_styp(s, major, minor, brands):
    return boxes.FTYPBox(major, minor, brands, True).serialize()


def code_create_ftyp(s):
    return boxes.create_ftyp().serialize()


def code_create_styp(s):
    return boxes.create_styp().serialize()


def code_mvhd(s, timescale, duration, next_id):
    return boxes.MVHDBox(timescale, duration, next_id).serialize()


def code_trex(s, track):
    return boxes.TREXBox(track).serialize()


def code_tkhd(s, track, duration, volume, width, height):
    return boxes.TKHDBox(track, duration, volume, width, height).serialize()


def code_mdhd(s, timescale, duration, lang):
    return boxes.MDHDBox(timescale, duration, lang).serialize()


def code_hdlr(s, handler, name):
    return boxes.HDLRBox(struct.pack('4s', handler), name).serialize()


def code_url(s):
    return boxes.URLBox().serialize()


def code_dref(s):
    return boxes.DREFBox().serialize()


def code_vmhd(s):
    return boxes.VMHDBox().serialize()


def code_smhd(s):
    return boxes.SMHDBox().serialize()


def code_nmhd(s):
    return boxes.NMHDBox().serialize()


def code_pasp(s):
    return boxes.PASPBox().serialize()


def code_stts(s):
    return boxes.STTSBox().serialize()


def code_stsc(s):
    return boxes.STSCBox().serialize()


def code_stsz(s):
    return boxes.STSZBox().serialize()


def code_stco(s):
    return boxes.STCOBox().serialize()


def code_visual(s, width, height, config, pasp):
    return boxes.VisualSampleEntry(b'avc1', width, height, Raw(config), Raw(pasp)).serialize()


def code_audio(s, channels, size, rate, config):
    return boxes.AudioSampleEntry(b'mp4a', channels, size, rate, config).serialize()


def code_wvtt(s):
    return boxes.WVTTSampleEntryBox().serialize()


def code_vttC(s, text):
    return boxes.WVTTConfigBox(text).serialize()


def code_vtte(s):
    return boxes.VTTEBox().serialize()


def code_payl(s, text):
    return boxes.PAYLBox(text).serialize()


def code_vttc(s, data):
    return boxes.VTTCBox([Raw(x) for x in data]).serialize()


def code_stsd(s, data):
    b = boxes.STSDBox()
    for x in data:
        b.add_box(Raw(x))
    return b.serialize()


def code_avcC(s, profile, compat, level, sps, pps):
    return boxes.AVCCBox(profile, compat, level, sps, pps).serialize()


def code_hvcC(s, vps, sps, pps):
    return boxes.HVCCBox(boxes.HVCCData(), vps, sps, pps).serialize()


def code_esds(s, config):
    return boxes.ESDSBox(config).serialize()


def code_container(s, data):
    b = boxes.BoxContainer(b'udta')
    for x in data:
        b.add_box(Raw(x))
    return b.serialize()


def code_sequence(s, a, b, c):
    q = boxes.BoxSequence(Raw(a), Raw(b), Raw(c))
    return w32(q.size()) + q.serialize()


def sequence(s, a, b, c):
    return w32(len(a) + len(b) + len(c)) + a + b + c


def code_containers(s, a):
    out = b''
    for cls in (boxes.MOOVBox, boxes.MVEXBox, boxes.TRAKBox, boxes.MDIABox, boxes.MINFBox, boxes.DINFBox, boxes.STBLBox,
                boxes.MOOFBox, boxes.TRAFBox):
        b = cls()
        b.add_box(Raw(a))
        out += b.serialize()
    return out


def containers(s, a):
    out = b''
    for name in (b'moov', b'mvex', b'trak', b'mdia', b'minf', b'dinf', b'stbl', b'moof', b'traf'):
        out += box(name, a)
    return out


# ---- boxes of movie fragments and indexes, field by field

def code_mfhd(s, nr):
    return boxes.MFHDBox(nr).serialize()


def mfhd(s, nr):
    return box(b'mfhd', w32(0) + w32(nr))


def code_tfhd(s, track):
    return boxes.TFHDBox(track).serialize()


def tfhd(s, track):
    return box(b'tfhd', w32(0x20000) + w32(track))


def code_tfdt(s, time):
    return boxes.TFDTBox(time).serialize()


def tfdt(s, time):
    return box(b'tfdt', w32(0x01000000) + w64(time))


def code_mdat(s, data):
    b = boxes.MDATBox()
    for x in data:
        b.add_data(x)
    return b.serialize()


def mdat(s, data):
    body = b''
    for x in data:
        body += x
    return box(b'mdat', body)


def code_trun(s, offset, samples):
    b = boxes.TRUNBox(offset)
    for x in samples:
        b.add_sample(x.duration, x.size, x.sync, x.time_offset)
    return b.serialize()


def trun(s, offset, samples):
    composed = any([x.time_offset != 0 for x in samples])
    signed = any([x.time_offset < 0 for x in samples])
    body = w32((0x1000f01 if signed else 0xf01) if composed else 0x701) + w32(len(samples)) + w32(offset)
    for x in samples:
        body += w32(x.duration) + w32(x.size) + w32(0x02000000 if x.sync else 0x01010000)
        if composed:
            body += w32(x.time_offset)
    return box(b'trun', body)


def code_saiz(s, default, sizes):
    b = boxes.SAIZBox(default)
    for x in sizes:
        b.add_sample(x)
    return b.serialize()


def saiz(s, default, sizes):
    body = w32(0) + w8(0 if sizes else default) + w32(len(sizes))
    for x in sizes:
        body += w8(x)
    return box(b'saiz', body)


def code_saio(s, offset):
    return boxes.SAIOBox(offset).serialize()


def saio(s, offset):
    return box(b'saio', w32(0) + w32(1) + w32(offset))


def code_sbgp(s, groups):
    b = boxes.SBGPBox()
    for x in groups:
        b.add_group(x.count, x.index)
    return b.serialize()


def sbgp(s, groups):
    body = w32(0) + w32(len(groups))
    for x in groups:
        body += w32(x.count) + w32(x.index)
    return box(b'sbgp', body)


def code_sgpd(s, kind, groups):
    b = boxes.SGPDBox(kind)
    for x in groups:
        b.add_group(x.encrypted, x.iv_size, struct.pack('16s', x.kid))
    return b.serialize()


def sgpd(s, kind, groups):
    body = w32(0) + w32(kind) + w32(len(groups))
    for x in groups:
        body += b'\x00\x00' + (b'\x01' if x.encrypted else b'\x00') + w8(x.iv_size) + struct.pack('16s', x.kid)
    return box(b'sgpd', body)


def code_senc(s, samples):
    b = boxes.SENCBox(8)
    for x in samples:
        b.add_sample(x.iv, x.subsamples)
    return b.serialize()


def senc(s, samples):
    sub = any([True if x.subsamples else False for x in samples])
    body = w32(2 if sub else 0) + w32(len(samples))
    for x in samples:
        body += w64(x.iv)
        if sub:
            subs = x.subsamples or ()
            body += w16(len(subs))
            for y in subs:
                body += w16(y.clear_bytes) + w32(y.enc_bytes)
    return box(b'senc', body)


def code_sidx(s, track, timescale, time, version, refs):
    b = boxes.SIDXBox(track, timescale, time, version)
    for x in refs:
        b.add_reference(x.size, x.duration)
    return b.serialize()


def sidx(s, track, timescale, time, version, refs):
    body = w8(version) + b'\x00\x00\x00' + w32(track) + w32(timescale)
    if version == 0:
        body += w32(time) + w32(0)
    else:
        body += w64(time) + w64(0)
    body += w16(0) + w16(len(refs))
    for x in refs:
        body += w32(x.size) + w32(x.duration) + w32(0x90000000)
    return box(b'sidx', body)


def code_empty_sidx(s, track, timescale, n):
    return boxes.create_empty_sidx(track, timescale, n).serialize()


# ---- whole movies and fragments

def code_fragment(s, nr, track, first, rest):
    samples = [boxes.Sample(first.data, first.time, first.duration, first.sync, first.offset)]
    for x in rest:
        samples.append(boxes.Sample(x.data, x.time, x.duration, x.sync, x.offset))
    return boxes.create_moof(nr, track, samples).serialize() + boxes.create_mdat(samples).serialize()


def entry(x, composed):
    return w32(x.duration) + w32(len(x.data)) + w32(0x02000000 if x.sync else 0x01010000) + \
        (w32(x.offset) if composed else b'')


def fragment(s, nr, track, first, rest):
    composed = first.offset != 0 or any([x.offset != 0 for x in rest])
    entries, payload = b'', b''
    for x in rest:
        entries += entry(x, composed)
        payload += x.data
    entries = entry(first, composed) + entries
    payload = b''.join([first.data, payload])
    head = box(b'tfhd', w32(0x20000) + w32(track)) + box(b'tfdt', w32(0x01000000) + w64(first.time))
    before = box(b'mfhd', w32(0) + w32(nr))
    moof_size = 8 + len(before) + 8 + len(head) + 20 + len(entries)
    signed = first.offset < 0 or any([x.offset < 0 for x in rest])
    run = box(b'trun', w32((0x1000f01 if signed else 0xf01) if composed else 0x701) + w32(1 + len(rest)) + w32(moof_size + 8) + entries)
    return box(b'moof', before + box(b'traf', head + run)) + box(b'mdat', payload)


def code_moov_h264(s, i):
    return boxes.create_moov_h264(boxes.H264Info(i.track, i.timescale, i.duration, i.width, i.height, i.profile, i.compat,
                                                 i.level, i.sps, i.pps)).serialize()


def code_moov_hevc(s, i):
    return boxes.create_moov_hevc(boxes.HEVCInfo(i.track, i.timescale, i.duration, i.width, i.height, i.vps, i.sps, i.pps,
                                                 boxes.HVCCData())).serialize()


def code_moov_mp4a(s, i):
    return boxes.create_moov_mp4a(boxes.MP4AInfo(i.track, i.timescale, i.duration, i.channels, i.size, i.rate, i.config,
                                                 b'')).serialize()


def code_moov_ac3(s, i, codec):
    return boxes.create_moov_ac3(boxes.AC3Info(codec, i.track, i.timescale, i.duration, i.channels, i.size, i.rate,
                                               i.config)).serialize()


def code_moov_mp4s(s, i):
    return boxes.create_moov_mp4s(boxes.MP4SInfo(i.track, i.timescale, i.duration)).serialize()
