"""Reference definitions for the subtitle segment generator (C34): analysed, never executed."""
import os
import struct
from jinja2 import Template
from dashlivesim.dashlib.stpp_generator import make_stpp_segments
from dashlivesim.dashlib.stpp_generator import stpp_creator


def w16(x):
    return struct.pack('>H', x)


def w32(x):
    return struct.pack('>I', x)


def w64(x):
    return struct.pack('>Q', x)


def box(name, body):
    return w32(len(body) + 8) + name + body


# ---- media

def code_media(s, track, nr, duration, time, ttml):
    return stpp_creator.create_media_segment(track, nr, duration, time, ttml)


def code_media_filter(s, track, nr, duration, time, ttml):
    return stpp_creator.StppMediaFilter(track, nr, duration, time, ttml).filter()


def media(s, track, nr, duration, time, ttml):
    traf = box(b'traf', box(b'tfhd', b'\x00\x02\x00\x18' + w32(track) + w32(duration) + w32(len(ttml)))
               + box(b'tfdt', b'\x01\x00\x00\x00' + w64(time))
               + box(b'trun', b'\x00\x00\x00\x01' + w32(1) + w32(96 + 8)))
    moof = box(b'moof', box(b'mfhd', w32(0) + w32(nr)) + traf)
    return box(b'styp', b'msdh' + w32(0) + b'msdhdash') + moof + box(b'mdat', ttml)


# ---- init

def code_init(s, lang, track, timescale, name):
    return stpp_creator.create_init_segment(lang, track, timescale, None, name)


def code_init_at(s, lang, track, timescale, created, name):
    return stpp_creator.create_init_segment(lang, track, timescale, created, name)


def code_init_plain(s):
    return stpp_creator.create_init_segment()


def code_init_short(s, lang, track):
    return stpp_creator.StppInitFilter(lang, track).filter()


def init(s, lang, track, timescale, name, halves=False):
    return init_of(lang, track, timescale, 0, name, halves)


def init_at(s, lang, track, timescale, created, name, halves=False):
    return init_of(lang, track, timescale, created, name, halves)


def init_plain(s, halves=False):
    return init_of("eng", 3, 1000, 0, None, halves)


def init_short(s, lang, track, halves=False):
    return init_of(lang, track, 1000, 0, None, halves)


MATRIX = (struct.pack('>I', 0x10000) + bytes(12) + struct.pack('>I', 0x10000) + bytes(12) + struct.pack('>I', 0x40000000))
NAMESPACES = (b'http://www.w3.org/ns/ttml#parameter http://www.w3.org/ns/ttml http://www.w3.org/ns/ttml#styling '
              b'http://www.w3.org/ns/ttml#metadata urn:ebu:metadata urn:ebu:style')


def language(code, halves):
    if halves:
        return w16(code) + w16(0)
    return w32(code * 65536)


def init_of(lang, track, timescale, created, name, halves):
    times = w32(created) + w32(created)
    code = (ord(lang[0]) - 0x60) * 1024 + (ord(lang[1]) - 0x60) * 32 + (ord(lang[2]) - 0x60)
    title = name.encode('utf-8') if name else b'DASH-IF TTML'
    mvhd = box(b'mvhd', w32(0) + times + w32(timescale) + w32(0) + w32(0x10000) + w16(0x100) + bytes(10) + MATRIX
               + bytes(24) + w32(track + 1))
    mvex = box(b'mvex', box(b'trex', w32(0) + w32(track) + w32(1) + bytes(12)))
    tkhd = box(b'tkhd', w32(7) + times + w32(track) + bytes(4) + w32(0) + bytes(16) + MATRIX + bytes(8))
    mdhd = box(b'mdhd', w32(0) + times + w32(timescale) + w32(0) + language(code, halves))
    hdlr = box(b'hdlr', bytes(8) + b'subt' + bytes(12) + title + b'\x00')
    dinf = box(b'dinf', box(b'dref', w32(0) + w32(1) + box(b'url ', w32(1))))
    stsd = box(b'stsd', w32(0) + w32(1) + box(b'stpp', bytes(6) + w16(1) + NAMESPACES + bytes(3)))
    stbl = box(b'stbl', stsd + box(b'stts', bytes(8)) + box(b'stsc', bytes(8)) + box(b'stsz', bytes(12)) + box(b'stco', bytes(8)))
    mdia = box(b'mdia', mdhd + hdlr + box(b'minf', box(b'sthd', bytes(4)) + dinf + stbl))
    return box(b'ftyp', b'iso6' + w32(1) + b'isomdash') + box(b'moov', mvhd + mvex + box(b'trak', tkhd + mdia))


# ---- the script

def code_time_string(s, ms):
    return creator(s).create_time_string(ms)


def time_string(s, ms):
    return "%02d:%02d:%02d.%03d" % (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000)


def creator(s):
    return make_stpp_segments.SegmentCreator(s.number, s.duration, s.resolution, s.name, s.lang, s.track, s.path)


def code_segments(s):
    creator(s).create_segments()


def segments(s):
    ms = creator(s)
    with open(os.path.join(s.path, "init.mp4"), 'wb') as f:
        f.write(stpp_creator.create_init_segment(s.lang, s.track))
    page = Template(make_stpp_segments.TTML_XML.strip())
    for i in range(s.number):
        nr = i + 1
        start = i * s.duration
        paragraphs = []
        for rel in range(0, s.duration, s.resolution):
            at = start + rel
            paragraphs.append({'begin': time_string(s, at), 'end': time_string(s, at + s.resolution),
                               'id': "sub%05d" % at, 'text': '%s : %s' % (s.lang, time_string(s, at))})
        ttml = page.render(paragraph=paragraphs, r1_id="%010d" % start, r1_begin=time_string(s, start),
                           r1_end=time_string(s, start + s.duration), r1_text="Segment: %d" % nr, lang=s.lang)
        with open((os.path.join(s.path, s.name) + ".m4s") % nr, 'wb') as f:
            f.write(stpp_creator.create_media_segment(s.track, nr, s.duration, start, ttml.encode('utf-8')))
