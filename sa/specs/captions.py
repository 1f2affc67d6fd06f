"""Reference definitions for the caption inserter (C33): analysed, never executed."""
import struct
from dashlivesim.cc_inserter import cc_inserter


def code_nals(s, captions, field):
    return cc_inserter.generate_data(captions, field)


def nals(s, captions, field):
    out = b""
    for c in captions:
        body = b""
        for pair in c['cea608']:
            value = int(pair, 16)
            body += struct.pack('>BBB', 0xfb + field, (value >> 8) & 0xff, value & 0xff)
        count = len(c['cea608'])
        payload = b"\xb5\x00\x31GA94\x03" + struct.pack('>BB', 0xc0 + count, 0xff) + body + b"\xff"
        nal = b"\x66\x04" + struct.pack('>B', len(payload)) + payload + b"\x80"
        out += struct.pack('>I', len(nal)) + nal
    return out


def code_insert(s, captions, timescale, tfdt, field):
    return cc_inserter.CCInsertFilter("segment", captions, timescale, tfdt, field).filter()


def code_time(s, text):
    return cc_inserter.transform_time_to_ms(cc_inserter.transform_time(text))


def code_frames(s, h, m, sec, f):
    return cc_inserter.convert_time("%02d:%02d:%02d:%02d" % (h, m, sec, f))


def frames(s, h, m, sec, f):
    return (h * 3600000 + m * 60000 + sec * 1000 + min(int(f * 1000 / 29.97), 999)) / 1000.0


def code_clock(s, n):
    return cc_inserter.transform_time(n)


def clock(s, n):
    return "%02d:%02d:%02d.%03d" % (n // 90000 // 3600, n // 90000 // 60 % 60, n // 90000 % 60, int((n % 90000) / 90.0))


def code_chunks(s, data, n):
    return list(cc_inserter.chunks(data, n))


# ------------------------------------------------------------------ caption files
class Text:
    """an open caption file"""
    def __init__(self, lines):
        self.lines = lines

    def readlines(self):
        return self.lines

    def read(self):
        return "".join(self.lines)

    def __iter__(self):
        return iter(self.lines)

    def close(self):
        return None


def scc(s, name):
    return Text(s.lines)


def code_parse(s):
    p = cc_inserter.SCCParser("captions.scc", 90000)
    p.parse()
    return [(c['start_time'], c['cea608']) for c in p.result]


def parse(s):
    out = []
    for (h, m, sec, f), codes in s.wanted:
        for k in range(0, len(codes), 31):
            out.append((frames(s, h, m, sec, f), codes[k:k + 31]))
    return out


# ------------------------------------------------------------------ the inserter
class Out:
    """a file opened for writing"""
    def __init__(self, disk, name):
        self.written = []
        disk[name] = self.written

    def write(self, data):
        self.written.append(data)

    def close(self):
        return None


def out_file(s, name):
    return Out(s.disk, name)


class Inserter:
    """stands for the filter that inserts captions"""
    def __init__(self, args):
        self.args = args

    def filter(self):
        return self.args


def insertion(s, path, captions, timescale, tfdt, field):
    return Inserter((path, captions, timescale, tfdt, field))


class Parser:
    """stands for the reader of the caption file"""
    def __init__(self, result):
        self.result = result

    def parse(self):
        return None


def parser(s):
    return Parser(s.captions)


class Processor:
    """stands for the manifest of the content"""
    def __init__(self, sets):
        self.sets = sets
        self.media_presentation_duration_in_s = 0

    def get_adaptation_sets(self):
        return self.sets


def processor(s):
    return Processor(s.sets)


class Representation:
    def __init__(self, rep_id):
        self.rep_id = rep_id
        self.initialization_path = rep_id + "/init.mp4"

    def get_media_path(self):
        return self.rep_id + "/%d.m4s"


def representation(s, rep_id):
    return Representation(rep_id)


class Init:
    def __init__(self, timescale):
        self.track_id = 1
        self.track_timescale = timescale

    def filter(self):
        return b''


def init(s, name):
    return Init(s.timescale)


class Media:
    def __init__(self, data):
        self.data = data

    def filter(self):
        return b''

    def get_tfdt_value(self):
        return self.data.time

    def get_duration(self):
        return self.data.duration


def media(s, name):
    return Media(s.segments[name])


def exists(s, name):
    return name in s.segments


def listdir(s, name):
    return s.folders[name]


def code_analyze(s):
    c = cc_inserter.CCInserter("dir/Manifest.mpd", "captions.scc", "out", -1, s.field, 0)
    c.analyze()
    return [(name, s.disk[name]) for name in s.names if name in s.disk]


def analyze(s):
    """s.content: number, path and data of the segments of the video"""
    done = []
    for nr, path, seg in s.content:
        start = seg.time / float(s.timescale)
        end = start + seg.duration / float(s.timescale)
        inside = [c for c in s.captions if start <= c['start_time'] < end]
        if len(inside) > 0:
            done.append(("out/%d.m4s" % nr, [(path, inside, s.timescale, seg.time, s.field)]))
    return done
