"""Reference definitions for the content analyzer (C24, C38): analysed, never executed."""
import configparser
import struct
from dashlivesim.dashlib import configprocessor, segtimeline
from dashlivesim.vodanalyzer import dashanalyzer, parse_dat_file


# ------------------------------------------------------------------ stand-ins for files
class File:
    """an open file: what is written is appended to the content kept under its name"""
    def __init__(self, disk, name, mode):
        self.disk = disk
        self.name = name
        self.pos = 0
        if 'w' in mode:
            disk[name] = b'' if 'b' in mode else ''

    def write(self, data):
        self.disk[self.name] = self.disk[self.name] + data

    def read(self, n):
        data = self.disk[self.name][self.pos:self.pos + n]
        self.pos = self.pos + n
        return data

    def close(self):
        return None

    def flush(self):
        return None


def opened(s, name, mode):
    return File(s.disk, name, mode)


class Ini:
    """stands for configparser.RawConfigParser"""
    def __init__(self, disk):
        self.disk = disk
        self.data = {}

    def add_section(self, section):
        self.data[section] = {}

    def set(self, section, option, value):
        if section not in self.data:
            raise configparser.NoSectionError(section)
        self.data[section][option] = str(value)

    def write(self, file):
        self.disk[file.name] = self.data

    def read(self, name):
        self.data = self.disk[name]

    def has_section(self, section):
        return section in self.data

    def has_option(self, section, option):
        return section in self.data and option in self.data[section]

    def get(self, section, option, fallback=None):
        if fallback is not None and not self.has_option(section, option):
            return fallback
        if section not in self.data:
            raise configparser.NoSectionError(section)
        if option not in self.data[section]:
            raise configparser.NoOptionError(option, section)
        return self.data[section][option]

    def getint(self, section, option, fallback=None):
        return int(self.get(section, option, fallback))


def ini(s):
    return Ini(s.disk)


class Processor:
    """stands for the manifest of the content"""
    def __init__(self, sets):
        self.sets = sets
        self.media_presentation_duration_in_s = 0
        self.media_presentation_duration = "PT0S"

    def get_adaptation_sets(self):
        return self.sets


def processor(s):
    return Processor(s.sets)


class Representation:
    def __init__(self, rep_id):
        self.rep_id = rep_id
        self.initialization_path = rep_id + "/init.mp4"

    def get_media_path(self):
        return self.rep_id + "/%d.m4s"


def representation(s, rep_id):
    return Representation(rep_id)


class Init:
    """stands for the filter of an init segment"""
    def __init__(self, data):
        self.track_id = data.track_id
        self.track_timescale = data.timescale
        self.default_sample_duration = data.default_sample_duration

    def filter(self):
        return b''


def init(s, name):
    return Init(s.inits[name])


class Media:
    """stands for the filter of a media segment"""
    def __init__(self, data, default):
        self.data = data
        self.default = default

    def filter(self):
        return b''

    def get_tfdt_value(self):
        return self.data.time

    def get_duration(self):
        return self.data.duration if self.default == self.data.default else -1


def media(s, name, default):
    return Media(s.segments[name], default)


def exists(s, name):
    return name in s.segments


def listdir(s, name):
    return s.folders[name]


# ------------------------------------------------------------------ configuration file
def wanted(c, media_data):
    return (c.first_segment_in_loop, c.segment_duration_s, c.segment_duration_ms, c.nr_segments_in_loop, c.default_tsbd_secs,
            media_data)


def described(d):
    """an entry of the media data by field"""
    return (d.get('timescale'), d.get('representations'), d.get('total_duration'), d.get('dat_file'))


def read_back(s):
    c = configprocessor.VodConfig()
    c.read_config("content.cfg")
    return wanted(c, {k: described(d) for k, d in c.media_data.items()})


def code_config(s, data):
    configprocessor.VodConfig().write_config("content.cfg", data)
    return read_back(s)


def config(s, data):
    return (data['first_segment_in_loop'], data['segment_duration_s'], 0, data['nr_segments_in_loop'], 300,
            {k: (m['timescale'], m['representations'], m['totalDuration'], m['datFile']) for k, m in data['media_data'].items()})


def code_own(s, c):
    """the attributes of a configuration that was read, written again"""
    v = configprocessor.VodConfig()
    v.first_segment_in_loop = c.first
    v.nr_segments_in_loop = c.number
    v.segment_duration_s = c.duration
    v.default_tsbd_secs = c.tsbd
    v.write_config("content.cfg")
    return read_back(s)


def own(s, c):
    return (c.first, c.duration, 0, c.number, c.tsbd, {})


def code_read(s):
    try:
        return read_back(s)
    except (configprocessor.ConfigProcessorError, configparser.NoOptionError, configparser.NoSectionError):
        return "refused"


def read(s):
    """s.setup: the options of the file with their values, s.media: per complete section its values"""
    if s.version != "1.0" and s.version != "1.1":
        return "refused"
    duration = s.setup.get('segment_duration_s', 0)
    if 'segment_duration_ms' in s.setup:
        duration = 0
    if duration == 0 and s.setup.get('segment_duration_ms', 0) == 0:
        return "refused"
    for option in ('first_segment_in_loop', 'nr_segments_in_loop', 'default_tsbd_secs'):
        if option not in s.setup:
            return "refused"
    more = s.version == "1.1"
    return (s.setup['first_segment_in_loop'], duration, s.setup.get('segment_duration_ms', 0), s.setup['nr_segments_in_loop'],
            s.setup['default_tsbd_secs'],
            {k: (m[0], m[1], m[2] if more else None, m[3] if more else None) for k, m in s.media.items()})


# ------------------------------------------------------------------ timing records
def code_records(s, media_data, cfg):
    g = segtimeline.SegmentTimeLineGenerator(media_data, cfg)
    return ([(e.start_nr, e.repeats, e.start_time, e.duration) for e in g.segtimedata], g.interval_starts,
            g.wrap_duration, g.nr_segments_per_wrap, g.first_segment_number)


def records(s, media_data, cfg):
    return (s.entries, [e[2] for e in s.entries], cfg.vod_wrap_seconds * media_data['timescale'], cfg.vod_nr_segments_in_loop,
            cfg.vod_first_segment_in_loop)


# ------------------------------------------------------------------ the analyzer
def code_analyze(s, path):
    a = dashanalyzer.DashAnalyzer(path)
    a.analyze()
    c = configprocessor.VodConfig()
    c.read_config(a.config_filename)
    return (c.first_segment_in_loop, c.segment_duration_s, c.nr_segments_in_loop,
            {k: described(d)[:3] + (s.disk.get(d.get('dat_file')),) for k, d in c.media_data.items()})


def timing(segments):
    out = b''
    first = 0
    n = len(segments)
    for k in range(n):
        if k > 0 and segments[k].duration != segments[k - 1].duration:
            first = k
        if k == n - 1 or segments[k + 1].duration != segments[k].duration:
            out = out + struct.pack('HHII', segments[first].nr, k - first, segments[first].time, segments[k].duration)
    return out


def drift(segments, seg_duration, timescale):
    """does some segment end 100 ms or more away from where it would with ideal durations"""
    for k in range(len(segments)):
        end = segments[k].time + segments[k].duration
        ideal = segments[0].time + (k + 1) * seg_duration * timescale
        if abs(ideal - end) >= int(timescale * 0.1):
            return True
    return False


def analyze(s, path):
    """s.contents: (type, duration, start number, timescale, representations: (id, segments))"""
    number = s.common
    found = {}
    for kind, reps, timescale in s.contents:
        for rep_id, segments in reps:
            if drift(segments[:number], s.seg_duration, timescale):
                raise dashanalyzer.DashAnalyzerError("drift")
        segments = reps[0][1][:number]
        last = segments[len(segments) - 1]
        if kind == 'video' or kind == 'audio':
            found[kind] = (timescale, [r[0] for r in reps], last.time + last.duration - segments[0].time, timing(segments))
    return (s.first, s.seg_duration, number, found)


def code_loop(s, path):
    try:
        r = code_analyze(s, path)
    except (dashanalyzer.DashAnalyzerError, AssertionError):
        return "refused"
    return (r[0], r[1], r[2])


def loop(s, path):
    if s.refused:
        return "refused"
    for kind, reps, timescale in s.contents:
        for rep_id, segments in reps:
            if drift(segments[:s.common], s.seg_duration, timescale):
                return "refused"
    return (s.first, s.seg_duration, s.common)


# ------------------------------------------------------------------ contents of timelines (C35)
def code_segments(s, start_time, end_time, closest):
    """the segments a client reads from the timeline, and the number of the first"""
    g = segtimeline.SegmentTimeLineGenerator(s.media, s.cfg)
    timeline = g.create_segtimeline(start_time, end_time, closest)
    out = []
    time = None
    for e in timeline:
        if e.get('t') is not None:
            time = int(e.get('t'))
        duration = int(e.get('d'))
        for k in range(int(e.get('r', '0')) + 1):
            out.append((time, duration))
            time = time + duration
    return (out, g.start_number)


def segments(s, start_time, end_time, closest):
    return s.expected
