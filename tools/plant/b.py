import runpy, os
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))["PRE"]
D = "dashlivesim/dashlib/"
BOX = '''
import struct
def box(typ, *data):
    body = b"".join(data)
    return struct.pack(">I", len(body) + 8) + typ + body
def u(*xs):
    return struct.pack(">%dI" % len(xs), *xs)
'''
SEEDS = [
 dict(id="c04-stored-major-lmsg", property="C04", file=D + "mediasegmentfilter.py",
  edits=[('            if brand != b"lmsg":', '            if brand != b"lmsg" or pos == 8:')],
  demo=PRE + BOX + '''
from dashlivesim.dashlib.mediasegmentfilter import MediaSegmentFilter
f = MediaSegmentFilter.__new__(MediaSegmentFilter)
for k, v in dict(lmsg=False, scte35_per_minute=0).items():
    setattr(f, k, v)
out = f.process_styp(box(b"styp", b"lmsg", b"\\0\\0\\0\\0", b"msdh"))
assert b"lmsg" not in out, out
''', needs="a stored segment whose major brand is lmsg, requested as a segment that is not the last",
  breaks="a segment that is not the last one of the session carries the lmsg brand"),
 dict(id="c06-number-one-in-chunks", property="C06", file=D + "mpdprocessor.py",
  edits=[("                    if pdata.get('startNumber') == '-1':  # Default to 1", "                    if pdata.get('startNumber') == '-1' and not ll_data:  # Default to 1")],
  demo=PRE + '''
plain = mpd("dash/snr_-1/testpic/Manifest.mpd", 1000)
chunked = mpd("dash/snr_-1/chunkdur_1/ato_1/testpic/Manifest.mpd", 1000)
assert "SegmentTemplate" in plain and "startNumber" not in plain, plain
assert "SegmentTemplate" in chunked and "startNumber" not in chunked, chunked
''', needs="default start number together with low latency", breaks="the manifest announces -1 as the first number"),
 dict(id="c07-shared-mdat-size", property="C07", file=D + "boxes.py",
  edits=[('        return 20 + len(self.samples) * (12 + (4 if self.use_comp_off else 0))',
          '        return 20 + len(self.samples) * (16 if self.use_comp_off and self.version == 0 else 12)')],
  demo=PRE + '''
from dashlivesim.dashlib.boxes import create_moof, Sample
samples = [Sample(b"abc", 0, 10, True, -5), Sample(b"defg", 10, 10, False, 5)]
data = create_moof(1, 1, samples, None).serialize()
i = data.index(b"trun")
size = int.from_bytes(data[i - 4:i], "big")
assert i - 4 + size == len(data), (size, len(data) - i + 4)
assert int.from_bytes(data[:4], "big") == len(data)
''', needs="samples with a negative composition time offset", breaks="the trun box (and traf and moof) declare a too small size"),
 dict(id="c08-saio-first-entry-only", property="C08", file=D + "mediasegmentfilter.py",
  edits=[('                output += uint32_to_str(offset + delta_offset)', '                output += uint32_to_str(offset + (delta_offset if i == 0 else 0))')],
  demo=PRE + BOX + '''
from dashlivesim.dashlib.mediasegmentfilter import MediaSegmentFilter
d = tempfile.mkdtemp()
try:
    tfhd = box(b"tfhd", u(0x020000, 1)); tfdt = box(b"tfdt", u(0, 4294967000))
    trun = box(b"trun", u(1, 1, 200)); saio = box(b"saio", u(0, 2, 120, 140))
    seg = box(b"styp", b"msdh", u(0)) + box(b"moof", box(b"mfhd", u(0, 1)), box(b"traf", tfhd, tfdt, trun, saio)) + box(b"mdat", b"x" * 30)
    open(d + "/1.m4s", "wb").write(seg)
    out = MediaSegmentFilter(d + "/1.m4s", 5, 2, 1000, False, 1000, default_sample_duration=1).filter()
    i = out.index(b"saio")
    assert struct.unpack(">4I", out[i + 4:i + 20]) == (0, 2, 124, 144), struct.unpack(">4I", out[i + 4:i + 20])
finally:
    shutil.rmtree(d)
''', needs="a segment whose tfdt grows to 64 bits and whose saio box has several entries",
  breaks="auxiliary information offsets after the first point 4 bytes too early"),
 dict(id="c10-upper-half-of-duration", property="C10", file=D + "initsegmentfilter.py",
  edits=[('''            output += data[:32]
            output += b'\\x00' * 8  # duration
            output += data[40:]
        else:  # version = 0
            output += data[:24]''', '''            output += data[:32]
            output += b'\\x00' * 4  # duration
            output += data[36:]
        else:  # version = 0
            output += data[:24]''')],
  demo=PRE + BOX + '''
from dashlivesim.dashlib.initsegmentfilter import InitLiveFilter
mdhd = box(b"mdhd", bytes([1, 0, 0, 0]), struct.pack(">QQIQ", 1, 2, 90000, 1234567), u(0x55c40000))
want = box(b"mdhd", bytes([1, 0, 0, 0]), struct.pack(">QQIQ", 1, 2, 90000, 0), u(0x55c40000))
assert InitLiveFilter(data=box(b"moov", box(b"trak", box(b"mdia", mdhd)))).filter() == \\
    box(b"moov", box(b"trak", box(b"mdia", want)))
''', needs="an init segment with a version-1 mdhd box", breaks="the low half of the 64-bit duration survives"),
 dict(id="c11-utc-methods-sorted", property="C11", file=D + "configprocessor.py",
  edits=[("                cfg.utc_timing_methods = value.split(\"-\")", "                cfg.utc_timing_methods = sorted(set(value.split(\"-\")))")],
  demo=PRE + '''
dp = dash_proxy.DashProvider("server.org", "dash/utc_ntp-head-ntp/testpic/Manifest.mpd".split("/"), None, VOD_CONFIG_DIR, CONTENT_ROOT, now=1000)
assert dp.cfg.utc_timing_methods == ["ntp", "head", "ntp"], dp.cfg.utc_timing_methods
''', needs="several utc methods that are not in alphabetical order", breaks="the listed order of the methods is lost"),
 dict(id="c12-shared-media-data", property="C12", file=D + "configprocessor.py",
  edits=[('''    "Configuration of the actual content."

    def __init__(self):''', '''    "Configuration of the actual content."
    media_data = {}

    def __init__(self):'''), ("        self.possible_media = ('video', 'audio', 'subtitles', 'image')\n        self.media_data = {}\n",
          "        self.possible_media = ('video', 'audio', 'subtitles', 'image')\n")],
  demo=PRE + '''
d = tempfile.mkdtemp()
try:
    for name, kind in (("one", "audio"), ("two", "image")):
        with open(d + "/%s.cfg" % name, "w") as fh:
            fh.write("[General]\\nversion = 1.0\\n[Setup]\\nfirst_segment_in_loop = 1\\nnr_segments_in_loop = 4\\n"
                     "segment_duration_s = 2\\ndefault_tsbd_secs = 300\\n[%s]\\nrepresentations = r\\ntimescale = 1\\n" % kind)
    def kinds(name):
        dp = dash_proxy.DashProvider("server.org", ("dash/%s/x.mpd" % name).split("/"), None, d, d, now=1000)
        return sorted(dp.cfg.media_data)
    first = kinds("two"); kinds("one")
    assert kinds("two") == first == ["image"], kinds("two")
finally:
    shutil.rmtree(d)
''', needs="requests for two different contents", breaks="the media of one content show up in sessions of another one"),
 dict(id="c13-decoded-after-check", property="C13", file=D + "configprocessor.py",
  edits=[('        self.rel_path = "/".join(rel_path_parts)', '        self.rel_path = unquote("/".join(rel_path_parts))'),
         ("from os.path import", "from urllib.parse import unquote\nfrom os.path import")],
  demo=PRE + '''
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/root/pic"); os.makedirs(d + "/secret/V1")
    shutil.copy(CONTENT_ROOT + "/testpic/V1/1.m4s", d + "/secret/V1/1.m4s")
    shutil.copy(CONTENT_ROOT + "/testpic/V1/1.m4s", d + "/root/1.m4s")
    with open(d + "/pic.cfg", "w") as fh:
        fh.write("[General]\\nversion = 1.0\\n[Setup]\\nfirst_segment_in_loop = 1\\nnr_segments_in_loop = 1\\n"
                 "segment_duration_s = 6\\ndefault_tsbd_secs = 300\\n[video]\\nrepresentations = V1\\ntimescale = 90000\\n")
    st, h, body, _ = request("dash/pic/%2e%2e/%2e%2e/secret/V1/10.m4s", 70.0, vod=d, content=d + "/root")
    assert st == 404, st
finally:
    shutil.rmtree(d)
''', needs="a path with percent-encoded dots", breaks="files outside the content root are served"),
 dict(id="c15-time-url-scheme", property="C15", file=D + "dash_proxy.py",
  edits=[('self.utc_head_url = "%s://%s/%s" % (protocol, host_name, UTC_HEAD_PATH)', 'self.utc_head_url = "http://%s/%s" % (host_name, UTC_HEAD_PATH)')],
  demo=PRE + '''
out = mpd("dash/utc_head/testpic/Manifest.mpd", 1000, https=1)
assert "http://server.org" not in out and "https://server.org/dash/time.txt" in out
''', needs="an https request with utc_head", breaks="the time URL is plain http on an https session"),
 dict(id="c16-hyphens-in-location", property="C16", file=D + "mpdprocessor.py",
  edits=[('            self.insert_location(mpd, pos, loc_url)', '            self.insert_location(mpd, pos, loc_url.replace("-", ""))')],
  demo=PRE + '''
out = mpd("dash/startrel_-60/utc_ntp-head/testpic/Manifest.mpd", 1000)
loc = out[out.index("<Location>"):out.index("</Location>")]
assert "/utc_ntp-head/" in loc, loc
''', needs="a relative session whose URL has other hyphens", breaks="the Location URL is not the request URL: other options change their meaning"),
 dict(id="c17-static-too-early", property="C17", file=D + "mpd_proxy.py",
  edits=[("if cfg.stop_time is not None and (now > cfg.stop_time):", "if cfg.stop_time is not None and (now >= cfg.stop_time):")],
  demo=PRE + '''
assert 'type="dynamic"' in mpd("dash/start_600/stop_660/testpic/Manifest.mpd", 660)
assert 'type="static"' in mpd("dash/start_600/stop_660/testpic/Manifest.mpd", 661)
''', needs="a manifest request in the very second of the stop time", breaks="the manifest turns static before the stop time has passed"),
 dict(id="c18-oldest-period-dropped", property="C18", file=D + "mpd_proxy.py",
  edits=[("first_period_nr = (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration", "first_period_nr = (now - mpd_data['timeShiftBufferDepthInS']) // period_duration")],
  demo=PRE + '''
out = mpd("dash/tsbd_60/periods_60/testpic/Manifest.mpd", 6003)
assert 'id="p98"' in out and 'id="p99"' in out, out
''', needs="a window that starts less than one segment after a period boundary", breaks="the period of the oldest available segment is not announced"),
 dict(id="c19-next-interval-at-90", property="C19", file=D + "moduloperiod.py",
  edits=[("        if self.percent >= 90:", "        if self.percent > 90:")],
  demo=PRE + '''
from dashlivesim.dashlib.moduloperiod import ModuloPeriod
m = ModuloPeriod(10, 6000 + 540)
assert m.availability_start_time == 6600 and m.media_presentation_duration == 120
''', needs="a request exactly at 90 % of the interval", breaks="the old interval is announced with the duration of the next one"),
 dict(id="c20-subtitles-get-cues", property="C20", file=D + "dash_proxy.py",
  edits=[("(rep['content_type'] == 'video') and cfg.scte35_per_minute", "(rep['content_type'] != 'audio') and cfg.scte35_per_minute")],
  demo=PRE + '''
d = tempfile.mkdtemp()
try:
    shutil.copytree(CONTENT_ROOT + "/testpic/A1", d + "/pic/A1")
    with open(d + "/pic.cfg", "w") as fh:
        fh.write("[General]\\nversion = 1.0\\n[Setup]\\nfirst_segment_in_loop = 1\\nnr_segments_in_loop = 1\\n"
                 "segment_duration_s = 6\\ndefault_tsbd_secs = 300\\n[image]\\nrepresentations = A1\\ntimescale = 48000\\n")
    for nr in (10, 12, 14, 16, 18):
        out = media("dash/scte35_3/pic/A1/%d.m4s" % nr, nr * 6.0 + 10, d, d)
        assert isinstance(out, bytes) and b"emsg" not in out
finally:
    shutil.rmtree(d)
''', needs="scte35_ and a representation that is neither audio nor video", breaks="ad cues in segments that are not video"),
 dict(id="c21-zero-duration-unknown", property="C21", file=D + "emsg.py",
  edits=[('        parts.append(uint32_to_str(self.event_duration))', '        parts.append(uint32_to_str(self.event_duration or 0xffffffff))')],
  demo=PRE + '''
from dashlivesim.dashlib.emsg import create_emsg
b = create_emsg("urn:x", "", 1000, 2, 0, 4, "abc")
assert b == (12 + 16 + 6 + 1 + 3).to_bytes(4, "big") + b"emsg" + bytes(4) + b"urn:x\\0" + b"\\0" + \\
    b"".join(x.to_bytes(4, "big") for x in (1000, 2, 0, 4)) + b"abc", b
''', needs="an event of no duration", breaks="the event duration is written as unknown"),
 dict(id="c22-stored-after-a-day", property="C22", file=D + "ttml_timing_offset.py",
  edits=[("        attr = matches['attr']\n        hours = int(matches['hours'])", "        attr = matches['attr']\n        hours = int(matches['hours']) % 24")],
  demo=PRE + '''
from dashlivesim.dashlib.ttml_timing_offset import adjust_ttml_content
out = adjust_ttml_content(b'<p begin="23:59:59" end="24:00:01">x</p>', 2 * 3600, 7)
assert out == b'<p begin="25:59:59" end="26:00:01">x</p>', out
''', needs="a stored time past 24 hours", breaks="its output time lies a day early"),
 dict(id="c23-size-before-growth", property="C23", file=D + "segmentmuxer.py",
  edits=[("            if mstruct.trun_data_offset is None:", "            if not mstruct.trun_data_offset:")],
  demo=PRE + BOX + '''
from dashlivesim.dashlib.segmentmuxer import MultiplexMediaSegments
def seg(off):
    return box(b"styp", b"msdh", u(0)) + box(b"moof", box(b"mfhd", u(0, 1)), box(b"traf", box(b"trun", u(1, 1, off)))) + box(b"mdat", b"abc")
out = MultiplexMediaSegments(data1=seg(0), data2=seg(0)).mux_on_sample_level()
i = out.index(b"trun")
assert struct.unpack(">I", out[i + 12:i + 16])[0] == 28, out[i:i + 16]
''', needs="a segment with a present data offset of zero", breaks="its data offset is not moved"),
 dict(id="c25-grid-drifts", property="C25", file=D + "chunker.py",
  edits=[("            d1 += duration\n", "            d1 = d0 + duration\n")],
  demo=PRE + '''
from dashlivesim.dashlib.chunker import partition
from dashlivesim.dashlib.boxes import Sample
got = [len(p) for p in partition([Sample(b"x", 0, 3) for _ in range(10)], 5)]
assert got == [2, 2, 1, 2, 2, 1], got
''', needs="samples whose durations do not divide the chunk duration", breaks="chunks get longer and longer compared with the grid"),
 dict(id="c27-empty-method-accepted", property="C27", file=D + "mpdprocessor.py",
  edits=[("        for utc_method in self.utc_timing_methods:", "        for utc_method in dict.fromkeys(m for m in self.utc_timing_methods if m):")],
  demo=PRE + '''
assert mpd("dash/utc_ntp-ntp/testpic/Manifest.mpd", 1000).count("utc:ntp:2014") == 2
try:
    mpd("dash/utc_ntp-/testpic/Manifest.mpd", 1000)
except Exception:
    pass
else:
    raise AssertionError("accepted")
''', needs="an empty or repeated method in utc_", breaks="a method that does not exist is accepted and a repeated one listed once"),
 dict(id="c29-duration-of-unrounded-stop", property="C29", file=D + "configprocessor.py",
  edits=[("            self.media_presentation_duration = self.stop_time - self.start_time", "            self.media_presentation_duration = stop_time - self.start_time")],
  demo=PRE + '''
dp = dash_proxy.DashProvider("server.org", "dash/start_600/stop_661/testpic/Manifest.mpd".split("/"), None, VOD_CONFIG_DIR, CONTENT_ROOT, now=620)
assert dp.cfg.media_presentation_duration == 66 and dp.cfg.stop_number == 11, (dp.cfg.media_presentation_duration, dp.cfg.stop_number)
''', needs="a stop time that is not a segment boundary", breaks="the last, partly wanted segment is refused and the duration is not whole segments"),
 dict(id="c30-window-ignores-period", property="C30", file=D + "mpdprocessor.py",
  edits=[("                        start_time = max(ast + pdata['start_s'], now - tsbd)", "                        start_time = max(ast, now - tsbd)")],
  demo=PRE + '''
import re
out = mpd("dash/segtimeline_1/tsbd_60/periods_60/testpic/Manifest.mpd", 6030)
last = out[out.index('id="p100"'):]
times = [int(x) for x in re.findall(r'<S [^>]*t="(\\d+)"', last.split("</Period>")[0])]
assert times and min(times) >= 6000 * 48000 - 48000 or min(times) >= 5994 * 48000, times
''', needs="several periods with a SegmentTimeline", breaks="later periods list segments of earlier ones"),
 dict(id="c31-small-offset-lost", property="C31", file=D + "mpdprocessor.py",
  edits=[("        elif float(new_ato) > 0:  # don't add this attribute when the value is 0", "        elif int(float(new_ato)) > 0:  # don't add this attribute when the value is 0")],
  demo=PRE + '''
assert 'availabilityTimeOffset="0.5' in mpd("dash/ato_0.5/testpic/Manifest.mpd", 1000)
''', needs="an availability time offset below one second", breaks="segments are available earlier than signalled; the offset is not announced"),
 dict(id="c32-message-of-late-thumbnail", property="C32", file=D + "dash_proxy.py",
  edits=[('''    thumb_path = join(dashProv.content_dir, cfg.content_name, rel_path,
                      "%d%s" % (vod_nr, seg_ext))''', '''    thumb_path = join(dashProv.content_dir, cfg.content_name, rel_path,
                      "%d%s" % (vod_nr, seg_ext) if seg_base[0] != 't' else "%d" % (vod_nr, seg_ext))''')],
  demo=PRE + '''
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/pic/thumbs")
    open(d + "/pic/thumbs/1.jpg", "wb").write(b"T1")
    with open(d + "/pic.cfg", "w") as fh:
        fh.write("[General]\\nversion = 1.0\\n[Setup]\\nfirst_segment_in_loop = 1\\nnr_segments_in_loop = 1\\n"
                 "segment_duration_s = 2\\ndefault_tsbd_secs = 300\\n[image]\\nrepresentations = thumbs\\ntimescale = 1\\n")
    assert media("dash/pic/thumbs/t80.jpg", 100.0, d, d) == b"T1"
finally:
    shutil.rmtree(d)
''', needs="a thumbnail addressed by time", breaks="the request fails with a formatting error"),
 dict(id="c33-size-of-map", property="C33", file="dashlivesim/cc_inserter/cc_inserter.py",
  edits=[("            sample_time_tfdt += duration\n            orig_sample_pos += size", "            sample_time_tfdt += duration\n            orig_sample_pos += size if not scc_samples else output_size")],
  demo=PRE + BOX + '''
from dashlivesim.cc_inserter.cc_inserter import CCInsertFilter
d = tempfile.mkdtemp()
try:
    nal = lambda b: struct.pack(">I", len(b)) + b
    s = [nal(b"\\x61" + bytes([i]) * 6) for i in range(3)]
    trun = box(b"trun", u(0x301, 3, 0) + b"".join(u(10, len(x)) for x in s))
    def seg(off):
        t = trun[:16] + u(off) + trun[20:]
        return box(b"styp", b"msdh", u(0)), box(b"moof", box(b"mfhd", u(0, 1)), box(b"traf", box(b"tfhd", u(0x020000, 1)), box(b"tfdt", u(0, 0)), t))
    styp, moof = seg(0)
    styp, moof = seg(len(moof) + 8)
    open(d + "/1.m4s", "wb").write(styp + moof + box(b"mdat", *s))
    scc = [{"start_time": 0.0, "cea608": ["9420"]}, {"start_time": 2.0, "cea608": ["9421"]}]
    out = CCInsertFilter(d + "/1.m4s", scc, 10, 0, 1).filter()
    i = out.index(b"mdat")
    body = out[i + 4:]
    types = []
    while body:
        n = struct.unpack(">I", body[:4])[0]
        types.append(body[4] & 31); body = body[4 + n:]
    assert types == [6, 1, 1, 6, 1], types
finally:
    shutil.rmtree(d)
''', needs="captions in more than one sample of a segment", breaks="captions end up in the middle of later samples"),
 dict(id="c34-late-letters", property="C34", file=D + "stpp_generator/stpp_creator.py",
  edits=[("        lang_bits = (get_char_bits(lang[0]) << 10) + (get_char_bits(lang[1]) << 5) + get_char_bits(lang[2])", "        lang_bits = (get_char_bits(lang[0]) << 10) + (get_char_bits(lang[1]) << 5) + (get_char_bits(lang[2]) & 0xf)")],
  demo=PRE + '''
import subprocess
code = "import sys; sys.path.insert(0, 'dashlivesim/dashlib/stpp_generator')\\nfrom dashlivesim.dashlib.stpp_generator import stpp_creator as s\\n" \\
       "d = s.create_init_segment(lang='nor')\\ni = d.index(b'mdhd')\\n" \\
       "n = int.from_bytes(d[i+24:i+26], 'big')\\nassert n == (14 << 10) + (15 << 5) + 18, n"
assert subprocess.run([sys.executable, "-c", code], stdout=subprocess.DEVNULL).returncode == 0
''', needs="a language code whose last letter is p or later", breaks="the init segment declares another language"),
 dict(id="c38-drift-not-absolute", property="C38", file="dashlivesim/vodanalyzer/dashanalyzer.py",
  edits=[("                        absDiffInTicks = abs(idealTicks - endTick)", "                        absDiffInTicks = endTick - idealTicks")],
  demo=PRE + BOX + '''
from dashlivesim.vodanalyzer.dashanalyzer import DashAnalyzer, DashAnalyzerError
cwd = os.getcwd()
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/c/V1")
    open(d + "/c/m.mpd", "w").write('<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" mediaPresentationDuration="PT4S"><Period>'
        '<AdaptationSet contentType="video"><SegmentTemplate duration="2" startNumber="1" initialization="$RepresentationID$/init.mp4" '
        'media="$RepresentationID$/$Number$.m4s"/><Representation id="V1" bandwidth="1"/></AdaptationSet></Period></MPD>')
    shutil.copy(CONTENT_ROOT + "/testpic/V1/init.mp4", d + "/c/V1/init.mp4")
    for nr in (1, 2):
        # the segments last 1.9 s instead of 2 s
        trun = box(b"trun", u(0x100, 1, 171000))
        open(d + "/c/V1/%d.m4s" % nr, "wb").write(box(b"styp", b"msdh", u(0)) + box(b"moof", box(b"mfhd", u(0, nr)),
            box(b"traf", box(b"tfhd", u(0x020000, 1)), box(b"tfdt", u(0, 171000 * (nr - 1))), trun)) + box(b"mdat", b"x"))
    os.chdir(d)
    refused = False
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            DashAnalyzer(d + "/c/m.mpd", 0).analyze()
        except DashAnalyzerError:
            refused = True
    assert refused
finally:
    os.chdir(cwd)
    shutil.rmtree(d)
''', needs="content whose segments are too short", breaks="content that drifts is accepted"),
 dict(id="c24-first-segment-of-loop", property="C24", file=D + "configprocessor.py",
  edits=[("        config.set('Setup', 'first_segment_in_loop', data.get('first_segment_in_loop', self.first_segment_in_loop))",
          "        config.set('Setup', 'first_segment_in_loop', self.first_segment_in_loop or 1)")],
  demo=PRE + '''
from dashlivesim.dashlib.configprocessor import VodConfig
d = tempfile.mkdtemp()
try:
    with contextlib.redirect_stdout(io.StringIO()):
        VodConfig().write_config(d + "/c.cfg", {"first_segment_in_loop": 4, "nr_segments_in_loop": 5, "segment_duration_s": 2,
                                                "media_data": {}})
    v = VodConfig(); v.read_config(d + "/c.cfg")
    assert v.first_segment_in_loop == 4, v.first_segment_in_loop
finally:
    shutil.rmtree(d)
''', needs="content whose first segment is not number 1", breaks="the server looks for segments that do not exist"),
 dict(id="c35-only-one-segment", property="C35", file=D + "segtimeline.py",
  edits=[("        if (start_tics_end < start_tics):", "        if (start_tics_end <= start_tics):")],
  demo=PRE + '''
import struct
from dashlivesim.dashlib.segtimeline import SegmentTimeLineGenerator
from dashlivesim.dashlib.configprocessor import SEGTIMEFORMAT
d = tempfile.mkdtemp()
try:
    open(d + "/v.dat", "wb").write(struct.pack(SEGTIMEFORMAT, 1, 3, 0, 20))
    class Cfg: vod_cfg_dir = d; vod_wrap_seconds = 8; vod_nr_segments_in_loop = 4; vod_first_segment_in_loop = 1
    g = SegmentTimeLineGenerator(dict(timescale=10, dat_file="v.dat"), Cfg)
    tl = g.create_segtimeline(4, 6)
    assert [(e.get("t"), e.get("d")) for e in tl] == [("40", "20")], [e.attrib for e in tl]
finally:
    shutil.rmtree(d)
''', needs="a window with exactly one complete segment", breaks="the timeline is empty"),
]
