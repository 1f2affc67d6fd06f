PRE = '''
import io, contextlib, sys, os, shutil, tempfile
from dashlivesim.tests.dash_test_util import VOD_CONFIG_DIR, CONTENT_ROOT
from dashlivesim.dashlib import dash_proxy, mpd_proxy
from dashlivesim.mod_wsgi import mod_dashlivesim as mod

def media(url, now, vod=VOD_CONFIG_DIR, content=CONTENT_ROOT):
    dp = dash_proxy.DashProvider("server.org", url.split("/"), None, vod, content, now=now)
    return dash_proxy.get_media(dp)

def mpd(url, now, args=None, https=0):
    dp = dash_proxy.DashProvider("server.org", url.split("/"), args, VOD_CONFIG_DIR, CONTENT_ROOT, now=now, is_https=https)
    return mpd_proxy.get_mpd(dp)

def request(url, now, rng=None, sleeps=None, limit=0, vod=VOD_CONFIG_DIR, content=CONTENT_ROOT):
    env = {'HTTP_HOST': 'server.org', 'REQUEST_URI': '/' + url, 'VOD_CONF_DIR': vod, 'CONTENT_ROOT': content}
    if rng: env['HTTP_RANGE'] = rng
    clock = [now]
    mod.time = lambda: clock[0]
    def slp(d):
        clock[0] += d
    mod.sleep = slp
    mod.MAX_SESSION_LENGTH = limit
    out = {}
    def start(status, headers):
        out['status'] = int(status.split()[0]); out['headers'] = dict(headers)
    times = []
    body = []
    with contextlib.redirect_stdout(io.StringIO()):
        for b in mod.application(env, start):
            body.append(b); times.append(clock[0])
    return out['status'], out['headers'], b"".join(body), times
'''
SEEDS = [
 dict(id="c01-late-limit-with-offset", property="C01", file="dashlivesim/dashlib/dash_proxy.py",
  edits=[("        if ((now_float > seg_ast + seg_dur +\n                cfg.timeshift", "        if ((now_float > seg_ast - cfg.availability_time_offset_in_s + seg_dur +\n                cfg.timeshift")],
  demo=PRE + '''
# segment 10 is available from 60+6 until 66+6+60 whatever the availability time offset
ok = media("dash/start_0/tsbd_60/ato_4/testpic/V1/0.m4s", 70)
assert isinstance(ok, bytes)
ok = media("dash/start_0/tsbd_60/ato_4/testpic/V1/0.m4s", 71.5)
assert isinstance(ok, bytes), ok
late = media("dash/start_0/tsbd_60/ato_4/testpic/V1/0.m4s", 72.5)
assert isinstance(late, dict) and not late["ok"]
''', needs="an availabilityTimeOffset and a request in the last seconds of the time-shift window",
  breaks="segments are refused before the time-shift buffer has passed them"),
 dict(id="c02-thumb-first-in-loop", property="C02", file="dashlivesim/dashlib/dash_proxy.py",
  edits={"dashlivesim/dashlib/dash_proxy.py": [("    vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop\n    assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop\n    rel_path = cfg.rel_path\n    thumb_path", "    vod_nr = seg_nr_in_loop + 1\n    assert 0 < vod_nr <= cfg.vod_nr_segments_in_loop\n    rel_path = cfg.rel_path\n    thumb_path")]},
  demo=PRE + '''
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/pic/thumbs")
    for i in (1, 2, 3, 4, 5, 6):
        with open(d + "/pic/thumbs/%d.jpg" % i, "wb") as fh:
            fh.write(b"T%d" % i)
    os.makedirs(d + "/cfg")
    with open(d + "/cfg/pic.cfg", "w") as fh:
        fh.write("[General]\\nversion = 1.1\\n[Setup]\\nfirst_segment_in_loop = 3\\nnr_segments_in_loop = 4\\n"
                 "segment_duration_s = 2\\ndefault_tsbd_secs = 300\\n[image]\\nrepresentations = thumbs\\ntimescale = 1\\n"
                 "total_duration = 8\\ndat_file = x.dat\\n")
    got = [media("dash/pic/thumbs/%d.jpg" % nr, 100.0, d + "/cfg", d) for nr in (40, 41, 42, 43)]
    assert got == [b"T3", b"T4", b"T5", b"T6"], got
finally:
    shutil.rmtree(d)
''', needs="a VoD asset whose loop does not start at segment 1 and a thumbnail request",
  breaks="thumbnails are taken from the wrong segment of the loop"),
 dict(id="c03-first-chunk-early", property="C03", file="dashlivesim/mod_wsgi/mod_dashlivesim.py",
  edits=[("payload_out.chunks, start=1):", "payload_out.chunks):")],
  demo=PRE + '''
st, h, body, times = request("dash/start_0/ato_5/chunkdur_1/testpic/V1/349.m4s", 6 * 349 + 1.0)
assert st == 200 and times
for i, x in enumerate(times):
    assert x >= 6 * 349 + (i + 1) * 1 - 0.11, (i, x)
''', needs="a chunked low-latency request made before the segment is complete",
  breaks="every chunk is sent one chunk duration before it is produced"),
 dict(id="c05-length-of-range", property="C05", file="dashlivesim/mod_wsgi/mod_dashlivesim.py",
  edits=[("start_reply(status_code, start_response, len(payload_out), headers)\n            yield payload_out", "start_reply(status_code, start_response, len(payload_in), headers)\n            yield payload_out")],
  demo=PRE + '''
st, h, body, _ = request("dash/testpic/V1/init.mp4", 1000, "bytes=10-19")
assert st == 206 and len(body) == 10 and h['Content-Length'] == '10', (st, len(body), h)
''', needs="a byte-range request", breaks="Content-Length of partial content is the length of the full body"),
 dict(id="c09-wrap-of-loop", property="C09", file="dashlivesim/dashlib/dash_proxy.py",
  edits=[("    vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop\n    assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop\n    rel_path = cfg.rel_path\n    nr_reps",
          "    vod_nr = (seg_nr_in_loop + cfg.vod_first_segment_in_loop) % cfg.vod_nr_segments_in_loop or \\\n        cfg.vod_nr_segments_in_loop\n    rel_path = cfg.rel_path\n    nr_reps")],
  demo=PRE + '''
d = tempfile.mkdtemp()
try:
    shutil.copytree(CONTENT_ROOT + "/testpic", d + "/testpic")
    os.remove(d + "/testpic/V1/1.m4s"); os.remove(d + "/testpic/V1/2.m4s")
    with open(d + "/testpic.cfg", "w") as fh:
        fh.write("[General]\\nversion = 1.1\\n[Setup]\\nfirst_segment_in_loop = 349\\nnr_segments_in_loop = 2\\n"
                 "segment_duration_s = 6\\ndefault_tsbd_secs = 300\\n[video]\\nrepresentations = V1\\ntimescale = 90000\\n"
                 "total_duration = 1080000\\ndat_file = x.dat\\n")
    assert isinstance(media("dash/testpic/V1/11.m4s", 73.0, d, d), bytes)
finally:
    shutil.rmtree(d)
''', needs="a VoD asset whose loop does not start at segment 1", breaks="segments are taken from outside the loop"),
 dict(id="c14-empty-as-success", property="C14", file="dashlivesim/mod_wsgi/mod_dashlivesim.py",
  edits=[("                if not payload_in:\n                    success = False\n            else:", "                if payload_in is None:\n                    success = False\n            else:")],
  demo=PRE + '''
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/pic/thumbs")
    open(d + "/pic/thumbs/1.jpg", "wb").close()
    os.makedirs(d + "/cfg")
    with open(d + "/cfg/pic.cfg", "w") as fh:
        fh.write("[General]\\nversion = 1.1\\n[Setup]\\nfirst_segment_in_loop = 1\\nnr_segments_in_loop = 1\\n"
                 "segment_duration_s = 2\\ndefault_tsbd_secs = 300\\n[image]\\nrepresentations = thumbs\\ntimescale = 1\\n"
                 "total_duration = 2\\ndat_file = x.dat\\n")
    st, h, body, _ = request("dash/pic/thumbs/40.jpg", 100.0, vod=d + "/cfg", content=d)
    assert st == 404, st
finally:
    shutil.rmtree(d)
''', needs="content that is empty", breaks="empty content is answered with status 200 instead of 404"),
 dict(id="c26-non-numeric-start", property="C26", file="dashlivesim/mod_wsgi/mod_dashlivesim.py",
  edits=[("                except Exception:\n                    pass\n\n        if ext", "                except Exception:\n                    start_time = int(now)\n\n        if ext")],
  demo=PRE + '''
st, h, body, _ = request("dash/sts_1000/testpic/V1/init.mp4", 1020, limit=60)
assert st == 200
st, h, body, _ = request("dash/sts_x/testpic/V1/init.mp4", 1020, limit=60)
assert st == 404, st
st, h, body, _ = request("dash/sts_x/testpic/Manifest.mpd", 1020, limit=60)
assert st == 302, st
''', needs="session limiting and a start-time option that is not a number", breaks="sessions without a valid start time are served without limit"),
 dict(id="c28-down-first-boundary", property="C28", file="dashlivesim/dashlib/dash_proxy.py",
  edits=[("                    if i * (total_dur) < now_mod_60 <= i * (total_dur) + dur1:", "                    if i * (total_dur) <= now_mod_60 < i * (total_dur) + dur1:")],
  demo=PRE + '''
def down(now):
    r = media("dash/baseurl_d10_u20/testpic/V1/0.m4s", now)
    return isinstance(r, dict) and "down" in r["pl"]
got = [s for s in range(60) if down(1200 + s)]
assert got == list(range(1, 11)) + list(range(31, 41)), got
''', needs="a BaseURL that starts down and a request in the first or last second of the outage", breaks="the outage is one second off the announced one"),
]
