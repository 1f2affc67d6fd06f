"""Reference definitions for segment requests, written from the property statements (analysed, never executed)."""
from os.path import join, splitext
from math import ceil


def SEGMENT(file, number, seg_dur, offset, lmsg, timescale, scte35, rep_path, is_ttml, sample_dur, sidx, last_up, now):
    pass


def MUX(first, second):
    pass


def CHUNKS(segment, duration, trex):
    pass


def TREX(file):
    pass


def FILE(path):
    pass


def CHUNKED(start, chunks):
    pass


def first_number(cfg):
    nr = 1 if cfg.start_nr == -1 else cfg.start_nr
    if cfg.timeoffset is not None:
        nr = nr + (cfg.availability_start_time_in_s - cfg.timeoffset) // cfg.seg_duration
    return nr


def media_time_at_ast(cfg):
    if cfg.timeoffset is not None:
        return cfg.availability_start_time_in_s - cfg.timeoffset
    return 0


def timescale_of(cfg):
    timescale = None
    for rep in cfg.reps:
        if rep['id'] == cfg.rel_path:
            timescale = rep['timescale']
            break
    return timescale


def timescale_first(cfg):
    return cfg.reps[0]['timescale']


def number(cfg, timescale):
    base = splitext(cfg.filename)[0]
    if base[0] == 't':
        return int(round(float(base[1:]) / cfg.seg_duration / timescale))
    return int(base)


def stop_number(cfg):
    if cfg.stop_time is None:
        return None
    return first_number(cfg) + cfg.media_presentation_duration // cfg.seg_duration


def served(prov, n):
    """C01: is media segment n available now?"""
    cfg = prov.cfg
    now = prov.now_float
    ast = cfg.availability_start_time_in_s
    ato = cfg.availability_time_offset_in_s
    dur = cfg.seg_duration
    first = first_number(cfg)
    stop = stop_number(cfg)
    if ato == -1:
        if now < ast:
            return False
    elif now < ast + dur - ato:
        return False
    if cfg.availability_end_time is not None and prov.now > cfg.availability_end_time + 60:
        return False
    if n < first:
        return False
    if stop is not None and n >= stop:
        return False
    if len(cfg.last_segment_numbers) > 0 and n > first + cfg.last_segment_numbers[-1]:
        return False
    available = ast + (n - first + 1) * dur
    if ato != -1:
        if now < available - ato:
            return False
        if stop is None and now > available + dur + cfg.timeshift_buffer_depth_in_s:
            return False
    return True


def in_outage(now, multi_url):
    """C28: 'down', 'last' (the last second before an outage) or 'up'"""
    if len(multi_url) != 1:
        return 'up'
    a, b = multi_url[0].split("_")
    x = int(a[1:])
    y = int(b[1:])
    s = now % 60
    result = 'up'
    if a[0] == 'u' and b[0] == 'd':
        for i in range(int(ceil(60.0 / float(x + y)))):
            if i * (x + y) + x < s <= (i + 1) * (x + y):
                result = 'down'
                break
            elif s == i * (x + y) + x:
                result = 'last'
    elif a[0] == 'd' and b[0] == 'u':
        for i in range(int(ceil(60.0 / float(x + y)))):
            if i * (x + y) < s <= i * (x + y) + x:
                result = 'down'
                break
    return result


def stored_number(cfg, n):
    """C09"""
    t = (n - first_number(cfg)) * cfg.seg_duration + media_time_at_ast(cfg)
    in_loop = t % (cfg.seg_duration * cfg.vod_nr_segments_in_loop)
    return cfg.vod_first_segment_in_loop + in_loop // cfg.seg_duration


def loop_offset(cfg, n):
    t = (n - first_number(cfg)) * cfg.seg_duration + media_time_at_ast(cfg)
    loop = cfg.seg_duration * cfg.vod_nr_segments_in_loop
    return t // loop * loop


def is_last(cfg, n):
    """C04"""
    return n - first_number(cfg) in cfg.last_segment_numbers


def segment(prov, rep, rel_path, n, last_up, sample_dur):
    cfg = prov.cfg
    ext = splitext(cfg.filename)[1]
    path = join(prov.content_dir, cfg.content_name, rel_path, "%d%s" % (stored_number(cfg, n), ext))
    return SEGMENT(path, n, cfg.seg_duration, loop_offset(cfg, n), is_last(cfg, n), rep['timescale'],
                   cfg.scte35_per_minute if rep['content_type'] == 'video' else 0, rel_path,
                   rep['content_type'] == 'subtitles', sample_dur, cfg.insert_sidx, last_up, prov.now)


def content(prov, chunk, n, last_up):
    cfg = prov.cfg
    if len(cfg.reps) == 1:
        rep = cfg.reps[0]
        if not chunk:
            return segment(prov, rep, cfg.rel_path, n, last_up, None)
        trex = TREX(join(prov.content_dir, cfg.content_name, cfg.rel_path, "init.mp4"))
        seg = segment(prov, rep, cfg.rel_path, n, last_up, trex.default_sample_duration)
        dur = int(cfg.chunk_duration_in_s * rep['timescale'])
        start = cfg.availability_start_time_in_s + (n - first_number(cfg)) * cfg.seg_duration
        return CHUNKED(start, [c for c in CHUNKS(seg, dur, trex)])
    parts = cfg.rel_path.split("/")[:-1]
    path1 = "/".join(parts + [cfg.reps[0]['id']])
    path2 = "/".join(parts + [cfg.reps[1]['id']])
    seg1 = segment(prov, cfg.reps[0], path1, n, last_up, None)
    seg2 = segment(prov, cfg.reps[1], path2, n, last_up, None)
    return MUX(seg1, seg2)


def media(prov, chunk, timescale):
    cfg = prov.cfg
    ext = splitext(cfg.filename)[1]
    if ext != ".m4s":
        return None
    n = number(cfg, timescale)
    state = in_outage(prov.now, cfg.multi_url)
    if state == 'down' or not served(prov, n):
        return False
    return content(prov, chunk, n, state == 'last')


def thumbnail(prov, timescale):
    cfg = prov.cfg
    ext = splitext(cfg.filename)[1]
    if ext != ".jpg":
        return None
    n = number(cfg, timescale)
    if not served(prov, n):
        return False
    with open(join(prov.content_dir, cfg.content_name, cfg.rel_path, "%d%s" % (stored_number(cfg, n), ext)), 'rb') as f:
        return f.read()


def init_allowed(prov):
    cfg = prov.cfg
    return prov.now >= cfg.availability_start_time_in_s - cfg.init_seg_avail_offset


def init(prov):
    cfg = prov.cfg
    if splitext(cfg.filename)[1] != ".mp4":
        return None
    if not init_allowed(prov):
        return False
    if len(cfg.reps) == 1:
        return LIVEINIT("%s/%s/%s/%s" % (prov.content_dir, cfg.content_name, cfg.rel_path, cfg.filename))
    if len(cfg.reps) == 2:
        base = "%s/%s/%s" % (prov.content_dir, cfg.content_name, "/".join(cfg.rel_path.split("/")[:-1]))
        return MUXINIT("%s/%s/%s" % (base, cfg.reps[0]['id'], cfg.filename), "%s/%s/%s" % (base, cfg.reps[1]['id'], cfg.filename),
                       None, None)
    return False
