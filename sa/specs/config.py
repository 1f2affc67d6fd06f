"""Reference definitions for URL options and session times (analysed, never executed)."""

INTEGER = {'init': 'init_seg_avail_offset', 'tsbd': 'timeshift_buffer_depth_in_s', 'mup': 'minimum_update_period_in_s',
           'periods': 'periods_per_hour', 'xlink': 'xlink_periods_per_hour', 'etp': 'etp_periods_per_hour',
           'etpDuration': 'etp_duration', 'insertad': 'insert_ad', 'mpdcallback': 'mpd_callback',
           'peroff': 'period_offset', 'scte35': 'scte35_per_minute', 'spd': 'suggested_presentation_delay_in_s',
           'timeoffset': 'timeoffset'}
FLAG = {'continuous': 'cont_multiperiod', 'segtimeline': 'seg_timeline', 'segtimelinenr': 'seg_timeline_nr',
        'sidx': 'insert_sidx', 'segtimelineloss': 'segtimelineloss'}


def defaults():
    return {'availability_start_time_in_s': 0, 'availability_time_offset_in_s': 0, 'availability_time_complete': True,
            'suggested_presentation_delay_in_s': None, 'availability_end_time': None,
            'media_presentation_duration': None, 'timeshift_buffer_depth_in_s': None,
            'minimum_update_period_in_s': None, 'chunk_duration_in_s': None, 'init_seg_avail_offset': 0,
            'tfdt32_flag': False, 'periods_per_hour': -1, 'xlink_periods_per_hour': -1, 'etp_periods_per_hour': -1,
            'etp_duration': -1, 'insert_ad': -1, 'mpd_callback': -1, 'cont_multiperiod': False, 'seg_timeline': False,
            'seg_timeline_nr': False, 'period_offset': -1, 'scte35_per_minute': 0, 'start_nr': 0,
            'add_location': False, 'start_time': None, 'stop_time': None, 'timeoffset': None, 'insert_sidx': False,
            'segtimelineloss': False, 'multi_url': [], 'utc_timing_methods': [], 'last_segment_numbers': []}


class SessionError(Exception):
    pass


def down(x, step):
    return x // step * step


def up(x, step, form):
    if form == 0:
        return int(x + 0.999 * step) // step * step
    if form == 1:
        return (x + step - 1) // step * step
    return -(-x // step) * step


def settings(options, now, tsb, dur, form):
    """C11, C29, C19: the settings of a session with the given options (name, value) and asset (tsb, segment duration)"""
    s = defaults()
    start = None
    stop = None
    modulo = None
    cont = False
    durations = []
    for key, value in options:
        if key in INTEGER:
            s[INTEGER[key]] = int(value)
        elif key in FLAG:
            if int(value) == 1:
                s[FLAG[key]] = True
        elif key == 'start' or key == 'ast':
            start = int(value)
        elif key == 'startrel':
            start = now + int(value)
            s['add_location'] = True
        elif key == 'stop':
            stop = int(value)
        elif key == 'stoprel':
            stop = now + int(value)
            s['add_location'] = True
        elif key == 'dur':
            durations.append(int(value))
        elif key == 'modulo':
            modulo = int(value) * 60
        elif key == 'tfdt':
            s['tfdt32_flag'] = True
        elif key == 'cont':
            cont = True
        elif key == 'baseurl':
            s['multi_url'].append(value)
        elif key == 'utc':
            s['utc_timing_methods'] = value.split("-")
        elif key == 'snr':
            try:
                nr = int(value)
            except ValueError:
                raise SessionError()
            if nr < -1:
                raise SessionError()
            s['start_nr'] = nr
        elif key == 'ato':
            if value == 'inf':
                s['availability_time_offset_in_s'] = -1
            else:
                try:
                    s['availability_time_offset_in_s'] = max(float(value), 0)
                except ValueError:
                    s['availability_time_offset_in_s'] = 0
        elif key == 'chunkdur':
            try:
                chunk = float(value)
                if chunk > 0:
                    s['chunk_duration_in_s'] = chunk
                    s['availability_time_complete'] = False
            except ValueError:
                pass
    if s['timeshift_buffer_depth_in_s'] is None:
        s['timeshift_buffer_depth_in_s'] = tsb
    if start is not None:
        if modulo is not None:
            raise SessionError()
        ast = down(start, dur)
        s['availability_start_time_in_s'] = ast
        s['start_time'] = ast
        if s['minimum_update_period_in_s'] is None:
            s['minimum_update_period_in_s'] = 10
        if len(durations) > 0:
            total = 0
            ends = []
            for d in durations:
                total += d
                ends.append((down(start + total, dur), total))
            s['last_segment_numbers'] = [(down(start + total, dur) - ast) // dur - 1]
            end, presentation = ends[-1]
            for e, p in ends[::-1]:
                if now > e - 2 * s['minimum_update_period_in_s']:
                    break
                end = e
                presentation = p
            s['availability_end_time'] = end
            s['media_presentation_duration'] = presentation
        if stop is not None:
            end = up(stop, dur, form)
            s['stop_time'] = end
            s['media_presentation_duration'] = end - ast
            s['timeshift_buffer_depth_in_s'] = end - ast
    if s['tfdt32_flag']:
        if cont:
            raise SessionError()
        s['availability_start_time_in_s'] = down(now, 10800)
        s['availability_end_time'] = down(now, 10800) + 10800
        s['media_presentation_duration'] = 10800
        s['minimum_update_period_in_s'] = 5400
    if cont:
        s['availability_start_time_in_s'] = down(now - dur, dur)
        s['availability_end_time'] = down(now - dur, dur) + 10800
        s['media_presentation_duration'] = 10800
        s['minimum_update_period_in_s'] = 10800
    if modulo is not None:
        start, presentation, update, end = modulo_session(now, modulo)
        s['availability_start_time_in_s'] = start
        s['media_presentation_duration'] = presentation
        s['minimum_update_period_in_s'] = update
        s['availability_end_time'] = end
        s['last_segment_numbers'] = [int(presentation // dur) - 1]
    return s


def modulo_session(now, length):
    """C19"""
    into = now % length
    start = now // length * length
    if into * 100 / length < 10:
        tenths = 2
    elif into * 100 / length < 30:
        tenths = 4
    elif into * 100 / length < 50:
        tenths = 6
    elif into * 100 / length < 90:
        tenths = 8
    else:
        start = start + length
        tenths = 2
    presentation = tenths * length / 10
    update = length / 20
    return start, presentation, update, start + presentation + update


def publish_time(s, now):
    if s['availability_start_time_in_s'] != 0:
        return down(now, s['minimum_update_period_in_s'])
    return 0


def place(base, parts, position):
    """content name, base URL, relative path, file name of a request; parts that would leave the directory are refused"""
    for part in parts[position:]:
        if part == "" or part == "." or part == "..":
            raise ValueError("path")
    return {'content_name': parts[position], 'base_url': base + "/".join(parts[:position + 1]) + "/",
            'rel_path': "/".join(parts[position + 1:-1]), 'filename': parts[-1]}


def reps(part, media):
    """the representations that a URL part names"""
    if part == "" or part == "." or part == "..":
        raise ValueError("path")
    r = []
    for name in part.split("__"):
        kind = None
        for content_type in media.keys():
            if name in media[content_type]['representations']:
                kind = content_type
                break
        r.append({'id': name, 'content_type': kind, 'timescale': media[kind]['timescale']})
    return r
