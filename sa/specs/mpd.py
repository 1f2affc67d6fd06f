"""Reference definitions for manifests, written from the property statements (analysed, never executed)."""
import time

from dashlivesim.dashlib.timeformatconversions import make_timestamp, seconds_to_iso_duration

NAMES = ('type', 'availabilityStartTime', 'availabilityEndTime', 'minimumUpdatePeriod', 'timeShiftBufferDepth',
         'mediaPresentationDuration', 'suggestedPresentationDelay', 'maxSegmentDuration')


def attributes(s, now, dur):
    """C17: the attributes of the MPD element for session settings s at time now; None: absent"""
    static = s['stop_time'] is not None and now > s['stop_time']
    timeline = s['seg_timeline'] or s['seg_timeline_nr']
    a = {'type': 'static' if static else 'dynamic',
         'availabilityStartTime': make_timestamp(s['availability_start_time_in_s']),
         'availabilityEndTime': None, 'minimumUpdatePeriod': None, 'timeShiftBufferDepth': None,
         'mediaPresentationDuration': None, 'suggestedPresentationDelay': None, 'maxSegmentDuration': None}
    if s['availability_end_time'] is not None:
        a['availabilityEndTime'] = make_timestamp(s['availability_end_time'])
    if not static:
        if timeline:
            a['minimumUpdatePeriod'] = 'PT0S'
        elif s['minimum_update_period_in_s'] is None:
            a['minimumUpdatePeriod'] = 'P100Y'
        else:
            a['minimumUpdatePeriod'] = seconds_to_iso_duration(s['minimum_update_period_in_s'])
        if s['media_presentation_duration'] is None:
            a['timeShiftBufferDepth'] = seconds_to_iso_duration(s['timeshift_buffer_depth_in_s'])
    if s['media_presentation_duration'] is not None:
        a['mediaPresentationDuration'] = seconds_to_iso_duration(s['media_presentation_duration'])
    if s['suggested_presentation_delay_in_s'] is not None:
        a['suggestedPresentationDelay'] = seconds_to_iso_duration(s['suggested_presentation_delay_in_s'])
    if not timeline:
        a['maxSegmentDuration'] = "PT%dS" % dur
    return a


def first_number(s, dur):
    """C06: the first segment number that is served"""
    nr = s['start_nr']
    if nr == -1:
        nr = 1
    if s['timeoffset'] is not None:
        nr = nr + (s['availability_start_time_in_s'] - s['timeoffset']) // dur
    return nr


def offset(s):
    """C06: media time in seconds at the availability start time"""
    if s['timeoffset'] is None:
        return 0
    return s['availability_start_time_in_s'] - s['timeoffset']


def listed(s, now, start, duration):
    """C30: the listed window and if the segment closest to its start is first"""
    if s['stop_time'] is not None and s['stop_time'] != 0 and s['timeoffset'] == 0:
        return s['start_time'], min(now, s['stop_time']), True
    return window(s, now, start, duration)


def window(s, now, start, duration):
    """relative to the availability start time"""
    ast = s['availability_start_time_in_s']
    first = max(ast + start, now - s['timeshift_buffer_depth_in_s'])
    last = now
    if duration is not None:
        last = min(ast + start + duration, now)
    return first - ast, last - ast, False


def time_media(s, media):
    """C30: addressing by time"""
    return media.replace('$Number$', 't$Time$')


def setting(s, name):
    return s[name]


def utc_now(s, form):
    """C27: the current time"""
    if form == 0:
        return time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(time.time()))
    if form == 1:
        return time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime())
    return make_timestamp(time.time())


def latency(s, ato, form):
    """C31: availabilityTimeOffset; 0: none"""
    if ato == -1:
        return 'INF'
    if ato == 0:
        return 0
    if form == 0:
        return '%f' % ato
    if form == 1:
        return str(ato)
    return '%g' % ato


def periods(s, now, dur, n, etp, callback):
    """C18: the announced periods for n periods per hour"""
    length = 3600 // n
    first = (now - s['timeshift_buffer_depth_in_s'] - dur) // length
    last = (now + length // 2) // length
    out = []
    for k in range(first, last + 1):
        terminated = None
        if etp > 0 and k % (n // etp) == 0:
            terminated = length // 2 if s['etp_duration'] == -1 else s['etp_duration']
        called = callback > 0 and k % (n // callback) == 0
        out.append(("p%d" % k, "PT%dS" % (k * length), "%d" % (k * length // dur), "%d" % (k * length), terminated, not called))
    return out


def loss(s, now, up, down):
    """C28: time of the manifest that is given, and if it has the event stream signal"""
    sec = now % 60
    total = up + down
    n = -(-60 // total)
    for i in range(n):
        if i * total + up < sec <= (i + 1) * total:
            return now - sec + i * total + up, False
        if sec == i * total + up:
            return now, True
    return now, False
