"""Reference definitions for times as text (analysed, never executed)."""
import re
import time

from dashlivesim.dashlib import timeformatconversions
from dashlivesim.dashlib import ttml_timing_offset


def code_iso(s, n):
    return timeformatconversions.seconds_to_iso_duration(n)


def iso(s, n):
    days = n // 86400
    hours = n // 3600 % 24
    minutes = n // 60 % 60
    seconds = n % 60
    out = "P"
    if days != 0:
        out += "%dD" % days
    clock = ""
    if hours != 0:
        clock += "%dH" % hours
    if minutes != 0:
        clock += "%dM" % minutes
    if seconds != 0 or n == 0:
        clock += "%dS" % seconds
    if clock != "":
        out += "T" + clock
    return out


def code_timestamp(s, n):
    return timeformatconversions.make_timestamp(n)


def timestamp(s, n):
    return time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(n))


def code_seconds(s, text):
    return timeformatconversions.iso_duration_to_seconds(text)


DURATION = re.compile(r"PT((?P<hours>\d+)H)?((?P<minutes>\d+)M)?((?P<seconds>\d+)(\.\d+)?S)?")


def seconds(s, text):
    m = DURATION.match(text)
    if not m:
        raise timeformatconversions.TimeFormatConversionError(text)
    total = 0
    if m.group('hours') is not None:
        total += 3600 * int(m.group('hours'))
    if m.group('minutes') is not None:
        total += 60 * int(m.group('minutes'))
    if m.group('seconds') is not None:
        total += int(m.group('seconds'))
    return total


# ---------------------------------------------------------------- subtitles
ATTRIBUTE = re.compile(rb'(begin|end)="(\d\d):(\d\d):(\d\d)')
CLOCK = re.compile(rb'(\w+) : (\d\d):(\d\d):(\d\d)(\.\d+)?')
NUMBER = re.compile(rb'(Segment # )(\d+)')


def code_ttml(s, text):
    return ttml_timing_offset.adjust_ttml_content(text, s.offset, s.nr)


def moved(s, m):
    return int(m.group(4)) + 60 * int(m.group(3)) + 3600 * int(m.group(2)) + s.offset


def ttml(s, text, order):
    def attribute(m):
        total = moved(s, m)
        return b'%s="%02d:%02d:%02d' % (m.group(1), total // 3600, total // 60 % 60, total % 60)

    def clock(m):
        return b'%s : UTC = %s' % (m.group(1), time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(moved(s, m))).encode('utf-8'))

    def number(m):
        return b'%s%d' % (m.group(1), s.nr)

    for step in order:
        if step == 'a':
            text = re.sub(ATTRIBUTE, attribute, text)
        elif step == 'c':
            text = re.sub(CLOCK, clock, text)
        else:
            text = re.sub(NUMBER, number, text)
    return text
