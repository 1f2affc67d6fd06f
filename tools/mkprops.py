"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
D = "dashlivesim/dashlib/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Media segments are served exactly inside their availability window",
  "A request for media segment n is answered with segment content exactly when n is not before the first segment number, not at or after the stop number (when a stop time is set), not beyond the last segment of a time-limited session, the session has started, the request is at most 60 s after the availability end time, and now lies between the segment's availability time (AST + (n - first + 1) * segment duration, minus the availability time offset) and that availability time without the offset plus one segment duration plus the time-shift buffer depth. An infinite availability time offset switches off the early and late limits of the individual segment, and a set stop time switches off the late limit. Both boundaries are inclusive (a segment is served at exactly its availability time and at exactly the end of the buffer); outside these limits the reply is a negative answer and never content.",
  ["inputs", "configurations"], "for every segment number or time address, every wall-clock time and every combination of start/stop/dur/tsbd/ato/snr/timeoffset options",
  "The tests request about a dozen (n, now) pairs for a handful of configurations; the boundaries and the option combinations form an unbounded grid.",
  [D + "dash_proxy.py", D + "configprocessor.py"],
  [("session and per-segment timing guards", "dash_proxy.get_media, dash_proxy.process_media_segment"),
   ("first and stop numbers", "configprocessor.Config.adjusted_start_number, stop_number")])

p("C02", "Thumbnails follow the same timing and mapping rules as media segments",
  "A thumbnail (.jpg) request for number n is served exactly when a media segment with the same number would be served in the same session, and then returns the bytes of the stored thumbnail with the same stored number as the media segment maps to. Outside the window the reply is a negative answer with a textual reason, never an internal error.",
  ["inputs", "configurations"], "for every thumbnail number, wall-clock time and option combination",
  "One test fetches one thumbnail with default options; refusals and options are never exercised for thumbnails.",
  [D + "dash_proxy.py"], [("sibling implementation of the segment guards", "dash_proxy.process_thumbnail")])

p("C03", "Low-latency chunks are released on the wall clock, in order and completely",
  "In chunked mode the i-th chunk (1-based) of segment n is not handed out before AST + (n - first) * segment duration + i * chunk duration - 0.1 s of wall-clock time, whatever the session start, start number or time offset. Chunks are handed out in media order, each exactly once, and a chunk that is already due is handed out without waiting.",
  ["inputs", "configurations", "schedules"], "for every segment, request time and session configuration with chunkdur",
  "No test runs the streaming reply; pacing depends on start time and offsets that would need hours of wall-clock to sample.",
  ["dashlivesim/mod_wsgi/mod_dashlivesim.py", D + "dash_proxy.py", D + "chunker.py"],
  [("pacing loop", "mod_dashlivesim.application"), ("segment start handed to the loop", "dash_proxy.process_media_segment (ChunkedSegment)")])

p("C04", "The last segment of a time-limited session carries lmsg, and no other does",
  "In a time-limited session (dur_ or modulo_) the media segment that ends at the end of the announced media presentation duration, and only that one, has the 'lmsg' brand in its styp box; it is counted from the first segment of the session independently of start number and time offset. All other brands of the stored segment are kept in order and a stored lmsg brand is removed from segments that are not last.",
  ["inputs", "configurations"], "for every session length, start number and time offset, and every stored brand list",
  "Tests check one dur_ session with the default start number.",
  [D + "dash_proxy.py", D + "configprocessor.py", D + "mediasegmentfilter.py"],
  [("last segment number", "Config.process_start_time, Config.update_with_modulo_period"), ("brand rewriting", "MediaSegmentFilter.process_styp")])

p("C05", "Byte-range requests return exactly the requested bytes or the whole body",
  "A request with one satisfiable byte range (a-b, a-, or -suffix) is answered 206 with exactly those bytes of the full body and 'Content-Range: bytes first-last/total'; an end beyond the body is clipped to the last byte and a suffix longer than the body selects the whole body. Anything else (several ranges, malformed or unsatisfiable ranges) is answered with the complete body, status 200 and no Content-Range header, and never with an internal error. Error replies (404) and chunked replies are never ranged.",
  ["inputs"], "for every Range header value and body length", "No test sends a Range header.",
  ["dashlivesim/mod_wsgi/mod_dashlivesim.py"], [("range parsing", "mod_dashlivesim.handle_byte_range"), ("status and header selection", "mod_dashlivesim.application")])

p("C06", "Manifest start number and presentation offset agree with what the server serves",
  "For single-period manifests the startNumber that a client reads from the manifest (1 when the attribute is absent) is the number of the first segment the server serves, for every snr_ value including -1 and every timeoffset. The presentationTimeOffset announced equals the media time that the served segments have at the availability start time (AST - timeoffset, or no offset), so segment times minus presentationTimeOffset start at zero at AST.",
  ["inputs", "configurations"], "for every snr_, start_ and timeoffset_ value",
  "Tests check snr_0/1/111/-1 attributes in the MPD only, never against the media path or together with timeoffset.",
  [D + "mpd_proxy.py", D + "mpdprocessor.py", D + "dash_proxy.py", D + "configprocessor.py"],
  [("manifest value", "mpd_proxy.generate_dynamic_mpd/generate_period_data, MpdProcessor.update_periods"), ("server value", "dash_proxy.process_media_segment")])

p("C07", "Generated ISO-BMFF boxes declare exactly the size they emit",
  "Every box produced by the box generator library starts with a 32-bit size equal to the number of bytes the whole box serialises to, followed by its four-character type, for every content (any number of samples, groups, references, brands, child boxes and payload bytes). Every count, length and flags field inside a box describes exactly the entries that follow it (sample encryption with 8-byte initialisation vectors). The data offset written into a generated movie fragment equals the distance from the start of that moof to the first payload byte of the following mdat, and the sample count equals the number of sample entries written.",
  ["inputs", "programs"], "for every box class, every field value and every number of repeated entries",
  "Only the chunked path instantiates a few boxes in tests, and no test adds up sizes; a wrong size in an optional branch is invisible.",
  [D + "boxes.py"], [("__iter__/size pairs", "every class in boxes.py"), ("data offset", "boxes.create_moof")])

p("C08", "Segment rewriting changes only the intended fields and keeps offsets valid",
  "When a stored media segment is rewritten, only mfhd sequence number, tfdt time, styp lmsg brand, the data-offset/aux-offset fields, removed sidx boxes and (for subtitles) the TTML sample and its size change; every other byte is copied unchanged. If tfdt grows to 64 bits its box size and version are changed consistently, the enclosing traf and moof sizes grow by the same 4 bytes and trun data offsets and saio offsets are increased by exactly that growth; if nothing grows they are unchanged.",
  ["inputs"], "for every stored segment layout (version 0/1 tfdt, saio, flags) and every loop offset",
  "Test content has one layout per box; widening to 64-bit, saio version 1 and flag combinations are not sampled.",
  [D + "mediasegmentfilter.py", D + "mp4filter.py"],
  [("box processors", "MediaSegmentFilter.process_*"), ("parent size propagation", "MP4Filter.filter_box")])

p("C09", "Live segment n maps to the right stored segment, shifted by whole loops",
  "Live segment n, whose media time is T = (n - first) * segment duration + (media time at AST), is produced from stored segment first_in_loop + floor(T / dur) mod loop length, with tfdt increased by floor(T / loop duration) * loop duration in track timescale units and the moof sequence number set to n. The stored number always lies in the configured loop, and all representations (also muxed ones, taken in URL order) use the same mapping; an address by time t maps to number round(t / timescale / segment duration).",
  ["inputs", "configurations"], "for every segment number, loop length, start number, session start and time offset",
  "Tests check three or four segment numbers; loop wrap-around with offsets and start numbers is unbounded.",
  [D + "dash_proxy.py", D + "mediasegmentfilter.py"],
  [("loop arithmetic", "dash_proxy.process_media_segment"), ("tfdt shift", "MediaSegmentFilter.process_tfdt"), ("sequence number", "MediaSegmentFilter.process_mfhd")])

p("C10", "Init segments are served with zero durations and otherwise byte-identical",
  "A served (non-multiplexed) initialization segment equals the stored one except that the duration fields of mvhd, tkhd and mdhd are zero, at the offsets and with the widths of the box version (0 or 1). Track id, track timescale, handler type and trex defaults are extracted from the standard positions for the box version. Init segments are refused exactly while now is before the availability start time minus the init_ offset.",
  ["inputs"], "for every box version combination and every init offset", "Stored test content only has version 0 boxes.",
  [D + "initsegmentfilter.py", D + "dash_proxy.py"], [("InitLiveFilter/InitFilter processors", "initsegmentfilter.py"), ("availability", "dash_proxy.get_init")])

p("C11", "Every URL option is recognised, converted and stored in exactly one setting",
  "Each option name accepted in the URL path is interpreted (no accepted option ends in an error about an uninterpretable option) and each sets exactly its own setting: integer options to the integer value, flag options only for the value 1, ato to max(value, 0) with 'inf' meaning infinite and non-numbers meaning 0, chunkdur only for positive numbers, baseurl and dur accumulating in URL order, utc split on hyphens, snr rejecting non-integers and values below -1. Option parsing stops at the first path part that is not an option, and that part is the content name; contradicting options (start with modulo, tfdt with cont) are refused with an error.",
  ["inputs", "configurations"], "for every option name, value and order of options", "Tests use about twenty fixed URLs out of 34 options.",
  [D + "configprocessor.py"], [("option table and dispatch", "ConfigProcessor.url_cfg_keys, ConfigProcessor.process_url")])

p("C12", "Requests do not influence each other",
  "The server keeps no state between requests: handling a request never modifies module-level, class-level or default-argument objects and uses no cross-request cache, so the same URL at the same time gives the same reply whatever was requested before. In particular headers and manifest options of one reply never leak into another.",
  ["histories", "schedules"], "for every sequence and interleaving of requests",
  "Tests build a fresh provider per request and never compare replies after different histories.",
  ["dashlivesim/mod_wsgi/mod_dashlivesim.py", D + "dash_proxy.py", D + "configprocessor.py", D + "mpdprocessor.py"],
  [("request entry", "mod_dashlivesim.application and everything reachable from it")])

p("C13", "Requests only read files below the configured roots and never write",
  "No URL can make the server open a file outside the content root and the VoD configuration directory: path parts that are empty, '.' or '..' after the options are refused before any file is opened. Serving a request opens files for reading only and never creates, deletes, renames or executes anything.",
  ["inputs"], "for every URL path", "No test sends a hostile path.",
  [D + "configprocessor.py", D + "dash_proxy.py", D + "mpd_proxy.py", D + "mp4filter.py", D + "segtimeline.py"],
  [("path construction", "Config.update_with_filedata, dash_proxy.process_*_segment, mpd_proxy.get_mpd")])

p("C14", "Every request gets exactly one well-formed HTTP reply",
  "For every request the status and headers are sent exactly once and before the first body byte, with a status from {200, 206, 302, 404, 410} and its reason phrase, a Content-Type, and (for non-chunked replies) a Content-Length equal to the number of bytes sent. A refused request and any error raised while producing the reply become a 404 text/plain reply whose body is the reason text, never an empty success and never an unhandled exception. The Content-Type follows the extension: mpd application/dash+xml, m4s video/iso.segment, mp4 video/mp4, jpg image/jpeg, otherwise text/plain.",
  ["inputs", "fault_sequences"], "for every request and every error raised while producing the payload",
  "Tests call the inner functions; the WSGI entry point is not tested.",
  ["dashlivesim/mod_wsgi/mod_dashlivesim.py"], [("reply construction", "mod_dashlivesim.application, start_reply, full_reply, get_mime_type")])

p("C15", "The scheme and host of the request are preserved in all generated URLs",
  "The BaseURL, Location, UTCTiming head URL and session-redirect URL generated for a request all use https exactly when the request came over https (http otherwise) and the host name of the request. Without baseurl_ options there is one BaseURL, made of the prefix, all options and the content name in their original order; with them there is one BaseURL per baseurl_ option, holding only that one, placed after the other options and before the content name.",
  ["inputs", "configurations"], "for every host, scheme and option list", "Two tests check http/https for BaseURL and the head URL of one URL.",
  [D + "dash_proxy.py", D + "configprocessor.py", "dashlivesim/mod_wsgi/mod_dashlivesim.py"],
  [("base URL", "DashProvider.__init__, Config.update_with_filedata"), ("redirect", "mod_dashlivesim.application")])

p("C16", "Relative session times are pinned to absolute ones in the Location element",
  "A manifest requested with startrel_ and/or stoprel_ contains a Location element whose URL is the request URL with each relative part present replaced by start_/stop_ and the absolute time used for this reply, and contains no BaseURL; a manifest requested without relative parts contains no Location. Giving only one of the two relative parts, or giving them in either order, also yields a valid manifest.",
  ["inputs"], "for every relative time combination and request time", "One test with both relative parts.",
  [D + "mpdprocessor.py", D + "configprocessor.py", D + "mpd_proxy.py"],
  [("location", "MpdProcessor.process_mpd_children"), ("pinning", "ConfigProcessor.process_url, Config.process_start_time")])

p("C17", "Manifest-level attributes follow the session configuration",
  "The manifest is static exactly when a stop time is set and now is later than it, otherwise dynamic; a static manifest has no minimumUpdatePeriod, and timeShiftBufferDepth is absent in static manifests and whenever mediaPresentationDuration is set. availabilityStartTime, availabilityEndTime (only if set), minimumUpdatePeriod (P100Y if unset, PT0S for dynamic SegmentTimeline manifests), timeShiftBufferDepth, mediaPresentationDuration (only if set; a stored value is removed), suggestedPresentationDelay (only if set) and maxSegmentDuration (absent for SegmentTimeline) carry exactly the session's values, formatted as ISO durations or UTC timestamps.",
  ["inputs", "configurations"], "for every option combination and every time relative to the stop time",
  "Tests look for a few attribute strings in a few manifests.",
  [D + "mpdprocessor.py", D + "mpd_proxy.py"], [("attributes", "mpd_proxy.generate_dynamic_mpd, MpdProcessor.process_mpd")])

p("C18", "Multi-period manifests announce contiguous, self-consistent periods",
  "With periods_n (n > 0) the manifest announces the periods k with k * D covering from (now - time-shift depth - segment duration) to (now + D/2), D = 3600/n, each with id p<k>, start k*D, presentationTimeOffset k*D and startNumber k*D / segment duration; periods_0 announces one period starting 1000 hours after AST with matching offset and number. With etp_m (or mpdcallback_m) every (n/m)-th of these periods, counted in k, is marked as terminated early after etpDuration_ (half the period by default) or gets a callback event; m that does not divide n is refused. Unsupported n (not a divisor of 60 in the documented list) are refused, n above 60 is treated as 60, and minimumUpdatePeriod is D/2 - 5 seconds (the segment duration for SegmentTimeline).",
  ["inputs", "configurations"], "for every n, now and time-shift depth", "Tests check a few n at one time.",
  [D + "mpd_proxy.py", D + "mpdprocessor.py"], [("period data", "mpd_proxy.generate_period_data")])

p("C19", "The modulo session schedule follows the documented table",
  "For modulo_x the availability start time, media presentation duration, minimum update period and availability end time are the documented functions of the position in the x-minute interval: 20/40/60/80 % durations with switches at exactly 10, 30, 50 and 90 %, and from 90 % on the next interval with 20 %. minimumUpdatePeriod is 5 % of the interval and the availability end time is start plus duration plus minimumUpdatePeriod; these values are the ones used for the session.",
  ["inputs"], "for every x and every time in the interval", "Three points are tested.",
  [D + "moduloperiod.py", D + "configprocessor.py"], [("schedule", "moduloperiod.ModuloPeriod"), ("use", "Config.update_with_modulo_period")])

p("C20", "SCTE-35 ad signalling follows the documented schedule and is announced",
  "With scte35_n on a video representation, a segment carries one splice-insert emsg exactly when it covers a point 8 s or 6 s before one of the splice times: 10 s (n=1), 10 and 40 s (n=2), 10, 30 and 50 s (n=3) past the minute; the event has the splice time, 10 s duration and 90000 timescale, its delta is counted from the segment start, and repeated messages for the same splice carry the same id. Non-video segments never carry one. The manifest announces the event stream (InbandEventStream with the same scheme and value, on video adaptation sets only, and the ad-insertion profile) exactly when n > 0.",
  ["inputs", "configurations"], "for every segment start, duration and n", "Tests check a few segment numbers for n=1..3 with one duration.",
  [D + "mediasegmentfilter.py", D + "scte35.py", D + "mpdprocessor.py", D + "dash_proxy.py"],
  [("schedule", "MediaSegmentFilter.create_scte35box"), ("message", "scte35.create_scte35_emsg"), ("announcement", "MpdProcessor.update_periods, process_mpd")])

p("C21", "emsg boxes have the version-0 layout and a correct size",
  "Every emsg box is: 32-bit total size, 'emsg', version/flags 0, null-terminated UTF-8 scheme and value, then timescale, presentation time delta, event duration and id as 32-bit big-endian numbers in this order, then the message bytes; the size equals the number of bytes for every (also non-ASCII) string.",
  ["inputs"], "for every string and field value", "One golden box is compared in tests.",
  [D + "emsg.py"], [("layout", "emsg.Emsg.get_box")])

p("C22", "Time formatting and TTML time shifting are exact",
  "Durations in seconds are printed as ISO 8601 durations whose day, hour, minute and second parts add up to the value (zero parts left out, PT0S for zero), and times as UTC timestamps. ISO durations are read back as their hours, minutes and whole seconds. In live TTML subtitles every begin/end time (written HH:MM:SS with an optional fraction) is increased by exactly the loop offset in seconds (with carry into minutes and hours), the wall-clock text shows the same shifted time as UTC, and the segment number text shows the live segment number.",
  ["inputs"], "for every number of seconds, offset and TTML time", "A few values are tested.",
  [D + "timeformatconversions.py", D + "ttml_timing_offset.py", D + "mediasegmentfilter.py"],
  [("durations", "timeformatconversions.seconds_to_iso_duration/make_timestamp"), ("TTML", "ttml_timing_offset.adjust_ttml_content")])

p("C23", "Multiplexed segments have correct sizes, offsets and order",
  "A multiplexed init segment consists of the first ftyp, one moov with the first mvhd, one mvex with both trex boxes and both trak boxes, and a multiplexed media segment of the first styp, one moof with the first mfhd and both trafs, and one mdat with the payload of the first followed by the payload of the second; all sizes equal the bytes they contain. Each traf's data offset, if present, is increased by exactly the distance its payload moved relative to the moof start, and all other bytes are unchanged.",
  ["inputs"], "for every pair of input segments", "One audio/video pair is tested by size only.",
  [D + "segmentmuxer.py", D + "dash_proxy.py"], [("init", "MultiplexInits.construct_muxed"), ("media", "MultiplexMediaSegments.mux_on_sample_level")])

p("C24", "Files written by the analyzer are exactly what the server reads",
  "Every section and option the server requires of a VoD configuration file is written by the analyzer's configuration writer under the same name, for the same quantity, with a version the reader accepts; every content type that is written is one the reader knows. Segment timing records are written and read with the same field order, types, byte order and record length. A configuration file is read to exactly its values: a version other than 1.0 or 1.1, a missing required option of the Setup section and a file without a segment duration are refused; a duration in milliseconds takes precedence over one in seconds; media sections that are missing or lack their representations or timescale are skipped, and the names in a list of representations may be surrounded by blanks.",
  ["inputs", "programs"], "for every analysed content", "Tests only read hand-made files; the writer is not tested.",
  [D + "configprocessor.py", D + "segtimeline.py", "dashlivesim/vodanalyzer/dashanalyzer.py", "dashlivesim/vodanalyzer/parse_dat_file.py"],
  [("reader", "VodConfig.read_config, SegmentTimeLineGenerator.__init__"), ("writer", "VodConfig.write_config, DashAnalyzer.checkAndUpdateMediaData")])

p("C25", "Chunking a segment preserves every sample and its attributes",
  "Splitting a segment into chunks keeps all samples in order with their bytes, decode time, duration, size and composition offset, taking each value from the sample entry, else the track fragment default, else the track extends default; sequence number and track id are kept and each chunk's base decode time is that of its first sample. A new chunk starts with the first sample before which the samples already total at least the next multiple of the chunk duration; no chunk is empty. A sample is marked as sync sample exactly when its flags say so (non-sync bit clear), the first-sample flags applying to the first sample.",
  ["inputs"], "for every segment, flag combination and chunk duration", "No test decodes the chunked output.",
  [D + "chunker.py", D + "boxes.py", D + "mp4.py"], [("decoding", "chunker.decode_fragment"), ("encoding", "boxes.create_moof, TRUNBox")])

p("C26", "Session limiting redirects, expires and refuses as configured",
  "When a maximum session length is configured, a manifest request without session start gets a 302 to the same URL with sts_<now> and a fresh sid_ part inserted after the first path part and the query string kept; any other request without session start, or with a start more than 5 s in the future, gets 404; one later than start plus the maximum length gets 410; every other request is served normally. When no maximum is configured none of this happens.",
  ["inputs", "configurations"], "for every URL, request time and configured length", "The default configuration has no limit and no test sets one.",
  ["dashlivesim/mod_wsgi/mod_dashlivesim.py"], [("session gate", "mod_dashlivesim.application")])

p("C27", "UTCTiming elements match the requested methods",
  "For each method listed in the utc_ option, in the listed order, the manifest has one UTCTiming element with the scheme of that method (direct, head, ntp, sntp, httpxsdate, httpiso) and a value of the right kind: the current UTC time for direct, the server's own time URL for head, an NTP/SNTP server for ntp/sntp, the ISO time URL for httpxsdate/httpiso. An unknown method is refused with an error, and no methods means no elements except that chunked sessions default to httpiso.",
  ["inputs", "configurations"], "for every list of methods", "Tests check the presence of three methods.",
  [D + "mpdprocessor.py", D + "mpd_proxy.py"], [("table", "MpdProcessor.insert_utc_timings"), ("low-latency default", "mpd_proxy.generate_dynamic_mpd")])

p("C28", "Alternating BaseURL outages are consistent between segments and manifest",
  "With one baseurl_uX_dY, seconds s of the minute belong to an outage exactly when i*(X+Y)+X < s <= (i+1)*(X+Y) for some i, and segment requests are refused in exactly those seconds; with baseurl_dX_uY the outage is i*(X+Y) < s <= i*(X+Y)+X. With segtimelineloss and baseurl_uX_dY the manifest generated during an outage is the one of the last second before it, and in that last up second both the segment and the manifest carry the event-stream signal; with several or no baseurl options segments are always served.",
  ["inputs", "configurations"], "for every X, Y and second of the minute", "A few seconds are tested.",
  [D + "dash_proxy.py", D + "mpd_proxy.py"], [("segments", "dash_proxy.get_media"), ("manifest", "mpd_proxy.get_mpd")])

p("C29", "Start, stop and duration options give a consistent, segment-aligned session",
  "start_ (or ast_) is rounded down and stop_ rounded up to a whole segment, the media presentation duration with a stop time is stop minus start and is also the time-shift buffer depth; with dur_ options the announced end is start plus the accumulated durations, moving on to the next one when now is later than two minimum update periods before the current end. tfdt_ gives 3-hour sessions starting at a multiple of 3 hours, cont_ 3-hour sessions starting at the last whole segment at least one segment before now, and the minimum update period defaults to 10 s for sessions with a start.",
  ["inputs", "configurations"], "for every start, stop, duration list and now", "A few values are tested.",
  [D + "configprocessor.py"], [("session times", "Config.process_start_time, update_with_aet, update_for_tfdt32, update_for_cont_update")])

p("C30", "SegmentTimeline manifests describe the window that the server serves",
  "With segtimeline_1 the SegmentTemplate of every audio and video adaptation set has a SegmentTimeline, the track timescale, $Time$ addressing and no duration or startNumber; with segtimelinenr_1 it keeps $Number$ and has the number of the first listed segment. The listed window is from max(period start, now - time-shift depth) to min(period end, now), relative to AST, and a valid (possibly empty) timeline is generated for every time of the session, also before the first segment has ended.",
  ["inputs", "configurations"], "for every now, period layout and time-shift depth", "Tests check a few instants of one content.",
  [D + "mpdprocessor.py", D + "segtimeline.py"], [("window and attributes", "MpdProcessor.update_periods"), ("timeline", "SegmentTimeLineGenerator.create_segtimeline")])

p("C31", "Low-latency manifests signal chunked availability in the right place",
  "With chunkdur_ the availabilityTimeOffset and availabilityTimeComplete=false are on every SegmentTemplate and not on BaseURL, the low-latency profile, a ServiceDescription and ProducerReferenceTime elements are present. Without chunkdur_ a positive availability time offset is signalled on BaseURL ('INF' if infinite), nothing is signalled for zero, and no low-latency elements are present.",
  ["inputs", "configurations"], "for every ato and chunkdur value", "Two values are tested.",
  [D + "mpd_proxy.py", D + "mpdprocessor.py"], [("placement", "mpd_proxy.generate_dynamic_mpd, MpdProcessor.process_mpd_children/insert_baseurl/update_periods")])

p("C32", "Calls, names, attributes and text formats fit together in all code paths",
  "No path through the server or its tools fails because of the program's own inconsistencies: every call to a function or method of the project passes arguments its signature accepts, every referenced module name, global and attribute of project objects exists, every %-format has as many conversions as values, and bytes and text are not mixed in concatenations, comparisons or membership tests. This includes error and refusal paths, which must produce their message.",
  ["inputs", "programs", "fault_sequences"], "for every path including rarely executed error paths", "Python reports these only when the path runs, and most error paths are never run by tests.",
  ["dashlivesim/"], [("whole program", "all modules outside tests")])

p("C33", "Closed-caption insertion keeps sample sizes and payload consistent",
  "When captions are inserted, each sample that gets caption NAL units has its trun size increased by exactly the inserted bytes, the mdat size grows by the sum of all inserted bytes, every original byte is kept in order, and the trun header, data offset and first-sample flags are unchanged. Each caption NAL unit is prefixed by its exact length and its inner payload size and count fields match the number of caption pairs; captions go in front of the first video NAL unit of the sample in whose time interval they start. Caption times given as hh:mm:ss:frame or in 90 kHz ticks are converted to the time they denote. A caption file gives, for each line with a time, its codes in order, in groups of at most 31, at that time; each video segment in whose interval (start included, end excluded) a caption starts is written under its number with exactly the captions of its interval, and no other segment is written. (Segments hold one moof box with one run that carries durations and sizes.)",
  ["inputs"], "for every segment layout and caption set", "The tool has no tests.",
  ["dashlivesim/cc_inserter/cc_inserter.py"], [("trun/mdat rewriting", "CCInsertFilter.process_trun/process_mdat"), ("NAL generation", "generate_data"), ("caption file", "SCCParser.parse"), ("choice of segments", "CCInserter.check_and_update_media_data")])

p("C34", "Generated subtitle segments carry the requested identity and timing",
  "A generated stpp media segment has the requested sequence number, track id, sample duration, decode time and exactly the given TTML bytes as its only sample (with matching sample size and mdat size); a generated init segment has the requested track id, timescale, language and handler name with correct box sizes. Time strings split milliseconds into hours, minutes, seconds and milliseconds exactly.",
  ["inputs"], "for every parameter combination", "The generator has no tests.",
  [D + "stpp_generator/stpp_creator.py", D + "stpp_generator/make_stpp_segments.py"], [("media", "StppMediaFilter"), ("init", "StppInitFilter"), ("time strings", "SegmentCreator.create_time_string")])

p("C35", "Segment timelines list exactly the stored segments of the window",
  "The segments a client reads from a SegmentTimeline (start, duration, repeat) are exactly the stored segments, shifted by whole loops, in order and without gaps or repetitions, from the latest one that starts at or before the start of the window (with a stop time: the first one whose start lies at most half its duration behind the start of the session) to the last one that has ended at the end of the window, across any number of loop wraps and whether or not the stored segments fill the loop exactly; the start number of the timeline is the number of the first one. The timeline is empty when no segment qualifies.",
  ["inputs", "configurations"], "for every stored content, window and loop", "A few fixed times of one asset are tested, with an even number of segments per window.",
  [D + "segtimeline.py"], [("generation loops", "SegmentTimeLineGenerator.create_segtimeline")])

p("C36", "A rewritten or chunked segment decodes to the same media as the stored one",
  "Decoding any served segment gives the same access units with the same relative timing as decoding the stored segment it maps to.",
  ["inputs"], "for every stored content", "Needs a decoder and arbitrary content.",
  [D + "mediasegmentfilter.py", D + "chunker.py"], [("segment rewriting", "MediaSegmentFilter, chunker")])

p("C37", "xlink replacement keeps the manifest well-formed and resolvable",
  "Replacing periods by xlink references (with or without ad insertion) gives a well-formed manifest in which each replaced period resolves to a .period resource with the content of the original period.",
  ["inputs", "configurations"], "for every period layout and manifest text", "Three fixed layouts are tested.",
  [D + "mpd_proxy.py"], [("string surgery", "mpd_proxy.generate_response_with_xlink")])

p("C38", "The VoD analyzer refuses drifting content and loops the common segments",
  "The analyzer refuses content when some segment of some representation, up to the last segment common to all representations, ends 100 ms or more away from where it would end with ideal durations, counted from that representation's first segment (and content whose representations of one type differ in timescale or that lacks a segment); any other content it accepts, and the loop it configures starts at the first segment and ends at the last segment common to all representations.",
  ["inputs"], "for every stored content: any number of segments and representations, any times, durations and timescales", "The analyzer has no tests.",
  ["dashlivesim/vodanalyzer/dashanalyzer.py"], [("segment scan", "DashAnalyzer.checkAndUpdateMediaData"), ("loop", "DashAnalyzer.write_config")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
