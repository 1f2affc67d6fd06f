"""Reference definitions for the WSGI entry point (analysed, never executed)."""
from os.path import splitext
from urllib.parse import urlparse, parse_qs
from time import time, sleep

from dashlivesim.dashlib import dash_proxy, mpd_proxy
from dashlivesim.dashlib.dash_proxy import ChunkedSegment
from dashlivesim import SERVER_AGENT


def SESSION_ID():
    pass


def REASON(exc, url):
    pass


def mime(ext):
    if ext == ".mpd":
        return "application/dash+xml"
    if ext == ".m4s":
        return "video/iso.segment"
    if ext == ".mp4":
        return "video/mp4"
    if ext == ".jpg":
        return "image/jpeg"
    return "text/plain"


def headers(length, content_type, extra_name, extra):
    h = {'Accept-Ranges': 'bytes', 'Pragma': 'no-cache', 'Cache-Control': 'no-cache', 'Expires': '-1',
         'DASH-Live-Simulator': SERVER_AGENT,
         'Access-Control-Allow-Headers': 'origin,range,accept-encoding,referer',
         'Access-Control-Allow-Methods': 'GET,HEAD,OPTIONS', 'Access-Control-Allow-Origin': '*',
         'Access-Control-Expose-Headers': 'Server,range,Content-Length,Content-Range,Date'}
    if length is not None:
        h['Content-Length'] = str(length)
    h['Content-Type'] = content_type
    if extra is not None:
        h[extra_name] = extra
    return list(h.items())


def byte_range(payload, line):
    """(first, last) of the selected range or None"""
    parts = line.split("=")[-1].split(",")
    if len(parts) > 1:
        return None
    length = len(payload)
    try:
        first, last = parts[0].split("-")
        if first == "" and last != "":
            first = max(length - int(last), 0)
            last = length - 1
        else:
            first = int(first)
            if last != "":
                last = min(int(last), length - 1)
            else:
                last = length - 1
    except ValueError:
        return None
    if last < first:
        return None
    return (first, last)


def handle_range(payload, line):
    r = byte_range(payload, line)
    if r is None:
        return (payload, "")
    first, last = r
    return (payload[first:last + 1], "bytes %d-%d/%d" % (first, last, len(payload)))


def application(environment, start_response, limit):
    hostname = environment['HTTP_HOST']
    url = urlparse(environment['REQUEST_URI'])
    https = environment.get('wsgi.url_scheme', False) == 'https'
    parts = url.path.split('/')
    query = url.query if url.query else environment.get('QUERY_STRING', '')
    now = time()
    if limit:
        start = None
        for part in parts:
            if part.startswith('sts_'):
                try:
                    start = int(part[4:])
                except Exception:
                    pass
        if start is None:
            if splitext(parts[-1])[1] == ".mpd":
                scheme = 'https://' if https else 'http://'
                loc = parts[:2] + ["sts_%d" % int(now), "sid_%s" % SESSION_ID()] + parts[2:]
                new_url = scheme + hostname + '/'.join(loc)
                if query:
                    new_url = new_url + '?' + query
                start_response("302 Found", headers(0, 'text/plain', 'Location', new_url))
                yield b""
                return
            msg = b'No start_time in non-manifest request'
            start_response("404 Not Found", headers(len(msg), 'text/plain', None, None))
            yield msg
            return
        if now > start + limit:
            msg = ("Maximum session length %ds passed" % limit).encode('utf-8')
            start_response("410 Gone", headers(len(msg), 'text/plain', None, None))
            yield msg
            return
        if start > now + 5:
            msg = b'start_time is in future'
            start_response("404 Not Found", headers(len(msg), 'text/plain', None, None))
            yield msg
            return

    chunked = False
    body = None
    reason = None
    try:
        prov = dash_proxy.createProvider(hostname, parts[1:], parse_qs(query), environment['VOD_CONF_DIR'],
                                         environment['CONTENT_ROOT'], now, None, https)
        ext = prov.cfg.ext
        if ext == ".m4s":
            chunk = prov.cfg.chunk_duration_in_s is not None and prov.cfg.chunk_duration_in_s > 0
            reply = dash_proxy.get_media(prov, chunk)
            if isinstance(reply, ChunkedSegment):
                chunked = True
        elif ext == ".mpd" or ext == ".period":
            reply = mpd_proxy.get_mpd(prov)
        elif ext == ".mp4":
            reply = dash_proxy.get_init(prov)
        elif ext == ".jpg":
            reply = dash_proxy.get_media(prov)
        if chunked:
            body = reply
        elif isinstance(reply, bytes):
            body = reply
        elif isinstance(reply, str):
            body = reply.encode('utf-8')
        elif not reply['ok']:
            reason = reply['pl']
        else:
            body = reply['pl']
    except Exception as exc:
        reason = "DASH Proxy Error: {0}\n URL={1}".format(exc, url)
    if isinstance(body, str):
        body = body.encode('utf-8')
    if body is None or not body:
        if not reason:
            reason = "Not found (now)"
        data = reason.encode('utf-8')
        start_response("404 Not Found", headers(len(data), 'text/plain', None, None))
        yield data
        return
    content_type = mime(splitext(parts[-1])[1])
    if chunked:
        start_response("200 OK", headers(None, content_type, None, None))
        n = 0
        for chunk in body.chunks:
            n = n + 1
            due = body.seg_start + n * prov.cfg.chunk_duration_in_s - 0.1
            wait = due - time()
            if wait > 0:
                sleep(wait)
            yield chunk
        return
    if environment.get('HTTP_RANGE'):
        part, content_range = handle_range(body, environment['HTTP_RANGE'])
        if content_range != "":
            start_response("206 Partial Content", headers(len(part), content_type, 'Content-Range', content_range))
            yield part
            return
    start_response("200 OK", headers(len(body), content_type, None, None))
    yield body
