"""The offline tools: the caption inserter (C33) and the subtitle segment generator (C34)."""
import re
from xml.etree import ElementTree

from . import check
from .. import terms as t
from ..terms import mk, K, TRUE, FALSE, NONE, ZERO
from ..compare import Facts, assume
from ..frame import Undecided
from ..interp import EV, Obj
from .segment import Drive, LIB, cat, box, wr, u

STPP = LIB + 'stpp_generator.'


def i(name):
    return t.var(name, 'i')


@check('C34', "value flow through the subtitle segment filters, whose template is a constant, for variable identities, times and "
              "contents, and through the generating script with its files as events, against reference definitions")
def c34(ctx):
    ctx.anchor_cls(STPP + 'stpp_creator.StppMediaFilter')
    ctx.anchor_cls(STPP + 'stpp_creator.StppInitFilter')
    ctx.anchor(STPP + 'stpp_creator.create_media_segment')
    ctx.anchor(STPP + 'stpp_creator.create_init_segment')

    def one(name, where, ref, *args, **kw):
        def go():
            d = Drive(ctx, spec='subtitles')
            got = d.value('code_' + name, *args)
            refs = [d.value(ref, *args)]
            if ref.startswith('init'):      # the language and the two bytes behind it written as one number or as two
                refs.append(d.value(ref, *(args + (TRUE,))))
            ctx.same(name, STPP + where, got, refs, d.I.loops, **kw)
            ctx.used(d.I)
        ctx.obligation(name, STPP + where, go)
    m = (i('track'), i('nr'), i('duration'), i('time'), t.var('ttml', 'b'))
    one('media', 'stpp_creator.create_media_segment', 'media', *m)
    one('media_filter', 'stpp_creator.StppMediaFilter', 'media', *m)
    lang = t.var('lang', 's')
    three = assume(Facts(), t.eq(t.blen(lang), K(3)), True)
    name = t.var('name', 's')
    for what, n in (('', NONE), (' with name', name)):
        one('init', 'stpp_creator.create_init_segment', 'init', lang, i('track'), i('timescale'), n, facts=three)
        one('init_at', 'stpp_creator.create_init_segment', 'init_at', lang, i('track'), i('timescale'), i('created'), n, facts=three)
    for code in ('swe', 'azm'):
        one('init', 'stpp_creator.create_init_segment', 'init', K(code), i('track'), i('timescale'), NONE)
    one('init_plain', 'stpp_creator.create_init_segment', 'init_plain')
    one('init_short', 'stpp_creator.StppInitFilter', 'init_short', lang, i('track'), facts=three)
    one('time_string', 'make_stpp_segments.SegmentCreator.create_time_string', 'time_string', i('ms'))

    def script(pattern):
        d = Drive(ctx, spec='subtitles')
        I = d.I
        for k, ty in (('number', 'i'), ('duration', 'i'), ('resolution', 'i'), ('lang', 's'), ('track', 'i')):
            I.setattr_(d.s, k, t.var(k, ty))
        I.setattr_(d.s, 'name', K(pattern))
        I.setattr_(d.s, 'path', K('out'))
        rendering(I)
        for k in ('duration', 'resolution'):
            I.st.facts = assume(I.st.facts, t.cmp_le(ZERO, t.var(k, 'i'), True), True)
        d.st0 = I.st.copy()
        got, ref = written(d, 'code_segments'), written(d, 'segments')
        ctx.same('files written', STPP + 'make_stpp_segments.SegmentCreator.create_segments', got, [ref], I.loops, facts=d.st0.facts)
        ctx.used(I)
        texts = {x.args[1].args[1] for x in subterms(got) if x.op == 'call' and x.args[0] == 'rendered'}
        if len(texts) != 1:
            raise Undecided("page of the segments")
        shown, _ = page(texts.pop())
        ok = shown == {'id': '@id@', 'begin': '@begin@', 'end': '@end@', 'text': '@text@'}
        (ctx.ok if ok else ctx.violation)('paragraph shown', STPP + 'make_stpp_segments', shown)
    for p in ('%d', 'part-%d', '%05d'):
        ctx.obligation('files written', STPP + 'make_stpp_segments', lambda: script(p))


def subterms(x):
    todo, done = [x], set()
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo.extend(y)
        elif isinstance(y, t.T) and id(y) not in done:
            done.add(id(y))
            yield y
            todo.extend(y.args)


BLOCK = re.compile(r"{%-?\s*for (\w+) in (\w+)\s*-?%}")
FIELD = re.compile(r"{{-?\s*(\w+)((?:\.\w+|\['\w+'\])*)\s*(\|[^}]*)?-?}}")


def rendering(I):
    """the page template: its text, and the values handed to it that the text mentions"""
    def template(I, args, kwargs, e):
        return mk('call', 'page', I.reify(args[0] if args else kwargs['source']))

    def render(I, base, args, kwargs, e):
        text = base.args[1]
        if args or not t.is_ks(text):
            raise Undecided("page template")
        used = {m.group(2) for m in BLOCK.finditer(text.args[1])} | {m.group(1) for m in FIELD.finditer(text.args[1])}
        return mk('call', 'rendered', text, *[mk('kw', k, I.reify(v)) for k, v in sorted(kwargs.items()) if k in used])
    I.call_overrides['jinja2.Template'] = template
    I.method_overrides['render'] = (lambda I, base: base.op == 'call' and base.args[0] == 'page', render)
    t.CALL_TY['rendered'] = 's'


def page(text):
    """what each paragraph of a page shows: its attributes and text by the field they come from"""
    m = BLOCK.search(text)
    if m is None:
        raise Undecided("no loop over paragraphs in the page")
    text = text[:m.start()] + re.sub(r"{%-?\s*endfor\s*-?%}", "", text[m.end():])
    if "{%" in text:
        raise Undecided("page template")
    names = {}

    def mark(f):
        if f.group(1) != m.group(1) or f.group(3):
            raise Undecided("page template")
        names[f.group(2)] = names.get(f.group(2), len(names))
        return "@" + re.sub(r"\W", "", f.group(2)) + "@"
    text = FIELD.sub(mark, text)
    try:
        root = ElementTree.fromstring(text.strip())
    except ElementTree.ParseError as e:
        return "not XML: %s" % e, None
    ps = [p for p in root.iter() if p.tag.endswith("}p") or p.tag == "p"]
    if len(ps) != 1:
        raise Undecided("paragraphs of the page")
    p = ps[0]
    got = {k: v for k, v in p.attrib.items() if "@" in v}
    got["text"] = re.sub(r"\s+", " ", "".join(p.itertext())).strip()
    spans = set(names)
    return {k.split("}")[-1]: v for k, v in got.items()}, spans


def written(d, fn):
    d.I.st = d.st0.copy()
    v, st = d.I.run(d.spec(fn), [d.s])
    d.I.st = st
    keep = [g for g in d.I.wobj(EV).d if not (g.op == 'gi' and g.args[1].op == 'ev' and g.args[1].args[0] == 'call')]
    return mk('tuple', (d.I.reify(v), mk('tuple', tuple(keep))))


# ---------------------------------------------------------------- captions
CC = 'dashlivesim.cc_inserter.cc_inserter.'
TS = 10         # ticks per second
# samples as lists of NAL units (type, length of the payload behind the type byte), durations, start, captions as
# (time in ticks or in parts of one, sample it belongs to or None, number of byte pairs)
LAYOUTS = [
    ([[(9, 1), (5, 3)], [(1, 2)], [(6, 4), (1, 1), (1, 2)]], [3, 4, 5], 20, []),
    ([[(9, 1), (5, 3)], [(1, 2)], [(6, 4), (1, 1), (1, 2)]], [3, 4, 5], 20, [(20, 0, 2)]),
    ([[(9, 1), (5, 3)], [(1, 2)], [(6, 4), (1, 1), (1, 2)]], [3, 4, 5], 20, [(23, 1, 1)]),
    ([[(9, 1), (5, 3)], [(1, 2)], [(6, 4), (1, 1), (1, 2)]], [3, 4, 5], 20, [(31, 2, 3)]),
    ([[(9, 1), (7, 2), (8, 1), (5, 3)], [(1, 2)], [(6, 4), (1, 1)]], [3, 4, 5], 20,
     [(19, None, 1), (22, 0, 1), (22, 0, 2), (27, 2, 1), (32, None, 1)]),
    ([[(5, 3)], [(1, 2)], [(1, 1)], [(1, 4)]], [2, 2, 2, 2], 0, [(6, 3, 31), (2, 1, 0), (3, 1, 1)]),
    ([[(9, 1)], [(1, 2)]], [2, 2], 6, [(6, 0, 1), (8, 1, 1)]),
    ([], [], 5, [(5, None, 1)]),
    ([[(1, 2)]], [7], 5, [(11, 0, 2)]),
    ([[(16, 1), (22, 1), (5, 3)], [(17, 1), (21, 30), (3, 2)], [(31, 2), (1, 40)]], [3, 4, 5], 20,
     [(21, 0, 1), (28, 2, 1)])]
RUNS = [0x301, 0x305, 0x701, 0xb01, 0xf01, 0xf05, 0xb05, 0x705]


@check('C33', "segments with given sample, NAL unit and caption layouts and variable contents and fields followed through the "
              "insertion filter, and the NAL unit writer for any captions, compared with reference segments in normal form")
def c33(ctx):
    t.HINTS['cea608'] = 'L'
    ctx.anchor(CC + 'generate_data')
    ctx.anchor_cls(CC + 'CCInsertFilter')

    for field in (1, 2):
        def units():
            d = Drive(ctx, spec='captions')
            d.compare('caption units of field %d' % field, 'code_nals', 'nals', t.var('captions', 'L'), K(field),
                      where=CC + 'generate_data')
        ctx.obligation('caption units', CC + 'generate_data', units)

    def times():
        d = Drive(ctx, spec='captions')
        at = Facts()
        for n in 'hmsf':
            at = assume(at, t.cmp_le(ZERO, i(n), False), True)
        d.compare('time with frames', 'code_frames', 'frames', *[i(n) for n in 'hmsf'], where=CC + 'convert_time', facts=at)
        d.compare('time in ticks', 'code_clock', 'clock', i('n'), where=CC + 'transform_time',
                  facts=assume(Facts(), t.cmp_le(ZERO, i('n'), False), True))
    ctx.obligation('times', CC + 'convert_time', times)

    def caption_file(name, lines):
        d = Drive(ctx, spec='captions')
        I = d.I
        I.call_overrides['open'] = lambda I, args, kwargs, e: I.call_func(d.spec('scc'), [d.s, args[0]], {}, None, e)
        I.call_overrides['io.open'] = I.call_overrides['open']
        text, want = ['Scenarist_SCC V1.0\n', '\n'], []
        for time, n in lines:
            codes = ['%04x' % (0x9420 + 7 * k) for k in range(n)]
            text += [' '.join(['%02d:%02d:%02d:%02d' % time] + codes) + '\n', '\n']
            want.append(mk('tuple', (mk('tuple', tuple(K(x) for x in time)), list_of(d, [K(c) for c in codes]))))
        I.setattr_(d.s, 'lines', list_of(d, [K(x) for x in text]))
        I.setattr_(d.s, 'wanted', list_of(d, want))
        d.st0 = I.st.copy()
        d.compare(name, 'code_parse', 'parse', where=CC + 'SCCParser')
    at = [(0, 0, 0, 0), (0, 0, 1, 15), (1, 2, 3, 29), (23, 59, 59, 7), (100, 0, 10, 1)]
    for k, counts in enumerate(([], [14], [1, 31], [32, 2], [62, 63, 0, 4])):
        ctx.obligation('caption file %d' % k, CC + 'SCCParser',
                       lambda: caption_file('caption file %d' % k, list(zip(at[k:] + at[:k], counts))))

    def content(name, numbers, captions, kinds):
        d = Drive(ctx, spec='captions')
        I = d.I

        def call(table, name, fn, n):
            table(name, lambda I, args, e: I.call_func(d.spec(fn), [d.s] + args[:n], {}, None, e))

        def ext(name, f):
            I.call_overrides[name] = lambda I, args, kwargs, e: f(I, list(args), e)

        def cls(name, f):
            I.overrides[name] = lambda I, env, node: f(I, [v for k, v in env.items() if k != 'self'], node)
        for x in ('open', 'io.open'):
            call(ext, x, 'out_file', 1)
        for x in ('os.path.exists', 'os.path.isfile'):
            call(ext, x, 'exists', 1)
        call(ext, 'os.listdir', 'listdir', 1)
        call(cls, 'dashlivesim.cc_inserter.mpdprocessor.MpdProcessor', 'processor', 0)
        call(cls, LIB + 'initsegmentfilter.InitFilter', 'init', 1)
        call(cls, LIB + 'mediasegmentfilter.MediaSegmentFilter', 'media', 1)
        call(cls, CC + 'SCCParser', 'parser', 0)
        call(cls, CC + 'CCInsertFilter', 'insertion', 5)
        put = lambda k, v: I.setattr_(d.s, k, v)
        facts = assume(assume(Facts(), t.cmp_le(ZERO, i('timescale'), True), True), t.cmp_le(ZERO, i('seg_duration'), True), True)
        known = [i('timescale'), i('seg_duration'), i('start_number')]
        segments, folders, sets, listed = {}, {}, [], []
        for kind in kinds:
            rid = kind[0].upper() + '0'
            for nr in numbers:
                x = '%s_%d' % (rid, nr)
                facts = assume(facts, t.cmp_le(ZERO, i('duration_' + x), True), True)
                facts = assume(facts, t.cmp_le(ZERO, i('time_' + x), False), True)
                known += [i('time_' + x), i('duration_' + x)]
                path = K('dir/%s/%d.m4s' % (rid, nr))
                segments[path] = d.record(time=i('time_' + x), duration=i('duration_' + x))
                if kind == 'video':
                    listed.append(mk('tuple', (K(nr), path, segments[path])))
            folders[K('dir/' + rid)] = list_of(d, [K('init.mp4')] + [K('%d.m4s' % nr) for nr in reversed(numbers)])
            sets.append(d.record(content_type=K(kind), duration=i('seg_duration'), start_number=i('start_number'),
                                 representations=list_of(d, [I.call_func(d.spec('representation'), [d.s, K(rid)], {}, None, None)])))
        caps = [dictionary(I, start_time=t.div(i('caption%d' % k), K(1000)), cea608=list_of(d, [t.var('pair%d' % k, 's')]))
                for k in range(captions)]
        put('segments', I.newref(Obj('dict', d=segments)))
        put('folders', I.newref(Obj('dict', d=folders)))
        put('disk', I.newref(Obj('dict', d={})))
        put('sets', list_of(d, sets))
        put('content', list_of(d, listed))
        put('captions', list_of(d, caps))
        put('timescale', i('timescale'))
        put('field', i('field'))
        put('names', list_of(d, [K('out/%d.m4s' % n) for n in numbers]))
        I.st.facts = facts
        d.st0 = I.st.copy()
        d.compare(name, 'code_analyze', 'analyze', where=CC + 'CCInserter', facts=facts,
                  known=known + [i('caption%d' % k) for k in range(captions)])
    for numbers, captions, kinds in (([1], 1, ['video']), ([4, 5], 1, ['video']), ([9, 10], 2, ['video', 'audio']),
                                     ([1, 2, 3], 1, ['audio', 'video']), ([3], 0, ['video'])):
        name = 'segments %s, %d captions, %s' % (numbers, captions, ' and '.join(kinds))
        ctx.obligation(name, CC + 'CCInserter', lambda: content(name, numbers, captions, kinds))

    def segment(name, samples, durations, start, captions, flags, top, field):
        d = Drive(ctx, spec='captions')
        I = d.I
        caps = []
        for k, (at, s, n) in enumerate(captions):
            pairs = list_of(d, [t.var('pair%d_%d' % (k, j), 's') for j in range(n)])
            caps.append((s, dictionary(I, start_time=t.div(K(at), K(TS)), cea608=pairs)))
        given = list_of(d, [c for _, c in caps])
        inserted = [[c for s, c in caps if s == j] for j in range(len(samples))]
        lists = [list_of(d, cs) for cs in inserted]
        d.st0 = I.st.copy()
        before, after = [], []
        ents, new_ents = [], []
        for j, units in enumerate(samples):
            nals = [cat(wr(4, K(n + 1)), wr(1, t.add(t.mul(K(32), i('ref%d_%d' % (j, q))), K(typ))),
                        *[u('byte%d_%d_%d' % (j, q, p), 1) for p in range(n)]) for q, (typ, n) in enumerate(units)]
            new = cat(*[d.value('nals', lists[j], K(field))]) if inserted[j] else K(b'')
            first = next((q for q, (typ, n) in enumerate(units) if typ < 6), len(units))
            before += nals
            after += nals[:first] + [new] + nals[first:]
            size = t.blen(cat(*nals))
            for out, sz in ((ents, size), (new_ents, t.add(size, t.blen(new)))):
                if flags & 0x100:
                    out.append(wr(4, K(durations[j])))
                if flags & 0x200:
                    out.append(wr(4, sz))
                if flags & 0x400:
                    out.append(u('flags%d' % j))
                if flags & 0x800:
                    out.append(u('offset%d' % j))
        n = len(samples)
        traf = lambda offset, es: box(b'traf', box(b'tfhd', u('tfhd_flags'), u('track')), box(b'tfdt', u('tfdt_flags'), wr(4, K(start))),
                                      box(b'trun', wr(4, K(flags)), wr(4, K(n)), *([wr(4, offset)] if flags & 1 else []),
                                          *([u('first_flags')] if flags & 4 else []), *es))
        moof = lambda offset, es: box(b'moof', box(b'mfhd', u('mfhd_flags'), u('nr')), traf(offset, es))
        lead = [u('before%d' % j, 1) for j in range(3)]
        size = t.blen(moof(ZERO, ents))
        offset = t.add(size, K(8 + len(lead)))
        behind = u('behind', 1) if flags & 0x800 else K(b'')

        def whole(es, media):
            boxes = {'styp': box(b'styp', u('brand')), 'sidx': box(b'sidx', t.var('sidx', 'b')), 'moof': moof(offset, es),
                     'mdat': box(b'mdat', *(lead + media + [behind])), 'free': box(b'free', t.var('free', 'b'))}
            return cat(*[boxes[x] for x in top])
        d.stored(whole(ents, before))
        got = d.value('code_insert', given, K(TS), K(start), K(field))
        ctx.same(name, CC + 'CCInsertFilter', got, [whole(new_ents, after)], I.loops)
        ctx.used(I)
    for k, (samples, durations, start, captions) in enumerate(LAYOUTS):
        for j, flags in enumerate(RUNS if ctx.tier == 'thorough' or k in (3, 4) else [RUNS[k % 8], RUNS[(k + 3) % 8]]):
            top = (('styp', 'moof', 'mdat'), ('moof', 'mdat'), ('styp', 'sidx', 'moof', 'mdat', 'free'))[(j + k) % 3]
            name = 'layout %d flags %#x' % (k, flags)
            ctx.obligation(name, CC + 'CCInsertFilter',
                           lambda: segment(name, samples, durations, start, captions, flags, top, 1 + (j + k) % 2))


def dictionary(I, **kw):
    return I.newref(Obj('dict', d={K(k): v for k, v in kw.items()}))


def list_of(d, xs):
    return d.I.new_list([mk('gi', TRUE, x) for x in xs])
