"""Chunking (C25): segments with given box structure and variable field values followed through parser, partition and encoder."""
import itertools
from . import check
from .. import terms as t
from ..terms import mk, K, TRUE, ZERO
from ..interp import Obj
from .segment import Drive, LIB, cat, box, wr, u

MOD = LIB + 'chunker.'
PARTS = {(3, 20): [2, 1], (3, 4): [1, 1, 1], (2, 1000): [2], (1, 10): [1], (0, 10): []}
DUR = 10


@check('C25', "box-structured segments with variable field values followed through the box parser, the sample decoder, the "
              "partition and the chunk encoder, compared with reference chunks in normal form")
def c25(ctx):
    for f in ('chunk', 'partition', 'decode_fragment', 'encode_chunked'):
        ctx.anchor(MOD + f)
    t.HINTS.update({'duration': 'i', 'data': 'b'})

    def anynumber():
        d = Drive(ctx, spec='chunks')
        d.compare('partition', 'code_partition', 'partition', t.var('samples', 'L'), t.var('duration', 'i'), where=MOD + 'partition')
    ctx.obligation('partition of any number of samples', MOD + 'partition', anynumber)
    for n in range(5):
        def one():
            d = Drive(ctx, spec='chunks')
            xs = []
            for i in range(n):
                r = d.I.newref(Obj('inst', None, {}))
                d.I.setattr_(r, 'duration', t.var('d%d' % i, 'i'))
                d.I.setattr_(r, 'nr', K(i))
                xs.append(r)
            ls = d.I.new_list([mk('gi', TRUE, x) for x in xs])
            d.st0 = d.I.st.copy()
            d.compare('%d samples' % n, 'code_partition', 'partition', ls, t.var('duration', 'i'), where=MOD + 'partition')
        ctx.obligation('partition of %d samples' % n, MOD + 'partition', one)

    def whole(name, n, dur, tfhd_flags, run_flags, version=0, const=None):
        def one():
            d = Drive(ctx, spec='chunks')
            I = d.I
            I.overrides[LIB + 'mp4.parse_generator'] = \
                lambda I, env, node: I.call_func(d.spec('reader'), [env['data']], {}, None, node)
            default_dur = not run_flags & 0x100
            lens = [5] * n if not run_flags & 0x200 else list(range(3, 3 + n))
            durs = [DUR] * n if default_dur else [8, 12, 7][:n]
            data = [cat(*[u('sample%d_%d' % (i, j), 1) for j in range(lens[i])]) for i in range(n)]
            f = lambda x: K(const[x]) if const and x in const else t.var(x, 'i')
            fl = lambda x: t.add(t.mul(K(0x20000), f(x + '_high')), t.mul(K(0x10000), f(x + '_nonsync')), f(x + '_low'))
            fields = {2: f('description'), 8: K(DUR), 16: K(5), 32: f('tfhd_sample_flags')}
            tfhd = box(b'tfhd', K(b'\x00' + tfhd_flags.to_bytes(3, 'big')), u('track'),
                       *[wr(4, fields[b]) for b in (2, 8, 16, 32) if tfhd_flags & b])
            tfdt = box(b'tfdt', K(bytes([version, 0, 0, 0])), u('time', 8 if version else 4))
            ents = []
            for i in range(n):
                if run_flags & 0x100:
                    ents.append(wr(4, K(durs[i])))
                if run_flags & 0x200:
                    ents.append(wr(4, K(lens[i])))
                if run_flags & 0x400:
                    ents.append(wr(4, f('flags%d' % i)))
                if run_flags & 0x800:
                    ents.append(t.wr(4, 'i', f('cto%d' % i)))
            head = 8 + 16 + 8 + sum(t.blen(x).args[1] for x in (tfhd, tfdt))
            extra = sum(4 for b in (1, 4) if run_flags & b)
            size = head + 16 + extra + t.blen(cat(*ents)).args[1]
            trun = box(b'trun', K(bytes([0]) + run_flags.to_bytes(3, 'big')), wr(4, K(n)),
                       *([wr(4, K(size + 8))] if run_flags & 1 else []), *([wr(4, f('first_flags'))] if run_flags & 4 else []), *ents)
            moof = box(b'moof', box(b'mfhd', K(b'\0\0\0\0'), u('nr')), box(b'traf', tfhd, tfdt, trun))
            stored = cat(box(b'styp', K(b'msdhmsdh'), u('brand')), moof, box(b'mdat', cat(*data)))
            trex = d.record(default_sample_duration=K(DUR + (1 if tfhd_flags & 8 else 0)),
                            default_sample_size=K(5 + (1 if tfhd_flags & 16 else 0)), default_sample_flags=f('trex_sample_flags'))
            default_flags = f('tfhd_sample_flags') if tfhd_flags & 32 else f('trex_sample_flags')
            parts, k = [], 0
            time = f('time')
            for m in PARTS[n, dur]:
                es = []
                start = time
                for i in range(k, k + m):
                    flags = f('first_flags') if i == 0 and run_flags & 4 else f('flags%d' % i) if run_flags & 0x400 else default_flags
                    es.append(mk('tuple', (K(durs[i]), flags, f('cto%d' % i) if run_flags & 0x800 else ZERO, data[i])))
                    time = t.add(time, K(durs[i]))
                parts.append(mk('tuple', (start, I.new_list([mk('gi', TRUE, e) for e in es]))))
                k += m
            b = d.record(stored=stored, duration=K(dur), trex=trex, track=f('track'), nr=f('nr'),
                         parts=I.new_list([mk('gi', TRUE, p) for p in parts]))
            d.compare(name, 'code_chunk', 'chunk', b, where=MOD + 'chunk',
                      known=[stored, f('trex_sample_flags'), f('trex_sample_duration')])
        ctx.obligation(name, MOD + 'chunk', one)
    k = 0
    for n, dur in PARTS:
        for tf in (0x20000, 0x20008, 0x20010, 0x20020, 0x2003a):
            for rf in (0x001, 0x101, 0x201, 0x301, 0x401, 0x701, 0xb01, 0xf01, 0x305, 0xf05):
                k += 1
                if ctx.tier == 'thorough' or k % 4 == 0 or n == 3 and dur == 20 and (tf == 0x20000 or rf == 0xf05):
                    whole('%d samples, chunk duration %d, tfhd %x, trun %x' % (n, dur, tf, rf), n, dur, tf, rf, version=rf >> 8 & 1)
    # sample flags with constant values
    for i, (x, y, z) in enumerate(itertools.product(FLAGS, repeat=3)):
        if ctx.tier == 'thorough' or i % 7 == 0:
            whole('3 samples, flags %x %x %x' % (x, y, z), 3, 20, 0x20000, 0xf01, const={'flags0': x, 'flags1': y, 'flags2': z})
    for x in FLAGS:
        whole('3 samples, default flags %x' % x, 3, 20, 0x20020, 0x301, const={'tfhd_sample_flags': x})
        whole('3 samples, default flags of the track %x' % x, 3, 20, 0x20000, 0x301, const={'trex_sample_flags': x})
        whole('3 samples, first flags %x' % x, 3, 20, 0x20020, 0x305, const={'first_flags': x, 'tfhd_sample_flags': 0x1010000})


FLAGS = (0, 0x10000, 0x1000000, 0x1010000, 0x2000000, 0x20000)
