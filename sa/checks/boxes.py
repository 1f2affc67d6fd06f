"""Box generators (C07): the bytes of every generated box against its declared size, counts, lengths and offsets."""
from . import check
from .. import terms as t
from ..terms import K
from .segment import Drive, LIB

MOD = LIB + 'boxes.'


def arg(spec):
    n, ty = spec.split(':')
    if '=' in ty:
        return K(int(ty.split('=')[1]))
    return t.var(n, ty)


# name, class (or function), type, arguments
SIZED = [
    ('ftyp', 'FTYPBox', b'ftyp', 'major:b minor:i brands:l'), ('styp', 'FTYPBox', b'styp', 'major:b minor:i brands:l'),
    ('create_ftyp', 'create_ftyp', b'ftyp', ''), ('create_styp', 'create_styp', b'styp', ''),
    ('mvhd', 'MVHDBox', b'mvhd', 'timescale:i duration:i next:i'), ('trex', 'TREXBox', b'trex', 'track:i'),
    ('tkhd', 'TKHDBox', b'tkhd', 'track:i duration:i volume:i width:i height:i'),
    ('mdhd', 'MDHDBox', b'mdhd', 'timescale:i duration:i lang:s'), ('hdlr', 'HDLRBox', b'hdlr', 'handler:b name:b'),
    ('url', 'URLBox', b'url ', ''), ('dref', 'DREFBox', b'dref', ''), ('vmhd', 'VMHDBox', b'vmhd', ''),
    ('smhd', 'SMHDBox', b'smhd', ''), ('nmhd', 'NMHDBox', b'nmhd', ''), ('pasp', 'PASPBox', b'pasp', ''),
    ('stts', 'STTSBox', b'stts', ''), ('stsc', 'STSCBox', b'stsc', ''), ('stsz', 'STSZBox', b'stsz', ''),
    ('stco', 'STCOBox', b'stco', ''), ('visual', 'VisualSampleEntry', b'avc1', 'width:i height:i config:b pasp:b'),
    ('audio', 'AudioSampleEntry', b'mp4a', 'channels:i size:i rate:i config:b'),
    ('wvtt', 'WVTTSampleEntryBox', b'wvtt', ''), ('vttC', 'WVTTConfigBox', b'vttC', 'text:s'),
    ('vtte', 'VTTEBox', b'vtte', ''), ('payl', 'PAYLBox', b'payl', 'text:s'), ('vttc', 'VTTCBox', b'vttc', 'data:l'),
    ('stsd', 'STSDBox', b'stsd', 'data:l'), ('avcC', 'AVCCBox', b'avcC', 'profile:i compat:i level:i sps:b pps:b'),
    ('hvcC', 'HVCCBox', b'hvcC', 'vps:b sps:b pps:b'), ('esds', 'ESDSBox', b'esds', 'config:b'),
    ('container', 'BoxContainer', b'udta', 'data:l'),
    ('empty_sidx', 'create_empty_sidx', b'sidx', 'track:i timescale:i segments:i')]
EXACT = [
    ('sequence', 'BoxSequence', 'a:b b:b c:b'), ('containers', 'BoxContainer', 'a:b'), ('mfhd', 'MFHDBox', 'nr:i'),
    ('tfhd', 'TFHDBox', 'track:i'), ('tfdt', 'TFDTBox', 'time:i'), ('mdat', 'MDATBox', 'data:l'),
    ('trun', 'TRUNBox', 'offset:i samples:l'), ('saiz', 'SAIZBox', 'default:i sizes:l'), ('saio', 'SAIOBox', 'offset:i'),
    ('sbgp', 'SBGPBox', 'groups:l'), ('sgpd', 'SGPDBox', 'kind:i groups:l'), ('senc', 'SENCBox', 'samples:l'),
    ('sidx', 'SIDXBox', 'track:i timescale:i time:i version:=0 refs:l'),
    ('sidx', 'SIDXBox', 'track:i timescale:i time:i version:=1 refs:l'),
    ('fragment', 'create_moof', 'nr:i track:i first:o rest:l')]
MOOVS = ('h264', 'hevc', 'mp4a', 'ac3', 'mp4s')


# what is read from the entries
HINTS = dict.fromkeys(('duration', 'size', 'offset', 'time_offset', 'time', 'iv', 'iv_size', 'count', 'index', 'clear_bytes',
                       'enc_bytes', 'track', 'timescale', 'width', 'height', 'rate', 'channels', 'profile', 'compat', 'level'), 'i')
HINTS.update(dict.fromkeys(('data', 'sps', 'pps', 'vps', 'kid', 'config'), 'b'))


@check('C07', "gated value-flow analysis of every box generator with variable contents and numbers of entries, the size, count, "
              "length and offset fields compared with the emitted bytes in normal form")
def c07(ctx):
    t.HINTS.update(HINTS)
    ctx.anchor(MOD + 'create_moof')
    ctx.anchor(MOD + 'create_mdat')
    ctx.anchor_cls(MOD + 'Box')

    def sized(name, where, typ, args, more=()):
        def one():
            d = Drive(ctx, spec='boxes')
            a = [arg(x) for x in args.split()] + list(more)
            got = d.value('code_' + name, *a)
            d.I.st = d.st0.copy()
            ref, _ = d.I.run(d.spec('sized'), [got, K(typ)])
            ctx.same(name, MOD + where, got, [d.I.reify(ref)], d.I.loops)
            ctx.used(d.I)
        ctx.obligation(name, MOD + where, one)
    for name, where, typ, args in SIZED:
        sized(name, where, typ, args)
    for name, where, args in EXACT:
        def one():
            d = Drive(ctx, spec='boxes')
            d.compare(name, 'code_' + name, name, *[arg(x) for x in args.split()], where=MOD + where)
        ctx.obligation(name + (args.split('=')[1][:1] if '=' in args else ''), MOD + where, one)
    for m in MOOVS:
        if m == 'ac3':
            for codec in ('ac-3', 'ec-3', 'ec+3'):
                sized('moov_ac3', 'create_moov_ac3', b'moov', 'info:o', [K(codec)])
        else:
            sized('moov_' + m, 'create_moov_' + m, b'moov', 'info:o')
