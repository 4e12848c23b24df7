import struct

from engine.harness import Registry
from satella.exceptions import NotEnoughBytes
from satella.parsing import BinaryParser

R = Registry('C11', assumptions=['the stream is a bytes object with distinct bytes (parsing is '
                                 'position-dependent only); window lengths do not exceed the stream'])

FORMATS = [('B', 0), ('>H', 1), ('<l', 0), ('!B', 1), ('>HB', 0), ('<bhB', 1)]


def data_of(L):
    return bytes((37 * i + 130) % 256 for i in range(L))


@R.harness(quick=[dict(L=4, k=2), dict(L=7, k=1)], thorough=[dict(L=7, k=2), dict(L=3, k=3)],
           labels=['bytes', 'skip', 'struct', 'structs', 'not_enough', 'sub', 'sub_empty', 'reset', 'remaining', 'assert',
                   'bad_offset', 'pointer', 'offset_only'],
           bounds='streams of L bytes, arbitrary offset and window, k operations of any kind with '
                  'arbitrary sizes (nested windows included)')
def history(S, L, k):
    data = data_of(L)
    ofs = S.int('ofs', 0, L + 2)
    if ofs > L:
        S.expect_raises(NotEnoughBytes, BinaryParser, data, ofs)
        S.reach('bad_offset')
        return
    ofs = S.conc(ofs)
    if S.flag('haslen'):
        ln = S.int('len', 0)
        S.assume(ln <= L - ofs)
        bp = BinaryParser(data, ofs, ln)
        ln = S.conc(ln)
    else:
        bp = BinaryParser(data, ofs)
        ln = L - ofs
        if ofs:
            S.reach('offset_only')
    window = data[ofs:ofs + ln]
    pos = 0

    def verify():
        S.check(len(bp) == len(window), 'length of the window')
        S.check(bytes(bp) == window, lambda: 'bytes of the window %r %r' % (bytes(bp), window))
        S.check(bp.get_remaining_bytes_count() == len(window) - pos, 'remaining count')
        S.check(bp.get_remaining_bytes() == window[pos:], 'remaining bytes')

    verify()
    for i in range(k):
        op = S.pick('op', ['bytes', 'skip', 'struct', 'sub', 'reset', 'assert', 'pointer'])
        left = len(window) - pos
        if op in ('bytes', 'skip', 'sub', 'assert'):
            n = S.int('n', 0, L + 2)
            fn = {'bytes': bp.get_bytes, 'skip': bp.skip, 'sub': bp.get_parser,
                  'assert': bp.assert_has_bytes}[op]
            r, v = S.raises(NotEnoughBytes, fn, n)
            S.check(S.eq(r, n > left), 'NotEnoughBytes iff the window has too few bytes')
            if r:
                S.reach('not_enough')
            else:
                n = S.conc(n)
                if op == 'bytes':
                    S.check(v == window[pos:pos + n], 'read bytes')
                if op != 'assert':
                    pos += n
                if op == 'sub':
                    if n == 0:
                        S.reach('sub_empty')
                    verify()
                    outer, bp = bp, v
                    opos, owindow = pos, window
                    window = window[pos - n:pos]
                    pos = 0
                    if S.flag('stay'):
                        # look at the inner one, then go on with the outer
                        verify()
                        bp, window, pos = outer, owindow, opos
                S.reach(op)
        elif op == 'struct':
            fmt, compiled = S.pick('fmt', FORMATS)
            single = len(fmt.lstrip('<>!')) == 1
            st = struct.Struct(fmt)
            size = st.size
            arg = st if compiled else fmt
            r, v = S.raises(NotEnoughBytes, bp.get_struct if single else bp.get_structs, arg)
            S.check(r == (size > left), 'NotEnoughBytes iff the window has too few bytes')
            if not r:
                exp = st.unpack(window[pos:pos + size])
                S.check(v == (exp[0] if single else exp), 'parsed value')
                pos += size
                S.reach('struct' if single else 'structs')
        elif op == 'reset':
            bp.reset()
            pos = 0
            S.reach('reset')
        elif op == 'pointer':
            saved = bp.pointer
            if left:
                S.check(bp.get_bytes(1) == window[pos:pos + 1])
                bp.pointer = saved
                S.reach('pointer')
        verify()
        S.reach('remaining')


@R.harness(quick=[dict(k=2)], thorough=[dict(k=3)], labels=['again', 'other order', 'inner'],
           bounds='k values of formats that differ only in byte order, number or size, read one after another')
def formats(S, k):
    """a format means the same no matter which were used before"""
    data = data_of(40)
    bp = BinaryParser(data, 1)
    pos, used = 1, []
    for i in range(k):
        fmt = S.pick('fmt', ['H', '<H', '>H', '!H', '@H', '>h', '<I', '>I'])
        many = S.flag('many')
        if many:
            fmt += 'B'
        if S.flag('inner'):
            n = struct.calcsize(fmt)
            p = bp.get_parser(n)
            S.reach('inner')
        else:
            p = bp
        got = (p.get_structs if many else p.get_struct)(fmt)
        want = struct.Struct(fmt).unpack(data[pos:pos + struct.calcsize(fmt)])
        S.check(got == (want if many else want[0]), lambda: '%r after %r' % (fmt, used))
        pos += struct.calcsize(fmt)
        S.check(bp.pointer == pos, 'advanced by the size')
        if fmt in used:
            S.reach('again')
        elif any(f[-1] == fmt[-1] for f in used):
            S.reach('other order')
        used.append(fmt)
