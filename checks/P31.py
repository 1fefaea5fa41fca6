"""UTF-8: every byte sequence and code point against a reference decoder and encoder."""
from common import main, hob
import harn


def run():
    chk = hob.Check('P31', rule='one evaluation is one decoded byte sequence (all sequences of up to three bytes, four-byte sequences from a set of 22 '
                    'values per position, every code point, its truncations), one encoding attempt of a code point with buffers of 0 to 4 bytes, '
                    'or one random text; decoded sequences and code points are enumerated without repetition')
    nr, na = chk.n(20000, 400000), chk.n(1000, 40000)
    base = 1000 + (chk.seed * 7919 % 4000) * 1000000
    tot = 0
    for var, part, lab in (('plain', [(0, 273, 21)], ''), ('plain', [(base, nr, 8)], 'random_'),
                           ('asan', [(0x20, 4, 4), (0xc0, 4, 4), (0xe0, 4, 4), (0xec, 4, 4), (0xf0, 8, 8), (256, 1, 1), (base + nr, na, 8)]
                            if chk.tier == 'quick' else [(0, 273, 21), (base + nr, na, 8)], 'asan_')):
        for s, c, k in part:
            t = harn.drive(chk, hob.build(var, 'utf8'), s, c, k, timeout=600, label=lab)
            n = int(t.get('decoded', 0) + t.get('encoded', 0) + t.get('texts', 0))
            chk.evaluations += n
            tot += n
    if not chk.viol:
        chk.more_nontrivial += tot
    chk.sample('all sequences with first bytes 0x00..0xff; planes 0..16; random texts from seed %d' % base)
    chk.finish(20000000)


if __name__ == '__main__':
    main(run)
