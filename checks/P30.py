"""Linear algebra, trigonometry and interpolation of the library against long double references."""
from common import main, hob
import harn


def run():
    chk = hob.Check('P30', rule='one evaluation is one seed: all constructors of ten matrix types, products (also in place), inverses, determinants, '
                    'conversions, chains of invertible transformations, vector operations of three dimensions (with aliased results), ten angles, '
                    'a full circle iteration and interpolation, each with fresh random arguments')
    n, na = chk.n(48000, 4000000), chk.n(8000, 200000)
    base = (chk.seed * 7919 % 400) * 10000000
    t = harn.drive(chk, hob.build('plain', 'matrix'), base, n, 16, timeout=800)
    t2 = harn.drive(chk, hob.build('asan', 'matrix'), base + 5000000, na, 16, timeout=800, label='asan_')
    chk.evaluations += n + na
    if not chk.viol and t.get('inverses') and t2.get('circles'):
        chk.more_nontrivial += n + na
    chk.sample('seed %d: random matrices, vectors, angles' % base)
    chk.finish(chk.n(48000, 4000000))


if __name__ == '__main__':
    main(run)
