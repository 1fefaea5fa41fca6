"""Dictionary: random histories of all operations against ordered arrays."""
from common import main, hob
import harn


def run():
    chk = hob.Check('P27', rule='one evaluation is one random history (150 to 250 operations over five trees) of all dictionary operations, '
                    'with a full walk of the tree after each; every seed is a distinct history')
    n, na = chk.n(64000, 1600000), chk.n(6400, 160000)
    base = (chk.seed * 7919 % 4000) * 1000000
    t = harn.drive(chk, hob.build('plain', 'dict'), base, n, 16, timeout=600)
    t2 = harn.drive(chk, hob.build('asan', 'dict'), base + 5000000, na, 16, timeout=600, label='asan_')
    chk.evaluations += n + na
    if not chk.viol and t.get('rotations') and t.get('splits') and t2.get('joins'):
        chk.more_nontrivial += n + na
    chk.sample('seed %d: random history of insert, find, remove, extract, swap, join and split' % base)
    chk.finish(chk.n(60000, 1500000))


if __name__ == '__main__':
    main(run)
