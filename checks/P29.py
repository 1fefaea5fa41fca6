"""Exact arithmetic of the 2D core against 128 bit integers."""
from common import main, hob
import harn


def run():
    chk = hob.Check('P29', rule='random integer segments up to 30 bits incl. collinear, touching and end-point cases; each seed runs 200 '
                    'rounds of intersection, comparison, rounding, edge/pixel and division tests; every seed is distinct')
    n, na = chk.n(64000, 4000000), chk.n(3200, 160000)
    base = (chk.seed * 7919 % 4000) * 1000000
    t = harn.drive(chk, hob.build('plain', 'matq'), base, n, 16, timeout=400)
    t2 = harn.drive(chk, hob.build('asan', 'matq'), base + 500000, na, 16, timeout=400, label='asan_')
    chk.evaluations += n + na
    if not chk.viol:
        chk.more_nontrivial += int(min(t.get('crossings', 0), n)) + int(min(t2.get('crossings', 0), na))
    chk.sample('seed %d: 200 rounds of random segments' % base)
    chk.assumptions += ['input coordinates use at most 30 bits, the range the code documents']
    chk.finish(chk.n(60000, 3000000))


if __name__ == '__main__':
    main(run)
