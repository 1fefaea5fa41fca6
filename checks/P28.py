"""Containers: random histories of vectors, heaps, lists, pools, bit maps and strings against reference models."""
from common import main, hob
import harn


def run():
    chk = hob.Check('P28', rule='one evaluation is one set of random histories, one per container: vectors of nine element sizes (heap and pool '
                    'allocated), bit vectors, element and index heaps, rings, pools (every fourth seed), Boolean bit maps and strings, compared with '
                    'a reference after each operation; every seed is distinct')
    n, na = chk.n(16000, 400000), chk.n(1600, 40000)
    base = (chk.seed * 7919 % 4000) * 1000000
    t = harn.drive(chk, hob.build('plain', 'cont'), base, n, 16, timeout=800)
    t2 = harn.drive(chk, hob.build('asan', 'cont'), base + 500000, na, 16, timeout=800, label='asan_')
    chk.evaluations += n + na
    if not chk.viol and t.get('pool_blocks') and t.get('heap_ops') and t2.get('bitmap_ops'):
        chk.more_nontrivial += n + na
    chk.sample('seed %d: histories of all containers' % base)
    chk.finish(chk.n(16000, 400000))


if __name__ == '__main__':
    main(run)
