"""2D core: arrangement, reduction, paths and triangles are exact."""
from common import main, hob
import harn, subprocess


def run():
    chk = hob.Check('P07', rule='random segment sets (polylines, rectangles, slivers, fans, overlaps, up to 10 operands, any Boolean '
                    'function, coordinates from +-2 to +-2^29), exact integer oracle; a case counts when its result is not empty')
    n = chk.n(72000, 4000000)
    na = chk.n(6000, 300000)
    base = (chk.seed * 7919 % 4000) * 1000000
    exe = hob.build('plain', 'sweep')
    t = harn.drive(chk, exe, base, n, 16 if chk.tier == 'quick' else 200, timeout=300)
    exa = hob.build('asan', 'sweep')
    t2 = harn.drive(chk, exa, base + 500000 if chk.tier == 'quick' else base + 5000000, na, 16 if chk.tier == 'quick' else 64, timeout=300, label='asan_')
    chk.evaluations += n + na
    chk.more_nontrivial += int(t.get('nonempty', 0) + t2.get('nonempty', 0))
    chk.sample(subprocess.run([exe, str(base), '1', 'dump'], stdout=subprocess.PIPE).stdout.decode()[:1200])
    chk.assumptions += ['membership is judged at points more than 1.6 grid units (3 for chained operations) off every input edge',
                        'coordinates within +-2^29 grid units']
    chk.finish(chk.n(40000, 2000000))


if __name__ == '__main__':
    main(run)
