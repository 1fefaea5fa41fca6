"""Run C harness programs in chunks and collect their VIOL / CRASH / STAT lines."""
import re
import hob

_c = {}


def _chunk(a):
    exe, args, to = a
    r = hob.patient([exe] + [str(x) for x in args], None, to)
    return args, r


def drive(chk, exe, seed0, count, chunks=16, extra=(), timeout=120, label='', per_case=True, san=False):
    """harness <seed> <count> extra...; every case counts as one evaluation"""
    per = max(1, count // chunks)
    jobs = [(exe, [seed0 + k * per, per] + list(extra), timeout) for k in range(chunks)]
    tot = {}
    for args, r in hob.pmap(_chunk, jobs):
        o = r.out.decode(errors='replace')
        done = o.rstrip().endswith('DONE')
        for m in re.finditer(r'^VIOL seed=(\S+) key=(\S+) (.*)$', o, re.M):
            chk.violation(m.group(2), 'harness %s seed %s: %s\nreplay: %s %s 1 %s' % (
                label, m.group(1), m.group(3), exe, m.group(1), ' '.join(map(str, extra))))
        if not done:
            m = re.search(r'CRASH seed=(\S+) signal=(\d+)', o)
            ck = hob.crash_kind(r) or ('exit%s' % r.rc)
            key = 'crash-' + ck
            chk.violation(key, 'harness %s: %s at %s (args %s)\n%s' % (label, ck, m.group(0) if m else '?', args, r.etext[-1500:]),
                          {'stderr.txt': r.err[-20000:]})
        for m in re.finditer(r'^STAT (.*)$', o, re.M):
            for kv in m.group(1).split():
                k, v = kv.split('=')
                v = float(v)
                if k.startswith('max'):
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
    for k, v in tot.items():
        if not k.startswith('max'):
            v += chk.stats.get(label + k, 0)
        chk.stats[label + k] = int(v) if v == int(v) else v
    return tot
