"""C22: the monitor records one time-stamped entry per step, in order."""
from sims_pars.monitor import Monitor
from .common import Unit

BOUNDS = 'every history of k operations (keep, step, step to, reset, reset to) with any times and values, then the whole record; k in the unit'
OUTSIDE = 'longer histories; NaN or non-numeric times; keeping an item called Time; logging and files'
ASSUMPTIONS = ['pandas builds a frame from a list of dicts with one row per dict, indexed by the column named']
KEYS = ['a', 'b']


def kept(S, mon, i, cur):
    """keep some of the items, in one call or in several"""
    v = {k: S.real('v%d_%s' % (i, k)) for k in KEYS}
    for k in KEYS:
        if S.bool('keep%d_%s' % (i, k)):
            if k == 'a':
                mon.keep(a=v[k])
            else:
                mon.keep(b=v[k])
            cur[k] = v[k]
    if S.bool('both%d' % i):
        w = S.real('w%d' % i)
        mon.keep(a=w, b=v['b'])
        cur['a'] = w
        cur['b'] = v['b']


def history(S, k, whole, fresh):
    mon = Monitor('check', stream_handler=False)
    time, cur, recs = 0, {}, []
    if not fresh:
        time = S.real('t0') if not whole else S.int('t0', -3, 3)
        mon.reset(time)
    S.prove(S.and_(S.close(mon.Time, time), len(mon.Records) == 0, len(mon.Last) == 0), 'a monitor starts empty at its time')
    for i in range(k):
        op = S.int('op%d' % i, 0, 4)
        t = S.real('t%d' % (i + 1)) if not whole else S.int('t%d' % (i + 1), -3, 3)
        t_old, n_old, last_old = mon.Time, len(mon.Records), dict(mon.Last)
        if op == 0:
            kept(S, mon, i, cur)
            for q in KEYS:
                if q in cur:
                    S.prove(S.close(mon[q], cur[q]), 'kept items are available until the next step')
        elif op == 1 or op == 2:
            new = time + 1 if op == 1 else t
            late = False
            try:
                if op == 1:
                    mon.step()
                else:
                    mon.step(t)
            except KeyError:
                late = True
            S.prove(S.iff(late, new < time), 'KeyError exactly for an earlier time')
            if late:
                S.reach('earlier time')
                S.prove(S.and_(S.close(mon.Time, t_old), len(mon.Records) == n_old, S.same(dict(mon.Last), last_old)),
                        'a rejected step changes nothing')
            elif new == time:
                S.reach('current time')
                S.prove(S.and_(S.close(mon.Time, t_old), len(mon.Records) == n_old, S.same(dict(mon.Last), last_old)),
                        'a step to the current time changes nothing')
            if new > time:
                S.reach('stepped')
                e = dict(cur)
                e['Time'] = time
                recs.append(e)
                cur.clear()
                time = new
        elif op == 3:
            mon.reset()
            time = 0
            cur.clear()
            recs.clear()
        else:
            mon.reset(t)
            time = t
            cur.clear()
            recs.clear()
        S.prove(S.close(mon.Time, time), 'the current time')
        S.prove(S.same(dict(mon.Last), cur), 'the pending entry')
        S.prove(len(mon.Records) == len(recs), 'one entry per step')
    S.prove(S.same(list(mon.Records), recs), 'the records are the entries filed, in order')
    ts = [r['Time'] for r in mon.Records]
    for i in range(k):
        if i + 1 < len(ts):
            S.prove(ts[i] < ts[i + 1], 'recorded times are strictly increasing')
    S.prove(S.implies(len(ts) > 0, ts[-1] < mon.Time if len(ts) > 0 else True), 'recorded times are past')
    if len(recs) > 0:
        tr = mon.Trajectories
        S.reach('trajectories')
        S.prove(S.same(list(tr.index), [r['Time'] for r in recs]), 'the trajectories are indexed by the recorded times')
        S.prove(len(tr) == len(recs), 'one row per entry')
        for q in KEYS:
            if any(q in r for r in recs):
                col = [None if S.isnan(v) else v for v in tr[q]]
                S.prove(S.same(col, [r[q] if q in r else None for r in recs]), 'the trajectories hold what was kept')


def units(tier):
    k = 4 if tier == 'quick' else 5
    us = []
    for fresh in (True, False):
        for whole in (False, True):
            us.append(Unit('%d operations, %s, %s' % (k, 'new monitor' if fresh else 'any start', 'whole times in [-3, 3]' if whole else 'real times'),
                           history, (k, whole, fresh), ['earlier time', 'current time', 'stepped', 'trajectories'], 'every history of %d operations' % k))
    return us
