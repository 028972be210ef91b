"""What each property's check runs, and within which bounds."""

EARLY, DUE, DROPPED, ARMED, SPIN, ORDER, LEAK, ONCE = 1, 2, 4, 8, 16, 32, 64, 128
FIRED = ['end', 'a sleep fired']
NONE, CREATE, POLL, REPOLL, RESET, DROP = 1, 2, 4, 8, 16, 32

ASSUME = [
    'single-threaded host (WebAssembly without shared memory): no preemption inside the crate',
    'wasm-bindgen and js-sys are replaced by /verif/stubs: performance.now() returns the simulated clock (1/8 ms resolution), '
    'setTimeout(f, d) may run f in any later turn of the event loop in which the clock shows at least request time + d ms',
    'the allocator is a bump allocator that never fails below 16 MiB; freed blocks are never reused, any use of them is reported',
    'rustc 1.97.0 wasm32-unknown-unknown output with overflow checks and debug assertions is what is analysed; z3 answers are trusted '
    '(models are re-evaluated, samples and counterexamples are run in node)',
]


def _ops(m):
    return ', '.join(n for b, n in [(CREATE, 'create+poll'), (POLL, 'poll'), (REPOLL, 'poll from a second task'), (RESET, 'reset'),
                                    (DROP, 'drop'), (NONE, 'nothing')] if m & b)


def bounds(r, p):
    f = B.get(r['entry'])
    return f(p) if f else r.get('bounds', '')


B = {
    'h_history': lambda p: '%d sleeps whole milliseconds apart that %s (host runs after each: %s), then or before them one sleep with any delay '
                           '0..%d units of 1/8 ms under a prompt host' % (
                               p[0], ['all fire', 'are dropped', 'half fire and half are dropped'][p[1]], 'yes' if p[4] else 'no', p[2]),
    'h_long': lambda p: 'one sleep of any delay from %d ms to %d/8 ms longer, any sub-millisecond phase of the clock' % (p[0], p[1]),
    'h_sleeps': lambda p: '%d initial sleeps, then %d steps, each any of {%s} followed or not by time passing and the host running; delays 0..%d '
                          'units of 1/8 ms, any sub-millisecond phase, steps of the clock 0..%d units%s' % (
                              p[1], p[2], _ops(p[3]), p[5] or 800, p[5] or 800,
                              (', the clock moving on by 0..16 units before each of %d readings' % p[7] if p[7] else '') + _far(p, 8) + (
                              ', any outstanding callback up to %d times before its time' % p[9] if len(p) > 9 and p[9] else '') + (', deadlines at any nanosecond' if len(p) > 10 else '')),
    'h_interval': lambda p: '%d looks at the clock, %s missed-tick behaviour, period %s, any start, the clock moves 0..%d units of 1/8 ms before each%s' % (
        p[0], ['burst', 'delay', 'skip', 'default (burst)', 'any, changed at any time,'][p[1]],
        'any from %d ns to 4 s' % (p[5] if len(p) > 5 else 1) if p[2] == 0 else '%d ms' % p[2] if p[2] > 0 else '%d ns' % -p[2], p[3],
        (', or the interval is reset' if p[4] else '') + _far(p, 6) + ('; after %d ticks, each seen %d/8 ms late' % (p[7], p[8]) if len(p) > 7 and p[7] else '') + (
            ', starting at any nanosecond' if len(p) > 9 and p[9] else '') + (', polled by either of two tasks' if len(p) > 10 else '')),
    'h_mixed': lambda p: 'one each of %s with any deadlines 0..%d units of 1/8 ms (interval of 10 ms), %s clock, %d steps of time and any choice of pollers%s' % (
        ', '.join(n for i, n in enumerate(['sleep', 'interval', 'timeout', 'delay queue']) if p[3] >> i & 1), p[1], 'paused' if p[2] else 'host', p[0],
        ', one dropped or none before each' if p[4] else ''),
    'h_growth': lambda p: '%d times %s, delays 0..%d units of 1/8 ms more; memory in use after a quarter of them is never exceeded after all' % (
        p[1], GROW[p[0]], p[2]),
    'h_timeout': lambda p: 'any deadline 0..%d units of 1/8 ms, %d polls of a timeout around a future that becomes ready at any of them, at any times%s' % (p[1], p[0], _far(p, 2)) + (
        '; after %d polls' % p[3] if len(p) > 3 and p[3] else '') + (
            ', deadline at any nanosecond' if len(p) > 4 and p[4] else '') + (', polled by either of two tasks' if len(p) > 5 else ''),
    'h_leak': lambda p: '%s, any %d steps of {poll by either task, reset, drop, take the future back}, with or without the host running, times 0..%d units of 1/8 ms' % (
        {1: 'an interval', 2: 'a timeout', 3: 'an interval and a timeout'}[p[2]], p[0], p[1]),
    'h_durations': lambda p: '%s, any duration of 0..2^64-1 s and 0..999999999 ns, clock moving 0..%d units%s' % (
        ['sleep', 'timeout', 'interval', 'interval whose tick is seen late', 're-armed sleep'][p[0]], p[1], _far(p, 2)),
    'h_queue': lambda p: _queue(list(p) + [0] * 10),
    'h_keys': lambda p: '%d items at first, then any %d steps of {%s}, at most %d items at a time, which end %s; initial capacity %d' % (
        p[2], p[0], ', '.join(n for b, n in QOPS if b & p[1]), p[3], 'yielded' if p[4] else 'removed by key', p[5]),
    'h_rearm': lambda p: 'a sleep re-armed %d times before (%s), then once more for any deadline 0..%d units of 1/8 ms' % (
        p[0], ['nothing between', 'the host runs after each', 'it fires after each'][p[1]], p[2]),
    'h_limit': lambda p: 'a queue polled until %d..%d ms after its creation, then up to %d units of 1/8 ms later a deadline within %d units of the furthest '
                         'it takes, by insert, insert_at, reset or reset_at' % (p[0], p[0] + p[1], p[3], p[2]),
    'h_heap': lambda p: 'every heap of %d entries with any keys, any %d cancellations, then %d additions, then emptied' % tuple(p),
    'h_heap_ops': lambda p: '%d entries with any keys, then any %d additions, releases and cancellations, then emptied' % tuple(p),
    'h_list': lambda p: 'any %d steps of {push any of %d entries, take, seal, deliver one, drop} and both ways to end' % tuple(p),
    'h_gone': lambda p: '%d sleeps of any deadlines 0..%d units of 1/8 ms, polled or not, any %d steps of {drive, poll, reset, drop}, then the timer is destroyed, '
                        'with or without sleeps created from the wakeups this causes' % (p[0], p[2], p[1]),
    'h_instant': lambda p: 'every clock reading 0..2^40 units of 1/8 ms, moved by any duration, then %s, any duration 0..2^64-1 s and 0..999999999 ns each' % (
        ['added to', 'subtracted from', 'compared with any other instant', 'elapsed'][p[0]]),
    'h_reading': lambda p: 'two readings n * 2^%d ms of the host clock, n of %d to %d bits' % (-p[0], p[1], p[2]),
    'h_reads': lambda p: 'five non-decreasing readings n * 2^-%d ms of a host clock that moves on before each of them, n below 2^%d' % (p[0], p[1]),
    'h_system': lambda p: '%s, any whole-millisecond times and durations within 2^%d ms of the epoch' % (
        ['sums and differences', 'comparison and difference', 'the current time'][p[0]], p[1]),
    'h_roundtrip': lambda p: 'every whole-millisecond time within 2^%d ms of the epoch, fields named by string or bytes in both orders or unnamed' % p[0],
    'h_names': lambda p: 'a field of any 7-bit name of %d characters (not one of the two), named by string or bytes, in place of or beside the two' % p[0],
    'h_malformed': lambda p: 'every record of up to %d fields {seconds, nanoseconds, unknown}, named by string or bytes, or unnamed; seconds %s, any nanoseconds' % (
        p[0], ['0..2^53/1000', '2^64-6..2^64-1', 'any'][p[1]]),
    'h_clock': lambda p: '%d steps of {nothing, pause, resume, advance by %s}, host clock moving 0..100 ms before each' % (
        p[0], '0..2^40 s + any ns' if p[1] else '0..100 ms in ns') + ('; after %d rounds of pause, advance and resume' % p[2] if len(p) > 2 else ''),
    'h_paused': lambda p: '%d sleeps created before and %d after the pause (%s), %d steps of {advance, host time passes, drop, reset and poll}%s, durations 0..100 ms in %s%s%s' % (
        p[0], p[1], 'host runs between' if p[4] else 'host does not run', p[2], ', then resume' if p[3] else '', '1/8 ms' if p[5] else 'ns',
        ', or %d ms more' % p[6] if len(p) > 6 and p[6] else '', ', then paused and advanced again' if len(p) > 7 and p[7] else ''),
    'h_crowd': lambda p: '%d sleeps in an arrangement of shared and distinct deadlines up to 250 ms ahead%s%s%s, and one more due any time %d..%d units of 1/8 ms ahead, created before or after' % (
        p[1], ', a third re-armed' if p[3] & 1 else '', ', a third dropped' if p[3] & 2 else '', ', a quarter more created later and a fifth of all dropped' if p[3] & 4 else '', p[4], p[4] + p[2]) + (
        '; after %d sleeps that fired, were dropped or were re-armed one after another' % p[5] if len(p) > 5 else ''),
    'h_beyond': lambda p: 'any deadline further ahead than the queue takes, up to 2^64-1 s and 999999999 ns, by insert, insert_at, reset or reset_at, queue age %d ms' % p[0],
    'h_many': lambda p: '%d items in an arrangement of deadlines over all levels (1 ms to months)%s%s%s%s%s, and one more due any time in a window of %d units of 1/8 ms at %d ms, inserted before or after; queue age %d ms' % (
        p[1], ', inserted after half of them had been cleared' if p[3] & 16 else '', ', a third removed' if p[3] & 1 else '', ', a third reset' if p[3] & 2 else '', ', compacted' if p[3] & 4 else '',
        ', half as many inserted later and a fifth removed' if p[3] & 8 else '', p[2], p[4], p[5] if len(p) > 5 else 0),
    'h_paused_crowd': lambda p: '%d sleeps created before and %d after a pause, a fifth dropped, a fifth re-armed, deadlines up to 100 ms, two advances by any %d..%d ms + 0..1 ms, in ns' % (p[0], p[1], p[2], p[2] + 4),
    'h_reenter': lambda p: '%s, %d sleeps with any deadlines 0..%d units of 1/8 ms, %d actions inside wakeups, each any of {%s}' % (
        'paused clock' if p[0] else 'host timeouts', p[1], p[4], p[2],
        ', '.join(n for b, n in [(1, 'create and poll'), (2, 'poll itself'), (4, 're-arm and poll any'), (8, 'drop any')] if b & p[3])),
}
QOPS = [(1, 'insert'), (2, 'let time pass and poll'), (4, 'remove'), (8, 'try_remove'), (16, 'reset'), (32, 'compact'), (64, 'shrink_to_fit'), (128, 'clear'), (256, 'reserve'), (512, 'poll by another task from now on')]
QBASES = ['0', '60 ms', '4090 ms', '262140 ms', '64^4-4 ms', '2^30 ms', '2^32-4 ms', '2^36-4 ms']


GROW = ['a sleep is created, polled and dropped', 'a sleep is created, fires and is dropped', 'a sleep is re-armed', 'a sleep is created and another of three dropped',
        'a sooner sleep is created and another of three dropped', 'an item is inserted and removed', 'an item is inserted and yielded', 'an item is reset',
        'an item is inserted and removed (after a compaction)', 'an item is inserted and yielded (after a compaction)', 'an interval is polled',
        'four sleeps are created and dropped in any order']


def _far(p, i):
    return ', each time also %d units more' % p[i] if len(p) > i and p[i] else ''


def _queue(p):
    return '%d items inserted at first, then %d steps of {%s}, deadlines at %s + 0..%d units of 1/8 ms, queue age %d..%d ms' % (
        p[1], p[2], ', '.join(n for b, n in QOPS if b & p[3]) or 'nothing', ' or '.join(n for i, n in enumerate(QBASES) if p[4] >> i & 1), p[5],
        p[6], p[6] + p[7]) + (' (the window starts 1 ms before the time up to which the queue was polled)' if p[6] else '') + (
        '; after %d items, one after another, that were %s' % (p[8], ['yielded', 'removed', 'reset', 'cleared', 'waited for'][p[9]]) if p[8] else '') + (', deadlines at any nanosecond' if p[10] else '')


def queue(mask, n, steps, ops, bases, width, age=0, spread=0, **k):
    k.setdefault('need', ['end', 'yielded'])
    return dict(entry='h_queue', params=[mask, n, steps, ops, bases, width, age, spread], **k)


def keys(*p, **k):
    return dict(entry='h_keys', params=list(p), need=['end'], **k)


def rearm(*p, **k):
    return dict(entry='h_rearm', params=list(p), need=FIRED, steps=1000000000, **k)


def limit(age, spread, width, passed, **k):
    return dict(entry='h_limit', params=[age, spread, width, passed], need=['end', 'accepted'], **k)


def h(entry, *params, **k):
    return dict(entry=entry, params=list(params), **k)


# 145 days and some: beyond 2^31 ms, 2^32 ms, and 2^32 of anything smaller
FAR = 100000000003


def interval(steps, policy, period, span, resets=0, least=1, far=0, **k):
    return dict(entry='h_interval', params=[steps, policy, period, span, resets, least, far], **k)


def growth(what, cycles, span, **k):
    return dict(entry='h_growth', params=[what, cycles, span], need=['end'], steps=1000000000, time=200, **k)


def durations(kind, span, far=0, **k):
    return dict(entry='h_durations', params=[kind, span, far], **k)


def paused(before, after, steps, res, host, units=0, far=0, again=0, **k):
    k.setdefault('need', ['end', 'paused', 'fired by an advance', 'still pending after an advance'])
    return dict(entry='h_paused', build='tt', params=[before, after, steps, res, host, units, far, again], **k)


LONG = 66000  # more than a 16-bit counter holds


def crowd(mask, n, width, what, base=40, before=0, **k):
    k.setdefault('need', FIRED + (['forerunners'] if before else []))
    return dict(entry='h_crowd', params=[mask, n, width, what, base] + ([before] if before else []), steps=100000000000, time=300, samples=2 if before else 12, **k)


def fine(mask, n, steps, ops, bases, width, **k):
    k.setdefault('need', ['end', 'yielded'])
    return dict(entry='h_queue', params=[mask, n, steps, ops, bases, width, 0, 0, 0, 0, 1], time=200, **k)


def life(mask, before, how, n=1, steps=1, ops=7, bases=1, width=24, **k):
    k.setdefault('need', ['end', 'yielded', 'a long life'])
    return dict(entry='h_queue', params=[mask, n, steps, ops, bases, width, 0, 0, before, how], steps=100000000000, time=300, samples=2, **k)


def ticks(policy, n, late=0, **k):
    return dict(entry='h_interval', params=[2, policy, 10, 800, 0, 1, 0, n, late], need=['end', 'many ticks', 'tick'], steps=100000000000, time=300, samples=2, **k)


def many(mask, n, width, what, base=60, age=0, **k):
    k.setdefault('need', ['end', 'yielded'])
    return dict(entry='h_many', params=[mask, n, width, what, base, age], steps=1000000000, time=300, **k)


def mixed(steps, span, pause, kinds, drop, **k):
    names = ['slept', 'ticked', 'timed out', 'yielded']
    return dict(entry='h_mixed', build='tt' if pause else 'prod', params=[steps, span, pause, kinds, drop],
                need=['end', 'woken'] + [n for i, n in enumerate(names) if kinds >> i & 1], **k)


def reenter(p, n, acts, ops, span, **k):
    k.setdefault('need', ['end', 'fired', 'created inside a wakeup'])
    return dict(entry='h_reenter', build='tt' if p else 'prod', params=[p, n, acts, ops, span], **k)


def sleeps(mask, n, steps, ops, warm=0, span=0, first=0, drift=0, far=0, eager=0, fine=0, **k):
    return dict(entry='h_sleeps', params=[mask, n, steps, ops, warm, span, first, drift, far, eager] + ([1] if fine else []), **k)


def history(k, kind, span, free=0, settle=0, **q):
    return dict(entry='h_history', params=[k, kind, span, free, settle], steps=500000000, **q)


def long(base, width, **q):
    return dict(entry='h_long', params=[base, width], steps=50000000, **q)


RUNS = {
    'C01': {
        'quick': [
            sleeps(EARLY, 1, 2, 63, span=80, far=FAR, need=FIRED, time=200),
            sleeps(EARLY, 1, 2, 63, need=FIRED, time=200),
            sleeps(EARLY, 3, 1, 63, need=FIRED, time=200),
            sleeps(EARLY, 1, 2, 63, drift=3, need=FIRED, time=200),
            sleeps(EARLY, 3, 1, NONE, first=1, drift=3, need=FIRED, time=200),
            reenter(0, 2, 1, 15, 80, time=200),
        ],
        'thorough': [
            sleeps(EARLY, 2, 2, 63, need=FIRED, time=3600),
            sleeps(EARLY, 1, 3, 63, need=FIRED, time=3600),
            sleeps(EARLY, 4, 1, 63, need=FIRED, time=3600),
        ],
    },
    'C02': {
        'quick': [
            sleeps(DUE, 2, 1, 63, span=80, far=FAR, need=FIRED, time=200),
            sleeps(DUE, 3, 1, 63, need=FIRED, time=200),
            sleeps(DUE, 1, 2, 63, need=FIRED, time=200),
            sleeps(DUE, 4, 0, 1, first=1, need=FIRED, time=200),
            sleeps(DUE, 2, 1, 63, drift=3, need=FIRED, time=200),
            reenter(0, 2, 1, 15, 80, time=200),
            history(130, 2, 400, 0, 0, need=['end', 'pending while idle'], time=200),
        ],
        'thorough': [
            sleeps(DUE, 2, 2, 63, need=FIRED, time=3600),
            sleeps(DUE, 1, 3, 63, need=FIRED, time=3600),
            sleeps(DUE, 5, 0, 1, first=1, need=FIRED, time=3600),
            sleeps(DUE, 4, 1, 63, need=FIRED, time=3600),
        ],
    },
    'C03': {
        'quick': [
            sleeps(EARLY | DUE, 1, 2, NONE | RESET, span=80, first=1, far=FAR, need=FIRED, time=200),
            sleeps(EARLY | DUE, 1, 3, NONE | RESET, first=1, need=FIRED, time=200),
            sleeps(EARLY | DUE, 2, 2, RESET, first=1, need=FIRED, time=200),
            sleeps(EARLY | DUE, 3, 1, RESET, first=1, need=FIRED, time=200),
            rearm(300, 1, 80, 1, time=200),
            rearm(300, 2, 80, 1, time=200),
            rearm(70000, 0, 80, 0, time=200),
            rearm(70000, 1, 80, 0, time=200),
            reenter(0, 2, 2, 4, 80, need=['end', 'fired'], time=200),
        ],
        'thorough': [
            sleeps(EARLY | DUE, 1, 4, NONE | RESET | POLL, first=1, need=FIRED, time=3600),
            sleeps(EARLY | DUE, 2, 3, NONE | RESET, first=1, need=FIRED, time=3600),
            sleeps(EARLY | DUE, 3, 2, RESET, first=1, need=FIRED, time=3600),
        ],
    },
    'C04': {
        'quick': [
            sleeps(EARLY | DUE | DROPPED, 2, 1, NONE | DROP, need=FIRED + ['dropped sleep settled'], time=200),
            sleeps(EARLY | DUE | DROPPED, 3, 2, DROP, first=1, need=FIRED + ['dropped sleep settled'], time=200),
            sleeps(EARLY | DUE | DROPPED, 4, 1, DROP, first=1, need=FIRED + ['dropped sleep settled'], time=200),
            reenter(0, 3, 1, 8, 80, need=['end', 'fired'], time=200),
            sleeps(LEAK, 2, 1, 63, warm=1, need=['end', 'compared memory at rest'], time=200),
            paused(1, 1, 2, 0, 0, need=['end', 'paused', 'dropped while paused'], time=200),
            paused(2, 1, 1, 0, 1, need=['end', 'paused'], time=200),
        ],
        'thorough': [
            sleeps(EARLY | DUE | DROPPED, 2, 2, 63, need=FIRED + ['dropped sleep settled'], time=3600),
            sleeps(EARLY | DUE | DROPPED, 4, 2, DROP, first=1, need=FIRED + ['dropped sleep settled'], time=3600),
            sleeps(EARLY | DUE | DROPPED, 5, 1, DROP, first=1, need=FIRED + ['dropped sleep settled'], time=3600),
        ],
    },
    'C05': {
        'quick': [
            sleeps(ARMED, 2, 1, 63, span=80, far=FAR, need=['end', 'a sleep is pending while idle'], time=200),
            sleeps(ARMED, 2, 1, 63, need=['end', 'a sleep is pending while idle'], time=200),
            sleeps(ARMED, 1, 2, CREATE | RESET | DROP, need=['end', 'a sleep is pending while idle'], time=200),
            sleeps(ARMED, 2, 1, 63, drift=2, need=['end', 'a sleep is pending while idle'], time=200),
            history(3, 2, 200, 1, 1, need=['end', 'pending while idle'], time=100),
            history(22, 0, 4000, 0, 1, need=['end', 'pending while idle'], time=100),
            history(22, 0, 4000, 0, 0, need=['end', 'pending while idle'], time=100),
            history(40, 1, 4000, 0, 1, need=['end', 'pending while idle'], time=100),
        ],
        'thorough': [
            sleeps(ARMED, 2, 2, 63, need=['end', 'a sleep is pending while idle'], time=3600),
            sleeps(ARMED, 3, 1, 63, need=['end', 'a sleep is pending while idle'], time=3600),
            history(22, 2, 400, 1, 1, need=['end', 'pending while idle'], time=3600),
            history(40, 0, 4000, 1, 1, need=['end', 'pending while idle'], time=3600),
            history(64, 0, 4000, 0, 1, need=['end', 'pending while idle'], time=3600),
        ],
    },
    'C06': {
        'quick': [
            sleeps(SPIN, 1, 1, 63, span=80, far=FAR, need=['end', 're-armed for a deadline', 're-armed while idle'], time=200),
            sleeps(SPIN, 2, 1, 63, need=['end', 're-armed for a deadline', 're-armed while idle'], time=200),
            long(0, 100000, need=['end', 'armed'], time=100),
            long(2147483640, 2000, need=['end', 'armed'], time=200),
            long(10000000000, 20000, need=['end', 'armed'], time=100),
            history(22, 1, 4000, 0, 1, need=['end'], time=100),
        ],
        'thorough': [
            sleeps(SPIN, 2, 2, 63, need=['end', 're-armed for a deadline', 're-armed while idle'], time=3600),
            sleeps(SPIN, 3, 1, 63, need=['end', 're-armed for a deadline', 're-armed while idle'], time=3600),
            long(0, 1 << 34, need=['end', 'armed'], time=3600),
            long(2147483640, 20000, need=['end', 'armed'], time=3600),
            long(4294967290, 20000, need=['end', 'armed'], time=3600),
            long(1000000000000, 20000, need=['end', 'armed'], time=3600),
            history(40, 2, 4000, 0, 1, need=['end'], time=3600),
        ],
    },
}
RUNS.update({
    'C08': {
        'quick': [
            interval(3, 3, 10, 800, 1, far=FAR, need=['end', 'tick', 'reset while a task waits'], time=200),
            interval(2, 3, 0, 800, far=FAR, time=200),
            interval(3, 3, 0, 800, time=200),
            interval(3, 3, 10, 800, 1, time=200),
            interval(2, 3, 0, 800, 1, time=200),
        ],
    },
    'C09': {
        'quick': [
            interval(3, 2, 10, 800, far=FAR, time=200), interval(3, 1, 10, 800, far=FAR, time=200), interval(3, 4, 10, 800, time=200), interval(3, 2, 10, 800, far=100003, time=200),
            interval(2, 2, 86400000, 800, far=FAR, time=200), interval(2, 0, 0, 800, far=FAR, time=200)] + [
            interval(3, pol, per, 800, time=200) for pol in (0, 1) for per in (0, 10)] + [
            interval(2, 2, 0, 800, 0, 50000000, time=200),
            interval(3, 2, 10, 800, 1, time=200),
            interval(3, 2, 7, 800, time=200),
            interval(3, 2, -333, 800, time=200),
        ],
        'thorough': [interval(4, pol, per, 800, 1, time=3600) for pol in (0, 1) for per in (0, 10)] + [
            interval(3, 2, 0, 800, 0, 50000000, time=3600),
            interval(2, 2, 0, 800, 0, 10000000, time=3600),
            interval(2, 2, 0, 80, 0, 1000000, time=3600),
            interval(4, 2, 10, 800, 1, time=3600),
            interval(4, 2, 7, 800, time=3600),
            interval(4, 2, -333, 800, time=3600),
        ],
    },
    'C10': {
        'quick': [
            dict(entry='h_timeout', params=[3, 800, FAR], time=200),
            dict(entry='h_timeout', params=[3, 800], time=200),
            dict(entry='h_timeout', params=[4, 80], time=200),
        ],
    },
    'C25': {
        'quick': [durations(k, 800, time=300) for k in range(5)] + [durations(k, 800, FAR, time=200) for k in (0, 1, 2, 4)],
    },
    'C17': {
        'quick': [
            queue(1, 3, 0, 0, 7, 24, time=200),
            queue(1, 2, 1, 511, 3, 24, time=200),
            queue(1, 2, 2, 18, 3, 16, time=200),
            queue(1, 2, 1, 23, 3, 24, build='tt', time=200),
            queue(1, 2, 1, 511, 160, 16, time=200),
            queue(1, 2, 1, 511, 1, 24, 3000, time=200),
        ],
    },
    'C18': {
        'quick': [
            queue(2, 3, 0, 0, 7, 24, time=200),
            queue(2, 2, 0, 0, 255, 24, time=200),
            queue(2, 2, 1, 511, 3, 24, time=200),
            queue(2, 3, 1, 2, 3, 16, time=200),
            queue(2, 2, 1, 511, 12, 16, time=200),
            queue(2, 2, 1, 511, 1, 24, 3000, time=200),
            queue(2, 3, 1, 2, 1, 16, 3000, time=200),
        ],
    },
    'C19': {
        'quick': [
            queue(6, 2, 1, 31, 3, 24, time=200),
            queue(6, 3, 2, 12, 3, 16, time=200),
            queue(6, 3, 1, 28, 3, 16, time=200),
            queue(6, 2, 1, 31, 12, 24, time=200),
            queue(6, 2, 1, 31, 160, 16, time=200),
            queue(6, 3, 1, 28, 5, 16, time=200),
            queue(6, 2, 2, 20, 1, 16, 3000, time=200),
            queue(6, 2, 2, 12, 12, 16, need=['end', 'yielded', 'tried an absent key'], time=200),
        ],
    },
    'C20': {
        'quick': [
            queue(6, 2, 2, 32 + 4 + 1, 1, 16, time=200),
            queue(6, 3, 3, 32 + 4, 1, 8, time=200),
            queue(6, 2, 2, 32 + 64 + 128 + 256 + 1, 1, 8, time=200),
            keys(6, 45, 3, 4, 0, 0, time=200),
            keys(6, 169, 2, 4, 0, 2, time=200),
            keys(4, 253, 3, 4, 1, 0, time=200),
            keys(8, 41, 1, 3, 0, 0, time=200),
            queue(6, 2, 2, 61, 4, 8, time=200),
        ],
    },
    'C21': {
        'quick': [
            queue(16, 1, 2, 511, 1, 24, time=200),
            queue(16, 2, 2, 23, 1, 16, time=200),
            queue(16, 1, 2, 23, 1, 16, 3000, time=200),
            queue(16, 1, 2, 1023, 1, 24, need=['end', 'yielded', 'polled by another task'], time=200),
            queue(16, 2, 2, 535, 1, 16, need=['end', 'yielded', 'polled by another task'], time=200),
            queue(16, 1, 2, 512 + 128 + 16 + 4, 1, 24, need=['end', 'polled by another task', 'emptied while waiting'], time=200),
            queue(16, 2, 1, 1023, 7, 16, need=['end', 'yielded', 'polled by another task'], time=200),
        ],
    },
    'C22': {
        'quick': [
            queue(3, 2, 0, 0, 128 + 32 + 1, 24, 1000000000, time=200),
            queue(3, 2, 0, 0, 3, 24, 4294967290, 10, time=200),
            queue(3, 2, 0, 0, 129, 24, 68719476700, time=200),
            queue(3, 1, 1, 16 + 2, 129, 24, 68719476700, time=200),
            limit(0, 0, 40, 800, time=200),
            limit(68719476730, 10, 24, 16, time=200),
            limit(4294967290, 10, 24, 16, time=200),
            queue(7, 1, 2, 129, 1, 16, 68719476730, time=200),
            queue(7, 1, 2, 129, 1, 16, 4398046511100, time=200),
            queue(3, 2, 0, 0, 3, 16, 1099511627770, time=200),
        ],
    },
    'C26': {
        'quick': [
            growth(0, 200, 80),
            growth(1, 200, 0),
            growth(2, 200, 80),
            growth(3, 200, 80),
            growth(4, 100, 8),
            growth(5, 200, 80),
            growth(6, 60, 8),
            growth(7, 200, 80),
            growth(8, 200, 80),
            growth(9, 60, 8),
            growth(10, 60, 8),
            growth(11, 40, 8),
            sleeps(LEAK, 2, 1, 63, warm=1, need=['end', 'compared memory at rest'], time=200),
            sleeps(LEAK, 1, 2, 63, warm=1, need=['end', 'compared memory at rest'], time=200),
            queue(64, 2, 1, 511, 1, 16, need=['end', 'compared memory at rest'], time=200),
            dict(entry='h_leak', params=[3, 800, 1], need=['end', 'compared memory at rest'], time=200),
            dict(entry='h_leak', params=[3, 80, 3], need=['end', 'compared memory at rest', 'timeout over'], time=200),
            h('h_list', 6, 2, build='u-list', need=['end', 'delivered', 'pushed again', 'refused'], time=200),
            h('h_gone', 2, 2, 40, build='u-gone', need=['end', 'woken by destruction'], time=200),
        ],
    },
    'C11': {
        'quick': [
            dict(entry='h_clock', build='tt', params=[3, 0], need=['end', 'paused', 'advanced'], time=200),
            dict(entry='h_clock', build='tt', params=[4, 1], need=['end', 'paused', 'advanced', 'resumed'], time=200),
            dict(entry='h_clock', build='tt', params=[2, 0, LONG], need=['end', 'paused'], steps=100000000000, time=300, samples=2),
        ],
    },
    'C12': {
        'quick': [
            paused(1, 1, 1, 0, 0, far=12500000000, time=200),
            paused(1, 1, 1, 1, 0, far=5000000000, time=200),
            paused(1, 1, 2, 0, 0, time=200),
            paused(2, 0, 1, 0, 1, time=200),
            paused(0, 3, 1, 0, 0, time=200),
            paused(1, 1, 1, 1, 1, 1, time=200),
        ],
    },
    'C27': {
        'quick': [
            reenter(0, 2, 2, 15, 80, time=200),
            reenter(0, 3, 1, 15, 80, time=200),
            reenter(1, 2, 2, 15, 80, time=200),
            reenter(1, 3, 1, 15, 80, time=200),
        ],
    },
})
ARMEDFIRED = FIRED + ['called back before its time']
RUNS.update({
    'C28': {
        'quick': [
            mixed(1, 80, 0, 7, 1, time=200), mixed(1, 80, 1, 7, 1, time=200), mixed(1, 80, 1, 15, 0, time=200), mixed(1, 400, 0, 3, 0, time=200),
            mixed(1, 800, 0, 9, 0, time=200), mixed(1, 800, 1, 9, 0, time=200), mixed(1, 80, 0, 14, 0, time=200), mixed(2, 80, 0, 3, 1, time=200),
            mixed(2, 80, 1, 9, 1, time=200),
        ],
        'thorough': [
            mixed(1, 80, 0, 15, 0, time=3600), mixed(1, 80, 0, 15, 1, time=3600), mixed(1, 400, 1, 14, 0, time=3600), mixed(1, 400, 1, 11, 0, time=3600),
        ],
    },
    'C29': {
        'quick': [
            sleeps(EARLY | DUE | DROPPED | ARMED | SPIN, 2, 1, 63, span=80, eager=1, need=ARMEDFIRED, time=200),
            sleeps(EARLY | DUE | ARMED, 1, 2, NONE | RESET | DROP, span=80, first=1, eager=2, need=ARMEDFIRED, time=200),
            sleeps(EARLY | DUE | ARMED, 1, 1, 63, far=FAR, eager=2, need=ARMEDFIRED, time=200),
            sleeps(EARLY | DUE | ARMED, 3, 0, 1, first=1, eager=2, need=ARMEDFIRED, time=200),
        ],
        'thorough': [
            sleeps(EARLY | DUE | ARMED, 2, 1, 63, far=FAR, eager=2, need=ARMEDFIRED, time=3600),
            sleeps(EARLY | DUE | ARMED, 1, 2, 63, eager=3, need=ARMEDFIRED, time=3600),
            sleeps(EARLY | DUE | ARMED, 3, 1, 63, eager=2, need=ARMEDFIRED, time=3600),
        ],
    },
})
RUNS.update({
    'C13': {
        'quick': [h('h_instant', 0, need=['sum', 'overflow', 'refused'], time=200), h('h_instant', 1, need=['difference', 'underflow'], time=200),
                  h('h_instant', 2, need=['compared', 'refused'], time=200), h('h_instant', 3, need=['elapsed'], time=200)] +
                 [h('h_instant', k, build='tt', time=200) for k in (0, 3)],
    },
    'C14': {
        'quick': [h('h_reading', k, 0, 43, time=200) for k in (10, 20, 3, 1, 0, 40)] + [
            h('h_reading', -5, 0, 40, time=200), h('h_reading', 20, 44, 45, time=200), h('h_reading', 40, 53, 53, time=200),
            h('h_reading', 3, 0, 43, build='tt', time=200), h('h_instant', 3, time=200)] + [
            h('h_reads', k, 43, build=b, need=['end', 'read'], time=200) for k in (3, 10, 20) for b in ('prod', 'tt')],
        'thorough': [h('h_reading', k, 0, 43, build=b, time=600) for k in range(0, 50, 2) for b in ('prod', 'tt')] + [
            h('h_reading', k, 44, 46, time=600) for k in (8, 12, 16, 20, 24)] + [h('h_reading', k, 53, 53, time=600) for k in (40, 42, 45, 50)] +
            [h('h_instant', 3, time=200), h('h_instant', 3, build='tt', time=200)],
    },
    'C15': {
        'quick': [h('h_system', 0, 53, need=['sum', 'difference'], time=200), h('h_system', 1, 53, need=['later', 'earlier'], time=200),
                  h('h_system', 2, 53, need=['now'], time=200)],
    },
    'C16': {
        'quick': [h('h_roundtrip', 53, build='sd', need=['came back', 'swapped', 'refused'], time=200),
                  h('h_malformed', 3, 0, build='sd', need=['accepted', 'refused'], time=200),
                  h('h_malformed', 3, 1, build='sd', need=['accepted', 'refused'], time=200)] + [
                  h('h_names', n, build='sd', need=['refused'], time=200) for n in (1, 4, 15, 16, 17, 20)],
        'thorough': [h('h_roundtrip', 53, build='sd', need=['came back', 'swapped', 'refused'], time=200)] + [
            h('h_malformed', 4, k, build='sd', need=['accepted', 'refused'], time=3600) for k in (0, 1, 2)],
    },
})
RUNS.update({
    'C07': {
        'quick': [
            sleeps(ORDER, 3, 0, 1, span=80, first=1, far=FAR, need=FIRED, time=200),
                  growth(0, 60, 80),
                  growth(1, 60, 0),
                  growth(2, 60, 80),
                  growth(3, 60, 80),
                  growth(4, 60, 8),h('h_heap', 7, 1, 0, build='u-heap', need=['end', 'cancelled'], time=200),
                  h('h_heap', 5, 2, 1, build='u-heap', need=['end', 'cancelled'], time=200),
                  h('h_heap', 8, 1, 0, build='u-heap', need=['end', 'cancelled'], time=200),
                  h('h_heap_ops', 0, 6, build='u-heap', need=['end', 'cancelled'], time=200),
                  h('h_heap_ops', 5, 1, build='u-heap', need=['end', 'cancelled'], time=200),
                  sleeps(ORDER, 4, 0, 1, first=1, need=FIRED, time=200),
                  sleeps(ORDER, 3, 1, RESET | DROP, first=1, need=FIRED, time=200),
                  reenter(0, 2, 2, 12, 80, need=['end', 'fired'], time=200)],
        'thorough': [h('h_heap', n, 1, 0, build='u-heap', need=['end', 'cancelled'], time=3600) for n in (9, 10, 11)] + [
            h('h_heap', 7, 2, 1, build='u-heap', need=['end', 'cancelled'], time=3600),
            h('h_heap', 8, 2, 0, build='u-heap', need=['end', 'cancelled'], time=3600),
            h('h_heap', 9, 1, 1, build='u-heap', need=['end', 'cancelled'], time=3600),
            h('h_heap_ops', 0, 8, build='u-heap', need=['end', 'cancelled'], time=3600),
            h('h_heap_ops', 5, 3, build='u-heap', need=['end', 'cancelled'], time=3600),
            sleeps(ORDER, 6, 0, 1, first=1, need=FIRED, time=3600),
            sleeps(ORDER, 4, 1, RESET | DROP, first=1, need=FIRED, time=3600)],
    },
    'C23': {
        'quick': [h('h_list', 6, 3, build='u-list', need=['end', 'delivered', 'pushed again', 'refused'], time=200),
                  h('h_list', 7, 2, build='u-list', need=['end', 'delivered', 'pushed again', 'refused'], time=200),
                  sleeps(EARLY | DUE, 1, 2, RESET | DROP | CREATE, first=1, need=FIRED, time=200)],
        'thorough': [h('h_list', 8, 3, build='u-list', need=['end', 'delivered', 'pushed again', 'refused'], time=3600),
                     h('h_list', 9, 2, build='u-list', need=['end', 'delivered', 'pushed again', 'refused'], time=3600),
                     sleeps(EARLY | DUE, 2, 2, RESET | DROP | CREATE, first=1, need=FIRED, time=3600)],
    },
    'C24': {
        'quick': [h('h_gone', 1, 3, 40, build='u-gone', need=['end', 'woken by destruction', 'still ready', 'polled after destruction'], time=200),
                  h('h_gone', 2, 3, 40, build='u-gone', need=['end', 'woken by destruction', 'still ready', 'polled after destruction', 'polled by the task it wakes', 're-armed while going away'], time=200),
                  h('h_gone', 3, 2, 40, build='u-gone', need=['end', 'woken by destruction', 'still ready', 'polled after destruction'], time=200),
                  sleeps(EARLY | DUE, 1, 1, 63, need=FIRED, time=200)],
        'thorough': [h('h_gone', *p, 400, build='u-gone', need=['end', 'woken by destruction', 'still ready', 'polled after destruction'], time=3600)
                     for p in ((1, 5), (2, 4), (3, 3), (4, 2))],
    },
})
for _p, _r in {
    'C01': [sleeps(EARLY, 2, 1, 63, span=80, fine=1, need=FIRED, time=200), sleeps(EARLY, 1, 2, RESET | DROP | CREATE, span=80, first=1, fine=1, need=FIRED, time=200)],
    'C02': [sleeps(DUE, 2, 1, 63, span=80, fine=1, need=FIRED, time=200)],
    'C03': [sleeps(EARLY | DUE, 1, 2, RESET, span=80, first=1, fine=1, need=FIRED, time=200)],
    'C04': [sleeps(EARLY | DUE | DROPPED, 2, 1, DROP | NONE, span=80, fine=1, need=FIRED, time=200)],
    'C05': [sleeps(ARMED, 2, 1, 63, span=80, fine=1, need=['end', 'a sleep is pending while idle'], time=200)],
    'C07': [sleeps(ORDER, 3, 0, 1, span=80, first=1, fine=1, need=FIRED + ['two wakeups in one host run'], time=200),
            sleeps(ORDER, 2, 1, RESET | DROP | CREATE, span=80, first=1, fine=1, need=FIRED, time=200)],
    'C08': [h('h_interval', 3, 3, 10, 800, 1, 1, 0, 0, 0, 1, need=['end', 'tick'], time=200),
            h('h_interval', 3, 3, 10, 800, 1, 1, 0, 0, 0, 0, 1, need=['end', 'tick'], time=200)],
    'C09': [h('h_interval', 3, k, 10, 800, 0, 1, 0, 0, 0, 1, need=['end', 'tick', 'late tick'], time=200) for k in (1, 2)],
    'C10': [h('h_timeout', 3, 80, 0, 0, 1, need=['end', 'value', 'elapsed'], time=200), h('h_timeout', 2, 800, 0, 0, 1, need=['end', 'value', 'elapsed'], time=200),
            h('h_timeout', 4, 80, 0, 0, 0, 1, need=['end', 'value', 'elapsed'], time=200)],
    'C17': [fine(1, 2, 1, 19, 3, 16), fine(1, 2, 0, 0, 7, 24)],
    'C18': [fine(2, 3, 0, 0, 3, 24)],
    'C19': [fine(6, 2, 1, 31, 1, 16)],
}.items():
    RUNS[_p]['quick'] += _r
for _p, _r in {
    'C01': [crowd(EARLY, 3, 24, 7, before=3000)],
    'C02': [crowd(DUE, 3, 24, 7, before=LONG)],
    'C04': [crowd(EARLY | DUE | DROPPED, 3, 24, 7, before=LONG)],
    'C05': [crowd(ARMED, 3, 24, 7, before=LONG, need=['end', 'forerunners', 'a sleep is pending while idle'])],
    'C07': [crowd(ORDER, 4, 24, 7, before=3000)],
    'C08': [ticks(0, LONG)],
    'C09': [ticks(2, 3000, 100), ticks(1, 3000, 50)],
    'C10': [dict(entry='h_timeout', params=[2, 800, 0, LONG], need=['end', 'value', 'elapsed'], steps=100000000000, time=300, samples=2)],
    'C17': [life(1, 3000, 0)],
    'C18': [life(2, LONG, 1), life(2, 3000, 3)],
    'C19': [life(6, 3000, 0), life(6, LONG, 2, ops=23)],
    'C20': [life(6, 3000, 3, ops=31), life(6, LONG, 1, ops=31)],
    'C21': [life(16, LONG, 4, need=['end', 'due while waiting', 'a long life']), life(16, 3000, 0, need=['end', 'due while waiting', 'a long life'])],
    'C22': [life(3, 3000, 0, bases=2), life(3, LONG, 2, ops=23), h('h_beyond', 0, need=['asked'], time=200), h('h_beyond', 1000000000000, need=['asked'], time=200)],
    'C26': [life(64, 3000, k, need=['end', 'compared memory at rest', 'a long life']) for k in (0, 1, 3)] + [
        crowd(LEAK, 3, 24, 7, before=3000, need=['end', 'compared memory at rest', 'forerunners'])],
}.items():
    RUNS[_p]['quick'] += _r
for _p, _r in {
    'C01': [crowd(EARLY, 300, 24, 7), crowd(EARLY, 110, 80, 3, build='tt')],
    'C02': [crowd(DUE, 300, 24, 7), crowd(DUE, 110, 80, 3, base=400)],
    'C03': [crowd(EARLY | DUE, 300, 16, 1), crowd(EARLY | DUE, 40, 80, 1, base=400)],
    'C04': [crowd(EARLY | DUE | DROPPED, 300, 24, 2), crowd(EARLY | DUE | DROPPED, 110, 80, 7, base=400)],
    'C05': [crowd(ARMED, 300, 24, 7, need=['end', 'a sleep is pending while idle'])],
    'C07': [crowd(ORDER | EARLY | DUE, 300, 24, 7), crowd(ORDER, 60, 160, 2, base=400)],
    'C12': [h('h_paused_crowd', 160, 160, 20, build='tt', need=['end'], steps=1000000000, time=200),
            paused(1, 1, 1, 1, 0, again=1, need=['end', 'paused again', 'fired by an advance'], time=200)],
    'C17': [many(1, 300, 40, 15), many(1, 100, 40, 15, 262140), many(1, 60, 40, 15, 60, 1000000000)],
    'C18': [many(2, 300, 40, 15), many(2, 100, 40, 15, 4090), many(2, 60, 40, 11, 60, 1000000000)],
    'C19': [many(6, 300, 40, 15), many(6, 100, 40, 3, 262140)],
    'C20': [many(6, 300, 16, 31), many(6, 300, 16, 13)],
    'C21': [many(16, 300, 40, 15, need=['end', 'due while waiting']), many(16, 40, 40, 11, 4090, need=['end', 'due while waiting'])],
    'C22': [many(3, 100, 40, 31, 60, 68719476730), many(3, 100, 40, 15, 60, 4294967290)],
    'C26': [crowd(LEAK, 300, 24, 7, need=['end', 'compared memory at rest']), many(64, 300, 16, 31, need=['end', 'compared memory at rest'])],
}.items():
    RUNS[_p]['quick'] += _r
for _t in RUNS.values():
    # and once as it ships: optimised, without overflow checks and debug assertions
    _r = [r for r in _t['quick'] if r['entry'] != 'h_growth' and FAR not in r['params']][0]
    _t['quick'] = _t['quick'] + [dict(_r, profile='ship')]
    # the deeper runs come on top of the quick ones
    _t['thorough'] = _t['quick'] + [r for r in _t.get('thorough', []) if r not in _t['quick']]

NOTE = {}
NOT_APPLICABLE = {}
