import os
def L01(x):
    b = x.build('latch'); q = x.quick
    x.model('Latch', 'Latch_mc.cfg', 'mutual exclusion, queue heads, no lost wakeup: 3 commands, 3 keys')
    x.model('Latch', 'Latch_live.cfg', 'every waiting command is granted (weak fairness)')
    for slots in (1, 2, 64):
        t = f'{x.dir}/seq{slots}.ndjson'
        o = x.driver(b, ['seq', t, 5 if q else 6, slots, x.seed, 300 if q else 3000])
        if o is None: continue
        n = sum(1 for _ in open(t)); x.add_traces(n - 1)
        x.judge('LatchSeq', 'LatchSeq.cfg', t, what=f'call histories, {slots} slots')
    for slots, cnt, sy in ((1, 300, 0), (2048, 300, 0), (1, 2, 1), (2048, 2, 1)) if q else ((1, 5000, 0), (2048, 5000, 0), (2, 5000, 0), (1, 3, 1), (2048, 3, 1)):
        t = f'{x.dir}/svc{slots}_{sy}.ndjson'
        o = x.driver(b, ['svc', t, slots, x.seed, cnt, sy])
        if o is None: continue
        n = sum(1 for _ in open(t)); x.add_traces(n); x.sample({'svc': o.strip(), 'slots': slots, 'systematic': sy})
        x.judge('LatchSvc', 'LatchSvc.cfg', t, what='concurrent commands through the service layer')
    x.assumptions += ['a command retries an acquire only after it was woken (the condition variable never wakes spuriously)',
                      'scheduling points are the bthread primitives of the shim']
CHECKS = {'L01': L01}
