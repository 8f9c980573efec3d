from concurrent.futures import ThreadPoolExecutor
ASSUME = ['the raft library is a stand-in: one committed log, leaders have applied it when they start, a replaced leader hears of it before it applies entries of its successor', 'clocks of the nodes differ by up to 4.5 s and never run backwards']
def hist(x, mode, n, seeds, spec, what):
    b = x.build('ids')
    def gen(k):
        t = f'{x.dir}/{mode}{k}.ndjson'
        return t, x.driver(b, [mode, t, x.seed * 1000 + k, n], timeout=700)
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(gen, range(seeds)))
    for t, o in rs:
        if o is None: continue
        w = [int(y) for y in o.split() if y.isdigit()]; x.add_traces(w[1]); x.sample({'run': o.strip()})
        x.judge(spec, spec + '.cfg', t, what=what)
def i01(x):
    x.model('Tso_mc', 'Tso_mc.cfg', 'two nodes, three terms: leaders replaced, proposals lost or committed late, restarts from snapshots', timeout=1500)
    x.model('Tso_mc', 'Tso_mc_adjust.cfg' if x.quick else 'Tso_mc_adjust_deep.cfg', 'the same with clients that adjust the clock', timeout=1500)
    hist(x, 'tso', 1500 if x.quick else 4000, 2 if x.quick else 16, 'TsoTrace', 'histories of three real timestamp oracles'); x.assumptions += ASSUME
def i02(x):
    x.model('Inc_mc', 'Inc_mc.cfg' if x.quick else 'Inc_mc_deep.cfg', 'requests checked against what a leader has applied and applied later, in log order', timeout=1500)
    hist(x, 'inc', 1500 if x.quick else 4000, 2 if x.quick else 16, 'IncTrace', 'histories of three real auto-increment services'); x.assumptions += ASSUME[:1] + ['counters stay below 2^45']
CHECKS = {'I01': i01, 'I02': i02}
