from concurrent.futures import ThreadPoolExecutor
ASSUME = ['the raft library is a stand-in: entries are applied one after the other, a new leader starts once it has applied what was committed before it',
          'RocksDB is a stand-in which keeps what was written', 'memory is sequentially consistent: threads are interleaved at their operations on shared memory, not reordered']
def run(x, spec, what, jobs):
    b = x.build('raw')
    def gen(k):
        a, t = jobs[k], f'{x.dir}/{jobs[k][0]}{k}.ndjson'
        return t, x.driver(b, [a[0], t, x.seed * 1000 + k, *a[1:]], timeout=800)
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(gen, range(len(jobs))))
    for t, o in rs:
        if o is None: continue
        w = [int(y) for y in o.split() if y.isdigit()]; x.add_traces(w[1] if o.startswith('events') else w[0]); x.sample({'run': o.strip()})
        x.judge(spec, spec + '.cfg', t, what=what)
def mc(x, what): x.model('Raw_mc', 'Raw_mc.cfg' if x.quick else 'Raw_mc_deep.cfg', what, timeout=1800)
def v01(x):
    mc(x, 'two stores with cached timestamps, requests under way while leaders are replaced: every committed conditional write holds at its place, reads are stable')
    run(x, 'RawTrace', 'histories of requests, scans and changes of leader on the real store', [('hist', 1500, 40)] * 2 if x.quick else [('hist', 6000, 40)] * 12 + [('hist', 1500, 150)] * 4); x.assumptions += ASSUME[:2]
def v02(x):
    mc(x, 'requests take timestamps and propose in steps while leaders are replaced')
    run(x, 'RawConc', 'pairs of requests at the same time, and requests while a replica becomes leader', ([('conc', 4000)] * 2 + [('lead', 3000)] * 2 if x.quick else [('conc', 20000)] * 12 + [('lead', 15000)] * 4)); x.assumptions += ASSUME
def v03(x):
    mc(x, 'what is collected at any safe point changes no read at or above it')
    run(x, 'RawGc', 'collections of old versions by the real store, every write of them', [('gc', 4000)] * 2 if x.quick else [('gc', 20000)] * 16); x.assumptions += ASSUME[:2]
def v04(x):
    mc(x, 'two stores with cached timestamps: committed writes carry distinct, rising timestamps')
    run(x, 'TsProvTrace', 'threads taking timestamps from the real provider under scheduled memory operations', [('ts', 1000)] * 4 if x.quick else [('ts', 6000)] * 16); x.assumptions += ASSUME[2:] + ['no thread is delayed by 3 s or more between two operations on the list of batches (the time after which dropped batches are freed)']
CHECKS = {'V01': v01, 'V02': v02, 'V03': v03, 'V04': v04}
