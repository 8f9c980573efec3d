from concurrent.futures import ThreadPoolExecutor
def r01(x):
    x.model('RaftLog_mc', 'RaftLog_mc.cfg' if x.quick else 'RaftLog_mc_deep.cfg', 'one region driven by raft, a vector index and crashes: answered entries stay until every client gave them up', timeout=1800)
    b = x.build('wal')
    jobs = [('hist', 1200, 40), ('hist', 1200, 40), ('conc', 3000), ('conc', 3000)] if x.quick else [('hist', 8000, 60)] * 8 + [('conc', 30000)] * 8
    def gen(k):
        t = f'{x.dir}/{jobs[k][0]}{k}.ndjson'
        return t, x.driver(b, [jobs[k][0], t, x.seed * 1000 + k, *jobs[k][1:]], timeout=800)
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(gen, range(len(jobs))))
    for t, o in rs:
        if o is None: continue
        x.add_traces(int(o.split()[1])); x.sample({'run': o.strip()})
        x.judge('RaftLogTrace', 'RaftLogTrace.cfg', t, what='operations on the real log storage with restarts, power failures and threads at the same time')
    x.assumptions += ['RocksDB is a stand-in: a batch is written as a whole, what was synced survives, the rest is lost', 'raft appends and truncates as its log manager does (indexes in a row, the tail is cut before it is overwritten)']
CHECKS = {'R01': r01}
