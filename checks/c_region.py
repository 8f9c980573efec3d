from concurrent.futures import ThreadPoolExecutor
def s01(x):
    x.model('Region_mc', 'Region_mc.cfg' if x.quick else 'Region_mc_deep.cfg', 'stores which go through the logs of writing, splitting and merging regions: every key covered once, one meaning per version, agreement', timeout=1800)
    b = x.build('region')
    n, ln, reps = (60, 25, 1) if x.quick else (500, 35, 4)
    def gen(k):
        t = f'{x.dir}/h{k}.ndjson'
        return t, x.driver(b, ['hist', t, x.seed * 1000 + k, n, ln, 250], timeout=300 if x.quick else 1500)
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(gen, range(8 * reps)))
    for t, o in rs:
        if o is None: continue
        w = o.split(); x.add_traces(int(w[7])); x.sample({'run': o.strip()})
        x.judge('RegionTrace', 'RegionTrace.cfg', t, what='stores which applied the logs: the leader, followers at another pace, stores which crashed at any write and replayed')
    x.assumptions += ['a crash of the process keeps every completed write (the stand-in for RocksDB writes a batch as a whole)', 'the state machine is fed as raft feeds it: each log in order, again from the last snapshot after a restart', 'a merge is proposed only when every replica has applied the log up to its starting point']
CHECKS = {'S01': s01}
