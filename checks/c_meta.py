from concurrent.futures import ThreadPoolExecutor
def gen(x, b, args, k, timeout):
    t = f'{x.dir}/{args[0]}{k}.ndjson'
    return t, x.driver(b, [args[0], t, x.seed * 1000 + k] + args[1:], timeout=timeout)
def m01(x):
    x.model('Cat_mc', 'Cat_mc.cfg' if x.quick else 'Cat_mc_deep.cfg', 'the catalogue under all sequences of requests: sound, refused requests change nothing, dropped names are free', timeout=3000)
    b = x.build('meta')
    n, ln, reps, nc = (100, 40, 1, 150) if x.quick else (800, 50, 2, 3000)
    with ThreadPoolExecutor(8) as ex:
        h = [ex.submit(gen, x, b, ['cat', n, ln], k, 300 if x.quick else 1500) for k in range(8 * reps)]
        c = [ex.submit(gen, x, b, ['conc', nc, 6], k, 300 if x.quick else 3000) for k in range(8)]
        h = [f.result() for f in h]; c = [f.result() for f in c]
    for t, o in h:
        if o is None: continue
        x.add_traces(n); x.sample({'run': o.strip()}); x.judge('CatTrace', 'CatTrace.cfg', t, what='requests to the meta service, their answers and the catalogue after each')
    for t, o in c:
        if o is None: continue
        x.add_traces(int(o.split()[2])); x.sample({'run': o.strip()}); x.judge('CatConc', 'CatConc.cfg', t, what='outcomes of two concurrent requests')
    x.assumptions += ['requests reach the services as decoded messages; the log of the coordinator is one which commits in order and applies on a thread of its own', 'tables are created without waiting for their regions (async_create_table)']
def m03(x):
    x.model('MetaRep_mc', 'MetaRep_mc.cfg' if x.quick else 'MetaRep_mc_deep.cfg', 'applying the log: crashes between any two writes of an entry, replays and snapshots leave every replica with what the log says', timeout=3000)
    b = x.build('meta')
    n, ln, k = (6, 40, 8) if x.quick else (20, 90, 48)
    with ThreadPoolExecutor(8) as ex:
        h = [f.result() for f in [ex.submit(gen, x, b, ['rep', n, ln], k, 300 if x.quick else 1500) for k in range(k)]]
    for t, o in h:
        if o is None: continue
        x.add_traces(n); x.sample({'run': o.strip()}); x.judge('MetaRepSteps', 'MetaRepSteps.cfg', t, what='replicas of the coordinator after entries, crashes within them, replays and snapshots')
    x.assumptions += ['a write to the storage engine is whole or absent after a crash', 'entries of the log come from real requests and from a generator which keeps to what a leader can write (starts of regions are unique, but for a child that reported before its parent)']
def m02(x):
    x.model('Jobs_mc', 'Jobs_mc.cfg' if x.quick else 'Jobs_mc_deep.cfg', 'jobs with lagging replicas, changes of leaders, lost answers and restarts: every job ends, no replica splits or merges without the other half, at rest coordinator and stores agree', timeout=3000)
    b = x.build('meta')
    n, ln, k = (100, 60, 5) if x.quick else (700, 90, 48)
    with ThreadPoolExecutor(8) as ex:
        h = [f.result() for f in [ex.submit(gen, x, b, ['job', n, ln], k, 300 if x.quick else 1500) for k in range(k)]]
    for t, o in h:
        if o is None: continue
        x.add_traces(n); x.sample({'run': o.strip()}); x.judge('JobsTrace', 'JobsTrace.cfg', t, what='requests, heartbeats and rounds of the coordinator against stores that lag, change leaders and lose answers')
    x.assumptions += ['stores are stand-ins which carry out commands as the stores do: a split or a merge is a log entry every replica applies later, a command is carried out at most once, a new peer catches up before it counts', 'region metrics report a healthy raft status and snapshots of the newest epoch', 'regions being changed by a job are not dropped (DropRegion does not look at jobs)']
CHECKS = {'M01': m01, 'M02': m02, 'M03': m03}
