from concurrent.futures import ThreadPoolExecutor
def edges(focus, what, n=12000, seeds=1):
    def f(x):
        b = x.build('txn'); N, S = (n, seeds) if x.quick else (n * 3, 8)
        def gen(k):
            t = f'{x.dir}/edges{k}.ndjson'
            return t, x.driver(b, ['edges', t, x.seed * 1000 + k, N] + focus.split())
        with ThreadPoolExecutor(4) as ex: rs = list(ex.map(gen, range(S)))
        for t, o in rs:
            if o is None: continue
            x.add_traces(int(o.split()[1])); x.sample({'run': o.strip()})
            x.judge('TxnEdges', 'TxnEdges.cfg', t, what=what)
        x.assumptions += ['one region, keys k1..k3, values empty/short/long, timestamps 1..16; contents of the store are those protocol histories reach',
                          'the storage engine below (RocksDB) is a faithful in-memory stand-in']
    return f
def conc(x):
    b = x.build('txn')
    def gen(k):
        t = f'{x.dir}/conc{k}.ndjson'
        return t, x.driver(b, ['conc', t, x.seed * 1000 + k, 3000 if x.quick else 12000], timeout=600)
    with ThreadPoolExecutor(4) as ex: rs = list(ex.map(gen, range(4 if x.quick else 16)))
    for t, o in rs:
        if o is None: continue
        x.add_traces(int(o.split()[2])); x.sample({'run': o.strip()})
        x.judge('TxnConc', 'TxnConc.cfg', t, what='two requests at the same time: outcome of one of the two orders')
    x.assumptions += ['two concurrent requests; scheduling points are lock, latch and storage operations']
def proto(x):
    b = x.build('txn')
    for k, w in (('2pc', 'two-phase commit'), ('async', 'async commit'), ('1pc', 'one-phase commit')) + (() if x.quick else (('pess', 'pessimistic transactions'),)):
        x.model('Txn_mc', f'Txn_mc_{k}.cfg', f'{w}: clients that stop anywhere, readers, resolvers: atomic, final, no lost update, stable reads')
    def gen(k):
        t = f'{x.dir}/proto{k}.ndjson'
        return t, x.driver(b, ['proto', t, x.seed * 1000 + k, 2500 if x.quick else 20000], timeout=600)
    with ThreadPoolExecutor(4) as ex: rs = list(ex.map(gen, range(3 if x.quick else 12)))
    for t, o in rs:
        if o is None: continue
        x.add_traces(int(o.split()[1])); x.sample({'run': o.strip()})
        x.judge('TxnProto', 'TxnProto.cfg', t, what='histories of protocol clients on the real service')
CHECKS = {
 'T01': edges('get bget scan', 'snapshot reads'),
 'T02': edges('prewrite', 'first phase', n=9000),
 'T03': edges('commit rollback', 'second phase and rollback'),
 'T04': edges('plock prb', 'pessimistic locks'),
 'T05': edges('cts csl resolve hb scanlock', 'deciding the fate of transactions'),
 'T06': conc,
 'T08': proto,
 'T07': edges('gc', 'garbage collection', n=5000),
}
