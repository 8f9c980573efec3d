from concurrent.futures import ThreadPoolExecutor
ASSUME = ['one leader in front of a committed log (the raft library below is a stand-in that commits every proposal in order)', 'keys of a small set plus one scenario with about 55 keys; times in whole seconds', 'the storage engine below (RocksDB) is a faithful in-memory stand-in']
def many(x, mode, n, seeds, args, spec, cfg, what, idx=1):
    b = x.build('kv')
    def gen(k):
        t = f'{x.dir}/{mode}{k}.ndjson'
        return t, x.driver(b, [mode, t, x.seed * 1000 + k, n] + args, timeout=700)
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(gen, range(seeds)))
    for t, o in rs:
        if o is None: continue
        x.add_traces(int([w for w in o.split() if w.isdigit()][0])); x.sample({'run': o.strip()})
        x.judge(spec, cfg, t, what=what)
def hist(x, focus, n=100, seeds=4):
    many(x, 'hist', n if x.quick else 5 * n, seeds if x.quick else 16, [30] + focus.split(), 'KvSteps', 'KvSteps.cfg', 'steps of the real versioned store, its leases and watches')
def conc(x, partners, n=450, seeds=4):
    many(x, 'conc', n if x.quick else 5 * n, seeds if x.quick else 16, [14] + partners.split(), 'KvConc', 'KvConc.cfg', 'two requests at the same time: as in one of the two orders')
def model(x, cfg, what): x.model('Kv_mc', cfg, what, timeout=1500)
def k01(x):
    model(x, 'Kv_mc.cfg' if x.quick else 'Kv_mc_deep.cfg', 'histories of puts, deletes, compactions, leases, watches and changes of leader: revisions and index agree, compaction changes no view')
    hist(x, 'put del range compact auto crash stop fput fdel'); x.assumptions += ASSUME
def k02(x):
    model(x, 'Kv_mc_leases.cfg', 'two leases: keys live and die with their lease across changes of leader'); hist(x, 'put del del grant renew revoke query list tick task crash stop', 60); conc(x, 'put del task task revoke grant grant renew range compact'); x.assumptions += ASSUME
def k03(x):
    hist(x, 'watch put del cancel reap revoke', 60); conc(x, 'watch watch watch cancel reap'); x.assumptions += ASSUME
def k04(x):
    x.model('KvRep_mc', 'KvRep_mc.cfg', 'replicas applying one log at their own pace, restarting, installing snapshots: equal where they are equally far')
    many(x, 'rep', 10 if x.quick else 60, 4 if x.quick else 16, [], 'KvRepSteps', 'KvRepSteps.cfg', 'replicas of the real store: entries applied, repeated, cut short by a crash at every write, snapshots'); x.assumptions += ASSUME
CHECKS = {'K01': k01, 'K02': k02, 'K03': k03, 'K04': k04}
