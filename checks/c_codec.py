from concurrent.futures import ThreadPoolExecutor
def e01(x):
    for k, what in (('keys', 'order and decoding of encoded keys, ranges of prefixes, cuts of ranges'), ('versions', 'versions of a key: newest first, inside the bounds of the key'), ('index', 'keys of indexes sort by partition, id and the rest'), ('any', 'what no key encodes to is no encoding')):
        x.model('Codec_mc', f'Codec_mc_{k}.cfg' if x.quick or k in ('any',) else f'Codec_mc_{k}_deep.cfg', what + ', all pairs of a small instance', timeout=1500)
    b = x.build('codec'); n = 24000
    def gen(k):
        t = f'{x.dir}/codec{k}.ndjson'
        return t, x.driver(b, ['run', t, x.seed * 1000 + k, n], timeout=700)
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(gen, range(4 if x.quick else 100)))
    for t, o in rs:
        if o is None: continue
        x.add_traces(n); x.sample({'run': o.strip()}); x.judge('CodecTrace', 'CodecTrace.cfg', t, what='encodings, decodings and ranges of the real code')
    x.assumptions += ['timestamps, ids and partitions are not negative, as the code demands', 'index keys have a prefix byte and a partition above 0']
CHECKS = {'E01': e01}
