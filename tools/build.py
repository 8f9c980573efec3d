#!/usr/bin/env python3
"""Builds a conformance driver from /repo's current working tree.

  build.py TARGET [TARGET...]

Every driver links: the third-party API shim (shim/src), the generated messages (shim/proto), the driver sources
(harness/*.cc) and the real sources of the system under test listed for it in targets.py.  Sources that the pinned
tree does not have (tools/base_sources.txt) and that appear later are compiled into every driver, so that a function
moved into a new file is still found.  Symbols of parts which a driver never calls stay unresolved.
"""
import glob, os, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
B = os.environ.get('VBUILD', V + '/build')
sys.path.insert(0, V + '/tools')

def sh_quote(s): return "'" + s + "'"

def undefined(path):
    return set(open(path + '.und2').read().split('\n')) - {''}

def gen(targets, full=()):
    from targets import TARGETS, CORE
    os.makedirs(B, exist_ok=True)
    S = V + '/shim'
    protos = sorted(os.path.basename(f)[:-2] for f in glob.glob(S + '/proto/src/*.p'))
    pbcc = [f'{B}/gen/proto/{p}.pb.cc' for p in protos] + [f'{B}/gen/braft_local.pb.cc']
    inc = f'-I{B}/pch -I{S}/override -I{S}/include -DGLOG_CUSTOM_PREFIX_SUPPORT=1 -I{B}/gen -I{REPO}/src -I{V}/harness'
    base = '-std=c++17 -w -O0 -g0 -fno-access-control -pipe -ffunction-sections'
    n = ['ninja_required_version = 1.3', f'builddir = {B}',
         f'rule pb\n  command = bash {S}/genpb.sh {B}\n  restat = 0\n  description = protobuf',
         f'rule cpimg\n  command = cp $in $out',
         f'rule pch\n  command = g++ {base} {inc} -x c++-header $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n  description = PCH',
         f'rule cc\n  command = g++ {base} -include shim/prelude.h {inc} $xf -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n  description = CC $in',
         f'rule ccnp\n  command = g++ {base} {inc} $xf -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n  description = CC $in',
         'rule ar\n  command = rm -f $out && ar rcsT $out $in',
         f'rule link\n  command = bash {V}/tools/link.sh $out $in\n  description = LINK $out']
    pin = ' '.join(sorted(glob.glob(S + '/proto/src/*.p')) + [S + '/proto/gen.py', S + '/genpb.sh', S + '/proto/braft_local.proto'])
    pbh = ' '.join(x[:-2] + 'h' for x in pbcc)
    n.append(f"build {' '.join(pbcc)} {pbh}: pb {pin}")
    n.append(f'build {B}/pch/shim/prelude.h: cpimg {S}/include/shim/prelude.h')
    n.append(f'build {B}/pch/shim/prelude.h.gch: pch {B}/pch/shim/prelude.h | {pbh}')
    done = set()
    def obj(src, xf='', pch=True, tag=''):
        o = f"{B}/o/{tag}" + src.replace(REPO + '/src/', 'repo/').replace(V + '/', '').replace(B + '/', 'b/').lstrip('/') + '.o'
        if o not in done:
            done.add(o)
            rule = 'cc' if pch else 'ccnp'
            n.append(f"build {o}: {rule} {src} | {B + '/pch/shim/prelude.h.gch' if pch else ''} {'' if pch else pbh}\n  xf = {xf}")
        return o
    pbo = [obj(c, pch=False) for c in pbcc]
    n.append(f"build {B}/libpb.a: ar {' '.join(pbo)}")
    shim = [obj(c) for c in sorted(glob.glob(S + '/src/*.cc'))]
    n.append(f"build {B}/libshim.a: ar {' '.join(shim)}")
    known = set(open(V + '/tools/base_sources.txt').read().split())
    here = sorted(os.path.relpath(f, REPO + '/src') for f in glob.glob(REPO + '/src/**/*.cc', recursive=True))
    skip = re.compile(r'^(client|client_v2|br|report|test|simd|diskann)/')
    extra = [f for f in here if f not in known and not skip.match(f)]
    for t in targets:
        d = TARGETS[t]
        files = []
        for pat in d['repo']:
            m = [os.path.relpath(f, REPO + '/src') for f in glob.glob(f'{REPO}/src/{pat}')]
            files += [f for f in sorted(m) if f not in files]
        ex = d.get('exclude', [])
        xf = d.get('xf', {})
        ros = []
        for f in files + [e for e in extra if e not in files]:
            if f in ex: continue
            fl = xf.get(f, d.get('xf_all', ''))
            ros.append(obj(f'{REPO}/src/{f}', fl, tag=('x_' + t + '/' if fl else '')))
        hos = [obj(f'{V}/harness/{h}', d.get('hf', ''), tag=('x_' + t + '/' if d.get('hf') else '')) for h in d['harness']]
        lib = ''
        if t in full:
            cos = [obj(f'{REPO}/src/{f}') for f in CORE if os.path.exists(f'{REPO}/src/{f}') and f not in files and f not in ex]
            n.append(f"build {B}/libcore_{t}.a: ar {' '.join(cos)}")
            lib = f'{B}/libcore_{t}.a'
        n.append(f"build {B}/bin/{t}: link {' '.join(hos + ros)} {lib} {B}/libshim.a {B}/libpb.a")
    # TARGET.o files of shim and messages are archives: only what is used is linked
    f = f'{B}/build-{"_".join(targets)[:80]}.ninja'
    open(f, 'w').write('\n'.join(n) + '\n')
    return f

def build(targets, quiet=False, full=()):
    f = gen(targets, full)
    r = subprocess.run(['ninja', '-f', f, '-k', '0'] + [f'{B}/bin/{t}' for t in targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-8000:])
        raise SystemExit(2)
    # A part that moved to another source file shows up as a symbol that was not unresolved on the pinned tree: link all of the core.
    if not full:
        more = []
        for t in targets:
            bl = f'{V}/tools/unresolved/{t}.txt'
            if os.path.exists(bl) and undefined(f'{B}/bin/{t}') - set(open(bl).read().split('\n')): more.append(t)
        if more: return build(targets, quiet, full=more)
    return [f'{B}/bin/{t}' for t in targets]

if __name__ == '__main__':
    if sys.argv[1] == '--baseline':   # after adding or changing a target, on the pinned tree
        os.makedirs(V + '/tools/unresolved', exist_ok=True)
        for t in sys.argv[2:]:
            bl = f'{V}/tools/unresolved/{t}.txt'
            if os.path.exists(bl): os.remove(bl)
            build([t]); open(bl, 'w').write('\n'.join(sorted(undefined(f'{B}/bin/{t}'))) + '\n')
    else: build(sys.argv[1:])
