#!/usr/bin/env python3
"""Expands the compact .p files of this folder into .proto files: numbers fields and enum values, expands `svc` lines."""
import re, sys, os
src, out = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)
def expand(path, name):
    t = re.sub(r'//[^\n]*', '', open(path).read())
    head = ['syntax = "proto3";']
    pkg = re.search(r'^pkg (\S+)', t, re.M).group(1)
    t = re.sub(r'^pkg \S+\n', '', t, flags=re.M)
    head.append(f'package dingodb.pb.{pkg};')
    head.append('option cc_generic_services = true;')
    for m in re.findall(r'^imp (.*)$', t, re.M):
        for i in m.split():
            head.append(f'import "proto/{i}.proto";')
    t = re.sub(r'^imp .*\n', '', t, flags=re.M)
    def svc(m):
        o = [f'service {m.group(1)} {{']
        for r in m.group(2).split():
            x = re.match(r'(\w+)\(([\w.]+),([\w.]+)\)$', r)
            n, a, b = x.groups() if x else (r, r + 'Request', r + 'Response')
            o.append(f'  rpc {n}({a}) returns ({b});')
        return '\n'.join(o) + '\n}'
    t = re.sub(r'^svc (\w+):((?:[^\n]|\n )*)', svc, t, flags=re.M)
    # number
    res = []; stack = []
    for tok in re.findall(r'"[^"]*"|[{};]|[^{};"]+', t):
        if tok == '{':
            h = ''.join(res[-1:]).strip()
            kind = 'm' if re.search(r'\bmessage\s+\w+\s*$', h) else 'e' if re.search(r'\benum\s+\w+\s*$', h) else 'o' if re.search(r'\boneof\s+\w+\s*$', h) else 's'
            stack.append([kind, 0]); res.append(tok)
        elif tok == '}':
            stack.pop(); res.append(tok + '\n')
        elif tok == ';':
            if stack:
                k, n = stack[-1]
                fr = stack[-1] if k != 'o' else [s for s in stack if s[0] == 'm'][-1]
                f = res[-1]
                if k in 'mo' and f.strip() and not re.match(r'\s*(option|reserved)\b', f):
                    if '=' in f: fr[1] = max(fr[1], int(f.split('=')[1]))
                    else:
                        fr[1] += 1; res[-1] = f + f' = {fr[1]}'
                elif k == 'e' and f.strip() and not re.match(r'\s*option\b', f):
                    if '=' in f: stack[-1][1] = int(f.split('=')[1]) + 1
                    else:
                        res[-1] = f + f' = {n}'; stack[-1][1] = n + 1
            res.append(tok + '\n')
        else:
            res.append(tok)
    open(f'{out}/{name}.proto', 'w').write('\n'.join(head) + '\n' + ''.join(res))
for f in sorted(os.listdir(src)):
    if f.endswith('.p'):
        expand(f'{src}/{f}', f[:-2])
