"""Rewrites the per-property and seeded-bug tables of DESIGN.md from props.py, design notes and seeded/*/meta.json."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(__file__)); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
t = open(V + '/DESIGN.md').read().split('<!-- generated below -->')[0].rstrip() + '\n\n<!-- generated below -->\n\n## Properties\n\n'
for p in PROPS:
    t += f"### {p['id']} {p['title']}\n\n{p['st']}\n\n- quantified over: {p['q']}\n- why tests cannot settle it: {p['why']}\n- deciding: {p['tech']}; {p['note']}\n- code: {', '.join(p['files'])}\n\n"
for k, v in NOT_APPLICABLE.items(): t += f'### {k} (not applicable)\n\n{v}\n\n'
t += '## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); t += f"| {m.split('/')[-2]} | {d['property']} | {d['needs']} | {d.get('caught', d['property'] + ' (quick)')} |\n"
t += '\n## Findings\n\n'
for l in open(V + '/KNOWN_FINDINGS'): t += '- ' + l.strip() + '\n'
open(V + '/DESIGN.md', 'w').write(t)
