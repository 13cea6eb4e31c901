#!/usr/bin/env python3
# rewrites the tables of DESIGN.md (between the markers) from evidence/*.json and seeded/
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def table():
    o = ['| property | spaces of the quick tier (cases or schedules) | executed | states / outcomes | wall incl. build |', '|---|---|---|---|---|']
    for f in sorted(os.listdir(R + '/evidence')):
        d = json.load(open(f'{R}/evidence/{f}'))
        if d['tier'] != 'quick': continue
        c = d['coverage']
        sp = ', '.join(f"{s['space']} {s.get('cases', s.get('schedules'))}" + (f" (≤{s['deviation_bound']}{', all' if s['exhaustive'] else ''})" if 'schedules' in s else '') for s in c['spaces'])
        o.append(f"| {d['property']} | {sp} | {c['evaluations']} | {c['states']} / {c['distinct_outcomes']} | {d['wall_s']:.0f} s |")
    return '\n'.join(o)
s = open(R + '/DESIGN.md').read()
s = re.sub(r'(<!-- bounds -->\n).*?(\n<!-- /bounds -->)', lambda m: m[1] + table() + m[2], s, flags=re.S)
open(R + '/DESIGN.md', 'w').write(s)
