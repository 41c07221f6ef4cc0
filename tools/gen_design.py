"""Writes DESIGN.md: design_body.md and the table of planted bugs (run by hand; no check runs it)."""
import json, os
V = '/verif'
missed = {
 'C16-switch-file': 'missed: opening another file was not explored',
 'C24-blank-end': 'missed: words of odd characters were not explored',
}
missed.update(json.load(open(V + '/tools/missed.json')) if os.path.exists(V + '/tools/missed.json') else {})
t = open(V + '/tools/design_body.md').read().rstrip() + '\n\n| bug | needs | breaks | |\n|---|---|---|---|\n'
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    t += f"| {i} | {m['needs']} | {m['what_it_breaks']} | {missed.get(i, '')} |\n"
open(V + '/DESIGN.md', 'w').write(t)
