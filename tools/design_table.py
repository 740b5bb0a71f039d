"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/ (caught.json: bug -> checks that caught it)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f'{V}/tools/caught.json')) if os.path.exists(f'{V}/tools/caught.json') else {}
s = open(f'{V}/DESIGN.md').read()
s = s[:s.index('## Planted bugs')]
s += '## Planted bugs\n\nEach passes the repository\'s tests and demos. "Caught by" lists the quick checks (seed 1) that reported a violation.\n\n| Bug | Property | What it breaks | Needs | Caught by |\n|---|---|---|---|---|\n'
for d in sorted(glob.glob(f'{V}/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    b = os.path.basename(d)
    s += f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {' '.join(caught.get(b, ['-']))} |\n"
s += '''
Bugs missed at first and what was strengthened: C05-failed-below (failed values were all above the neutral value; now also
below and zero), C07-zero-base (no scaled base of 0; new case kind), C15-cond-int (all conditions and latents were floats;
integer values are now generated everywhere, and a case kind uses nothing but integers).
'''
open(f'{V}/DESIGN.md', 'w').write(s)
