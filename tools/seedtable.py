"""Writes the table of planted changes into DESIGN.md (not used by any check)."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
missed = {'B21': 'missed at first: P22 now varies ids, statuses and report texts', 'B27': 'missed at first: P05 now has lists of up to 255 entries'}
missed.update(json.load(open('tools/seednotes.json')) if os.path.exists('tools/seednotes.json') else {})
rows = ['| change | caught by | needs | breaks | |', '|---|---|---|---|---|']
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json'))
    i = os.path.basename(d)
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], missed.get(i, '')))
s = open('DESIGN.md').read()
a, b = '<!-- planted -->', '<!-- /planted -->'
s = re.sub(re.escape(a) + '.*' + re.escape(b), lambda _: a + '\n' + '\n'.join(rows) + '\n' + b, s, flags=re.S)
open('DESIGN.md', 'w').write(s)
