"""bring the table of section 5 of DESIGN.md up to date: rows for new directories of seeded/; arguments: seeds the checks missed at first"""
import json, os, re, sys
H = '/verif'
t = open(H + '/DESIGN.md').read()
rows = dict(re.findall(r'^\| (c\d\d-[\w-]+) (\|.*)$', t, re.M))
for d in os.listdir(H + '/seeded'):
    if d not in rows:
        m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
        rows[d] = '| %s | %s%s |' % (m['property'], m['what_it_breaks'], ' (missed at first)' if d in sys.argv else '')
rows = {d: r for d, r in rows.items() if os.path.isdir(H + '/seeded/' + d)}
lines = t.split('\n')
idx = [i for i, l in enumerate(lines) if re.match(r'\| c\d\d-', l)]
lines[idx[0]:idx[-1] + 1] = ['| %s %s' % (d, rows[d]) for d in sorted(rows)]
t = '\n'.join(lines)
t = re.sub(r'\d+( bugs are kept| seeded bugs| changes are kept)', lambda m: '%d%s' % (len(rows), m.group(1)), t)
open(H + '/DESIGN.md', 'w').write(t)
print(len(rows))
