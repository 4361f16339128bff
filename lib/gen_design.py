"""DESIGN.md = lib/design_head.md + lib/design_props.md with the table of seeded changes (section 4) put before section 5."""
import os, json
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
head = open(os.path.join(H, 'design_head.md')).read(); props = open(os.path.join(H, 'design_props.md')).read()
res = json.load(open(os.path.join(H, 'seed_results.json')))
rows = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].strip()} | {res.get(d, '?')} |")
t = ('## 4. Seeded changes\n\nEach was written from a property and the code; its demo fails with it and passes without it, and the baseline tests pass with it.\n'
     '"input": the check reports a concrete failing input; "obligation": only a failed obligation.\n\n| change | property | what it breaks | caught with |\n|---|---|---|---|\n' + '\n'.join(sorted(rows, key=lambda r: r.split('|')[2])) + '\n\n')
i = props.index('## 5.')
open(os.path.join(V, 'DESIGN.md'), 'w').write(head + props[:i] + t + props[i:])
