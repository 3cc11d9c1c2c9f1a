#!/usr/bin/env python3
# Regenerates the table of planted bugs and the per-property section of DESIGN.md from their sources.
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sec = json.load(open(V + '/tools/design_props.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    i = p['id']; s = sec[i]
    src = open(f'{V}/checks/{i}.cc').read()
    def strs(name):
        m = re.search(r'pbt::' + name + r'\b.*?=(.*?);\n(?=\S|\n|$)', src, re.S)
        return m.group(1) if m else ''
    rule = ''.join(json.loads('"' + x + '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', strs('RULE')))
    m = re.search(r'ASSUMPTIONS\s*=\s*\{(.*?)\};', src, re.S)
    ass = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1)) if m else []
    tests = re.findall(r'^TEST\((\w+)', src, re.M)
    out.append(f"### {i} {p['title']}\n\n*Generated:* {rule}\n\n*Oracle:* {s['oracle']}\n\n*Reaches beyond the tests:* {s['why']}\n\n"
               f"*Taken as given:* {'; '.join(ass)}.\n\n*Quick cost:* {s['cost']}; thorough: {s['thorough']}.\n")
d = open(V + '/DESIGN.md').read()
d = re.sub(r'(<!-- props -->\n).*?(<!-- /props -->)', lambda m: m.group(1) + '\n'.join(out) + m.group(2), d, flags=re.S)
rows = []
caught = json.load(open(V + '/tools/caught.json'))
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks'].strip().replace('|','/')} | {m['needs'].strip().replace('|','/')} | {caught.get(b, 'not run yet')} |")
d = re.sub(r'(<!-- planted -->\n).*?(<!-- /planted -->)', lambda m: m.group(1) + '| id | property | breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n' + m.group(2), d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
