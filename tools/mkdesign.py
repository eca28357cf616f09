"""Regenerate the tables of DESIGN.md (between the markers) from known_findings.json and seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'DESIGN.md')
text = open(path).read()


def put(name, body):
    global text
    a, b = '<!-- {} -->\n'.format(name), '<!-- /{} -->'.format(name)
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + body + text[j:]


found = json.load(open(os.path.join(here, 'known_findings.json')))['findings']
put('fixes', '| property | commit | what failed |\n|---|---|---|\n' + ''.join('| {} | {} | {} |\n'.format(f['property'], f['commit'], re.sub(r'^fixed: property=\S+ \S+ ', '', f['what'])) for f in found if f['status'] == 'fixed'))
rest = [f for f in found if f['status'] != 'fixed']
put('open', ''.join('* {}: {}\n'.format(f['property'], f['what']) for f in rest) or 'None.\n')
rows = ''
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows += '| {} | {} | {} | {} |\n'.format(os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks'])
put('seeds', '| change | caught by | needs | breaks |\n|---|---|---|---|\n' + rows)
open(path, 'w').write(text)
