"""Prints the table of planted bugs (DESIGN.md, between the markers) from seeded/*/meta.json."""
import glob, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property (check that catches it) | needs |', '|---|---|---|']
for path in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
  meta = json.load(open(path))
  rows.append('| {} | {} | {} |'.format(os.path.basename(os.path.dirname(path)), meta['property'], meta['needs'].replace('|', '\\|')))
name = os.path.join(root, 'DESIGN.md')
text = open(name).read()
block = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if 'SEEDTABLE' in text:
  text = text.replace('SEEDTABLE', block)
else:
  text = re.sub('<!-- seeds -->.*<!-- /seeds -->', lambda m: block, text, flags=re.S)
open(name, 'w').write(text)
