#!/usr/bin/env python3
"""Rewrites the planted-changes table in DESIGN.md from seeded/*/meta.json, extra/*/meta.json and the notes below."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'c08-parens': 'yes, after adding redundant groups', 'c14-text': 'yes, after a first miss', 'c15-aggr': 'yes, after a first miss',
 'c01-trim': 'yes, after adding the wide alphabets', 'c01-emptyname': 'yes, after adding the wide alphabets', 'c01-narrow': 'yes, after adding the wide alphabets',
 'c02-ids': 'yes, after adding renumbered grammars', 'c07-mixed': 'yes, after adding layouts of rule lists', 'c08-anchor': 'yes, after adding ^ and $ to the patterns',
 'c11-raw': 'yes, after adding names of every form', 'c12-vtab': 'yes, after adding every escape', 'c13-bom': 'yes, after adding what may stand around a document',
 'c17-long': 'yes, after adding long names', 'c18-name': 'yes, after repeating more often on one thread', 'c19-case': 'yes, after adding near-equal spellings', 'c23-first': 'yes, after adding wide alternations',
}
extra = os.path.join(V, 'tools', 'notes.json')
if os.path.exists(extra): NOTE.update(json.load(open(extra)))
def row(d):
    m = json.load(open(d + '/meta.json')); i = os.path.basename(d); e = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    return f"| {i}{' (extra/)' if '/extra/' in d else ''} | {m['property']} | {e(m['needs'])} | {e(m['what_it_breaks'])} | {NOTE.get(i, 'yes')} |"
rows = [row(d) for d in sorted(glob.glob(V + '/seeded/*') + glob.glob(V + '/extra/*'), key=os.path.basename) if os.path.exists(d + '/meta.json')]
s = open(V + '/DESIGN.md').read()
a = s.index('| id | property | needs')
b = re.search(r'\n(?!\|)', s[a:]); b = a + b.start() if b else len(s)
s = s[:a] + '| id | property | needs | breaks | caught by the property\'s check |\n|---|---|---|---|---|\n' + '\n'.join(rows) + s[b:]
open(V + '/DESIGN.md', 'w').write(s)
print(len(rows), 'rows')
