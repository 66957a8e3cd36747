# writes spec/EntityTable.tla
import html.entities as h
d = dict(h.name2codepoint); d['apos'] = 39
rows = sorted(d.items(), key=lambda x: x[1])
out = '''---------------------------- MODULE EntityTable -----------------------------
(* The named characters of HTML 4 and the apostrophe: code point, name as code points.                       *)
(* Written by tools/entities.py from the tables of Python's html.entities, not from the code under test.     *)
Entities == <<
''' + ',\n'.join('  <<%d, <<%s>>>>' % (p, ', '.join(str(ord(c)) for c in n)) for n, p in rows) + ' >>\n' + '=' * 77 + '\n'
open('/verif/spec/EntityTable.tla', 'w').write(out)
