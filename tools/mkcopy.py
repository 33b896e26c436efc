"""Creates the un-annotated copy of a crate under /verif/contracts (used once, by hand)."""
import sys, os, re
sys.path.insert(0, os.path.dirname(__file__))
from rustlex import *
def strip(src):
    toks = lex(src)
    code = [t for t in toks if t.kind != 'comment']
    items = parse_items(code, 0, len(code))
    cut = [(t.start, t.end) for t in toks if t.kind == 'comment']
    for it in items:
        if any('cfg ( test' in a for a in it.attrs):
            cut.append((code[it.first].start, code[it.last].end))
    out, p = [], 0
    for a, b in sorted(cut):
        if a < p: continue
        out.append(src[p:a]); p = b
    out.append(src[p:])
    s = ''.join(out)
    s = '\n'.join(l.rstrip() for l in s.split('\n'))
    return re.sub(r'\n\s*\n+', '\n\n', s).strip() + '\n'
src, dst = sys.argv[1:3]
for d, _, fs in os.walk(src):
    for f in fs:
        if f.endswith('.rs'):
            if re.match(r'table[1-5]\.rs', f): continue
            p = os.path.join(d, f); q = os.path.join(dst, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'w').write(strip(open(p).read()))
