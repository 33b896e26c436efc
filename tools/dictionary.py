"""Numbers and strings that occur in the current source, for the input generators.
Those that are new with respect to the annotated copies come several times."""
import os, re
from rustlex import lex, parse_items
HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = os.path.join(os.path.dirname(HERE), 'contracts')
SUF = re.compile(r'_?(?:[iu](?:8|16|32|64|128|size)|f32|f64)$')
ESC = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, "'": 39, '"': 34}

def unescape(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            if s[i+1] == 'x': out.append(int(s[i+2:i+4], 16)); i += 4; continue
            if s[i+1] in ESC: out.append(ESC[s[i+1]]); i += 2; continue
        out += s[i].encode(); i += 1
    return bytes(out)

def literals(d, tests=False):
    ints, strs = set(), set()
    for root, _, files in os.walk(d):
        for f in sorted(files):
            if not f.endswith('.rs') or re.match(r'table[1-5]\.rs', f) or (f == 'table.rs' and root.endswith('encoder')): continue
            try:
                toks = [t for t in lex(open(os.path.join(root, f), encoding='utf-8').read()) if t.kind != 'comment']
                skip = []
                for it in parse_items(toks, 0, len(toks)):
                    if any('cfg ( test' in a for a in it.attrs): skip.append((it.first, it.last))
            except Exception:
                continue
            for i, t in enumerate(toks):
                if any(a <= i <= b for a, b in skip): continue
                try:
                    if t.kind == 'num' and '.' not in t.text: ints.add(int(SUF.sub('', t.text).replace('_', ''), 0) if not re.match(r'0\d', t.text) else int(t.text))
                    elif t.kind == 'char': ints.add(unescape(t.text.lstrip('b')[1:-1])[0])
                    elif t.kind == 'str' and t.text[0] in '"b': strs.add(unescape(t.text[t.text.index('"')+1:-1]))
                except Exception:
                    pass
    return ints, strs

def write(repo, crates, path):
    I, S, old_i, old_s = set(), set(), set(), set()
    for c in crates:
        a, b = literals(os.path.join(repo, c, 'src')); I |= a; S |= b
        a, b = literals(os.path.join(CONTRACTS, c, 'src')); old_i |= a; old_s |= b
    with open(path, 'w') as o:
        for x in sorted(I):
            if x < 2**64:
                for _ in range(1 if x in old_i else max(4, len(I))): o.write('i %d\n' % x)
        for x in sorted(S):
            for _ in range(1 if x in old_s else max(4, len(S))): o.write('s %s\n' % x.hex())
    return len(I), len(S)
