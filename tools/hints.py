"""Untrusted hints for the Huffman decoding tables: for every row of a table of
the current source, the bits that lead to it from row 0 and a symbol whose code
goes on from there. The verifier checks them against the table (by evaluating
`row1` to `row5`), so a wrong hint can only make the proof fail."""
import os, re
from rustlex import lex

def read_table(path):
    txt = ' '.join(t.text for t in lex(open(path, encoding='utf-8').read()) if t.kind != 'comment')
    m = re.search(r'DECODE_TABLE : \[ \[ \( Option < u8 > , Option < u16 > , u8 \) ; (\d+) \] ; (\d+) \] = ', txt)
    if not m: return None
    body = txt[m.end():]
    ents = re.findall(r'\( (None|Some \( (\w+) \)) , (None|Some \( (\w+) \)) , (\w+) \)', body)
    num = lambda x: int(x.replace('_', ''), 0) if not re.search(r'[iu](8|16|32|64|size)$', x) else int(re.sub(r'[iu](8|16|32|64|size)$', '', x).replace('_', ''), 0)
    try:
        flat = [(num(e[1]) if e[1] else None, num(e[3]) if e[3] else None, num(e[4])) for e in ents]
    except ValueError:
        return None
    k, n = int(m.group(1)), int(m.group(2))
    if len(flat) != k * n: return None
    return [flat[i * k:(i + 1) * k] for i in range(n)]

def hints_for(table, s):
    n = len(table)
    path = [None] * n
    path[0] = (0, 0)
    q = [0]
    while q:
        i = q.pop(0)
        for k, (nx, a, l) in enumerate(table[i]):
            if nx is not None and a is None and nx < n and path[nx] is None and path[i][0] + s < 32:
                path[nx] = (path[i][0] + s, path[i][1] * (1 << s) + k)
                q.append(nx)
    wit = [0] * n
    def find(i, seen):
        for nx, a, l in table[i]:
            if a is not None: return a
        for nx, a, l in table[i]:
            if nx is not None and nx < n and nx not in seen:
                w = find(nx, seen | {nx})
                if w is not None: return w
        return None
    for i in range(n):
        w = find(i, {i})
        wit[i] = w if w is not None else 0
    return [(path[i][0], path[i][1], wit[i], True) if path[i] else (0, 0, 0, False) for i in range(n)]

def tree(lo, hi, leaf):
    """A spec expression that picks leaf(i) for lo <= i < hi by halving."""
    if hi - lo == 1: return leaf(lo)
    m = (lo + hi) // 2
    return 'if i < %d { %s } else { %s }' % (m, tree(lo, m, leaf), tree(m, hi, leaf))

def rfc_tree(specfile):
    """The code of RFC 7541, appendix B, as listed in contracts/huffman/rfc.txt, as a spec function."""
    v = [tuple(int(x, 0) for x in m) for m in re.findall(r'\(\s*(\d+),\s*(0x[0-9a-f]+)\)', open(specfile).read())]
    assert len(v) == 257
    order = sorted(range(257), key=lambda i: v[i][1] << (30 - v[i][0]))
    rank = {c: i for i, c in enumerate(order)}
    return '#[verifier::opaque]\npub open spec fn rfc(i: int) -> (int, int) { %s }\n' % tree(0, 257, lambda i: '(%d, %d)' % v[i]) + \
        '// The codes in the order of their bits: hints, checked by lemma_facts.\n' + \
        '#[verifier::opaque]\npub open spec fn sorted(i: int) -> int { %s }\n' % tree(0, 257, lambda i: str(order[i])) + \
        '#[verifier::opaque]\npub open spec fn rank(i: int) -> int { %s }\n' % tree(0, 257, lambda i: str(rank[i]))

UNREAD = []     # tables that could not be read from the source
def module(repo):
    del UNREAD[:]
    here = os.path.dirname(os.path.abspath(__file__))
    out = ['pub mod hints {\nuse vstd::prelude::*;\nuse crate::hspec::*;\nverus! {\n']
    out.append(rfc_tree(os.path.join(os.path.dirname(here), 'contracts', 'huffman', 'rfc.txt')))
    sizes = {}
    for s in range(1, 6):
        p = os.path.join(repo, 'huffman', 'src', 'decoder', 'table%d.rs' % s)
        t = read_table(p) if os.path.exists(p) else None
        if not t: UNREAD.append('table%d' % s)
        h = hints_for(t, s) if t else [(0, 0, 0, True)]
        n, K = len(h), 1 << s
        sizes[s] = n
        T = 'crate::httlib_huffman::decoder::table%d::DECODE_TABLE' % s
        R = f'[(Option<u8>, Option<u16>, u8); {K}]'
        leaf = lambda i: '(%d, %d, %d, %s)' % (h[i][0], h[i][1], h[i][2], 'true' if h[i][3] else 'false')
        out.append(f'''#[verifier::opaque]
pub open spec fn path{s}(i: int) -> (int, int, int, bool) {{ {tree(0, n, leaf)} }}
#[verifier::opaque]
pub open spec fn ent{s}(i: int, k: int) -> (Option<u8>, Option<u16>, u8) {{ {T}[i][k] }}
pub open spec fn key{s}(e: (Option<u8>, Option<u16>, u8), p: (int, int, int, bool), k: int) -> bool {{
    match e {{
        (_, Some(c), l) => sym_ok({s}, p, k, c as int, l as int),
        (Some(j), None, l) => l == 0 && j < {n} && next_ok({s}, p, k, path{s}(j as int)),
        _ => false,
    }}
}}
pub open spec fn keys{s}(r: {R}, p: (int, int, int, bool), k: int) -> bool decreases k {{ k <= 0 || (key{s}(r[k - 1], p, k - 1) && keys{s}(r, p, k - 1)) }}
#[verifier::opaque]
pub open spec fn row{s}(r: {R}, p: (int, int, int, bool)) -> bool {{ !p.3 || (row_ok(p) && keys{s}(r, p, {K})) }}
proof fn lemma_keys{s}(r: {R}, p: (int, int, int, bool), m: int, k: int)
    requires keys{s}(r, p, m), 0 <= k < m
    ensures key{s}(r[k], p, k)
    decreases m
{{ if k < m - 1 {{ lemma_keys{s}(r, p, m - 1, k); }} }}
// The shipped table of speed {s} leads from every reachable row, for every key, where the codes say.
pub proof fn thm_table{s}(i: int, k: int)
    requires 0 <= i < {n}, path{s}(i).3, 0 <= k < {K}
    ensures row_ok(path{s}(i)), key{s}(ent{s}(i, k), path{s}(i), k)
{{ reveal(ent{s}); reveal(row{s}); r{s}::lemma_rows{s}(i); lemma_keys{s}({T}[i], path{s}(i), {K}, k); }}
pub mod r{s} {{
use vstd::prelude::*; use crate::hspec::*; use super::*;
''')
        for i in range(n):
            if h[i][3]: out.append(f'proof fn thm_table{s}_{i}() ensures row{s}({T}[{i}], path{s}({i})) {{ reveal({T}); reveal(rfc); reveal(path{s}); reveal(row{s}); assert(row{s}({T}[{i}], path{s}({i}))) by(compute_only); }}\n')
        call = lambda i: 'thm_table%d_%d();' % (s, i) if h[i][3] else ''
        out.append(f'''pub proof fn lemma_rows{s}(i: int) requires 0 <= i < {n}, path{s}(i).3 ensures row{s}({T}[i], path{s}(i))
{{ reveal(path{s}); {tree(0, n, call)} }}
pub proof fn lemma_root{s}() ensures path{s}(0).0 == 0, path{s}(0).1 == 0, path{s}(0).3 {{ reveal(path{s}); assert(path{s}(0).0 == 0 && path{s}(0).1 == 0 && path{s}(0).3) by(compute_only); }}
}}
''')
    pick = lambda f: ' else '.join('if s == %d { %s }' % (s, f(s)) for s in range(2, 6)) + ' else { %s }' % f(1)
    out.append('pub open spec fn rows(s: int) -> int { %s }\n' % pick(lambda s: str(sizes[s])))
    for f, a, b, ty in (('path', 'i: int', 'i', '(int, int, int, bool)'), ('ent', 'i: int, k: int', 'i, k', '(Option<u8>, Option<u16>, u8)')):
        out.append('pub open spec fn %s(s: int, %s) -> %s { %s }\n' % (f, a, ty, pick(lambda s: '%s%d(%s)' % (f, s, b))))
    out.append('''pub proof fn lemma_table(s: int, i: int, k: int)
    requires 1 <= s <= 5, 0 <= i < rows(s), path(s, i).3, 0 <= k < pow2i(s)
    ensures row_ok(path(s, i)), match ent(s, i, k) {
        (_, Some(c), l) => sym_ok(s, path(s, i), k, c as int, l as int),
        (Some(j), None, l) => l == 0 && j < rows(s) && next_ok(s, path(s, i), k, path(s, j as int)),
        _ => false,
    }
{ reveal_with_fuel(pow2i, 6); %s }
pub proof fn lemma_root(s: int)
    requires 1 <= s <= 5
    ensures path(s, 0).0 == 0, path(s, 0).1 == 0, path(s, 0).3, rows(s) > 0
{ r1::lemma_root1(); r2::lemma_root2(); r3::lemma_root3(); r4::lemma_root4(); r5::lemma_root5(); }
''' % pick(lambda s: 'thm_table%d(i, k);' % s))
    out.append('} // verus!\n}\n')
    return ''.join(out)
