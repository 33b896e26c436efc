"""Mechanical extraction of /repo's Rust source into Verus input.

Executable text is taken token for token from the current source in /repo; the
only changes made to it are the rewrites listed in REWRITES (and the items
listed in DROPPED). Contracts, invariants and proof hints come from the
annotated copies under /verif/contracts: an annotation is a comment
/*@ ... @*/ in such a copy, and it is re-anchored in the current source by
aligning the two token streams item by item. Annotations never contain
executable code, so where they land cannot change what is verified, only
whether the proof succeeds; function contracts are attached to the function
with the same path and nowhere else."""
import difflib, glob, os, re
import inline
from rustlex import lex, parse_items, match_close, OPEN, CLOSE, Tok, LexError

DROPPED = [
    "items under #[cfg(test)]",
    "comments and documentation",
    "impls of fmt::Display, fmt::Debug and error::Error",
    "#[derive(Debug)]",
    "impls of From<core::convert::Infallible> (no value of that type exists)",
]
REWRITES = {
    'inline': "a call of a function that the annotated copy does not know is replaced by the body of that function (see tools/inline.py for when)",
    'refpat': "`for &x in e {` becomes `for x_ in e { let x = *x_;`",
    'ceil': "`(a as fN / b as fN).ceil() as usize` becomes `trust::ceil_div(a as usize, b as usize)` (checked against the float expression by the harness on every pair with a < 4096, 0 < b < 64)",
    'io': "`std::io` becomes `trust::io`, whose Write trait carries the documented contract of std::io::Write::write_all",
    'drain': "`v.drain(range)` as a statement becomes `v.v_drain(range)`, contract: removes exactly that range",
    'capacity': "`Vec::with_capacity(n)` / `.capacity()` become `trust::vec_with_capacity(n)` / `.v_capacity()`, contract: the capacity of a fresh vector is n, capacity >= len; `vec![e; n]`, `.reserve(n)`, `.resize(n, e)` likewise go to wrappers (verified); all of these require that n is bounded by a constant or by the length of a vector or slice, so that no input can make the code ask for unbounded memory",
    'lines': "`text.lines()` becomes `text.v_lines()`, the same lines collected into a vector",
    'lebytes': "`to_le_bytes` / `from_le_bytes` become `v_to_le_bytes` / `v_from_le_bytes`, contract: little-endian bytes of the two's complement (IEEE 754 bit pattern, uninterpreted, for floats)",
    'iterimpl': "`impl Iterator for T` becomes an inherent impl of T with the same `next`",
    'sliceiter': "`for (i, h) in e.iter().enumerate() { B }` over a slice or vector becomes the loop over its indices",
    'forany': '`for _ in e` gets a name for the element',
    'enumerate': "`for (i, h) in e.enumerate() { B }` becomes the loop over `next()` it stands for, with an explicit counter",
    'fromlit': "`impl From<A> for B { fn from }` of a type outside the crate becomes a free function with the same body",
    'discr': "negative enum discriminants get the suffix `isize` they stand for",
    'static': "`static N: T = E;` becomes `exec static N: T ensures .. { let r_: T = E; r_ }`",
    'bytestr': 'byte-string literals in such a table become arrays of their octets',
    'assocconst': "a reference to an associated constant of a type with lifetime parameters becomes its value, a literal",
    'closure': "a closure in argument position whose body is one expression gets that expression as its postcondition",
    'len': "where the length of a slice has lost its name, the annotations keep the name as a ghost variable",
    'counter': "the linear relation between a new counter of a loop and an old one is added to the invariant (and proved)",
    'exit': "a `loop` whose breaks are all `if C { break; }` gets the disjunction of the conditions as its `ensures` (proved)",
    'break': "where a `loop` is left by `break` in the current source, the annotation's clause for that becomes its `ensures` (proved)",
    'tail': "where a `loop` is left by a single `if C { break; }` at its end, the annotation's clause for the head of such a loop is added to its invariants (proved)",
    'guard': "`P if G => A, _ => B` at the end of a match becomes `P => if G { A } else { B }, _ => B`",
    'extend': "`v.extend(e);` and `v.extend_from_slice(e)` become `v.v_extend(e);` and `v.v_extend_from_slice(e)`, contract for vectors and slices: appends the elements",
    'ret': "the result of every function is given the name `ret`",
    'crate': "`crate::` becomes `crate::<name of the crate>::`",
}

def byte_string(s):
    """The octets of a byte-string literal, or None."""
    m = re.match(r'br(#*)"(.*)"\1$', s, re.S)
    if m: return m.group(2).encode()
    m = re.match(r'b"(.*)"$', s, re.S)
    if not m: return None
    esc = {'n': 10, 'r': 13, 't': 9, '\\': 92, '0': 0, "'": 39, '"': 34}
    out, i, x = [], 0, m.group(1)
    while i < len(x):
        if x[i] != '\\': out.append(ord(x[i])); i += 1
        elif x[i+1] == 'x': out.append(int(x[i+2:i+4], 16)); i += 4
        elif x[i+1] == '\n':
            i += 2
            while i < len(x) and x[i].isspace(): i += 1
        else: out.append(esc[x[i+1]]); i += 2
    return out

def const_value(toks):
    """The value of a constant expression of literals and operators, or None."""
    e = ''
    for t in toks:
        if t.kind == 'num': e += re.sub(r'(_|[ui](8|16|32|64|128|size)$)', '', t.text) if not t.text.startswith('0x') else re.sub(r'_|[ui](8|16|32|64|128|size)$', '', t.text)
        elif t.text in ('<<', '>>', '|', '&', '^', '+', '-', '*', '(', ')'): e += t.text
        elif t.text != ';': return None
    try: v = eval(e, {'__builtins__': {}})
    except Exception: return None
    return v if isinstance(v, int) and 0 <= v < 1 << 64 else None

class Lost(Exception):
    pass

AT_BREAK, IN_LOOP = 'at_break ', 'in_loop '
ANN = re.compile(r'^/\*@(@?)(.*)@\*/$', re.S)

class File:
    def __init__(self, path, annotated, copy=None):
        self.path = path
        self.src = open(path, encoding='utf-8').read()
        self.inlined, self.original = [], {}
        if copy:
            before = self.src
            try: self.src, self.inlined = inline.expand(self.src, inline.keys(open(copy, encoding='utf-8').read()))
            except (LexError, IndexError, StopIteration): self.src = before
            if self.inlined: self.original = inline.bodies(before)
        self.toks, self.anns, self.mod_anns, self.at_break, self.in_loop = [], {}, [], {}, {}
        for t in lex(self.src):
            if t.kind != 'comment':
                self.toks.append(t)
                continue
            if annotated:
                m = ANN.match(t.text)
                if m and m.group(1):
                    self.mod_anns.append(m.group(2).rstrip('@'))
                elif m:
                    x, _, e = m.group(2).partition(AT_BREAK)
                    if e: self.at_break[len(self.toks)] = e.strip()
                    x, _, e = x.partition(IN_LOOP)
                    if e: self.in_loop[len(self.toks)] = e.strip()
                    self.anns.setdefault(len(self.toks), []).append(x)
        self.items = parse_items(self.toks, 0, len(self.toks))

KEYWORDS = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while'.split())

class FnInfo:
    def __init__(self, path):
        self.path = path; self.contract = False; self.changed = False
        self.lost = []          # annotations that could not be anchored
        self.lines = None; self.attrs = ''
        self.loops_moved = False
        self.renamed = {}
        self.opaque = 0         # 1: body not looked at; 2: no contract either
        self.calls = set()      # names that occur in the body
        self.same = False
        self.inlined = False    # a helper function was expanded in it
        self.closures = False   # it holds closures, the copy does not

class Extractor:
    def __init__(self, repo_src, contract_src, cratename, opts=None):
        self.repo_src, self.contract_src, self.crate = repo_src, contract_src, cratename
        self.fns = {}
        self.missing = []       # contracted items absent from the source
        self.rewrites_used = {}
        self.opts = opts or {}
        self.rename_map = {}
        self.consts = self.scan_consts()

    def scan_consts(self):
        """(type, name) -> `(value as type)` for literal constants in `impl<..> T`."""
        out = {}
        for r, _, fs in os.walk(self.repo_src):
            for f in fs:
                if not f.endswith('.rs'): continue
                try:
                    T = [t for t in lex(open(os.path.join(r, f), encoding='utf-8').read()) if t.kind != 'comment']
                    its = parse_items(T, 0, len(T))
                except (LexError, IndexError): continue
                for it in its:
                    if it.kind != 'impl' or T[it.kw + 1].text != '<': continue
                    for ch in it.children:
                        x = [t.text for t in T[ch.kw:ch.last]]
                        if ch.kind == 'const' and len(x) > 5 and x[2] == ':' and x[4] == '=' and x[3] in ('u8', 'u16', 'u32', 'u64', 'usize'):
                            v = const_value(T[ch.kw + 5:ch.last])
                            if v is not None: out[it.name.split('<')[0], ch.name] = '(%d as %s)' % (v, x[3])
        return out

    def used(self, r):
        self.rewrites_used[r] = self.rewrites_used.get(r, 0) + 1

    # ---- entry ----
    def run(self):
        body = self.emit_module(os.path.join(self.repo_src, 'lib.rs'), os.path.join(self.contract_src, 'lib.rs'),
                                self.repo_src, self.contract_src, [])
        return 'pub mod %s {\n%s\n}\n' % (self.crate, body)

    def emit_module(self, cur, base, curdir, basedir, path):
        b = File(base, True) if os.path.exists(base) else None
        c = File(cur, False, base if b else None)
        if c.inlined: self.rewrites_used['inline'] = self.rewrites_used.get('inline', 0) + len(c.inlined)
        out = ['#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::trust::*;\n#[allow(unused_imports)] use crate::spec::*;\n']
        for p in self.opts.get('preludes', []):
            out.append(p + '\n')
        if b:
            out += [a + '\n' for a in b.mod_anns]
        out.append(self.emit_items(c, c.items, b, b.items if b else [], path, curdir, basedir))
        return ''.join(out)

    def dropped(self, it):
        for a in it.attrs:
            if re.search(r'cfg \( (all \( )?test', a): return True
        if it.kind == 'impl' and re.match(r'(std::)?(core::)?(fmt|error)\s*::\s*\w+ for ', it.name.replace(' :: ', '::')): return True
        if it.kind == 'impl' and re.search(r'\bFrom<.*Infallible>', it.name): return True
        return False

    def emit_items(self, c, citems, b, bitems, path, curdir, basedir):
        out, bmap = [], {}
        for it in bitems:
            bmap.setdefault(it.key(), []).append(it)
        seen = set()
        for it in citems:
            if self.dropped(it):
                continue
            cand = bmap.get(it.key(), [])
            bit = cand[0] if cand else None
            if bit: seen.add(it.key())
            if it.kind == 'mod' and it.body < 0 and it.name in self.opts.get('skip', ()):
                continue
            if it.kind == 'mod' and it.body < 0:
                out.append(self.emit_mod_decl(c, it, path, curdir, basedir))
            elif it.kind == 'mod':
                head = self.emit_range(c, it.first, it.body + 1, {}, [])
                inner = '#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::trust::*;\n#[allow(unused_imports)] use crate::spec::*;\n'
                out.append(head + inner + self.emit_items(c, it.children, b, bit.children if bit else [], path + [it.name], curdir, basedir) + '}\n')
            elif it.kind in ('impl', 'trait'):
                out.append(self.emit_impl(c, it, b, bit, path, curdir, basedir))
            elif it.kind == 'fn':
                out.append(self.emit_fn(c, it, b, bit, path))
            else:
                ins = self.item_insertions(c, it, b, bit) if bit else {}
                ed = []
                if it.kind == 'enum':
                    for k in range(it.body, it.last):
                        if c.toks[k].text == '-' and c.toks[k-1].text == '=' and c.toks[k+1].text.isdigit():
                            ed.append((k + 1, k + 2, c.toks[k+1].text + 'isize')); self.used('discr')
                if it.kind == 'static' and self.opts.get('statics'):
                    out.append(self.emit_static(c, it, path))
                    continue
                if it.kind in ('const', 'static') and self.opts.get('opaque_consts') and any(x.text == '[' for x in c.toks[it.first:it.last]):
                    out.append('#[verifier::opaque]\n')    # kept out of proofs unless revealed
                out.append(self.emit_range(c, it.first, it.last + 1, ins, ed) + '\n')
        for k, its in bmap.items():
            if k not in seen and not self.dropped(its[0]):
                self.report_missing(b, its[0], path)
        return ''.join(out)

    def emit_static(self, c, it, path):
        """A table of byte strings: `static N: T = E;` becomes `exec static N: T ensures .. { let r: T = E; .. r }`."""
        T = c.toks
        eq = next(k for k in range(it.kw, it.last) if T[k].text == '=' )
        colon = next(k for k in range(it.kw, eq) if T[k].text == ':')
        ty = self.emit_range(c, colon + 1, eq, {}, [])
        ed = []
        for k in range(eq + 1, it.last):
            b = byte_string(T[k].text)
            if b is not None: ed.append((k, k + 1, '&[%s]' % ', '.join('%du8' % x for x in b))); self.used('bytestr')
        val = self.emit_range(c, eq + 1, it.last, {}, ed)
        info = FnInfo('::'.join(path + [it.name])); info.name = it.name; info.contract = True; info.same = True
        self.fns[info.path] = info
        self.used('static')
        head = self.emit_range(c, it.first, it.kw, {}, [])
        n = 61 if re.search(r'\[ *\( *&', ty) else 0
        ens = 'ensures is_static(%s@)' % it.name if n else ''
        prf = 'proof { reveal(rfc_static); assert(r_@.len() == 61);\n' + ''.join('assert(r_@[%d].0@ =~= rfc_static(%d).0); assert(r_@[%d].1@ =~= rfc_static(%d).1);\n' % (i, i, i, i) for i in range(n)) + '}' if n else ''
        if self.opts.get('vacuity'): prf = 'proof { assert(false); } /*#V#*/\n' + prf
        return '/*#F %s#*/\n%s exec static %s: %s %s { let r_: %s = %s;\n%s r_ }\n/*#E#*/\n' % (info.path, head, it.name, ty, ens, ty, val, prf)

    def report_missing(self, b, it, path):
        if it.kind == 'fn':
            self.missing.append('::'.join(path + [it.name]))
        for ch in it.children:
            self.report_missing(b, ch, path + [it.name])

    def emit_mod_decl(self, c, it, path, curdir, basedir):
        name = it.name
        fname = name[2:] if name.startswith('r#') else name
        f1, f2 = os.path.join(curdir, fname + '.rs'), os.path.join(curdir, fname, 'mod.rs')
        if os.path.exists(f1):
            cur, sub = f1, fname
        elif os.path.exists(f2):
            cur, sub = f2, fname
        else:
            raise Lost('no file for module ' + name)
        base = os.path.join(basedir, os.path.relpath(cur, curdir))
        if not os.path.exists(base):
            alt = os.path.join(basedir, fname, 'mod.rs') if cur == f1 else os.path.join(basedir, fname + '.rs')
            if os.path.exists(alt): base = alt
        head = ''.join(a.replace(' ', '') + '\n' for a in it.attrs) + ('pub ' if c.toks[it.kw - 1].text != ')' or True else '')
        return '%smod %s {\n%s}\n' % (head, name, self.emit_module(cur, base, os.path.join(curdir, sub), os.path.join(basedir, sub), path + [fname]))

    def emit_impl(self, c, it, b, bit, path, curdir, basedir):
        m = re.match(r'(?:[\w: ]*::\s*)?(\w+)(?:<(.*)>)? for (.*)$', it.name)
        head_edits = []
        trait = m.group(1) if m else None
        free = False
        if trait == 'Iterator':
            # inherent impl, `type Item` dropped
            self.used('iterimpl')
            k = it.kw
            j = next(x for x in range(k, it.body) if c.toks[x].text == 'for')
            s = next(x for x in range(k, j) if c.toks[x].text == 'Iterator')
            head_edits.append((s, j + 1, ''))
        if trait == 'From' and self.opts.get('free_from') and re.match(self.opts['free_from'], it.name):
            self.used('fromlit')
            free = True
        parts = []
        tag = path + [it.name]
        bch = {}
        for x in (bit.children if bit else []):
            bch.setdefault(x.key(), x)
        seen = set()
        for ch in it.children:
            if self.dropped(ch): continue
            bch1 = bch.get(ch.key())
            if bch1: seen.add(ch.key())
            if ch.kind == 'fn':
                if free:
                    parts.append(self.emit_fn(c, ch, b, bch1, tag, rename='from_' + self.mangle(it.name), selfty=m.group(3)))
                else:
                    parts.append(self.emit_fn(c, ch, b, bch1, tag, makepub=(trait == 'Iterator')))
            elif trait == 'Iterator' and ch.kind == 'type':
                continue
            else:
                ins = self.item_insertions(c, ch, b, bch1) if bch1 else {}
                parts.append(self.emit_range(c, ch.first, ch.last + 1, ins, []) + '\n')
        for k, x in bch.items():
            if k not in seen and x.kind == 'fn' and not self.dropped(x):
                self.missing.append('::'.join(tag + [x.name]))
        if free:
            return ''.join(parts)
        ins = {}
        if bit:
            for k, v in b.anns.items():
                if bit.first <= k <= bit.body:
                    ins.setdefault(it.body if k == bit.body else it.first, []).extend(v)
        return self.emit_range(c, it.first, it.body + 1, ins, head_edits) + '\n' + ''.join(parts) + '}\n'

    @staticmethod
    def mangle(name):
        return re.sub(r'\W+', '_', name.split(' for ')[1]).strip('_').lower()

    # ---- functions ----
    def emit_fn(self, c, it, b, bit, path, rename=None, selfty=None, makepub=False):
        fpath = '::'.join(path + [it.name])
        info = FnInfo(fpath)
        self.fns[fpath] = info
        ins = {}
        info.name = it.name
        if it.body >= 0:
            info.calls = {c.toks[k].text for k in range(it.body, it.last) if c.toks[k].kind == 'ident'}
        if c.inlined and it.body >= 0:
            info.inlined = (' '.join(t.text for t in c.toks[it.body:it.last]) not in c.original.get(it.name, ()))
        if bit and it.body >= 0:
            info.closures = self.closure_count(c.toks, it) > self.closure_count(b.toks, bit) or len(self.guards(c.toks, it)) > len(self.guards(b.toks, bit))
        info.opaque = self.opts.get('opaque', {}).get(fpath, 0)
        if bit:
            ins = self.item_insertions(c, it, b, bit, info)
            info.same = not info.changed
        else:
            info.changed = True
        head = ''
        if info.opaque:
            ins = {k: v for k, v in ins.items() if it.body < 0 or k <= it.body}
            if info.opaque == 2:
                ins, info.contract = {}, False
            head = '#[verifier::external_body]\n'
        elif self.opts.get('vacuity') and it.body >= 0:
            ins.setdefault(it.body + 1, []).insert(0, 'proof { assert(false); } /*#V#*/')
        if info.changed and it.body >= 0 and not info.opaque:
            ins.setdefault(it.body + 1, []).insert(0, 'broadcast use crate::trust::group_pieces;')
        edits = []
        if rename:
            edits.append((it.kw + 1, it.kw + 2, rename))
            if c.toks[it.first].text != 'pub': edits.append((it.kw, it.kw + 1, 'pub fn'))
            for k in range(it.kw, it.last):
                if c.toks[k].text == 'Self':
                    edits.append((k, k + 1, selfty))
        elif makepub and not any(c.toks[k].text == 'pub' for k in range(it.first, it.kw)):
            edits.append((it.kw, it.kw + 1, 'pub fn'))
        edits += self.name_ret(c, it)
        if it.body >= 0:
            edits += self.rewrite(c, it)
        txt = self.emit_range(c, it.first, it.last + 1, ins, edits)
        return '/*#F %s#*/\n%s%s\n/*#E#*/\n' % (fpath, head, txt)

    @staticmethod
    def in_of(T, x, y):
        return next((k + 1 for k in range(x, y) if T[k].text == 'in'), None) if T[x].text == 'for' else None

    @staticmethod
    def guards(T, it):
        """The guarded arms of matches: (the `if`, the `=>`, last token of the arm, next arm, whether they are the last two)."""
        out = []
        for k in range(it.body, it.last):
            if T[k].text != 'match' or T[k].kind != 'ident': continue
            o = k + 1
            while o < it.last and T[o].text != '{':
                if T[o].kind == 'punct' and T[o].text in ('(', '['): o = match_close(T, o)
                o += 1
            if o >= it.last: continue
            z = match_close(T, o)
            arms, p = [], o + 1
            while p < z:
                start, g = p, None
                while p < z and T[p].text != '=>':
                    if T[p].text == 'if' and g is None: g = p
                    if T[p].kind == 'punct' and T[p].text in OPEN: p = match_close(T, p)
                    p += 1
                arrow = p
                p += 1
                if p >= z: break
                if T[p].text == '{':
                    end = match_close(T, p)
                    p = end + 1
                    if p < z and T[p].text == ',': p += 1
                else:
                    while p < z and T[p].text != ',':
                        if T[p].kind == 'punct' and T[p].text in OPEN: p = match_close(T, p)
                        p += 1
                    end = p - 1
                    p += 1
                arms.append((start, g, arrow, end))
            for n, (start, g, arrow, end) in enumerate(arms):
                if g is not None: out.append((g, arrow, end, arms[n + 1] if n + 1 < len(arms) else None, n + 2 == len(arms)))
        return out

    @staticmethod
    def closure_count(T, it):
        return sum(T[k].text in ('|', '||') and T[k-1].text in ('(', ',', '=', 'move') for k in range(it.body, it.last))

    def name_ret(self, c, it):
        """`-> T` becomes `-> (ret: T)`, so that contracts can name the result."""
        T = c.toks
        k = it.kw + 2
        end = it.body if it.body >= 0 else it.last
        while T[k].text != '(': k += 1      # generics hold no parentheses in this code
        k = match_close(T, k) + 1
        if k >= end or T[k].text != '->': return []
        j, depth = k + 1, 0
        while j < end and not (depth == 0 and T[j].text == 'where'):
            if T[j].text in OPEN: depth += 1
            elif T[j].text in CLOSE: depth -= 1
            j += 1
        if any(T[x].text == 'ret' for x in range(it.first, it.last + 1)):
            return []
        self.used('ret')
        return [(k, k + 1, '-> (ret:'), (j - 1, j, None, ')')]

    def emit_range(self, c, lo, hi, ins, edits):
        after = {e[0]: e[3] for e in edits if len(e) == 4}
        edits = sorted([e for e in edits if len(e) == 3] + self.path_edits(c, lo, hi), key=lambda e: (e[0], e[1]))
        # drop edits nested in or overlapping an earlier one
        out, k, ei, prev_end = [], lo, 0, None
        while k < hi:
            if prev_end is not None:
                gap = c.src[prev_end:c.toks[k].start]
                if '\n' in gap: out.append('\n' + ' ' * min(24, len(gap.rsplit('\n', 1)[1])))
                elif gap: out.append(' ')
            for a in ins.get(k, []):
                out.append('\n' + a + '\n')
            while ei < len(edits) and edits[ei][0] < k: ei += 1
            if ei < len(edits) and edits[ei][0] == k:
                a, z, txt = edits[ei]
                out.append(txt)
                # annotations inside the replaced range are kept after it
                for q in range(a + 1, z):
                    for an in ins.get(q, []): out.append('\n' + an + '\n')
                if z == a:      # pure insertion
                    ei += 1
                    out.append(' ' + c.toks[k].text + ' ' if False else c.toks[k].text)
                    prev_end = c.toks[k].end
                    k += 1
                    continue
                for q in range(a, z):
                    if q in after: out.append(after[q])
                prev_end = c.toks[z - 1].end
                k = z
                continue
            out.append(c.toks[k].text)
            if k in after: out.append(after[k])
            prev_end = c.toks[k].end
            k += 1
        for a in ins.get(hi, []):
            out.append('\n' + a + '\n')
        return ''.join(out)

    # ---- rewrites on tokens ----
    def path_edits(self, c, lo, hi):
        T = c.toks
        ed = []
        k = lo
        while k < hi:
            t = T[k]
            if t.text == 'crate' and k + 1 < hi and T[k+1].text == '::' and not (k > lo and T[k-1].text == '('):
                ed.append((k, k + 1, 'crate::' + self.crate)); self.used('crate')
            elif t.kind == 'ident' and k + 2 < hi and T[k+1].text == '::' and self.const_of(c, k) and (k == lo or T[k-1].text != '::') and (k + 3 >= hi or T[k+3].text not in ('(', '::')):
                ed.append((k, k + 3, self.const_of(c, k))); self.used('assocconst'); k += 3; continue
            elif t.text == 'std' and k + 2 < hi and T[k+1].text == '::' and T[k+2].text == 'io':
                ed.append((k, k + 3, 'crate::trust::io')); self.used('io'); k += 3; continue
            elif t.text in self.opts.get('crates', ()) and (k == lo or T[k-1].text != '::') and k + 1 < hi and T[k+1].text == '::':
                ed.append((k, k + 1, 'crate::' + t.text)); self.used('crate')
            elif t.text == '#' and k + 2 < hi and T[k+1].text == '[' and T[k+2].text == 'derive':
                e = match_close(T, k + 1)
                names = [x.text for x in T[k+4:e-1] if x.kind == 'ident' and x.text != 'Debug']
                ed.append((k, e + 1, '#[derive(%s)]' % ', '.join(names) if names else ''))
                k = e + 1
                continue
            k += 1
        return ed

    def const_of(self, c, k):
        T = c.toks
        if T[k].text != 'Self': return self.consts.get((T[k].text, T[k+2].text))
        for it in c.items:
            if it.kind == 'impl' and it.first <= k <= it.last: return self.consts.get((it.name.split(' for ')[-1].split('<')[0], T[k+2].text))

    def rewrite(self, c, it):
        T, ed = c.toks, []
        asks = False
        for k in range(it.body, it.last):
            t = T[k]
            if t.text in ('|', '||') and T[k-1].text in ('(', ',', 'move'):
                r = self.closure_contract(T, k, it.last)
                if r: ed += r; self.used('closure')
            if t.kind != 'ident': continue
            # for &x in e {
            if t.text == 'for' and T[k+1].text == '&' and T[k+2].kind == 'ident' and T[k+3].text == 'in':
                v = T[k+2].text
                j = self.loop_brace(T, k)
                ed.append((k + 1, k + 3, v + '_'))
                ed.append((j, j + 1, '{ let %s = *%s_;' % (v, v)))
                self.used('refpat')
            elif t.text == 'for' and T[k+1].text == '_' and T[k+2].text == 'in':
                ed.append((k + 1, k + 2, 'i_')); self.used('forany')
            # for (i, h) in e.enumerate() {
            elif t.text == 'for' and T[k+1].text == '(' and T[k+2].kind == 'ident' and T[k+3].text == ',' and T[match_close(T, k+1)+1].text == 'in':
                j = self.loop_brace(T, k)
                pe = match_close(T, k + 1)
                h, star = ' '.join(x.text for x in T[k+4:pe]), ''
                if T[k+4].text == '&' and pe == k + 6: h, star = T[k+5].text, '*'
                if [x.text for x in T[j-8:j]] == ['.', 'iter', '(', ')', '.', 'enumerate', '(', ')'] and self.opts.get('slice_iter'):
                    i = T[k+2].text
                    ed.append((k, pe + 2, '{ let seq_%s = &' % i))
                    ed.append((j - 8, j, '; for %s in 0..seq_%s.len()' % (i, i)))
                    e = match_close(T, j)
                    ed.append((j, j + 1, '{ let %s = %s&seq_%s[%s];' % (h, star, i, i)))
                    ed.append((e, e + 1, '} }'))
                    self.used('sliceiter')
                elif [x.text for x in T[j-4:j]] == ['.', 'enumerate', '(', ')']:
                    i = T[k+2].text
                    ed.append((k, pe + 2, '{ let mut it_ ='))
                    ed.append((j - 4, j, '; let mut n_: usize = 0; loop'))
                    e = match_close(T, j)
                    ed.append((j, j + 1, '{ let %s = match it_.next() { Some(x_) => %sx_, None => break }; let %s = n_; n_ = n_ + 1;' % (h, star, i)))
                    ed.append((e, e + 1, '} }'))
                    self.used('enumerate')
            elif t.text == 'drain' and T[k-1].text == '.' and T[k+1].text == '(':
                e = match_close(T, k + 1)
                if T[e+1].text == ';':
                    ed.append((k, k + 1, 'v_drain')); self.used('drain')
            elif t.text == 'extend' and T[k-1].text == '.' and T[k+1].text == '(' and T[match_close(T, k + 1) + 1].text == ';':
                ed.append((k, k + 1, 'v_extend')); self.used('extend')
            elif t.text == 'extend_from_slice' and T[k-1].text == '.':
                ed.append((k, k + 1, 'v_extend_from_slice')); self.used('extend')
            elif t.text in ('to_le_bytes', 'from_le_bytes') and T[k-1].text in ('.', '::'):
                ed.append((k, k + 1, 'v_' + t.text)); self.used('lebytes')
            elif t.text == 'lines' and T[k-1].text == '.' and [x.text for x in T[k+1:k+3]] == ['(', ')']:
                ed.append((k, k + 1, 'v_lines')); self.used('lines')
            elif t.text == 'capacity' and T[k-1].text == '.':
                ed.append((k, k + 1, 'v_capacity')); self.used('capacity')
            elif t.text == 'Vec' and T[k+1].text == '::' and T[k+2].text == 'with_capacity':
                ed.append((k, k + 3, 'crate::trust::vec_with_capacity')); self.used('capacity'); asks = True
            elif t.text in ('reserve', 'reserve_exact') and T[k-1].text == '.' and T[k+1].text == '(':
                ed.append((k, k + 1, 'v_reserve')); self.used('capacity'); asks = True
            elif t.text == 'resize' and T[k-1].text == '.' and T[k+1].text == '(' and any(x.text == ',' for x in T[k+2:match_close(T, k + 1)]):
                ed.append((k, k + 1, 'v_resize')); self.used('capacity'); asks = True
            elif t.text == 'vec' and T[k+1].text == '!' and T[k+2].text == '[':
                e, d = match_close(T, k + 2), 0
                for q in range(k + 3, e):
                    d += (T[q].text in OPEN and T[q].kind == 'punct') - (T[q].text in (')', ']', '}') and T[q].kind == 'punct')
                    if d == 0 and T[q].text == ';':
                        ed.append((k, k + 3, 'crate::trust::vec_of('))
                        ed.append((q, q + 1, ','))
                        ed.append((e, e + 1, ')'))
                        self.used('capacity'); asks = True
                        break
            elif t.text == 'ceil' and T[k-1].text == '.' and T[k-2].text == ')':
                # ( a as fN / b as fN ) . ceil ( ) as usize
                o = k - 2
                depth = 0
                while True:
                    if T[o].text == ')': depth += 1
                    elif T[o].text == '(':
                        depth -= 1
                        if depth == 0: break
                    o -= 1
                inner = T[o+1:k-2]
                texts = [x.text for x in inner]
                if '/' in texts and [x.text for x in T[k+1:k+5]] == ['(', ')', 'as', 'usize']:
                    d = texts.index('/')
                    L, R = texts[:d], texts[d+1:]
                    if L[-2:-1] == ['as'] and R[-2:-1] == ['as'] and L[-1] == R[-1] and L[-1] in ('f32', 'f64'):
                        ed.append((o, k + 5, 'crate::trust::ceil_div(%s as usize, %s as usize)' % (' '.join(L[:-2]), ' '.join(R[:-2]))))
                        self.used('ceil')
        for g, arrow, end, nxt, last in self.guards(T, it):
            if not last or nxt is None: continue
            s2, g2, a2, e2 = nxt
            B = [x.text for x in T[a2 + 1:e2 + 1]]
            if g2 is None and s2 + 1 == a2 and T[s2].text == '_' and len(B) < 16 and '{' not in B and not any(x in B for x in ('match', 'crate', 'drain', 'extend')):
                ed.append((g, g + 1, '=> if'))
                ed.append((arrow, arrow + 1, '{'))
                ed.append((end, end + 1, T[end].text + ' } else { ' + ' '.join(B) + ' }'))
                self.used('guard')
        if asks: ed.append((it.body, it.body + 1, '{ broadcast use crate::trust::group_memory;'))
        return ed

    @staticmethod
    def closure_contract(T, k, last):
        """A closure whose body is a plain expression gets that expression as its contract."""
        pats = []
        b = k + 1
        if T[k].text == '|':
            while T[b].text != '|':
                if T[b].kind == 'punct' and T[b].text in OPEN: b = match_close(T, b)
                b += 1
            pats = T[k+1:b]
            b += 1
        if T[b].text == '->': return None
        e = b
        while e < last and T[e].text not in (')', ','):
            if T[e].kind == 'punct' and T[e].text in OPEN: e = match_close(T, e)
            e += 1
        body = T[b:e]
        if not body: return None
        if body[0].text == '{' and match_close(T, b) == e - 1: body = body[1:-1]
        for i, t in enumerate(body):
            n = body[i+1].text if i + 1 < len(body) else ''
            if t.text in ('{', '}', ';', '+', '-', '*', '/', '%', '?', '[') and not (t.text == '*' and (i == 0 or body[i-1].text in ('(', ','))): return None
            if t.kind == 'ident' and (n == '!' or t.text in ('if', 'match', 'return', 'move')): return None
            if t.kind == 'ident' and n == '(' and (t.text[0].islower() or body[i-1].text == '.' and i): return None
        tx = ' '.join(t.text for t in body)
        pt = [t.text for t in pats]
        colon = pt.index(':') if ':' in pt else len(pt)
        head, let, ty = ' '.join(pt), '', ' '.join(pt[colon:])
        pat = pt[:colon]
        if ',' in pat and pat[0] != '(' : return None
        if pat == ['_']: head = 'p_ ' + ty
        elif len(pat) == 2 and pat[0] == '&' and pat[1] != '_': head, let = 'p_ ' + ty, 'let %s = *p_; ' % pat[1]
        elif len(pat) > 1:
            if pat[0] != '(' or '&' in pat: return None
            head, let = 'p_ ' + ty, 'let %s = p_; ' % ' '.join(pat)
        spec = '{ %s%s }' % (let, tx) if let else tx
        out = '|%s| -> (r_: _) ensures equal(r_, %s) { %s%s }' % (head, spec, let, tx)
        return [(k, e, out)]

    @staticmethod
    def loop_brace(T, k):
        """Index of the `{` opening the body of the loop whose keyword is at k."""
        if T[k].text == 'loop': return k + 1
        j = k + 1
        while True:
            if T[j].text == '{': return j
            if T[j].text in OPEN:
                j = match_close(T, j)
            j += 1

    def loops(self, T, lo, hi):
        out = []
        for k in range(lo, hi):
            if T[k].kind == 'ident' and T[k].text in ('for', 'while', 'loop'):
                if T[k].text == 'for' and T[k+1].text == '<': continue
                out.append((k, self.loop_brace(T, k)))
        return out

    # ---- annotation placement ----
    def item_insertions(self, c, it, b, bit, info=None):
        anns = {k: v for k, v in b.anns.items() if bit.first <= k <= bit.last}
        if info: info.contract = bool(anns)
        A = [t.text for t in b.toks[bit.first:bit.last + 1]]
        B = [t.text for t in c.toks[it.first:it.last + 1]]
        ins = {}
        if A == B:
            for k, v in anns.items():
                ins[k - bit.first + it.first] = list(v)
            return ins
        if info: info.changed = True
        if not anns: return ins
        # renamed locals
        sm = difflib.SequenceMatcher(None, A, B, autojunk=False)
        ops = sm.get_opcodes()
        ren = self.renames(b.toks[bit.first:bit.last+1], c.toks[it.first:it.last+1], ops)
        if ren:
            if info: info.renamed = ren
            A = [ren.get(x, x) for x in A]
            sm = difflib.SequenceMatcher(None, A, B, autojunk=False)
            ops = sm.get_opcodes()
        amap = {}
        for op, a1, a2, b1, b2 in ops:
            if op == 'equal':
                for d in range(a2 - a1): amap[a1 + d] = b1 + d
        fixed = {}
        if bit.body >= 0 and it.body >= 0:
            fixed[bit.body - bit.first] = it.body - it.first
            lb = self.loops(b.toks, bit.body, bit.last)
            lc = self.loops(c.toks, it.body, it.last)
            if len(lb) == len(lc):
                for (x, y), (u, v) in zip(lb, lc):
                    fixed[y - bit.first] = v - it.first
                    if b.toks[x-1].text in (';', '{', '}') and c.toks[u-1].text in (';', '{', '}'): fixed.setdefault(x - bit.first, u - it.first)
                    # the name of an iterator stays behind `in`
                    i, j = self.in_of(b.toks, x, y), self.in_of(c.toks, u, v)
                    if i and j: fixed[i - bit.first] = j - it.first
                    if b.toks[x].text != c.toks[u].text and info: info.loops_moved = True
            elif info:
                info.loops_moved = True
        # closing braces follow their opening ones
        encA, closeA = self.braces(A)
        encB, closeB = self.braces(B)
        fixed_to = dict(amap); fixed_to.update(fixed)
        for o, z in closeA.items():
            o2 = fixed_to.get(o)
            if o2 in closeB: amap[z] = closeB[o2]
            elif z in amap: del amap[z]
        # locals renamed within one loop
        lren = []
        if bit.body >= 0 and it.body >= 0 and len(lb) == len(lc):
            for (x, y), (u, v) in zip(lb, lc):
                z, w = match_close(b.toks, y), match_close(c.toks, v)
                o1 = [(op, max(a1, x - bit.first), min(a2, z - bit.first), b1, b2) for op, a1, a2, b1, b2 in ops if op == 'replace' and a2 - a1 == b2 - b1 and a1 >= x - bit.first and a2 <= z - bit.first]
                r1 = self.renames(b.toks[bit.first:bit.last+1], c.toks[it.first:it.last+1], o1, b.toks[x:z], c.toks[u:w])
                # the one variable that the loop changes
                sb, sc = self.assigned(b.toks, y, z), self.assigned(c.toks, v, w)
                ob, oc = sb - sc, sc - sb
                if not r1 and len(ob) == 1 and len(oc) == 1:
                    p1, p2 = ob.pop(), oc.pop()
                    p1 = ren.get(p1, p1)
                    if p1 != p2 and not any(t.text == p1 for t in c.toks[u:w]) and not any(t.text == p2 for t in b.toks[x:z]): r1 = {p1: p2}
                if r1: lren.append((x, z, r1))
        counters, exits, leaves, tails = {}, {}, set(), set()
        if bit.body >= 0 and it.body >= 0 and len(lb) == len(lc):
            for (x, y), (u, v) in zip(lb, lc):
                n = self.counters(c.toks, it, u, v, set(A))
                if n: counters[y] = n
                if c.toks[u].text == 'loop':
                    x = self.exit_cond(c.toks, v)
                    if x: exits[y] = x
                    elif self.breaks(c.toks, v): leaves.add(y)
                    z = match_close(c.toks, v)
                    if x and [t.text for t in c.toks[v:z] if t.text != ';'][-2:] == ['break', '}']: tails.add(y)
        lbraces = {y - bit.first for x, y in (self.loops(b.toks, bit.body, bit.last) if bit.body >= 0 else [])}
        for k, v in sorted(anns.items()):
            r = k - bit.first
            txts = [self.rename_ann(x, ren) for x in v]
            if k in counters:
                txts = [re.sub(r'\binvariant\b', lambda m: 'invariant ' + ', '.join(counters[k]) + ',', t, count=1) for t in txts]
                self.used('counter')
            if k in b.at_break and k in leaves:
                e = self.rename_ann(b.at_break[k], ren)
                txts = [re.sub(r'\binvariant\b', 'invariant_except_break', x, count=1).replace('decreases ', 'ensures %s decreases ' % e, 1) if re.search(r'\binvariant\b', x) else x for x in txts]
                self.used('break')
            if k in exits:
                txts = [re.sub(r'\bdecreases\b', lambda m: 'ensures ' + exits[k] + ' decreases', t, count=1) if re.search(r'\binvariant\b', t) and re.search(r'\bdecreases\b', t) and not re.search(r'\bensures\b', t) else t for t in txts]
                self.used('exit')
            if k in b.in_loop and k in tails:
                e = self.rename_ann(b.in_loop[k], ren)
                txts = [re.sub(r'\binvariant\b', lambda m: 'invariant_except_break %s invariant' % e, x, count=1) for x in txts]
                self.used('tail')
            for x, z, r1 in lren:
                if x <= k <= z: txts = [self.rename_ann(t, r1) for t in txts]
            if r in fixed:
                pos = fixed[r]
            elif bit.body >= 0 and it.body >= 0 and k == bit.body + 1:
                pos = it.body + 1 - it.first
            elif r in lbraces:
                pos = amap.get(r)
                if pos is not None and pos + it.first not in {y for x, y in self.loops(c.toks, it.body, it.last)}: pos = None
            elif r in amap:
                pos = amap[r]
                if A[r] == '}' and r - 1 in amap: pos = amap[r-1] + 1
                elif A[r-1] == '{' and r - 1 in fixed_to and B[pos-1] not in ('{', '}', ';'): pos = fixed_to[r-1] + 1
            elif r - 1 in fixed_to:
                pos = fixed_to[r-1] + 1
            else:
                pos = None
            if pos is None:
                if info: info.lost += txts
                continue
            if bit.body >= 0 and r > bit.body - bit.first and r not in fixed and r not in lbraces:
                e2 = fixed_to.get(encA[r])
                if e2 in closeB: pos = self.into_block(pos, e2, closeB, encB)
                if A[r-1] in ('{', '}', ';') and (B[pos-1] not in ('{', '}', ';') or self.match_block(B, encB[pos]) or not self.in_braces(B, pos)):
                    if info: info.lost += txts
                    continue
            if bit.body >= 0 and pos == it.last - it.first and B[pos-1] == '}' and A[r] != '}' and self.has_result(c.toks, it):
                if info: info.lost += txts      # it would come after the value of the function
                continue
            ins.setdefault(pos + it.first, []).extend(txts)
        # locals that carry the name of a specification function
        bound = {t.text for i, t in enumerate(c.toks[it.first:it.last], it.first) if t.kind == 'ident' and (c.toks[i-1].text in ('let', 'mut') or c.toks[i+1].text == ':')}
        for n in bound & set(self.spec_fns()) - {t.text for t in b.toks[bit.first:bit.last + 1]}:
            for k in ins: ins[k] = [re.sub(r'(?<![\w.:])%s(?=\()' % n, 'crate::%s::%s' % (self.spec_fns()[n], n), x) for x in ins[k]]
        # parts of annotations that speak of locals which are gone
        here = set(B)
        gone = {ren.get(t.text, t.text) for i, t in enumerate(b.toks[bit.body:bit.last + 1], bit.body) if t.kind == 'ident' and b.toks[i-1].text in ('let', 'mut') and t.text != 'mut'} - here if bit.body >= 0 else set()
        if info:
            for x in info.lost: gone |= set(re.findall(r'let ghost (?:mut )?(\w+)', x))
        for k in ins:
            for x in ins[k]: gone -= set(re.findall(r'let ghost (?:mut )?(\w+)', x))
        # a length that no longer has a name of its own keeps it in the annotations
        for i in range(bit.body, bit.last) if bit.body >= 0 else ():
            q = [t.text for t in b.toks[i:i + 8]]
            if q[0] == 'let' and q[1] in gone and q[2] == '=' and q[4:] == ['.', 'len', '(', ')'] and b.toks[i + 8].text == ';':
                sig = [t.text for t in c.toks[it.kw:it.body]]
                w = ren.get(q[3], q[3])
                if any(sig[j] == w and sig[j+1:j+3] == [':', '&'] and sig[j+3] != 'mut' for j in range(len(sig) - 3)) and not any(c.toks[j].text == w and c.toks[j-1].text in ('let', 'mut') for j in range(it.body, it.last)):
                    ins.setdefault(it.body + 1, []).insert(0, 'let ghost %s = %s.len();' % (q[1], w))
                    gone.discard(q[1])
                    self.used('len')
        for _ in range(6):
            if not gone: break
            size = len(gone)
            for k in ins:
                if k <= it.body: continue
                new = []
                for x in ins[k]:
                    y = prune(x, gone)
                    if y != x and info: info.lost.append(x)
                    new.append(y)
                ins[k] = new
            if len(gone) == size: break
        return ins

    @staticmethod
    def breaks(T, v):
        """Does a loop have a `break` of its own (and no loop in it)?"""
        x = [t.text for t in T[v + 1:match_close(T, v)] if t.kind == 'ident']
        return 'break' in x and not {'loop', 'while', 'for'} & set(x)

    @staticmethod
    def exit_cond(T, v):
        """What holds behind a `loop` all of whose breaks are `if C { break; }` with simple conditions."""
        z = match_close(T, v)
        conds, k = [], v + 1
        while k < z:
            t = T[k]
            if t.kind == 'ident' and t.text in ('loop', 'while', 'for'): return None
            if t.kind == 'ident' and t.text == 'break':
                if T[k-1].text != '{' or [x.text for x in T[k+1:k+3]] not in ([';', '}'],) and T[k+1].text != '}': return None
                i, cond = k - 2, []
                while i > v and T[i].text != 'if':
                    if T[i].text in ('{', '}', ';', '=>', 'else'): return None
                    cond.append(T[i]); i -= 1
                if i <= v or T[i-1].text not in ('{', '}', ';'): return None
                cond.reverse()
                txt = ' '.join(x.text for x in cond)
                txt = re.sub(r'\. len \( \)', '@.len()', txt)
                txt = re.sub(r'(\w+(?: \. \w+)*) \. is_empty \( \)', r'\1@.len() == 0', txt)
                if re.search(r'\w \(|::|\[|\{|!(?!=)|\?|"', txt) or 'let' in txt.split(): return None
                bound = {T[j].text for j in range(v + 1, z) if T[j].kind == 'ident' and (T[j-1].text == 'let' or T[j-1].text == 'mut' and T[j-2].text == 'let')}
                if any(x.kind == 'ident' and x.text in bound for x in cond): return None
                conds.append('(%s)' % txt)
            k += 1
        return ' || '.join(conds) if conds else None

    _spec_fns = {}
    def spec_fns(self):
        """Specification functions and lemmas by name, with their module."""
        d = os.path.dirname(os.path.dirname(self.contract_src))
        if self.contract_src not in self._spec_fns:
            r = {}
            for sub in ('lib', 'huffman', 'hpack', 'protos'):
                if sub not in ('lib',) and sub not in self.contract_src and not (sub == 'huffman' and 'hpack' in self.contract_src): continue
                for f in glob.glob(os.path.join(d, sub, '*.rs')):
                    mod = None
                    for l in open(f):
                        m = re.match(r'pub mod (\w+) \{', l)
                        if m: mod = m.group(1)
                        m = re.match(r'\s*pub (?:open |closed |uninterp |broadcast )*(?:spec|proof|axiom)(?:\(checked\))? fn (\w+)', l)
                        if m and mod: r.setdefault(m.group(1), mod)
            self._spec_fns[self.contract_src] = r
        return self._spec_fns[self.contract_src]

    @staticmethod
    def counters(T, it, u, v, known):
        """Variables that the annotated copy does not have and that go up in step with another one: the
        relation is given to the verifier as an invariant of the loop (and proved there)."""
        z = match_close(T, v)
        lit = lambda t: t.kind not in ('ident', 'punct', 'str', 'char', 'lifetime') and re.match(r'[0-9]+(_?[ui](8|16|32|64|size))?$', t.text)
        num = lambda t: int(re.match(r'[0-9]+', t.text).group(0))
        start, step, at = {}, {}, {}
        for k in range(it.body, u):
            if T[k].text == 'let' and T[k+1].text == 'mut' and T[k+2].kind == 'ident':
                e = k + 3
                if T[e].text == ':': e += 2
                if T[e].text == '=' and lit(T[e+1]) and T[e+2].text == ';': start[T[k+2].text] = num(T[e+1])
        for n in list(start):
            w = [k for k in range(it.body, z) if T[k].kind == 'ident' and T[k].text == n and (T[k+1].text in ('=', '+=', '-=', '*=', '/=', '<<=', '>>=', '|=', '&=', '^=', '%=') and T[k-1].text != 'mut' or T[k-1].text == 'mut' and T[k-2].text == '&')]
            if len(w) != 1 or w[0] < v or T[w[0]+1].text != '+=' or not lit(T[w[0]+2]) or T[w[0]+3].text != ';': continue
            d = 0
            for k in range(v + 1, w[0]): d += (T[k].text in ('{', '(', '[')) - (T[k].text in ('}', ')', ']'))
            if d: continue
            step[n], at[n] = num(T[w[0]+2]), w[0]
        if any(t.kind == 'ident' and t.text == 'continue' for t in T[v:z]): return []
        if T[u].text == 'for' and T[u+1].kind == 'ident' and T[u+2].text == 'in' and lit(T[u+3]) and T[u+4].text == '..':
            n = T[u+1].text
            start[n], step[n], at[n] = num(T[u+3]), 1, z
        out = []
        for n in step:
            if n in known or n.endswith('_') or (T[u].text == 'for' and n == T[u+1].text): continue
            for m in step:
                if m == n or step[m] == 0: continue
                lo, hi = sorted((at[n], at[m]))
                if any(t.kind == 'ident' and t.text == 'break' for t in T[lo:hi]): continue
                if m not in known and m < n: continue
                out.append('%d * (%s - %d) == %d * (%s - %d)' % (step[m], n, start[n], step[n], m, start[m]))
                break
        return out

    @staticmethod
    def in_braces(X, pos):
        """Whether the innermost bracket around pos is a brace."""
        i, d = pos - 1, 0
        while i >= 0:
            if X[i] in (')', ']', '}'): d += 1
            elif X[i] in ('(', '[', '{'):
                if d == 0: return X[i] == '{'
                d -= 1
            i -= 1
        return True

    @staticmethod
    def assigned(T, a, b):
        return {T[i].text for i in range(a + 1, b) if T[i].kind == 'ident' and T[i-1].text in ('{', '}', ';') and T[i+1].text in ('=', '+=', '-=', '*=', '/=', '<<=', '>>=', '|=', '&=', '^=', '%=')}

    @staticmethod
    def has_result(T, it):
        k = it.kw + 2
        while T[k].text != '(': k += 1
        return T[match_close(T, k) + 1].text == '->'

    @staticmethod
    def braces(X):
        """Per position the innermost `{` it lies in (a block of its own does not count), and per `{` its `}`."""
        enc, close, st, al = [], {}, [], []
        for i, x in enumerate(X):
            o = None
            if x == '}' and al:
                o = al.pop()
                close[o] = i
            enc.append(st[-1] if st else -1)
            if x == '}' and st and st[-1] == o: st.pop()
            if x == '{':
                al.append(i)
                if not (i and X[i-1] in (';', '{', '}')): st.append(i)
        enc.append(-1)
        return enc, close

    @staticmethod
    def match_block(X, o):
        """Whether the `{` at o opens the arms of a match."""
        i, d = o - 1, 0
        while i >= 0:
            if X[i] in (')', ']', '}'): d += 1
            elif X[i] in ('(', '[', '{'):
                d -= 1
                if d < 0: return False
            elif d == 0 and X[i] == 'match': return True
            elif d == 0 and X[i] in (';', '=>', 'if', 'while', 'for', 'loop', 'else', ','): return False
            i -= 1
        return False

    @staticmethod
    def into_block(pos, e, close, enc):
        """The position nearest to pos that lies directly in the block opened at e."""
        if pos <= e: return e + 1
        if pos > close[e]: return close[e]
        p = pos
        while enc[p] != e:
            o = enc[p]
            if o not in close or o <= e: return pos
            p = close[o] + 1
        return p

    @staticmethod
    def renames(bt, ct, ops, bs=None, cs=None):
        votes = {}
        bset = {t.text for t in (bs or bt)}
        cset = {t.text for t in (cs or ct)}
        for op, a1, a2, b1, b2 in ops:
            if op == 'replace' and a2 - a1 == b2 - b1:
                for d in range(a2 - a1):
                    x, y = bt[a1 + d], ct[b1 + d]
                    if x.kind == 'ident' and y.kind == 'ident' and x.text not in KEYWORDS and y.text not in KEYWORDS:
                        votes.setdefault(x.text, {}).setdefault(y.text, 0)
                        votes[x.text][y.text] += 1
        ren = {}
        for x, ys in votes.items():
            if x in cset: continue
            y = max(ys, key=ys.get)
            if y in bset or y in ren.values(): continue
            ren[x] = y
        return ren

    @staticmethod
    def rename_ann(text, ren):
        if not ren: return text
        return re.sub(r'(?<![\w.])([A-Za-z_]\w*)', lambda m: ren.get(m.group(1), m.group(1)), text)

def split_top(text, sep):
    out, d, last = [], 0, 0
    for i, ch in enumerate(text):
        if ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        elif ch == sep and d == 0:
            out.append(text[last:i]); last = i + 1
    out.append(text[last:])
    return out

def prune(text, gone):
    """The annotation without the clauses and statements that mention a name of `gone`; ghost variables
    that go with them are added to it. Only hints and loop invariants are passed to this."""
    has = lambda t: any(re.search(r'(?<![\w.])%s\b' % re.escape(n), t) for n in gone)
    if not has(text): return text
    m = re.match(r'(\s*)(invariant\b)(.*?)(\bdecreases\b.*)?$', text, re.S)
    if m:
        if m.group(4) and has(m.group(4)): return text
        keep = [c for c in split_top(m.group(3), ',') if c.strip() and not has(c)]
        return m.group(1) + ('invariant ' + ', '.join(c.strip() for c in keep) + ' ' if keep else '') + (m.group(4) or '')
    if re.match(r'\s*(requires|ensures|decreases|recommends|it_|\w+\s*:)', text): return text
    # statements
    out, i, n = [], 0, len(text)
    while i < n:
        # one statement: up to `;` or a closing brace at the top level that ends it
        j, d = i, 0
        while j < n:
            ch = text[j]
            if ch in '([{': d += 1
            elif ch in ')]}':
                d -= 1
                if d < 0: return text
                if ch == '}' and d == 0:
                    rest = text[j+1:].lstrip()
                    if re.match(r'(else\b|by\b|;|\)|\.|requires\b)', rest): 
                        if rest.startswith(';'): j = text.index(';', j)
                        else:
                            j += 1; continue
                    break
            elif ch == ';' and d == 0: break
            j += 1
        st = text[i:j+1]
        i = j + 1
        if has(st):
            m = re.match(r'(\s*proof\s*\{)(.*)(\}\s*)$', st, re.S)
            c = re.match(r'(\s*if [^{]*\{)(.*)(\}\s*)$', st, re.S)
            if m: st = m.group(1) + prune(m.group(2), gone) + m.group(3)
            elif c and not has(c.group(1)) and 'else' not in st: st = c.group(1) + prune(c.group(2), gone) + c.group(3)
            else:
                gone |= set(re.findall(r'let ghost (?:mut )?(\w+)', st))
                st = ''
        out.append(st)
    return ''.join(out)

def fn_lines(gen, fns):
    """Fills in the line range of every function from the markers; returns a sorted list."""
    stack, out = [], []
    for n, line in enumerate(gen.split('\n'), 1):
        m = re.search(r'/\*#F (.*?)#\*/', line)
        if m: stack.append((m.group(1), n))
        if '/*#E#*/' in line:
            p, s = stack.pop()
            out.append((s, n, p))
    return sorted(out)
