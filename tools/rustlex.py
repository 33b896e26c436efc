"""A small Rust lexer and item splitter (enough for the crates under /repo).

Tokens carry their byte span in the source, so that emitted text is the source
text itself; comments are separate tokens of kind 'comment'."""
import re
from dataclasses import dataclass, field

class LexError(Exception):
    pass

@dataclass
class Tok:
    kind: str      # ident, lifetime, num, str, char, punct, comment
    text: str
    start: int
    end: int

IDENT = re.compile(r'(?:r#)?[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'0[xX][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|0[bB][01_]+(?:[iu](?:8|16|32|64|128|size))?|0[oO][0-7_]+(?:[iu](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.(?![.A-Za-z_])[0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[iuf](?:8|16|32|64|128|size))?')
PUNCTS = ['<<=', '>>=', '...', '..=', '->', '=>', '::', '&&', '||', '<<', '>>', '<=', '>=', '==', '!=', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '..']

def lex(src):
    toks, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            toks.append(Tok('comment', src[i:j], i, j)); i = j
            continue
        if src.startswith('/*', i):
            depth, j = 1, i + 2
            while depth:
                if j >= n:
                    raise LexError('unterminated comment')
                if src.startswith('/*', j): depth += 1; j += 2
                elif src.startswith('*/', j): depth -= 1; j += 2
                else: j += 1
            toks.append(Tok('comment', src[i:j], i, j)); i = j
            continue
        m = re.compile(r'(?:b|c)?r(#*)"').match(src, i)
        if m:
            end = src.find('"' + m.group(1), m.end())
            if end < 0: raise LexError('unterminated raw string')
            j = end + 1 + len(m.group(1))
            toks.append(Tok('str', src[i:j], i, j)); i = j
            continue
        if c == '"' or (c in 'bc' and i + 1 < n and src[i+1] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            j += 1
            toks.append(Tok('str', src[i:j], i, j)); i = j
            continue
        if c == "'" or (c == 'b' and i + 1 < n and src[i+1] == "'"):
            k = i + (1 if c == "'" else 2)
            if c == "'" and not (src[k] == '\\' or (k + 1 < n and src[k+1] == "'")):
                m = IDENT.match(src, k)
                toks.append(Tok('lifetime', src[i:m.end()], i, m.end())); i = m.end()
                continue
            j = k
            while src[j] != "'" or j == k:
                j += 2 if src[j] == '\\' else 1
            j += 1
            toks.append(Tok('char', src[i:j], i, j)); i = j
            continue
        m = IDENT.match(src, i)
        if m:
            toks.append(Tok('ident', m.group(), i, m.end())); i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            toks.append(Tok('num', m.group(), i, m.end())); i = m.end()
            continue
        for p in PUNCTS:
            if src.startswith(p, i):
                toks.append(Tok('punct', p, i, i + len(p))); i += len(p)
                break
        else:
            toks.append(Tok('punct', c, i, i + 1)); i += 1
    return toks

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}

def match_close(toks, i):
    """Index of the token closing the bracket at i."""
    depth = 0
    for j in range(i, len(toks)):
        if toks[j].kind == 'punct':
            if toks[j].text in OPEN: depth += 1
            elif toks[j].text in CLOSE:
                depth -= 1
                if depth == 0: return j
    raise LexError('unbalanced brackets')

@dataclass
class Item:
    kind: str            # fn, impl, mod, struct, enum, trait, use, const, static, type, macro, other
    name: str            # name, or normalised header for impl
    first: int           # first token (attributes included)
    last: int            # last token, inclusive
    kw: int              # index of the keyword token
    body: int = -1       # index of the opening brace of the body, -1 if none
    attrs: list = field(default_factory=list)   # texts of outer attributes
    children: list = field(default_factory=list)

    def key(self):
        return (self.kind, self.name)

def text_of(toks, a, b):
    return ' '.join(t.text for t in toks[a:b])

def parse_items(toks, lo, hi):
    """Items among the (comment-free) tokens toks[lo:hi]."""
    items, i = [], lo
    while i < hi:
        first, attrs = i, []
        while i < hi and toks[i].text == '#':
            j = i + 1
            if toks[j].text == '!': j += 1
            e = match_close(toks, j)
            attrs.append(text_of(toks, i, e + 1))
            i = e + 1
        if i >= hi:
            break
        while True:
            t = toks[i].text
            if t == 'pub':
                i += 1
                if toks[i].text == '(': i = match_close(toks, i) + 1
            elif t in ('unsafe', 'async', 'default') or (t == 'const' and toks[i+1].text in ('fn', 'unsafe')):
                i += 1
            elif t == 'extern' and toks[i+1].kind == 'str' and toks[i+2].text == 'fn':
                i += 2
            else:
                break
        kw = i
        t = toks[i].text
        if t == 'macro_rules':
            j = i
            while toks[j].text not in OPEN: j += 1
            e = match_close(toks, j)
            if e + 1 < hi and toks[e+1].text == ';': e += 1
            items.append(Item('macro', toks[i+2].text, first, e, kw, attrs=attrs)); i = e + 1
            continue
        # find the end: ';' or '{...}' at depth 0
        j = i
        body = -1
        init = t in ('const', 'static', 'use', 'type')   # a brace may be part of the initialiser
        while True:
            if j >= hi:
                raise LexError('item without end')
            x = toks[j]
            if x.kind == 'punct' and x.text == ';':
                end = j
                break
            if x.kind == 'punct' and x.text == '{' and not init:
                body = j
                end = match_close(toks, j)
                break
            if x.kind == 'punct' and x.text in OPEN:
                j = match_close(toks, j) + 1
                continue
            j += 1
        if t in ('fn', 'struct', 'enum', 'trait', 'mod', 'const', 'static', 'type', 'union'):
            k = i + 1
            if toks[k].text == 'mut': k += 1
            it = Item(t, toks[k].text, first, end, kw, body, attrs)
        elif t == 'impl':
            it = Item('impl', norm_impl(toks, i, body), first, end, kw, body, attrs)
        elif t == 'use':
            it = Item('use', text_of(toks, i, end + 1), first, end, kw, -1, attrs)
        else:
            it = Item('other', text_of(toks, i, min(end + 1, i + 12)), first, end, kw, body, attrs)
        if t in ('impl', 'trait', 'mod') and body >= 0:
            it.children = parse_items(toks, body + 1, end)
        items.append(it)
        i = end + 1
    return items

def norm_impl(toks, a, b):
    """'impl<'a> From<X> for Y<'a>' -> 'From<X> for Y' (lifetimes dropped)."""
    j = a + 1
    if toks[j].text == '<':
        depth = 0
        while True:
            if toks[j].text == '<': depth += 1
            elif toks[j].text == '>':
                depth -= 1
                if depth == 0: break
            elif toks[j].text == '>>':
                depth -= 2
                if depth <= 0: break
            j += 1
        j += 1
    out = []
    while j < b:
        t = toks[j]
        if t.text == 'where': break
        out.append(t)
        j += 1
    s = ' '.join(t.text for t in out if t.kind != 'lifetime')
    s = re.sub(r'\s*([<>,:&])\s*', r'\1', s)
    s = re.sub(r'<,+', '<', s)
    s = s.replace('<>', '').replace('>for ', '> for ')
    return s
