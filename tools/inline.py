"""Helper functions that the annotated copy does not know are expanded where they are called.

expand(src, known) -> (text, names): every call in `src` of a function that is declared in the
same file, is not generic, not recursive and not among `known` (keys "impl header::name") is
replaced by its body, with the parameters bound to the arguments. Only calls whose meaning this
keeps are touched; the rest stay calls of a function without a contract:
 - functions: `f(..)`, `Self::f(..)`, `T::f(..)` inside an impl of T; methods: `self.f(..)`;
 - arguments: `x` is put in place of a parameter that is not `mut`, `&x` and `&mut x` (x a path of
   fields) in place of a reference parameter; anything else is bound by `let p: T = arg;`;
 - bodies with `return` or `?`: only where the call is followed by `?` and every exit of that kind
   is an `Err` of the same type, or where the call is what the caller returns."""
import re
from rustlex import lex, parse_items, match_close, OPEN, CLOSE

def toks_of(src): return [t for t in lex(src) if t.kind != 'comment']

class Fn: pass

def split_args(T, a, b):
    """Argument ranges between the brackets (a, b exclusive)."""
    out, k, s, ang = [], a, a, 0
    while k < b:
        x = T[k].text
        if x in OPEN and T[k].kind == 'punct': k = match_close(T, k) + 1; continue
        if x == '|': return None
        if x == ',' and ang == 0: out.append((s, k)); s = k + 1
        k += 1
    if s < b: out.append((s, b))
    return out

def split_params(T, a, b):
    out, k, s, ang = [], a, a, 0
    while k < b:
        x = T[k].text
        if x in ('(', '['): k = match_close(T, k) + 1; continue
        if x == '<': ang += 1
        if x == '>': ang -= 1
        if x == '>>': ang -= 2
        if x == ',' and ang == 0: out.append((s, k)); s = k + 1
        k += 1
    if s < b: out.append((s, b))
    return out

def text(T, src, a, b): return src[T[a].start:T[b-1].end] if b > a else ''
def flat(T, a, b): return ' '.join(t.text for t in T[a:b])

def functions(items, owner=None):
    for it in items:
        if any('cfg ( test' in a or 'cfg ( all ( test' in a for a in it.attrs): continue
        if it.kind == 'fn' and it.body >= 0: yield owner, it
        elif it.kind == 'impl':
            for x in functions(it.children, it): yield x
        elif it.kind == 'mod' and it.body >= 0:
            for x in functions(it.children, owner): yield x

def keys(src):
    T = toks_of(src)
    out = {}
    for o, it in functions(parse_items(T, 0, len(T))):
        out['%s::%s' % (o.name if o else '', it.name)] = it
    return set(out)

def bodies(src):
    """Name -> the bodies (token texts) of the functions of that name."""
    T = toks_of(src)
    out = {}
    for o, it in functions(parse_items(T, 0, len(T))):
        out.setdefault(it.name, []).append(' '.join(t.text for t in T[it.body:it.last]))
    return out

def error_type(ret):
    m = re.match(r'(?:\w+ :: )*Result <(.*), ([^,]*) >$', ret)
    return m.group(2).strip() if m else None

def read_fn(T, src, owner, it):
    """A description of the function, or None if it is not simple enough."""
    f = Fn(); f.owner, f.it, f.name = owner, it, it.name
    k = it.kw + 2
    if T[k].text != '(': return None
    e = match_close(T, k)
    f.params, f.selfp = [], None
    for a, b in split_params(T, k + 1, e):
        ts = [t.text for t in T[a:b]]
        if ts in (['&', 'self'], ['&', 'mut', 'self']): f.selfp = ' '.join(ts); continue
        if ts[0] == '#' or "'" in ''.join(ts) or 'impl' in ts or 'dyn' in ts: return None
        mut = ts[0] == 'mut'
        if mut: a += 1
        if T[a].kind != 'ident' or T[a+1].text != ':': return None
        f.params.append((T[a].text, text(T, src, a + 2, b), mut))
    f.ret = ''
    if T[e+1].text == '->':
        f.ret = flat(T, e + 2, it.body)
        f.rettext = text(T, src, e + 2, it.body)
        if "'" in f.ret or 'where' in f.ret.split() or 'impl' in f.ret.split(): return None
    elif e + 1 != it.body: return None
    lo, hi = it.body + 1, it.last
    f.lo, f.hi = lo, hi
    body = T[lo:hi]
    f.idents = {t.text for t in body if t.kind == 'ident'}
    f.err_exits, f.returns, f.quest = True, False, False
    for i, t in enumerate(body):
        if t.kind == 'ident' and t.text == 'return':
            f.returns = True
            if [x.text for x in body[i+1:i+3]] != ['Err', '(']: f.err_exits = False
        if t.text == '?': f.quest = True
        if t.kind == 'ident' and t.text == 'fn': return None
        if t.kind == 'lifetime': return None
    # closures would change what `return` means
    if any(t.text in ('|', '||') and (i == 0 or body[i-1].text in ('(', ',', '=', 'move')) for i, t in enumerate(body)): return None
    # names bound in the body
    f.bound = set()
    for i, t in enumerate(body):
        if t.kind == 'ident' and t.text in ('let', 'for'):
            j = i + 1
            while j < len(body) and body[j].text not in ('=', 'in', ';'):
                if body[j].kind == 'ident': f.bound.add(body[j].text)
                j += 1
        if t.text == '=>':
            # back to the start of the arm; a guard binds nothing
            j, d = i - 1, 0
            names = set()
            while j >= 0:
                x = body[j].text
                if body[j].kind == 'punct' and x in (')', ']', '}'): d += 1
                elif body[j].kind == 'punct' and x in OPEN:
                    if d == 0: break
                    d -= 1
                elif x == ',' and d == 0: break
                elif x == 'if' and d == 0: names = set()
                elif body[j].kind == 'ident': names.add(x)
                if d == 1 and x == '}': break # the block of the arm before
                j -= 1
            f.bound |= names
    # the tail: what follows the last statement
    k, s = lo, lo
    while k < hi:
        x = T[k]
        if x.kind == 'punct' and x.text in OPEN:
            z = match_close(T, k)
            if x.text == '{' and (z + 1 < hi) and T[z+1].text not in ('.', '?', 'else', ')', ';', '==', '!=', '+', '-', '*', '/', '&&', '||', 'as', '<', '>', '|', '&', '^') and T[s].text in ('if', 'while', 'for', 'loop', 'match', '{'):
                s = z + 1
            k = z + 1
            continue
        if x.text == ';': s = k + 1
        k += 1
    f.tail = s
    return f

BLOCKY = ('if', 'match', 'while', 'for', 'loop', '{')

def one(src, known):
    """Expands one call; (new text, name) or None."""
    T = toks_of(src)
    items = parse_items(T, 0, len(T))
    fns = list(functions(items))
    helpers = {}
    for o, it in fns:
        key = '%s::%s' % (o.name if o else '', it.name)
        if key in known or (o is not None and ' for ' in o.name): continue
        f = read_fn(T, src, o, it)
        if f is None or it.name in f.idents: continue
        helpers.setdefault(it.name, []).append(f)
    helpers = {n: v[0] for n, v in helpers.items() if len(v) == 1}
    if not helpers: return None
    for o, it in fns:
        for k in range(it.body + 1, it.last):
            t = T[k]
            if t.kind != 'ident' or t.text not in helpers or T[k+1].text != '(': continue
            f = helpers[t.text]
            if f.it is it: continue
            p = T[k-1].text
            if p == '.':
                if f.selfp is None or T[k-2].text != 'self' or T[k-3].text == '.' or o is None or f.owner is None or f.owner.name != o.name: continue
                start = k - 2
            elif p == '::':
                if f.selfp or f.owner is None or T[k-3].text == '::' or o is None or f.owner.name != o.name: continue
                if T[k-2].text != 'Self' and T[k-2].text != o.name.split('<')[0]: continue
                start = k - 2
            else:
                if f.selfp or f.owner is not None: continue
                start = k
            r = site(src, T, it, f, start, k + 1)
            if r is not None: return r, f.name
    # helpers that nothing refers to any more
    for n, f in helpers.items():
        if any(t.kind == 'ident' and t.text == n and not (T[i-1].text == '.' and T[i+1].text != '(') for i, t in enumerate(T) if i != f.it.kw + 1): continue
        if T[f.it.kw - 1].text in ('pub', ')'): continue
        return src[:T[f.it.first].start] + src[T[f.it.last].end:], None
    return None

def place(T, a):
    m = [t.text for t in T[a[0]:a[1]]]
    return m and T[a[0]].kind == 'ident' and all((x == '.') == (i % 2 == 1) for i, x in enumerate(m)) and all(re.match(r'[A-Za-z_]\w*$', x) or x == '.' or x.isdigit() for x in m)

def site(src, T, it, f, start, par):
    close = match_close(T, par)
    args = split_args(T, par + 1, close)
    if args is None or len(args) != len(f.params): return None
    if any(x.text in ('{', '?', 'return') for x in T[par:close]): return None
    after = close + 1
    quest = T[after].text == '?'
    end = after + 1 if quest else after
    caller = None
    k = it.kw + 2
    while T[k].text != '(': k += 1
    e = match_close(T, k)
    cret = flat(T, e + 2, it.body) if T[e+1].text == '->' else ''
    is_ret = not quest and cret == f.ret and (T[start-1].text == 'return' or (T[end].text == '}' and end == it.last))
    errs = quest and error_type(f.ret) is not None and error_type(f.ret) == error_type(cret)
    if (f.returns or f.quest) and not is_ret and not (errs and f.err_exits): return None
    # bind the parameters
    lets, sub, used = [], {}, set()
    argids = set()
    for a in args: argids |= {x.text for x in T[a[0]:a[1]] if x.kind == 'ident'} - {'mut', 'self', 'as'}
    for (n, ty, mut), a in zip(f.params, args):
        ts = [x.text for x in T[a[0]:a[1]]]
        if ts == [n] and not mut: used.add(n); continue
        if not mut and len(ts) == 1 and place(T, a) and ts[0] not in f.bound and sum(x == ts[0] for b in args for x in [y.text for y in T[b[0]:b[1]]]) == 1:
            sub[n] = ('id', ts[0]); continue
        amp = 2 if ts[:2] == ['&', 'mut'] else 1 if ts[0] == '&' else 0
        if amp and not mut and ty.startswith('&') and place(T, (a[0] + amp, a[1])) and ts[amp] not in f.bound and n not in f.bound:
            sub[n] = ('ref', ''.join(ts[amp:]), ' '.join(ts[:amp])); continue
        lets.append((n, ty, mut, text(T, src, *a)))
    # a bound parameter must not capture a name of another argument
    names = [n for n, _, _, _ in lets]
    for i, (n, _, _, tx) in enumerate(lets):
        rest = set(re.findall(r'[A-Za-z_]\w*', ' '.join(x[3] for x in lets[i+1:]))) | {v[1].split('.')[0] for v in sub.values()} | used
        if n in rest: return None
    if any(n in f.bound for n in used | set(sub) | set(names)) and (sub or any(n in f.bound for n in used)): 
        if any(n in f.bound for n in sub): return None
    if argids & f.bound: return None
    def render(a, b):
        out, prev, i = [], None, a
        while i < b:
            t = T[i]
            if prev is not None: out.append(src[prev:t.start])
            prev = t.end
            field = i > f.lo and T[i-1].text == '.'
            if t.text == '*' and i + 1 < b and T[i+1].kind == 'ident' and T[i+1].text in sub and sub[T[i+1].text][0] == 'ref' and (T[i-1].text in OPEN or T[i-1].text in ('=', ';', '}', ',', '+', '-', '*', '/', '+=', '-=', '==', '<', '>', '<=', '>=', '&&', '||', '!', '&', '|', '=>', 'return', 'if', 'while', 'match', 'in', '<<', '>>', '..', 'let')):
                out.append(sub[T[i+1].text][1]); prev = T[i+1].end; i += 2
                continue
            if t.kind == 'ident' and t.text in sub and not field and not (i + 1 < b and T[i+1].text == '::'):
                s = sub[t.text]
                if s[0] == 'id': out.append(s[1])
                elif i + 1 < f.hi and T[i+1].text in ('.', '['): out.append(s[1])
                else: out.append(s[2] + ' ' + s[1])
            else: out.append(t.text)
            i += 1
        return re.sub(r'//[^\n]*|/\*.*?\*/', ' ', ''.join(out), flags=re.S) if '//' in ''.join(out) or '/*' in ''.join(out) else ''.join(out)
    stm, tail = render(f.lo, f.tail), render(f.tail, f.hi)
    if any(t.kind in ('str', 'char') and ('//' in t.text or '/*' in t.text) for t in T[f.lo:f.hi]): return None
    ls = ''.join('let %s%s: %s = %s; ' % ('mut ' if m else '', n, ty, tx) for n, ty, m, tx in lets)
    tt = [x.text for x in T[f.tail:f.hi]]
    unwrapped = False
    if quest and not is_ret and tt[:2] == ['Ok', '('] and match_close(T, f.tail + 1) == f.hi - 1:
        tail = render(f.tail + 2, f.hi - 1)
        tt = tt[2:-1]
        unwrapped = True
        if tail.strip() == '()' : tail, tt = '', []
    vty = f.ret and f.rettext
    if unwrapped:
        m = re.match(r'(?:\w+::)*Result<(.*),[^,]*>$', re.sub(r'\s*::\s*', '::', f.rettext.strip()))
        vty = m.group(1) if m and m.group(1).strip() != '()' else ''
        if m is None and tail: return None
    q = '?' if quest and not unwrapped else ''
    # names of the body that would be seen by the caller, and the other way round
    outer = {T[i].text for i in range(it.body, it.last) if T[i].kind == 'ident' and not start <= i < end and not T[i-1].text == '.'}
    clash = (f.bound | set(names)) & outer
    pre = T[start-1].text
    if not clash and pre in ('{', '}', ';') and T[end].text == ';' and (not tt or unwrapped or True):
        # a statement of its own
        body = ls + stm + (tail + q + ';' if tail.strip() and not (not q and tt and tt[-1] == '}') else tail)
        return src[:T[start].start] + body + src[T[end].end:]
    if clash and pre in ('{', '}', ';') and T[end].text == ';':
        # the same in a block of its own
        return src[:T[start].start] + ('; ' if pre == '}' else '') + '{ ' + ls + stm + (tail + q + ';' if tail.strip() else '') + ' }' + src[T[end].end:]
    if not clash and pre in ('{', '}', ';', 'return') and is_ret:
        s0 = start - 1 if pre == 'return' else start
        return src[:T[s0].start] + ls + stm + ('return ' if pre == 'return' else '') + tail + src[T[after - 1].end:]
    if not clash and pre in ('{', '}', ';') and T[end].text == '}' and not q:
        # the value of a block
        return src[:T[start].start] + ls + stm + tail + ' ' + src[T[end].start:]
    # the only argument of a method call that is a statement
    j = start - 2
    if not clash and pre == '(' and vty and T[end].text == ')' and T[j].kind == 'ident' and T[j-1].text == '.' and T[end+1].text in (';', '?', '}'):
        while T[j-1].text == '.' and T[j-2].kind == 'ident': j -= 2
        if T[j-1].text in ('{', '}', ';') and T[j].text not in f.idents - {'self'} - set(sub) and not any(v[0] == 'ref' and v[2] != '&' for v in sub.values()):
            n = 0
            while 'r%d_' % n in outer | f.idents: n += 1
            return src[:T[j].start] + ls + stm + 'let r%d_: %s = %s%s; ' % (n, vty if not q else '_', tail, q) + src[T[j].start:T[start].start] + 'r%d_' % n + src[T[end].start:]
    j = start - 1
    if not clash and pre == '=' and T[end].text == ';':
        while T[j].text not in ('let', ';', '{', '}'): j -= 1
        if T[j].text == 'let' and T[j-1].text in (';', '{', '}') and 'else' not in [x.text for x in T[j:start]]:
            head = src[T[j].start:T[start-1].start].rstrip()
            if ':' not in [x.text for x in T[j:start]] and vty and not q: head += ': ' + vty
            return src[:T[j].start] + ls + stm + head + ' = ' + tail + q + src[T[end-1].end:]
    if vty and not q: tail = 'let r_: %s = %s; r_' % (vty, tail)
    inner = '({ ' + ls + stm + tail + ' })' + q
    if not (ls or stm.strip()) and not vty: inner = '(' + tail + ')' + q
    return src[:T[start].start] + inner + src[T[end-1].end:]

def statements(T, lo, hi):
    """Ranges of the statements of a block, the last one being the tail (may be empty)."""
    out, k, s = [], lo, lo
    while k < hi:
        x = T[k]
        if x.kind == 'punct' and x.text in OPEN:
            z = match_close(T, k)
            k = z + 1
            if x.text == '{' and k < hi and T[s].text in BLOCKY and T[k].text not in ('.', '?', 'else', ';') and not (T[s].text == 'if' and T[k].text == '{'):
                if T[s].text == '{' or whole(T, s, k): out.append((s, k)); s = k
            continue
        k += 1
        if x.text == ';': out.append((s, k)); s = k
    out.append((s, hi))
    return out

def whole(T, s, e):
    """Whether s..e is one complete `if`, `match` or loop."""
    k = s + 1
    while True:
        while k < e and T[k].text != '{':
            if T[k].text in ('(', '['): k = match_close(T, k)
            k += 1
        if k >= e: return False
        k = match_close(T, k) + 1
        if k >= e: return k == e
        if T[k].text != 'else': return False

def branches(T, s, e):
    """[(block open, block close)] of an `if` chain and whether it ends in a plain `else`."""
    out, k, els = [], s, False
    while k < e:
        while T[k].text != '{':
            if T[k].text in ('(', '['): k = match_close(T, k)
            k += 1
        z = match_close(T, k)
        out.append((k, z))
        k = z + 1
        if k < e:
            els = T[k + 1].text != 'if'
    return out, els

def has_return(T, a, b): return any(t.kind == 'ident' and t.text == 'return' for t in T[a:b])

def diverges(T, lo, hi):
    st = [x for x in statements(T, lo, hi) if x[1] > x[0]]
    if not st: return False
    a, b = st[-1]
    if T[a].text == 'return': return True
    if T[a].text == 'if' and whole(T, a, b):
        bs, els = branches(T, a, b)
        return els and all(diverges(T, x + 1, y) for x, y in bs)
    return False

def value(T, src, lo, hi):
    """The block lo..hi, in tail position, without `return`; None if that cannot be written."""
    st = [x for x in statements(T, lo, hi) if x[1] > x[0]]
    out = ''
    for n, (a, b) in enumerate(st):
        tx = text(T, src, a, b)
        if not has_return(T, a, b): out += tx + ' '; continue
        last = n == len(st) - 1
        if T[a].text == 'return':
            if not last or has_return(T, a + 1, b): return None
            return out + text(T, src, a + 1, b - 1 if T[b-1].text == ';' else b)
        if T[a].text == 'if' and whole(T, a, b):
            bs, els = branches(T, a, b)
            if any(has_return(T, x, y) for x, y in zip([a] + [y for _, y in bs], [x for x, _ in bs])): return None
            if last and not (T[b-1].text == ';'):
                r, p = '', a
                for x, y in bs:
                    v = value(T, src, x + 1, y)
                    if v is None: return None
                    r += text(T, src, p, x) + ' { ' + v + ' } '
                    p = y + 1
                return out + r
            if not els and all(diverges(T, x + 1, y) for x, y in bs):
                r, p = '', a
                for x, y in bs:
                    v = value(T, src, x + 1, y)
                    if v is None: return None
                    r += text(T, src, p, x) + ' { ' + v + ' } '
                    p = y + 1
                v = value(T, src, b, hi)
                if v is None: return None
                return out + r + 'else { ' + v + ' }'
            return None
        if T[a].text == 'match' and last:
            k = a + 1
            while k < b and T[k].text != '{':
                if T[k].text in ('(', '['): k = match_close(T, k)
                k += 1
            if match_close(T, k) != b - 1: return None
            r, p, j = text(T, src, a, k + 1), k + 1, k + 1
            while j < b - 1:
                x = T[j].text
                if x in OPEN and T[j].kind == 'punct': j = match_close(T, j) + 1; continue
                if x != '=>': j += 1; continue
                r += ' ' + text(T, src, p, j + 1) + ' '
                e = j + 1
                if T[e].text == '{':
                    z = match_close(T, e)
                    v = value(T, src, e + 1, z)
                    if v is None: return None
                    r += '{ ' + v + ' }'
                    p = z + 1
                else:
                    z = e
                    while z < b - 1 and T[z].text != ',':
                        if T[z].kind == 'punct' and T[z].text in OPEN: z = match_close(T, z)
                        z += 1
                    if T[e].text == 'return': e += 1
                    if has_return(T, e, z): return None
                    r += text(T, src, e, z)
                    p = z
                j = p
            return out + r + ' ' + text(T, src, p, b)
        return None
    return out

def straighten(src, known):
    """One helper that leaves early is rewritten so that its value is that of its body."""
    T = toks_of(src)
    for o, it in functions(parse_items(T, 0, len(T))):
        key = '%s::%s' % (o.name if o else '', it.name)
        if key in known or not has_return(T, it.body, it.last) or read_fn(T, src, o, it) is None: continue
        if sum(t.kind == 'ident' and t.text == it.name for t in T) < 2: continue
        try: v = value(T, src, it.body + 1, it.last)
        except Exception: v = None
        if v is None or re.search(r'\breturn\b', v): continue
        return src[:T[it.body].end] + ' ' + v + ' ' + src[T[it.last].start:]
    return None

def expand(src, known):
    names, n = [], 0
    while n < 40:
        r = one(src, known)
        if r is None:
            src2 = straighten(src, known)
            if src2 is None: break
            src = src2
            continue
        src, name = r
        if name: names.append(name)
        n += 1
    return src, names
