"""check.py <property> <quick|thorough>: decides one property for /repo's current tree.

1. The functions of the property are extracted from /repo with their contracts, and
   Verus has to discharge every obligation of them and of the lemmas that state the
   property over the contracts. 2. An independent reference is compared with the real
   code on generated inputs: briefly when the proof went through (it also tries what the
   proof assumes), at length when it did not, to find an input that shows the violation.
exit 0: held; exit 1: VIOLATION line."""
import json, os, re, signal, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
import build_unit, dictionary, samecode, hints
from extract import fn_lines
from props import PROPS

T0 = time.time()
def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

VERUS = {'protos': ['--no-lifetime'], 'huffman': [], 'hpack': []}

PROOF_BUDGET = 460     # seconds for all runs of the verifier together: a check has to give an answer

def run_verus(path, unit, extra=(), limit=240, multiple='3'):
    cmd = ['verus'] + VERUS[unit] + ['--output-json', '--time-expanded', '--multiple-errors', multiple, '--num-threads', '8', *extra, path, '--', '--error-format=json']
    limit = max(20, min(limit, int(PROOF_BUDGET - (time.time() - T0))))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(path), start_new_session=True)
    try:
        so, se = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate()
        return cmd, None, [], 'the verifier did not finish within %d s' % limit
    try: out = json.loads(so.decode('utf-8', 'replace'))
    except Exception: out = None
    errs = []
    for l in se.decode('utf-8', 'replace').split('\n'):
        try: d = json.loads(l)
        except Exception: continue
        if d.get('level') == 'error' and d.get('spans'): errs.append(d)
    return cmd, out, errs, se.decode('utf-8', 'replace')

class Proof:
    def __init__(self):
        self.status = 'lost'      # proved | failed | lost
        self.reasons = []         # why it is not proved, in words
        self.failed = []          # named obligations
        self.semantic = False
        self.cone, self.lemmas, self.all_fns = [], [], []
        self.opaque = {}
        self.solver_ms = 0; self.total_verified = 0; self.cmd = ''
        self.trusted = []
        self.output = ''
        self.rewrites = {}
        self.vacuity = None
        self.text = ''            # what the verifier was given

def locate(err, lines):
    """The extracted function (or None) an error is about, and the line."""
    spans = sorted(err['spans'], key=lambda s: not s['is_primary'])
    cands = [s for s in spans if (s.get('label') or '') in ('at this exit', 'at this call-site', 'at the end of the function body')] + \
            [s for s in spans if 'failed precondition' not in (s.get('label') or '')] + spans
    for s in cands:
        n = s['line_start']
        best = None
        for a, b, p in lines:
            if a <= n <= b and (best is None or a >= best[0]): best = (a, b, p)
        if best: return best[2], n
    return None, (cands[0]['line_start'] if cands else 0)

def lemma_at(text_lines, n):
    for i in range(min(n, len(text_lines)) - 1, -1, -1):
        m = re.search(r'\bproof fn (\w+)', text_lines[i])
        if m: return m.group(1)
        if re.search(r'/\*#[FE]', text_lines[i]): return None
    return None

# lemmas about the numbers in the tables of the source
TABLES = r'thm_table\d|lemma_rows|lemma_root|lemma_keys|lemma_table|thm_enc_table|thm_\w+_flags'
TRUST = re.compile(r'(?:broadcast )?axiom fn (\w+)|assume_specification(?:<[^\[]*>)?\s*\[ (.*?) \]|#\[verifier::external_body\]\s*\n\s*(?:pub )?(fn|struct) (\w+)')

def prove(prop, spec, work, vacuity=True):
    pr = Proof()
    unit = spec['unit']
    path = os.path.join(work, unit + '.rs')
    opaque = {}
    cone_re = [re.compile(x) for x in spec['cone']]
    in_cone = lambda p: any(r.fullmatch(p) for r in cone_re)
    extra = []
    for attempt in range(9):
        if attempt and time.time() - T0 > PROOF_BUDGET - 20:
            pr.reasons.append('no time left for the proof')
            return pr
        try:
            text, exs = build_unit.build(unit, REPO, opaque=opaque)
        except Exception as e:
            pr.reasons.append('extraction failed: %s: %s' % (type(e).__name__, e))
            return pr
        open(path, 'w').write(text)
        tl = text.split('\n')
        lines = fn_lines(text, None)
        fns = {}
        for e in exs:
            for k, v in e.fns.items(): fns[k] = v
        cmd, out, errs, raw = run_verus(path, unit, extra)
        pr.cmd = ' '.join(cmd).replace(work, '<work>')
        vr = (out or {}).get('verification-results')
        done = vr is not None and not vr.get('encountered-vir-error') and out.get('times-ms', {}).get('smt') and (vr['verified'] or vr['errors'])
        if done and any('Resource limit' in e['message'] or 'rlimit' in e['message'] for e in errs) and not extra:
            extra = ['--rlimit', '60']
            log('resource limit reached; again with more')
            continue
        if done: break
        progress = False
        computed = [lemma_at(tl, sorted(e['spans'], key=lambda s: not s['is_primary'])[0]['line_start']) for e in errs if 'expression simplifies to false' in e['message']]
        if computed and all(computed) and len(computed) == len(errs) and not hints.UNREAD:
            # a lemma that is decided by evaluation is false; nothing else is looked at then
            mine = [l for l in computed if not re.match(TABLES, l) or re.match(spec.get('tables') or '$', l)]
            pr.failed = ['lemma ' + l for l in mine]
            pr.reasons = ['lemma %s does not hold for the current source' % l for l in mine] or ['lemmas of other properties fail (%s), the rest was not looked at' % ', '.join(sorted(set(computed)))]
            pr.status = 'failed' if mine else 'lost'
            pr.semantic = bool(mine)
            pr.cone = sorted(p for p in fns if in_cone(p) and fns[p].contract)
            pr.output = '\n'.join(e.get('rendered', e['message']) for e in errs)[:12000]
            return pr
        for e in errs:
            p, n = locate(e, lines)
            if p and opaque.get(p, 0) < 2:
                opaque[p] = opaque.get(p, 0) + 1
                progress = True
                log('not in reach of the verifier: %s (%s)' % (p, e['message'].split('\n')[0][:120]))
                pr.reasons.append('%s is not in reach of the verifier: %s' % (p, e['message'].split('\n')[0][:200]))
                if len(opaque) > 0 and not errs[1:]: break
        if not progress:
            pr.reasons.append('the contracts do not fit the current source: ' + '; '.join(e['message'].split('\n')[0][:200] for e in errs[:3]) + ('' if errs else raw[-300:]))
            pr.output = raw[-4000:]
            return pr
    else:
        pr.reasons.append('too many functions out of reach')
        return pr
    pr.opaque = opaque
    pr.text = text
    pr.total_verified = vr['verified']
    bd = [f for m in out['times-ms']['smt']['smt-run-module-times'] for f in m['function-breakdown']]
    pr.solver_ms = sum(f['time'] for f in bd)
    pr.lemmas = sorted({f['function'].split('::')[-1] for f in bd if re.match(r'\w+::(spec|hspec|pspec|hints|fspec|tspec|flags)::', f['function'])})
    pr.cone = sorted(p for p in fns if in_cone(p) and fns[p].contract)
    pr.all_fns = sorted(fns)
    for e in exs:
        for k, v in e.rewrites_used.items(): pr.rewrites[k] = pr.rewrites.get(k, 0) + v
    for m in TRUST.finditer(text):
        pr.trusted.append(m.group(1) or m.group(2) or m.group(4))
    if re.search(r'\b(assume|admit)\s*\(', text): pr.reasons.append('the input of the verifier holds an assume')
    # which functions failed
    failed = {}
    failed_lemmas = set()
    for e in errs:
        p, n = locate(e, lines)
        what = e['message'].split('\n')[0]
        sp = [s for s in e['spans'] if s['is_primary']] or e['spans']
        src = (sp[0]['text'][0]['text'].strip() if sp[0].get('text') else '')[:160]
        if p: failed.setdefault(p, []).append('%s: %s' % (what, src))
        else:
            l = lemma_at(tl, n)
            failed_lemmas.add(l or '?')
            pr.output += ''
    for f in bd:
        if not f['success'] and re.match(r'\w+::(spec|hspec|pspec|hints|fspec|tspec|flags)::', f['function']): failed_lemmas.add(f['function'].split('::')[-1])
    nfail = len([f for f in bd if not f['success']])
    new = {f.name for e in exs for f in e.fns.values() if not f.contract and f.path not in BASE(unit)}
    new |= {fns[p].name for p in opaque if p in fns and opaque[p] == 2}
    # helpers whose every call was expanded, and other functions that nothing calls
    idle = {p for p, f in fns.items() if not f.contract and p not in BASE(unit) and ' for ' not in p and not any(f.name in g.calls for q, g in fns.items() if q != p)}
    bad = False
    for p in sorted(failed):
        if p in idle: continue
        if not in_cone(p) and not (p in fns and fns[p].name in new and any(in_cone(q) and fns[q].name != fns[p].name and fns[p].name in fns[q].calls for q in fns)): continue
        f = fns[p]
        bad = True
        structural = bool(f.lost) or f.loops_moved or f.inlined or f.closures or f.name in new or bool(f.calls & new)
        pr.failed += ['%s: %s' % (p, x) for x in failed[p]]
        if all('Resource limit' in x for x in failed[p]) and p in fns and fns[p].changed:
            pr.reasons.append('the verifier did not come to an end with %s (%s)' % (p, failed[p][0][:120]))
        elif fns[p].changed and all(re.search(r'vec_with_capacity|vec_of\(|v_reserve|v_resize', x) for x in failed[p]):
            # a capacity taken from the length of the input cannot be bounded here; the search has to tell
            pr.reasons.append('the memory that %s asks for is not shown to be bounded (%s)' % (p, failed[p][0][:120]))
        elif structural: pr.reasons.append('%s was restructured, its annotations no longer fit (%s)' % (p, failed[p][0][:120]))
        else:
            pr.semantic = True
            pr.reasons.append('%s no longer meets its contract: %s' % (p, failed[p][0]))
    deps = set(spec['theorems'])
    tabs = {l for l in failed_lemmas if re.match(TABLES, l)}
    others = failed_lemmas - deps - tabs        # lemmas that everything may rest on
    fl = (failed_lemmas & deps) | others | {l for l in tabs if re.match(spec.get('tables') or '$', l)}
    for l in sorted(fl):
        bad = True
        pr.failed.append('lemma ' + l)
        if l in tabs and hints.UNREAD:
            pr.reasons.append('%s could not be read, so lemma %s is not proved' % (', '.join(hints.UNREAD), l))
        else:
            pr.semantic = True
            pr.reasons.append('lemma %s does not hold for the current source' % l)
    if nfail and not failed and not failed_lemmas:
        bad = True
        pr.reasons.append('%d obligations failed that could not be attributed' % nfail)
    for p in opaque:
        if in_cone(p) and p not in idle: bad = True
    missing = [m for e in exs for m in e.missing if in_cone(m)]
    if missing:
        bad = True
        pr.reasons.append('functions under contract are gone: ' + ', '.join(missing))
    uncovered = [p for p in fns if in_cone(p) and not fns[p].contract and p not in BASE(unit) and p not in idle]
    if uncovered and not pr.failed:
        log('new functions without a contract:', uncovered)
    # vacuity: with assert(false) at its start every function under contract must fail
    if vacuity and not bad:
        vt, vex = build_unit.build(unit, REPO, opaque=opaque, vacuity=True)
        vp = os.path.join(work, unit + '_vacuity.rs')
        open(vp, 'w').write(vt)
        vl = fn_lines(vt, None)
        _, vo, ve, _ = run_verus(vp, unit, spec.get('vac_args') or [], multiple='0')
        hit = set()
        for e in ve:
            for s in e['spans']:
                if '/*#V#*/' in vt.split('\n')[s['line_start'] - 1]:
                    p, _ = locate({'spans': [dict(s, label='')]}, vl)
                    if p: hit.add(p)
        vac = [p for p in pr.cone if p not in hit]
        pr.vacuity = (len(pr.cone) - len(vac), len(pr.cone))
        if vac:
            bad = True
            pr.reasons.append('contracts that can never apply, or could not be checked for that: ' + ', '.join(vac[:5]))
    if not pr.cone or not set(spec['theorems']) <= set(pr.lemmas):
        bad = True
        pr.reasons.append('obligations are missing: %s' % (sorted(set(spec['theorems']) - set(pr.lemmas)) or 'no function'))
    pr.output = '\n'.join(e.get('rendered', e['message']) for e in errs)[:12000]
    pr.status = 'failed' if pr.semantic else 'lost' if bad else 'proved'
    return pr

_base = {}
def BASE(unit):
    """Paths of the functions of the annotated copies."""
    if unit not in _base:
        from rustlex import lex, parse_items
        out = set()
        for d, _, _ in build_unit.UNITS[unit]:
            root = os.path.join(build_unit.CONTRACTS, d, 'src')
            for r, _, fs in os.walk(root):
                for f in fs:
                    if not f.endswith('.rs'): continue
                    mods = [x for x in os.path.relpath(os.path.join(r, f), root)[:-3].split('/') if x not in ('mod', 'lib')]
                    toks = [t for t in lex(open(os.path.join(r, f)).read()) if t.kind != 'comment']
                    def walk(its, path):
                        for it in its:
                            if it.kind == 'fn': out.add('::'.join(path + [it.name]))
                            walk(it.children, path + [it.name])
                    walk(parse_items(toks, 0, len(toks)), mods)
        _base[unit] = out
    return _base[unit]

def build_refuter(work):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, 'work', 'target'), CARGO_NET_OFFLINE='true')
    src = os.path.join(ROOT, 'refute')
    if REPO != '/repo':     # only for trying things out
        dst = os.path.join(work, 'refute')
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns('target'))
        p = os.path.join(dst, 'Cargo.toml')
        t = open(p).read().replace('/repo/', REPO + '/')
        open(p, 'w').write(t)
        src = dst
        env['CARGO_TARGET_DIR'] = os.path.join(work, 'target')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(src, 'Cargo.toml')], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    b = os.path.join(env['CARGO_TARGET_DIR'], 'debug', 'refute')
    if p.returncode != 0:
        o = p.stdout.decode('utf-8', 'replace')
        return None, o[max(o.find('\nerror'), 0):][:2000]
    return b, ''

def compare_assumptions(binary):
    """What contracts/lib says of the standard library, compared with it (refute/src/trust.rs)."""
    try: o = subprocess.run([binary, 'trust'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60).stdout.decode('utf-8', 'replace').strip()
    except subprocess.TimeoutExpired: return (0, '')
    m = re.match(r'ASSUMED (\d+)', o)
    return (int(m.group(1)), '') if m else (0, o[:300] or 'no answer')

class Search:
    def __init__(self): self.random = self.small = self.distinct = 0; self.small_state = ''; self.samples = []; self.found = None; self.ok = False; self.note = ''

def search(binary, prop, spec, seed, secs, work, replay):
    s = Search()
    d = os.path.join(work, 'dictionary.txt')
    try: dictionary.write(REPO, spec['crates'], d)
    except Exception as e: open(d, 'w').close()
    if os.path.exists(replay): os.remove(replay)
    cmd = 'ulimit -v 16000000; exec "$0" run %s %d %s "%s" "%s"' % (prop, seed, secs, d, replay)
    try:
        p = subprocess.run(['bash', '-c', cmd, binary], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 90)
    except subprocess.TimeoutExpired:
        s.note = 'the search did not end'
        return s
    o = p.stdout.decode('utf-8', 'replace')
    for l in o.split('\n'):
        w = l.split(' ')
        if w[0] == 'RANDOM': s.random = int(w[1])
        if w[0] == 'SMALL': s.small = int(w[1]); s.small_state = w[2]
        if w[0] == 'DISTINCT': s.distinct = int(w[1])
        if w[0] == 'SAMPLE': s.samples.append(l[7:])
        if w[0] == 'FOUND': s.found = l[6:]
    s.ok = p.returncode in (0, 1)
    if p.returncode not in (0, 1):
        # a crash (abort, stack overflow, memory) of the code under test is a failing run as well
        e = p.stderr.decode('utf-8', 'replace')[-500:]
        s.note = 'ended with %s: %s' % (p.returncode, e)
        if p.returncode < 0 or p.returncode in (134, 139):
            s.found = 'the process died with signal %s: %s' % (-p.returncode, e.strip())
            open(replay, 'w').write('property %s\nwhat fails: %s\nseed %d, %s s\n' % (prop, s.found, seed, secs))
    if s.found and os.path.exists(replay):
        dd = replay[:-4] + '.dict'
        shutil.copy(d, dd)
        open(replay, 'a').write('dictionary %s\n' % dd)
    return s

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[prop]
    work = os.path.join(ROOT, 'work', prop if REPO == '/repo' else prop + '-' + REPO.strip('/').replace('/', '_'))
    os.makedirs(work, exist_ok=True)
    for d in ('replays', 'evidence'): os.makedirs(os.path.join(ROOT, d), exist_ok=True)
    replay = os.path.join(ROOT, 'replays', prop + '.txt')
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        if l.startswith('open: property=%s ' % prop): print('KNOWN-FINDING: ' + l[6:].strip())
    import threading
    built = {}
    th = threading.Thread(target=lambda: built.update(r=build_refuter(work)))
    th.start()
    pr = prove(prop, spec, work)
    log('proof:', pr.status, '; '.join(pr.reasons)[:600])
    th.join()
    binary, msg = built['r']
    assumed = compare_assumptions(binary) if binary else (0, '')
    if assumed[1] and pr.status == 'proved':    # then the proof means nothing here
        pr.status = 'lost'
        pr.reasons.append('the standard library is not what the proof assumes: ' + assumed[1])
    same = ('not run', '')
    if pr.status == 'proved':
        try: same = samecode.compare(spec['unit'], pr.text, REPO, work, os.path.join(work if REPO != '/repo' else os.path.join(ROOT, 'work'), 'target'))
        except Exception as e: same = ('unknown', repr(e))
        log('verified text and crate, run side by side: %s %s' % (same[0], same[1][:300]))
        if same[0] == 'differs':
            pr.status = 'lost'
            pr.reasons.append('the verified text, compiled, does not behave like the crate: ' + same[1][:400])
    if pr.status == 'proved': secs = 5 if tier == 'quick' else 120
    else: secs = 75 if tier == 'quick' else 420
    if binary: s = search(binary, prop, spec, seed, secs, work, replay)
    else:
        s = Search(); s.note = 'the search could not be built: ' + msg
    log('search: %d random, %d small (%s)%s %s' % (s.random, s.small, s.small_state, ', FOUND: ' + s.found if s.found else '', s.note[:300]))
    violation = None
    if s.found: violation = 'VIOLATION property=%s replay=%s' % (prop, replay)
    elif pr.status == 'failed':
        with open(replay, 'w') as o:
            o.write('property %s\nno failing input was found (%d random and %d enumerated inputs tried)\nfailed obligations:\n' % (prop, s.random, s.small))
            for x in pr.failed: o.write('  %s\n' % x)
            o.write('verifier: %s\noutput of the verifier:\n%s\n' % (pr.cmd, pr.output))
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)
    trusted = sorted(set(pr.trusted))
    cov = {
        'obligations': len(pr.cone) + len(pr.lemmas),
        'discharged': len(pr.cone) + len(pr.lemmas) - len({x.split(': ')[0] for x in pr.failed}) - len([p for p in pr.opaque if p in pr.cone]),
        'checker_cmd': pr.cmd or 'verus',
        'trusted_base': ['verus 0.2026.09.13 (vstd, its z3, rustc front end)', 'the extraction in /verif/tools/extract.py (rewrites used: %s)' % pr.rewrites] + ['assumed: ' + t for t in trusted],
        'assumed_contracts_compared_with_the_standard_library': assumed[0],
        'verified_text_compiled_and_run_beside_the_crate': '%s: %s' % (same[0], same[1][:600]),
        'functions_under_contract': pr.cone, 'lemmas': pr.lemmas, 'theorems_stating_the_property': spec['theorems'],
        'verified_by_verus_in_unit': pr.total_verified, 'back_end': 'Verus, Z3', 'solver_time_ms': pr.solver_ms,
        'vacuity': 'with assert(false) at its start, %d of %d functions under contract fail as they must' % pr.vacuity if pr.vacuity else 'not run',
        'proof_status': pr.status, 'why_not_proved': pr.reasons, 'failed_obligations': pr.failed,
        'not_seen_by_the_verifier': {k: ('contract assumed' if v == 1 else 'no contract') for k, v in pr.opaque.items()},
        'evaluations': s.random + s.small, 'distinct_nontrivial': s.distinct,
        'rule': 'inputs drawn from seed %d for %s s, plus %d cases of the depth-first enumeration of small inputs (%s); distinct: different sequences of more than two choices' % (seed, secs, s.small, s.small_state or 'none'),
        'samples': s.samples[:5] or ['none'],
        'explanation': 'proof by contracts, then a comparison of the running code with an independent reference' if pr.status == 'proved' else 'the proof did not go through on this tree; what is reported is the bounded search only',
    }
    level = 'proof' if pr.status == 'proved' else 'exploration'
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUME + spec.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if violation else 0}
    if REPO == '/repo' or os.environ.get('VERIF_EVIDENCE'):
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for d in (work,):
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(d, ignore_errors=True)
    if violation:
        for x in pr.failed[:6]: print('  failed obligation:', x)
        if s.found: print('  failing input:', s.found)
        print(violation)
        sys.exit(1)
    if pr.status == 'proved': print('%s: %d obligations discharged (%d functions, %d lemmas); %d inputs tried' % (prop, cov['discharged'], len(pr.cone), len(pr.lemmas), cov['evaluations']))
    else: print('%s: not proved on this tree (bounded only): %s; %d inputs tried, none fails' % (prop, '; '.join(pr.reasons)[:300], cov['evaluations']))
    sys.exit(0)

ASSUME = ['usize has 64 bits', 'memory allocation does not fail', 'callers are safe Rust code']
if __name__ == '__main__':
    main()
