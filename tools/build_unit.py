"""Generates the Verus input of a unit: build_unit(unit, repo) -> (text, extractors)"""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import hints
from extract import Extractor, fn_lines
CONTRACTS = os.path.join(os.path.dirname(HERE), 'contracts')
UNITS = {
    'protos': [('protos', 'httlib_protos', {'slice_iter': True, 'free_from': r'From<(DecoderLit|EncoderLit)> for'})],
    'huffman': [('huffman', 'httlib_huffman', {'opaque_consts': True, 'slice_iter': True})],
    'hpack': [('huffman', 'httlib_huffman', {'skip': ('parser', 'flattener'), 'opaque_consts': True}), ('hpack', 'httlib_hpack', {'crates': ('httlib_huffman',), 'statics': True, 'preludes': ['#[allow(unused_imports)] use crate::pspec::*;', '#[allow(unused_imports)] use crate::statics::*;', '#[allow(unused_imports)] use vstd::std_specs::convert::{IntoSpec, FromSpec};']})],
}
HEAD = '''#![verifier::allow_complex_invariants]
#![verifier::loop_isolation(false)]
#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, dead_code, unused_parens, unused_braces, unused_mut, non_snake_case, unused_assignments)]
use vstd::prelude::*;
'''
def byte_seq(s): return 'seq![%s]' % ', '.join('%du8' % c for c in s.encode()) if s else 'Seq::<u8>::empty()'
def statics_module():
    """The static table of RFC 7541 Appendix A, from contracts/hpack/rfc_static.txt."""
    rows = [l.rstrip('\n').split('|') for l in open(os.path.join(CONTRACTS, 'hpack', 'rfc_static.txt'))]
    arms = ' '.join('%sif i == %d { (%s, %s) }' % ('else ' if i else '', i, byte_seq(n), byte_seq(v)) for i, (n, v) in enumerate(rows))
    return 'pub mod statics {\nuse vstd::prelude::*;\nverus! {\n#[verifier::opaque]\npub open spec fn rfc_static(i: int) -> (Seq<u8>, Seq<u8>) { %s else { (Seq::empty(), Seq::empty()) } }\n' % arms + \
        'pub open spec fn is_static(s: Seq<(&[u8], &[u8])>) -> bool { s.len() == %d && forall|i: int| 0 <= i < %d ==> (#[trigger] s[i]).0@ == rfc_static(i).0 && s[i].1@ == rfc_static(i).1 }\n}\n}\n' % (len(rows), len(rows))
def more_specs(trust, code):
    """trust.rs with those contracts of contracts/lib/more.rs that the code may need."""
    for block in open(os.path.join(CONTRACTS, 'lib', 'more.rs')).read().split('//? ')[1:]:
        use, spec = block.split('\n', 1)
        if re.search(use, code) and spec not in trust: trust = trust.replace('// ---- text', spec + '// ---- text', 1)
    return trust
# The flags by their public names, as the documentation of the crate has them.
FLAGS = {'Encoder': {'HUFFMAN_NAME': 1, 'HUFFMAN_VALUE': 2, 'WITH_INDEXING': 4, 'NEVER_INDEXED': 8, 'BEST_FORMAT': 16}, 'Decoder': {'WITH_INDEXING': 4, 'NEVER_INDEXED': 8}}
def flags_module(consts):
    """The named flags of hpack as specification functions, and the lemma that they are the bits the specification speaks of."""
    out = []
    for t, names in FLAGS.items():
        if not all((t, n) in consts for n in names): continue
        for n in names: out.append('pub open spec fn %s_%s() -> u8 { %s }' % (t.lower(), n, consts[t, n]))
        out.append('pub proof fn thm_%s_flags() ensures %s {}' % (t.lower(), ', '.join('%s_%s() == %du8' % (t.lower(), n, v) for n, v in names.items())))
    return 'pub mod flags {\nuse vstd::prelude::*;\nverus! {\n' + '\n'.join(out) + '\n}\n}\n'
def build(unit, repo='/repo', **more):
    out, ex = [HEAD], []
    out.append(open(os.path.join(CONTRACTS, 'lib', 'trust.rs')).read())
    if unit == 'hpack': out += [open(os.path.join(CONTRACTS, 'huffman', 'spec.rs')).read(), statics_module()]
    out.append(open(os.path.join(CONTRACTS, unit, 'spec.rs')).read())
    if unit == 'huffman': out += [open(os.path.join(CONTRACTS, 'huffman', f)).read() for f in ('flat.rs', 'text.rs')]
    if unit != 'protos': out.append(hints.module(repo))
    for d, name, opts in UNITS[unit]:
        e = Extractor(os.path.join(repo, d, 'src'), os.path.join(CONTRACTS, d, 'src'), name, dict(opts, **more))
        code = e.run()
        out.append('verus! {\n' + code + '\n} // verus!\n')
        out[1] = more_specs(out[1], code)
        ex.append(e)
    if unit == 'hpack': out.append(flags_module(ex[-1].consts))
    out.append('fn main() {}\n')
    return '\n'.join(out), ex
if __name__ == '__main__':
    repo = sys.argv[3] if len(sys.argv) > 3 else '/repo'
    t, ex = build(sys.argv[1], repo)
    open(sys.argv[2], 'w').write(t)
    for e in ex:
        print(e.crate, 'fns', len(e.fns), 'missing', e.missing, 'rewrites', e.rewrites_used)
        for f in e.fns.values():
            if f.changed: print('  changed', f.path, 'lost', len(f.lost), f.renamed)
