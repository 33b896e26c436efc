#!/usr/bin/env python3
"""samecode.py UNIT REPO WORK: is the verified text the code that runs?
The text given to the verifier is compiled (ghost code erased by Verus) and run beside the crate itself
on the same pseudo-random calls; what comes out has to be the same. Prints what differs, exit 1."""
import os, re, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PATHS = {
    'protos': ('use crate::httlib_protos::decoder::*; use crate::httlib_protos::encoder::*; use crate::httlib_protos::typ::*; use crate::httlib_protos::decoder::lit::*;', 'use httlib_protos::*;'),
    'huffman': ('use crate::httlib_huffman::*; use crate::httlib_huffman::decoder::*; use crate::httlib_huffman::encoder::*;', 'use httlib_huffman::*;'),
    'hpack': ('use crate::httlib_hpack::decoder::{Decoder, DecoderError}; use crate::httlib_hpack::encoder::*; use crate::httlib_hpack::table::Table;', 'use httlib_hpack::*; use httlib_hpack::table::Table;'),
}
TYPES = 'bool i32 i64 u32 u64 f32 f64'.split()

def driver(unit, verified):
    rd = lambda f: open(os.path.join(ROOT, 'samecode', f)).read()
    o = PATHS[unit][0 if verified else 1] + '\n' + rd('common.rs') + rd(unit + '.rs')
    if unit == 'huffman': o += rd('flatten.rs')
    if unit == 'protos':
        o += 'trait Conv { fn conv(l: DecoderLit) -> Self; }\n'
        if verified:
            for t in TYPES: o += 'impl Conv for %s { fn conv(l: DecoderLit) -> Self { from_%s(l) } }\nimpl Conv for Vec<%s> { fn conv(l: DecoderLit) -> Self { from_vec_%s(l) } }\n' % (t, t, t, t)
            o += 'impl Conv for Vec<u8> { fn conv(l: DecoderLit) -> Self { from_vec_u8(l) } }\nimpl Conv for String { fn conv(l: DecoderLit) -> Self { from_string(l) } }\n'
        else: o += 'impl<T: From<DecoderLit>> Conv for T { fn conv(l: DecoderLit) -> Self { l.into() } }\n'
    return o + 'pub fn run_all_() { quiet(); %s }\n' % {'protos': 'protos();', 'huffman': 'huffman(); flatten_parse();', 'hpack': 'hpack();'}[unit]

def run(cmd, cwd, env=None, secs=120):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def compare(unit, text, repo, work, target):
    """(state, what): state is 'same', 'differs' or 'unknown'."""
    d = os.path.join(work, 'same-' + unit)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/src')
    if unit == 'protos':    # Verus loses the discriminants of an enum when it erases
        m = re.search(r'pub enum Typ \{[^}]*\}', text)
        if not m: return 'unknown', 'no Typ'
        text = text.replace(m.group(0), re.sub(r'\s*=\s*[^,\n]*', '', m.group(0)))
        num = '(match typ { Typ::Varint => 0u32, Typ::Bit64 => 1u32, Typ::LengthDelimited => 2u32, Typ::Bit32 => 5u32, Typ::Unknown => 0xffff_ffffu32 })'
        if len(re.findall(r'\bTyp::\w+ as\b', text)): return 'unknown', 'a cast of Typ'
        text = re.sub(r'\btyp as u32\b', num, text)
        text = re.sub(r'\btyp as u64\b', num.replace('0xffff_ffffu32', '0xffff_ffff_ffff_ffffu64').replace('u32', 'u64'), text)
    i = text.rindex('fn main()')
    text = text[:i] + 'pub mod driver_ {\n#![allow(unused)]\n' + driver(unit, True) + '}\nfn main() { driver_::run_all_(); }\n'
    open(d + '/v.rs', 'w').write(text)
    open(d + '/src/main.rs', 'w').write('#![allow(unused)]\n' + driver(unit, False) + 'fn main() { run_all_(); }\n')
    open(d + '/Cargo.toml', 'w').write('[package]\nname = "same_%s"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nhttlib-%s = { path = "%s/%s" }\n%s[profile.dev]\nopt-level = 1\noverflow-checks = true\ndebug = 0\nincremental = false\n[workspace]\n' % (unit, unit, repo, unit, '[patch.crates-io]\nhttlib-huffman = { path = "%s/huffman" }\n' % repo if unit == 'hpack' else ''))
    c, o = run(['verus'] + (['--no-lifetime'] if unit == 'protos' else []) + ['--no-verify', '--compile', '-C', 'opt-level=1', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '-o', d + '/v', d + '/v.rs'], d)
    if c != 0 or not os.path.exists(d + '/v'): return 'unknown', 'the verified text does not compile: ' + o[max(o.find('\nerror'), 0):][:1500]
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    c, o = run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', d + '/Cargo.toml'], d, env)
    if c != 0: return 'unknown', 'the driver does not compile: ' + o[max(o.find('error'), 0):][:1500]
    a, b = run([d + '/v'], d), run([target + '/debug/same_' + unit], d)
    shutil.rmtree(d, ignore_errors=True)
    if a == b and a[0] == 0: return 'same', b[1].strip()
    return 'differs', 'verified text: %s\ncrate: %s' % (a, b)

if __name__ == '__main__':
    unit, repo, work = sys.argv[1:4]
    u = os.path.join(work, 'unit.rs')
    c, o = run([sys.executable, os.path.join(HERE, 'build_unit.py'), unit, u, repo], work)
    if c != 0: print(o); sys.exit(2)
    st, what = compare(unit, open(u).read(), repo, work, os.path.join(work, 'target'))
    print(st, what)
    sys.exit({'same': 0, 'differs': 1, 'unknown': 2}[st])
