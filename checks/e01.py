"""E01: generated Rust is compiled against cleartext stand-ins for the cryptographic library and run; results must be those of the module."""
import glob, hashlib, json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vt, build

LABELS = ['lib/Target/TfheRust:TfheRustEmitter', 'lib/Target/TfheRustBool:TfheRustBoolEmitter', 'lib/Target/TfheRustHL:TfheRustHLEmitter',
          'lib/Target/Metadata:MetadataEmitter', 'lib/Dialect/Preprocessing/IR:Dialect', 'lib/Dialect/KeyMgmt/IR:Dialect', 'lib/Analysis/Cpp:ConstQualifierAnalysis']
PRELUDE = '''#![allow(warnings)]
extern crate tfhe; extern crate rayon;
pub fn show<T: tfhe::Flat>(x: &T) -> Vec<String> { let mut o = Vec::new(); x.flat(&mut o); o }
pub fn call<F: FnOnce() -> Vec<String> + std::panic::UnwindSafe>(id: usize, k: usize, f: F) {
    match std::panic::catch_unwind(f) {
        Ok(v) => println!("R {} {} {}", id, k, v.join(" ")),
        Err(e) => { let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { String::new() }; println!("P {} {} {}", id, k, m.replace("\\n", " ")) }
    }
}
'''
KEYS = {'short': 'fn key(b: u32) -> ServerKey { ServerKey { bits: b } } fn sct(v: u64) -> Ciphertext { Ciphertext { v } }',
        'bool': 'fn key(b: u32) -> ServerKey { ServerKey { bits: b } } fn bct(v: bool) -> Ciphertext { Ciphertext { v } }',
        'packed': 'fn key(b: u32) -> ServerKeyEnum { ServerKeyEnum::TypeSW(tfhe::boolean::prelude::ServerKey { bits: b }) } fn bct(v: bool) -> Ciphertext { Ciphertext { v } }',
        'hl': 'fn key(b: u32) -> u32 { b }'}
KEYS['levels'] = KEYS['short']
# what a user of the packed interface supplies (taken from the repository's example, reduced to the part generated code calls)
ENUM = '''pub mod server_key_enum {
use tfhe::boolean::engine::fpga::{BelfortBooleanServerKey, Gate};
use tfhe::boolean::prelude::*;
pub enum ServerKeyEnum { TypeSW(ServerKey) }
pub trait ServerKeyTrait { fn packed_gates(&self, g: &Vec<Gate>, a: &Vec<&Ciphertext>, b: &Vec<&Ciphertext>) -> Vec<Ciphertext>; fn not(&self, c: &Ciphertext) -> Ciphertext; fn packed_not(&self, c: &Vec<&Ciphertext>) -> Vec<Ciphertext>; fn trivial_encrypt(&self, v: bool) -> Ciphertext; }
impl ServerKeyTrait for ServerKeyEnum {
  fn packed_gates(&self, g: &Vec<Gate>, a: &Vec<&Ciphertext>, b: &Vec<&Ciphertext>) -> Vec<Ciphertext> { match self { ServerKeyEnum::TypeSW(s) => s.packed_gates(g, a, b) } }
  fn not(&self, c: &Ciphertext) -> Ciphertext { match self { ServerKeyEnum::TypeSW(s) => s.not(c) } }
  fn packed_not(&self, c: &Vec<&Ciphertext>) -> Vec<Ciphertext> { match self { ServerKeyEnum::TypeSW(s) => s.packed_not(c) } }
  fn trivial_encrypt(&self, v: bool) -> Ciphertext { match self { ServerKeyEnum::TypeSW(s) => s.trivial_encrypt(v) } }
} }
'''


def rustc(args, cwd):
    return subprocess.run(['rustc', '--edition', '2021', '-Cdebuginfo=0', '-Cincremental=no', '-Awarnings'] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=600)


def batch(work, n, cases):
    """Compiles and runs some cases together; returns {id: ('ok', {k: ...}) | ('rejected', errors)}."""
    d = os.path.join(work, f'b{n}')
    os.makedirs(d)
    live, out = dict(cases), {}
    for i, c in live.items():
        open(f'{d}/c{i}.rs', 'w').write(c['rust'] + '\n' + KEYS[c['api']] + f"\npub fn run(id: usize) {{\n{c['driver']}}}\n")
    for attempt in range(6):
        if not live: return out
        open(f'{d}/main.rs', 'w').write(PRELUDE + ENUM + ''.join(f'mod c{i};\n' for i in live) + 'fn main() { std::panic::set_hook(Box::new(|_| {}));\n' + ''.join(f'c{i}::run({i});\n' for i in live) + '}\n')
        p = rustc(['--error-format=json', '-Cdebug-assertions=on', '-Coverflow-checks=on', '-L', work, '--extern', f'tfhe={work}/libtfhe.rlib', '--extern', f'rayon={work}/librayon.rlib', 'main.rs', '-o', 'main'], d)
        if p.returncode == 0: break
        bad = {}
        for l in p.stderr.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('level') != 'error' or not m.get('spans'): continue
            for s in m['spans']:
                f = re.match(r'c(\d+)\.rs$', os.path.basename(s['file_name']))
                if f and s['is_primary']: bad.setdefault(int(f[1]), []).append(((m.get('code') or {}).get('code') or 'syntax', m['message'], (s['text'] or [{}])[0].get('text', '').strip()))
        if not bad: raise RuntimeError('rustc failed: ' + p.stderr[-3000:])
        for i, e in bad.items():
            if i in live:
                out[i] = ('rejected', e)
                del live[i]
    else: raise RuntimeError('programs keep being rejected')
    p = subprocess.run([f'{d}/main'], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120)
    for i in live: out[i] = ('ok', {})
    for l in p.stdout.splitlines():
        w = l.split(' ')
        out[int(w[1])][1][int(w[2])] = (w[0], [x for x in w[3:] if x])
    shutil.rmtree(d)
    return out


def main(pid):
    res = vt.Result(pid)
    res.rule = 'a case is one module for one generator; distinct by its full text'
    try:
        B, secs = build.build('emit', 'native', {'emit.exe': (['harness/emit.cpp'], build.closure(*LABELS))}, san=True)
    except build.BuildError as e:
        print('error:', e); raise SystemExit(2)
    res.extra['build_s'] = round(secs, 1)
    work = os.path.join(B, 'rust-work')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + '/cases')
    for lib in ('tfhe', 'rayon'):
        p = rustc(['--crate-type', 'rlib', '-O', os.path.join(vt.VERIF, 'fw/rust', lib + '.rs'), '--crate-name', lib, '-o', f'{work}/lib{lib}.rlib'], work)
        if p.returncode: print('error: stand-in does not compile', p.stderr[-2000:]); raise SystemExit(2)
    vt.ENV['E01_OUT'] = work + '/cases'
    vt.run_monitor(res, B, 'emit.exe')
    cases = dict(enumerate(json.load(open(f)) for f in sorted(glob.glob(work + '/cases/*.json'))))
    ids = sorted(cases)
    for c in cases.values():
        for path, data in (c.get('resources') or {}).items(): open(os.path.join(work, path), 'wb').write(bytes.fromhex(data))
    groups = [{i: cases[i] for i in ids[k::max(1, len(ids) // 25)]} for k in range(max(1, len(ids) // 25))]
    results = {}
    with ThreadPoolExecutor(8) as pool:
        for r in pool.map(lambda a: batch(work, *a), enumerate(groups)): results.update(r)
    for i in ids:
        c = cases[i]
        desc = f"{c['family']}[{c['index']}] {c['mlir']}"
        st, data = results[i]
        if st == 'rejected':
            code, msg, line = data[0]
            res.ev('rejected_' + code)
            # names that are not declared, or declared twice, and text that is not Rust are never acceptable
            if c['tight'] or code in ('E0425', 'E0428', 'E0415', 'E0416', 'syntax'):
                res.fail(c.get('what') or f"rejected-{c['api']}-{code}", desc, f'the generated program is not accepted by the compiler: {code} {msg} | {line}')
            continue
        res.ev('compiled_' + c['api'])
        for k, want in enumerate(c['expect']):
            kind, got = data.get(k, ('X', []))
            res.ev('executions')
            if kind == 'P': res.fail(c.get('what') or f"panic-{c['api']}", desc, f"the generated program panics: {' '.join(got)}")
            elif kind != 'R' or len(got) != len(want) or any(w != '?' and w != g for w, g in zip(want, got)):
                res.fail(c.get('what') or f"wrong-{c['api']}", desc, f"call {k}: the module gives {' '.join(want)}, the generated program gives {' '.join(got) or 'nothing'}")
    shutil.rmtree(work, ignore_errors=True)
    res.finish()
