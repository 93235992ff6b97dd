"""Development tool: build and confirm a planted bug.  usage: seedtool.py FILE.py [id ...]
FILE.py defines SEEDS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks)}."""
import json
import os
import shutil
import subprocess
import sys

VERIF = '/verif'
ENV = dict(os.environ, PATH='/root/.cargo/bin:/usr/local/cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu',
           CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')

DEMO_SH = '''#!/bin/bash
# run with cwd = the rtforth tree; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" "$w/scratch"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/examples/vm.rs" "$w/src/vm.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
rtforth = { path = "$repo" }
hibitset = { version = "0.6.3", default-features = false }
EOF
CARGO_TARGET_DIR="$w/target" cargo build --offline -q --manifest-path "$w/Cargo.toml" || exit 3
cd "$w/scratch" && timeout 60 "$w/target/debug/demo"
'''

PRELUDE = r'''#![allow(dead_code, unused_imports, unused_macros)]
mod vm;
use rtforth::core::Core;
use rtforth::output::Output;
use rtforth::loader::HasLoader;
use rtforth::file_access::FileAccess;
use vm::VM;

fn ev(vm: &mut VM, src: &str) -> isize {
    vm.set_source(src);
    vm.evaluate_input();
    match vm.last_error() { Some(e) => isize::from(e), None => 0 }
}
fn stack(vm: &mut VM) -> Vec<isize> {
    let n = vm.s_stack().len();
    (0..n).map(|i| vm.s_stack()[i]).collect()
}
fn out(vm: &mut VM) -> String {
    match vm.output_buffer() { Some(b) => { let s = b.clone(); b.clear(); s } None => "<none>".into() }
}
fn fail(what: &str) -> ! { eprintln!("WRONG: {}", what); std::process::exit(1) }
fn check(src: &str, want: &[isize], err: isize) {
    let mut vm = VM::new(100);
    let e = ev(&mut vm, src);
    let s = stack(&mut vm);
    if e != err || s != want { fail(&format!("`{}` gives {:?} error {}, expected {:?} error {}", src, s, e, want, err)); }
}
'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def one(sid, d):
    w = '/tmp/seedw/' + sid
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/seedw', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    sh(['git', 'checkout', '-q', '--', '.'], w)
    sd = os.path.join(VERIF, 'seeded', sid)
    shutil.rmtree(sd, ignore_errors=True)
    os.makedirs(sd)
    open(sd + '/demo.sh', 'w').write(d.get('demo_sh') or DEMO_SH)
    os.chmod(sd + '/demo.sh', 0o755)
    if 'demo' in d:
        open(sd + '/demo.rs', 'w').write(PRELUDE + '\nfn main() {\n' + d['demo'] + '\n}\n')
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(sd + '/meta.json', 'w'), indent=1)
    ok = True
    r = sh(['bash', sd + '/demo.sh'], w)
    if r.returncode != 0:
        print(sid, 'DEMO FAILS UNCHANGED', r.stdout[-1500:])
        ok = False
    for f, old, new in d['edits']:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(sid, 'EDIT matches %d times: %r' % (s.count(old), old))
            ok = False
        open(p, 'w').write(s.replace(old, new))
    if not ok:
        shutil.rmtree(w, ignore_errors=True)
        return False
    patch = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True).stdout
    open(sd + '/patch.diff', 'w').write(patch)
    r = sh(['bash', sd + '/demo.sh'], w)
    if r.returncode == 0:
        print(sid, 'DEMO DOES NOT FAIL WITH PATCH', r.stdout[-500:])
        ok = False
    elif r.returncode == 3 or 'WRONG' not in r.stdout:
        print(sid, 'demo status', r.returncode, r.stdout[-900:])
    r = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '8'], w)
    failed = [l for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('FAILED') and ' (line ' not in l]
    if failed or 'error: could not compile' in r.stdout or 'test result: ok. 1' not in r.stdout:
        print(sid, 'TESTS', failed[:5], r.stdout[-600:] if not failed else '')
        ok = False
    shutil.rmtree(w, ignore_errors=True)
    print(sid, 'CONFIRMED' if ok else 'REJECTED', flush=True)
    return ok


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[2:] or list(ns['SEEDS'])
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: one(i, ns['SEEDS'][i]), ids))
