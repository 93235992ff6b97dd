#![allow(dead_code, unused_imports, unused_macros)]
mod vm;
use rtforth::core::Core;
use rtforth::output::Output;
use rtforth::loader::HasLoader;
use rtforth::file_access::FileAccess;
use vm::VM;

fn ev(vm: &mut VM, src: &str) -> isize {
    vm.set_source(src);
    vm.evaluate_input();
    match vm.last_error() { Some(e) => isize::from(e), None => 0 }
}
fn stack(vm: &mut VM) -> Vec<isize> {
    let n = vm.s_stack().len();
    (0..n).map(|i| vm.s_stack()[i]).collect()
}
fn out(vm: &mut VM) -> String {
    match vm.output_buffer() { Some(b) => { let s = b.clone(); b.clear(); s } None => "<none>".into() }
}
fn fail(what: &str) -> ! { eprintln!("WRONG: {}", what); std::process::exit(1) }
fn check(src: &str, want: &[isize], err: isize) {
    let mut vm = VM::new(100);
    let e = ev(&mut vm, src);
    let s = stack(&mut vm);
    if e != err || s != want { fail(&format!("`{}` gives {:?} error {}, expected {:?} error {}", src, s, e, want, err)); }
}

fn main() {
check("-9223372036854775808 1 min", &[isize::min_value()], 0);
}
