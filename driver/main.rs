#![feature(rustc_private)]
extern crate rustc_public_bridge; use rustc_public_bridge::IndexedVal;
extern crate rustc_driver; extern crate rustc_interface; extern crate rustc_middle; extern crate serde_json; #[macro_use] extern crate rustc_public;
use rustc_public::*;
use rustc_public::ty::*;
use rustc_public::mir::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::alloc::*;
use rustc_public::mir::visit::*;
use std::ops::ControlFlow;
use std::collections::{HashMap,HashSet,VecDeque,BTreeMap};
use serde_json::{Value, Map};
use std::io::Write;

fn js<T: Into<Value>>(v: T) -> Value { v.into() }
fn num_of(v: Value) -> u64 { v.as_u64().unwrap() }

#[derive(Default)]
struct Col { tys: Vec<Ty>, spans: HashMap<u64, Span>, consts: Vec<ConstantKind> }
impl MirVisitor for Col {
    fn visit_ty(&mut self, ty: &Ty, _l: visit::Location) { self.tys.push(*ty); }
    fn visit_span(&mut self, s: &Span) { self.spans.insert(num_of(serde_json::to_value(s).unwrap()), *s); }
    fn visit_mir_const(&mut self, c: &MirConst, l: visit::Location) { self.tys.push(c.ty()); self.consts.push(c.kind().clone()); self.super_mir_const(c, l) }
}

/// Methods of iterators that standard types override with pointer loops; their default bodies, written with
/// `next` and `next_back`, mean the same and are what is analysed.
const PLAIN: [&str; 13] = ["fold", "rfold", "try_fold", "try_rfold", "for_each", "any", "all", "find", "find_map", "count", "last", "sum", "max"];
fn plain_body(d: FnDef, args: &GenericArgs) -> Option<Instance> {
    let n = d.name().to_string();
    let m = n.strip_prefix("std::iter::Iterator::").or_else(|| n.strip_prefix("std::iter::DoubleEndedIterator::"))?;
    if !PLAIN.contains(&m) { return None; }
    rustc_middle::ty::tls::with(|tcx| {
        let did = rustc_internal::internal(tcx, d.0);
        // promoted constants of the default body would be looked up in the overriding one
        if !tcx.defaultness(did).has_value() || !tcx.promoted_mir(did).is_empty() { return None; }
        let a = rustc_internal::internal(tcx, args.clone());
        Some(rustc_internal::stable(rustc_middle::ty::Instance::new_raw(did, a)))
    })
}
fn callee(d: FnDef, args: &GenericArgs) -> Result<Instance, rustc_public::Error> {
    match plain_body(d, args) { Some(i) => Ok(i), None => Instance::resolve(d, args) }
}

struct Ctx {
    ty_seen: HashSet<u64>, ty_q: VecDeque<Ty>, types: Map<String, Value>,
    inst_ids: HashMap<Instance, usize>, inst_q: VecDeque<Instance>,
    insts: Vec<Value>,
    spans: BTreeMap<u64, Value>,
    allocs: Map<String, Value>, alloc_seen: HashSet<u64>, alloc_q: VecDeque<AllocId>,
    local: String,
}
impl Ctx {
    fn ty(&mut self, t: Ty) -> u64 {
        let id = num_of(serde_json::to_value(t).unwrap());
        if self.ty_seen.insert(id) { self.ty_q.push_back(t); }
        id
    }
    fn inst(&mut self, i: Instance) -> usize {
        let n = self.inst_ids.len();
        let e = *self.inst_ids.entry(i).or_insert(n);
        if e == n { self.inst_q.push_back(i); }
        e
    }
    fn konst(&mut self, k: &ConstantKind) {
        if let ConstantKind::Allocated(a) = k { self.allocation(a); }
    }
    fn allocation(&mut self, a: &Allocation) {
        for (_, p) in a.provenance.ptrs.iter() {
            let id = num_of(serde_json::to_value(p.0).unwrap());
            if self.alloc_seen.insert(id) { self.alloc_q.push_back(p.0); }
        }
    }
    fn drain_allocs(&mut self) {
        while let Some(p) = self.alloc_q.pop_front() {
            let id = num_of(serde_json::to_value(p).unwrap());
            let v = match GlobalAlloc::from(p) {
                GlobalAlloc::Memory(m) => { self.allocation(&m); let mut o = Map::new(); o.insert("mem".into(), serde_json::to_value(&m).unwrap()); Value::Object(o) }
                GlobalAlloc::Function(i) => { let n = self.inst(i); let mut o = Map::new(); o.insert("fn".into(), js(n)); Value::Object(o) }
                GlobalAlloc::Static(s) => { let mut o = Map::new(); o.insert("static".into(), js(s.name().to_string())); let t = self.ty(s.ty()); o.insert("ty".into(), js(t)); o.insert("crate".into(), js(s.krate().name.to_string())); Value::Object(o) }
                _ => Value::Null,
            };
            self.allocs.insert(id.to_string(), v);
        }
    }
    fn drain_tys(&mut self) {
        while let Some(t) = self.ty_q.pop_front() {
            let id = num_of(serde_json::to_value(t).unwrap());
            let mut o = Map::new();
            let kind = t.kind();
            if let Ok(l) = t.layout() { let s = l.shape(); o.insert("size".into(), js(s.size.bytes() as u64)); o.insert("align".into(), js(s.abi_align)); if matches!(kind, TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Tuple(..)) | TyKind::RigidTy(RigidTy::Closure(..))) { o.insert("shape".into(), serde_json::to_value(&s).unwrap_or(Value::Null)); } }
            let mut sub: Vec<Ty> = vec![];
            if let TyKind::RigidTy(r) = &kind {
                match r {
                    RigidTy::Adt(def, args) => {
                        o.insert("k".into(), js("adt")); o.insert("name".into(), js(def.name().to_string()));
                        o.insert("ak".into(), js(format!("{:?}", def.kind())));
                        let mut vs = vec![];
                        for (i, v) in def.variants().iter().enumerate() {
                            let mut fo = Map::new();
                            fo.insert("name".into(), js(v.name().to_string()));
                            if def.kind() == AdtKind::Enum { fo.insert("discr".into(), js(def.discriminant_for_variant(VariantIdx::to_val(i)).val.to_string())); }
                            let mut fs = vec![];
                            for f in v.fields() { let ft = f.ty_with_args(args); sub.push(ft); let ti = self.ty(ft); fs.push(Value::Array(vec![js(f.name.to_string()), js(ti)])); }
                            fo.insert("fields".into(), Value::Array(fs));
                            vs.push(Value::Object(fo));
                        }
                        o.insert("variants".into(), Value::Array(vs));
                        let mut a = vec![];
                        for g in args.0.iter() { if let GenericArgKind::Type(t) = g { a.push(js(self.ty(*t))); } else { a.push(js(format!("{:?}", g))); } }
                        o.insert("args".into(), Value::Array(a));
                    }
                    RigidTy::Array(t, c) => { o.insert("k".into(), js("array")); o.insert("elem".into(), js(self.ty(*t))); o.insert("len".into(), match c.eval_target_usize() { Ok(n) => js(n), _ => Value::Null }); }
                    RigidTy::Slice(t) => { o.insert("k".into(), js("slice")); o.insert("elem".into(), js(self.ty(*t))); }
                    RigidTy::Ref(_, t, m) => { o.insert("k".into(), js("ref")); o.insert("to".into(), js(self.ty(*t))); o.insert("mut".into(), js(*m == Mutability::Mut)); }
                    RigidTy::RawPtr(t, m) => { o.insert("k".into(), js("ptr")); o.insert("to".into(), js(self.ty(*t))); o.insert("mut".into(), js(*m == Mutability::Mut)); }
                    RigidTy::Tuple(ts) => { o.insert("k".into(), js("tuple")); let v: Vec<Value> = ts.iter().map(|t| js(self.ty(*t))).collect(); o.insert("elems".into(), Value::Array(v)); }
                    RigidTy::FnDef(_, _) => {
                        o.insert("k".into(), js("fndef")); 
                        if let RigidTy::FnDef(d, a) = r { if let Ok(i) = Instance::resolve(*d, a) { o.insert("inst".into(), js(self.inst(i))); } o.insert("name".into(), js(d.name().to_string())); }
                    }
                    RigidTy::Closure(d, a) => {
                        o.insert("k".into(), js("closure")); o.insert("name".into(), js(d.name().to_string()));
                        let n = a.0.len();
                        if let GenericArgKind::Type(t) = &a.0[n-1] { o.insert("upvars".into(), js(self.ty(*t))); }
                        if d.krate().is_local { if let GenericArgKind::Type(t) = &a.0[n-1] { if let TyKind::RigidTy(RigidTy::Tuple(ref ts)) = t.kind() { if ts.is_empty() {
                            if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::Fn) { o.insert("fnptr".into(), js(self.inst(i))); }
                        } } } }
                        if let GenericArgKind::Type(t) = &a.0[n-3] { o.insert("ck".into(), js(format!("{}", t))); }
                    }
                    RigidTy::Int(i) => { o.insert("k".into(), js("int")); o.insert("n".into(), js(format!("{:?}", i))); }
                    RigidTy::Uint(i) => { o.insert("k".into(), js("uint")); o.insert("n".into(), js(format!("{:?}", i))); }
                    RigidTy::Float(i) => { o.insert("k".into(), js("float")); o.insert("n".into(), js(format!("{:?}", i))); }
                    RigidTy::Bool => { o.insert("k".into(), js("bool")); }
                    RigidTy::Char => { o.insert("k".into(), js("char")); }
                    RigidTy::Str => { o.insert("k".into(), js("str")); }
                    RigidTy::Never => { o.insert("k".into(), js("never")); }
                    RigidTy::FnPtr(_) => { o.insert("k".into(), js("fnptr")); }
                    RigidTy::Dynamic(..) => { o.insert("k".into(), js("dyn")); }
                    other => { o.insert("k".into(), js("other")); o.insert("d".into(), js(format!("{:?}", other))); }
                }
            }
            o.insert("s".into(), js(format!("{}", t)));
            self.types.insert(id.to_string(), Value::Object(o));
        }
    }
    fn do_inst(&mut self, i: Instance) -> Value {
        let mut o = Map::new();
        o.insert("name".into(), js(i.name().to_string()));
        let def: CrateDefProxy = CrateDefProxy(i.def);
        o.insert("path".into(), js(def.0.name().to_string()));
        let kr = def.0.krate().name.to_string();
        o.insert("crate".into(), js(kr.clone()));
        o.insert("kind".into(), js(format!("{:?}", i.kind)));
        let islocal = kr == self.local || kr == "rtforth";
        o.insert("ty".into(), js(self.ty(i.ty())));
        let mut a = vec![];
        for g in i.args().0.iter() { if let GenericArgKind::Type(t) = g { a.push(js(self.ty(*t))); } }
        o.insert("targs".into(), Value::Array(a));
        if let Some(n) = i.intrinsic_name() { o.insert("intrinsic".into(), js(n.to_string())); }
        if i.is_empty_shim() { o.insert("empty".into(), js(true)); return Value::Object(o); }
        let body = if i.has_body() || !matches!(i.kind, InstanceKind::Item) { i.body() } else { None };
        if let Some(b) = body {
            let mut col = Col::default();
            col.visit_body(&b);
            for t in col.tys { self.ty(t); }
            for l in b.locals() { self.ty(l.ty); }
            for (k, s) in col.spans {
                if islocal && !self.spans.contains_key(&k) { let l = s.get_lines(); self.spans.insert(k, Value::Array(vec![js(s.get_filename().to_string()), js(l.start_line), js(l.start_col), js(l.end_line)])); }
            }
            for c in &col.consts { self.konst(c); }
            let locals = b.locals().to_vec();
            let mut calls = Map::new();
            for (bi, blk) in b.blocks.iter().enumerate() {
                match &blk.terminator.kind {
                    TerminatorKind::Call { func, .. } => {
                        if let Ok(t) = func.ty(&locals) {
                            if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = t.kind() {
                                match callee(d, &args) { Ok(ci) => { let n = self.inst(ci); calls.insert(bi.to_string(), js(n)); } Err(_) => { calls.insert(bi.to_string(), js(format!("unresolved {}", d.name()))); } }
                            }
                        }
                    }
                    TerminatorKind::Drop { place, .. } => {
                        if let Ok(t) = place.ty(&locals) { let ci = Instance::resolve_drop_in_place(t); if !ci.is_empty_shim() { let n = self.inst(ci); calls.insert(bi.to_string(), js(n)); } }
                    }
                    _ => {}
                }
                for st in &blk.statements {
                    if let StatementKind::Assign(_, Rvalue::Cast(k, op, t)) = &st.kind {
                        let _ = t;
                        match k {
                            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                                if let Ok(ft) = op.ty(&locals) { if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = ft.kind() { if let Ok(ci) = Instance::resolve_for_fn_ptr(d, &args) { self.inst(ci); } } }
                            }
                            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                                if let Ok(ft) = op.ty(&locals) { if let TyKind::RigidTy(RigidTy::Closure(d, args)) = ft.kind() { if let Ok(ci) = Instance::resolve_closure(d, &args, ClosureKind::Fn) { self.inst(ci); } } }
                            }
                            _ => {}
                        }
                    }
                }
            }
            o.insert("calls".into(), Value::Object(calls));
            o.insert("body".into(), serde_json::to_value(&b).unwrap());
        }
        Value::Object(o)
    }
}
struct CrateDefProxy(InstanceDef);

fn work(out: &str) {
    let mut cx = Ctx { ty_seen: Default::default(), ty_q: Default::default(), types: Map::new(), inst_ids: Default::default(), inst_q: Default::default(), insts: vec![], spans: Default::default(), allocs: Map::new(), alloc_seen: Default::default(), alloc_q: Default::default(), local: local_crate().name.to_string() };
    let mut roots = vec![];
    for it in all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) { continue; }
        if let Ok(i) = Instance::try_from(it) { if !it.requires_monomorphization() { roots.push(js(cx.inst(i))); } }
    }
    // trait default methods for every local type implementing a trait
    let mut timpls = vec![];
    for im in local_crate().trait_impls() {
        let tr = im.trait_impl().value;
        let selfty = tr.self_ty();
        let tname = tr.def_id.name().to_string();
        let mut ms = vec![];
        let is_plain = matches!(selfty.kind(), TyKind::RigidTy(RigidTy::Adt(_, ref a)) if a.0.is_empty());
        if is_plain && tr.args().0.len() == 1 {
            for ai in tr.def_id.associated_items() {
                if let AssocKind::Fn { name, .. } = &ai.kind {
                    let fd = FnDef(ai.def_id.def_id());
                    let ng = fd.ty().kind();
                    if let TyKind::RigidTy(RigidTy::FnDef(_, ga)) = &ng {
                        let types = ga.0.iter().filter(|g| matches!(g, GenericArgKind::Type(_))).count();
                        if types == 1 {
                            // build args: self type + erased regions
                            let args = GenericArgs(ga.0.iter().map(|g| match g { GenericArgKind::Type(_) => GenericArgKind::Type(selfty), o => o.clone() }).collect());
                            if let Ok(i) = Instance::resolve(fd, &args) { let n = cx.inst(i); ms.push(Value::Array(vec![js(name.to_string()), js(n)])); }
                        }
                    }
                }
            }
        }
        let mut o = Map::new();
        o.insert("trait".into(), js(tname)); o.insert("self".into(), js(cx.ty(selfty))); o.insert("methods".into(), Value::Array(ms));
        timpls.push(Value::Object(o));
    }
    loop {
        cx.drain_tys(); cx.drain_allocs();
        if let Some(i) = cx.inst_q.pop_front() { let v = cx.do_inst(i); cx.insts.push(v); } else if cx.ty_q.is_empty() && cx.alloc_q.is_empty() { break; }
    }
    let mut top = Map::new();
    top.insert("crate".into(), js(cx.local.clone()));
    top.insert("roots".into(), Value::Array(roots)); top.insert("trait_impls".into(), Value::Array(timpls));
    top.insert("types".into(), Value::Object(cx.types)); top.insert("insts".into(), Value::Array(cx.insts));
    top.insert("spans".into(), Value::Object(cx.spans.into_iter().map(|(k, v)| (k.to_string(), v)).collect()));
    top.insert("allocs".into(), Value::Object(cx.allocs));
    let mut f = std::fs::File::create(out).unwrap();
    f.write_all(serde_json::to_string(&Value::Object(top)).unwrap().as_bytes()).unwrap();
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let dir = std::env::var("RTF_DUMP_DIR").unwrap_or_default();
    let cn = args.iter().position(|a| a == "--crate-name").map(|p| args[p + 1].clone()).unwrap_or_default();
    let kind = args.iter().position(|a| a == "--crate-type").map(|p| args[p + 1].clone()).unwrap_or_default();
    for a in ["-Zmir-opt-level=0", "-Cdebug-assertions=no", "-Coverflow-checks=yes", "-Zalways-encode-mir"] { args.push(a.into()); }
    if dir.is_empty() || cn.is_empty() || cn == "___" {
        use std::os::unix::process::CommandExt;
        let orig: Vec<String> = std::env::args().collect();
        let _ = std::process::Command::new(&orig[1]).args(&orig[2..]).exec();
        std::process::exit(3);
    }
    let out = format!("{}/{}.{}.json", dir, cn, kind);
    let r = run!(&args, || -> ControlFlow<()> { work(&out); ControlFlow::Continue(()) });
    match r { Ok(_) => {}, Err(e) => { eprintln!("{:?}", e); std::process::exit(1) } }
}
