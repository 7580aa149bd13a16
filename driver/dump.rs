// Compiler wrapper used by every check in /verif: behaves exactly like rustc, and additionally,
// for the crate named in $VDUMP_CRATE, writes the monomorphic MIR of everything reachable from
// that crate's functions (with resolved callees, type layouts, evaluated constants, source
// positions and codegen attributes) to $VDUMP_OUT as JSON.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate serde_json;

use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{Body, CastKind, PointerCoercion, Rvalue, TerminatorKind};
use rustc_public::ty::{
    Allocation, ClosureKind, ConstantKind, GenericArgKind, MirConst, RigidTy, Span, Ty, TyKind,
};
use rustc_public::CrateItem;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

fn num(v: Value) -> u64 {
    match v {
        Value::Number(n) => n.as_u64().unwrap(),
        Value::Array(a) => num(a[0].clone()),
        Value::Object(o) => num(o.values().next().unwrap().clone()),
        _ => panic!("no number: {:?}", v),
    }
}
fn tid(t: Ty) -> u64 {
    num(serde_json::to_value(t).unwrap())
}
fn sid(s: Span) -> u64 {
    num(serde_json::to_value(s).unwrap())
}
fn aid(a: AllocId) -> u64 {
    num(serde_json::to_value(a).unwrap())
}

struct Ctx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    types: BTreeMap<u64, Value>,
    tqueue: VecDeque<Ty>,
    tseen: HashSet<u64>,
    allocs: BTreeMap<u64, Value>,
    aqueue: VecDeque<AllocId>,
    aseen: HashSet<u64>,
    spans: HashMap<u64, Value>,
    fns: Map<String, Value>,
}

struct V<'a, 'tcx> {
    c: &'a mut Ctx<'tcx>,
}

impl<'a, 'tcx> MirVisitor for V<'a, 'tcx> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.c.ty(*ty);
        self.super_ty(ty);
    }
    fn visit_mir_const(&mut self, k: &MirConst, l: Location) {
        self.c.ty(k.ty());
        if let ConstantKind::Allocated(a) = k.kind() {
            self.c.alloc_refs(a);
        }
        self.super_mir_const(k, l);
    }
    fn visit_span(&mut self, s: &Span) {
        self.c.span(*s);
        self.super_span(s);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        if let Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)), op, _) = r {
            let _ = op;
        }
        self.super_rvalue(r, l);
    }
}

fn did_of<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>, i: &Instance) -> rustc_hir::def_id::DefId {
    let _ = tcx;
    rustc_public::rustc_internal::internal(tcx, i.def.def_id())
}

impl<'tcx> Ctx<'tcx> {
    fn ty(&mut self, t: Ty) {
        if self.tseen.insert(tid(t)) {
            self.tqueue.push_back(t);
        }
    }
    fn span(&mut self, s: Span) {
        let id = sid(s);
        if !self.spans.contains_key(&id) {
            let l = s.get_lines();
            self.spans.insert(
                id,
                json!(format!("{}:{}:{}", s.get_filename(), l.start_line, l.start_col)),
            );
        }
    }
    fn alloc_refs(&mut self, a: &Allocation) {
        for (_, p) in a.provenance.ptrs.iter() {
            let id = p.0;
            if self.aseen.insert(aid(id)) {
                self.aqueue.push_back(id);
            }
        }
    }
    fn inst(&mut self, i: Instance) -> String {
        let name = i.mangled_name();
        if self.seen.insert(name.clone()) {
            self.queue.push_back(i);
        }
        name
    }
    fn do_alloc(&mut self, id: AllocId) {
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => {
                self.alloc_refs(&a);
                json!({"memory": a})
            }
            GlobalAlloc::Static(s) => {
                let ty = s.ty();
                self.ty(ty);
                match s.eval_initializer() {
                    Ok(a) => {
                        self.alloc_refs(&a);
                        json!({"static": s.name(), "ty": tid(ty), "init": a})
                    }
                    Err(_) => json!({"static": s.name(), "ty": tid(ty)}),
                }
            }
            GlobalAlloc::Function(i) => json!({"fn": self.inst(i)}),
            g @ GlobalAlloc::VTable(..) => {
                let b = g.vtable_allocation();
                if let Some(b) = b {
                    if self.aseen.insert(aid(b)) {
                        self.aqueue.push_back(b);
                    }
                    json!({"vtable": aid(b)})
                } else {
                    json!({"vtable": null})
                }
            }
            GlobalAlloc::TypeId { ty } => json!({"typeid": tid(ty)}),
        };
        self.allocs.insert(aid(id), v);
    }
    fn do_ty(&mut self, t: Ty) {
        let mut o = Map::new();
        o.insert("s".into(), json!(format!("{}", t)));
        let k = t.kind();
        if let Ok(l) = t.layout() {
            o.insert("layout".into(), json!(serde_json::to_string(&l.shape()).unwrap()));
        }
        if let TyKind::RigidTy(r) = &k {
            let kind = match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","n":format!("{:?}",i)}),
                RigidTy::Uint(i) => json!({"k":"uint","n":format!("{:?}",i)}),
                RigidTy::Float(i) => json!({"k":"float","n":format!("{:?}",i)}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Array(e, n) => {
                    self.ty(*e);
                    json!({"k":"array","e":tid(*e),"n":n.eval_target_usize().ok()})
                }
                RigidTy::Slice(e) => {
                    self.ty(*e);
                    json!({"k":"slice","e":tid(*e)})
                }
                RigidTy::RawPtr(e, m) => {
                    self.ty(*e);
                    json!({"k":"ptr","e":tid(*e),"mut":format!("{:?}",m)=="Mut"})
                }
                RigidTy::Ref(_, e, m) => {
                    self.ty(*e);
                    json!({"k":"ref","e":tid(*e),"mut":format!("{:?}",m)=="Mut"})
                }
                RigidTy::Tuple(v) => {
                    for e in v {
                        self.ty(*e);
                    }
                    json!({"k":"tuple","f":v.iter().map(|e| tid(*e)).collect::<Vec<_>>()})
                }
                RigidTy::FnDef(d, a) => {
                    let mut v = json!({"k":"fndef","name":d.name()});
                    match Instance::resolve(*d, a) {
                        Ok(i) => {
                            let s = self.inst(i);
                            v["inst"] = json!(s);
                            v["ik"] = json!(format!("{:?}", i.kind));
                        }
                        Err(_) => {}
                    }
                    v
                }
                RigidTy::Closure(d, a) => {
                    let mut fs = vec![];
                    // upvar types: last generic arg is the tuple of upvars
                    if let Some(GenericArgKind::Type(t)) = a.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(v)) = t.kind() {
                            for e in &v {
                                self.ty(*e);
                                fs.push(tid(*e));
                            }
                        }
                    }
                    let mut v = json!({"k":"closure","name":d.name(),"f":fs});
                    for (n, ck) in [("once", ClosureKind::FnOnce)] {
                        if let Ok(i) = Instance::resolve_closure(*d, a, ck) {
                            v[n] = json!(self.inst(i));
                        }
                    }
                    v
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                RigidTy::Foreign(_) => json!({"k":"foreign"}),
                RigidTy::Adt(d, a) => {
                    let mut vs = vec![];
                    for (vi, v) in d.variants_iter().enumerate() {
                        let fs: Vec<Value> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(a);
                                self.ty(ft);
                                json!([f.name, tid(ft)])
                            })
                            .collect();
                        let mut vo = json!({"name": v.name(), "f": fs});
                        if d.kind() == rustc_public::ty::AdtKind::Enum {
                            let dd = d.discriminant_for_variant(rustc_public::ty::VariantIdx::to_val(vi));
                            vo["d"] = json!(format!("{}", dd.val));
                        }
                        vs.push(vo);
                    }
                    for x in a.0.iter() {
                        if let GenericArgKind::Type(t) = x {
                            self.ty(*t);
                        }
                    }
                    let args: Vec<Value> = a
                        .0
                        .iter()
                        .map(|x| match x {
                            GenericArgKind::Type(t) => json!(tid(*t)),
                            GenericArgKind::Const(c) => json!({"c": c.eval_target_usize().ok()}),
                            _ => json!(null),
                        })
                        .collect();
                    json!({"k":"adt","name":d.name(),"adt":format!("{:?}",d.kind()),"v":vs,"args":args,
                           "krate": d.krate().name})
                }
                other => json!({"k":"other","s":format!("{:?}",other)}),
            };
            o.insert("kind".into(), kind);
        } else {
            o.insert("kind".into(), json!({"k":"nonrigid"}));
        }
        // drop glue
        let needs_drop = {
            let di = Instance::resolve_drop_in_place(t);
            if di.is_empty_shim() {
                None
            } else {
                Some(di)
            }
        };
        if let Some(d) = needs_drop {
            // only resolved lazily by Drop terminators
            o.insert("drop".into(), json!(d.mangled_name()));
        }
        self.types.insert(tid(t), Value::Object(o));
    }
    fn do_inst(&mut self, i: Instance) {
        let name = i.mangled_name();
        let mut o = Map::new();
        o.insert("name".into(), json!(i.name()));
        o.insert("kind".into(), json!(format!("{:?}", i.kind)));
        let def = i.def;
        o.insert("krate".into(), json!(def.krate().name));
        o.insert("def".into(), json!(def.name()));
        let sp = def.span();
        self.span(sp);
        o.insert("span".into(), json!(sid(sp)));
        o.insert("ty".into(), json!(tid(i.ty())));
        self.ty(i.ty());
        let did = rustc_public::rustc_internal::internal(self.tcx, def.def_id());
        if matches!(self.tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure) {
            let at = self.tcx.codegen_fn_attrs(did);
            let tf: Vec<String> = at.target_features.iter().map(|f| f.name.to_string()).collect();
            o.insert("target_features".into(), json!(tf));
            o.insert("link_name".into(), json!(at.symbol_name.map(|s| s.to_string())));
        }
        match i.kind {
            InstanceKind::Intrinsic => {
                o.insert("intrinsic".into(), json!(i.intrinsic_name()));
            }
            InstanceKind::Virtual { idx } => {
                o.insert("virtual".into(), json!(idx));
            }
            _ => {}
        }
        let ga = i.args();
        let args: Vec<Value> = ga
            .0
            .iter()
            .map(|x| match x {
                GenericArgKind::Type(t) => {
                    self.ty(*t);
                    json!(tid(*t))
                }
                GenericArgKind::Const(c) => json!({"c": c.eval_target_usize().ok(), "s": format!("{:?}", c)}),
                _ => json!(null),
            })
            .collect();
        o.insert("args".into(), json!(args));
        let llvm = self.tcx.codegen_fn_attrs(did_of(self.tcx, &i)).symbol_name.map_or(false, |n| n.as_str().starts_with("llvm."));
        let abi = if llvm {
            None
        } else {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.fn_abi().ok())).unwrap_or(None)
        };
        if let Some(abi) = abi {
            o.insert("abi_args".into(), json!(abi.args.iter().map(|a| tid(a.ty)).collect::<Vec<_>>()));
            for a in abi.args.iter() {
                self.ty(a.ty);
            }
            self.ty(abi.ret.ty);
            o.insert("abi_ret".into(), json!(tid(abi.ret.ty)));
        }
        let wanted = match std::env::var("VDUMP_BODIES") {
            Ok(l) => l.split(',').any(|c| c == def.krate().name.as_str()),
            Err(_) => true,
        };
        let body = if llvm || !wanted || matches!(i.kind, InstanceKind::Virtual { .. }) { None } else { i.body() };
        if let Some(b) = body {
            self.scan(&b);
            o.insert("body".into(), json!(serde_json::to_string(&b).unwrap()));
        }
        self.fns.insert(name, Value::Object(o));
    }
    fn scan(&mut self, b: &Body) {
        for l in b.locals() {
            self.ty(l.ty);
        }
        for bb in &b.blocks {
            if let TerminatorKind::Drop { place, .. } = &bb.terminator.kind {
                if let Ok(t) = place.ty(b.locals()) {
                    let di = Instance::resolve_drop_in_place(t);
                    if !di.is_empty_shim() {
                        self.inst(di);
                    }
                }
            }
            for st in &bb.statements {
                if let rustc_public::mir::StatementKind::Assign(_, Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)), _, _)) = &st.kind {
                }
            }
        }
        V { c: self }.visit_body(b);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: rustc_middle::ty::TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let want = std::env::var("VDUMP_CRATE").unwrap_or_default();
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if want != krate {
            return rustc_driver::Compilation::Continue;
        }
        let out = std::env::var("VDUMP_OUT").unwrap();
        rustc_public::rustc_internal::run(tcx, || {
            let mut c = Ctx {
                tcx,
                queue: VecDeque::new(),
                seen: HashSet::new(),
                types: BTreeMap::new(),
                tqueue: VecDeque::new(),
                tseen: HashSet::new(),
                allocs: BTreeMap::new(),
                aqueue: VecDeque::new(),
                aseen: HashSet::new(),
                spans: HashMap::new(),
                fns: Map::new(),
            };
            let mut roots = vec![];
            for it in rustc_public::all_local_items() {
                if it.requires_monomorphization() {
                    continue;
                }
                if let Ok(i) = Instance::try_from(it) {
                    if matches!(it.kind(), rustc_public::ItemKind::Fn) {
                        let n = c.inst(i);
                        roots.push(json!([it.name(), n]));
                    }
                }
            }
            loop {
                if let Some(i) = c.queue.pop_front() {
                    c.do_inst(i);
                } else if let Some(a) = c.aqueue.pop_front() {
                    c.do_alloc(a);
                } else if let Some(t) = c.tqueue.pop_front() {
                    c.do_ty(t);
                } else {
                    break;
                }
            }
            let spans: Map<String, Value> =
                c.spans.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            let types: Map<String, Value> =
                c.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            let allocs: Map<String, Value> =
                c.allocs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            let doc = json!({"roots": roots, "fns": c.fns, "types": types, "allocs": allocs, "spans": spans});
            std::fs::write(&out, serde_json::to_vec(&doc).unwrap()).unwrap();
        })
        .unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
