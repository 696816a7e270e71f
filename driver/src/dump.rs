use rustc_ast::attr::AttributeExt as _;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write;

pub enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
use J::*;

fn s(x: impl ToString) -> J {
    S(x.to_string())
}
fn n(x: impl ToString) -> J {
    N(x.to_string())
}

impl J {
    fn write(&self, o: &mut String) {
        match self {
            Null => o.push_str("null"),
            B(b) => o.push_str(if *b { "true" } else { "false" }),
            N(x) => o.push_str(x),
            S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    fns: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    fn_out: Vec<Option<J>>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_list: Vec<Ty<'tcx>>,
    vtables: Vec<J>,
    vt_seen: HashMap<(Ty<'tcx>, Ty<'tcx>), ()>,
}

// External functions whose bodies are never walked: the analyser models them by path.
const STOP: &[&str] = &[
    "core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::rt", "std::io", "alloc::alloc", "std::alloc",
    "alloc::raw_vec", "core::str", "std::str", "alloc::str", "alloc::string", "std::string", "alloc::vec",
    "std::vec", "core::unicode", "core::ptr", "std::ptr", "core::alloc", "core::slice::sort", "core::slice::memchr",
    "std::boxed", "alloc::boxed", "std::thread", "std::sync", "std::sys", "core::num::flt2dec", "core::hash",
    "std::hash", "std::collections", "alloc::collections", "core::ub_checks", "std::env", "std::fs", "std::time",
    "std::process", "core::error", "std::error", "core::any", "std::any", "core::char::convert",
];

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        fns: HashMap::new(),
        queue: VecDeque::new(),
        fn_out: vec![],
        tys: HashMap::new(),
        ty_list: vec![],
        vtables: vec![],
        vt_seen: HashMap::new(),
    };
    let mut generic = vec![];
    let mut unsafe_items = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    for ldid in tcx.hir_body_owners() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                let g = tcx.generics_of(did);
                if g.requires_monomorphization(tcx) {
                    generic.push(s(tcx.def_path_str(did)));
                } else {
                    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    });
                    let inst = Instance::new_raw(did, args);
                    cx.fn_id(inst);
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let g = tcx.generics_of(did);
                if !g.requires_monomorphization(tcx) {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        let ts = s(t);
                        let j = cx.cval(v, t, 0);
                        consts.push(O(vec![
                            ("path", s(tcx.def_path_str(did))),
                            ("ty", ts),
                            ("v", j),
                            ("public", B(tcx.visibility(did).is_public())),
                            ("loc", cx.loc(tcx.def_span(did))),
                        ]));
                    }
                }
            }
            DefKind::Static { .. } => {
                statics.push(O(vec![
                    ("path", s(tcx.def_path_str(did))),
                    ("ty", s(tcx.type_of(did).instantiate_identity().skip_norm_wip())),
                    ("mutable", B(tcx.is_mutable_static(did))),
                    ("loc", cx.loc(tcx.def_span(did))),
                ]));
            }
            _ => {}
        }
    }
    // foreign items, global asm, unsafe impls
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::ForeignMod | DefKind::GlobalAsm => {
                unsafe_items.push(s(format!("{:?} {}", tcx.def_kind(did), tcx.def_path_str(did))));
            }
            _ => {}
        }
    }
    while let Some((id, inst)) = cx.queue.pop_front() {
        let j = cx.function(inst);
        cx.fn_out[id] = Some(j);
    }
    let mut ty_out = vec![];
    let mut i = 0;
    while i < cx.ty_list.len() {
        let t = cx.ty_list[i];
        ty_out.push(cx.ty_desc(t));
        i += 1;
    }
    // functions found while describing types (closure bodies etc.)
    while let Some((id, inst)) = cx.queue.pop_front() {
        let j = cx.function(inst);
        cx.fn_out[id] = Some(j);
    }
    while i < cx.ty_list.len() {
        let t = cx.ty_list[i];
        ty_out.push(cx.ty_desc(t));
        i += 1;
    }
    let fns: Vec<J> = cx.fn_out.into_iter().map(|x| x.unwrap_or(Null)).collect();
    let root = O(vec![
        ("fns", A(fns)),
        ("types", A(ty_out)),
        ("vtables", A(cx.vtables)),
        ("generic_local", A(generic)),
        ("statics", A(statics)),
        ("consts", A(consts)),
        ("foreign", A(unsafe_items)),
    ]);
    let mut o = String::new();
    root.write(&mut o);
    o
}

impl<'tcx> Cx<'tcx> {
    fn fn_id(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(&i) = self.fns.get(&inst) {
            return i;
        }
        let i = self.fn_out.len();
        self.fns.insert(inst, i);
        self.fn_out.push(None);
        self.queue.push_back((i, inst));
        i
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.ty_id(t))
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        i
    }
    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return s("?");
        }
        let p = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", p.file.name.prefer_local_unconditionally(), p.line))
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, t: T) -> T {
        match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t.clone())) {
            Ok(x) => x,
            Err(_) => t,
        }
    }

    fn ty_desc(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let name = t.to_string();
        let mut o: Vec<(&'static str, J)> = vec![("s", S(name))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.bit_width().unwrap_or(64))));
                o.push(("signed", B(true)));
            }
            ty::Uint(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.bit_width().unwrap_or(64))));
                o.push(("signed", B(false)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", B(m.is_mut())));
                let x = self.ty(x);
                o.push(("to", x));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", B(m.is_mut())));
                let x = self.ty(x);
                o.push(("to", x));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                let x = self.ty(x);
                o.push(("to", x));
            }
            ty::Array(x, len) => {
                o.push(("k", s("array")));
                let x = self.ty(x);
                o.push(("to", x));
                let len = self.norm(len);
                o.push(("len", len.try_to_target_usize(tcx).map_or(Null, |x| n(x))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let fs = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("fields", A(fs)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(tcx.def_path_str(def.did()))));
                o.push(("crate", s(tcx.crate_name(def.did().krate))));
                o.push(("local", B(def.did().is_local())));
                o.push(("adt", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", A(targs)));
                let mut vs = vec![];
                let discrs: Vec<u128> = if def.is_enum() {
                    def.discriminants(tcx).map(|(_, d)| d.val).collect()
                } else {
                    vec![0]
                };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args);
                        let ft = match tcx.try_normalize_erasing_regions(self.env, ft) {
                            Ok(x) => x,
                            Err(_) => ft.skip_norm_wip(),
                        };
                        let tj = self.ty(ft);
                        fs.push(A(vec![s(f.name), tj]));
                    }
                    vs.push(O(vec![
                        ("name", s(v.name)),
                        ("discr", n(discrs.get(vi.as_usize()).copied().unwrap_or(0))),
                        ("fields", A(fs)),
                    ]));
                }
                o.push(("variants", A(vs)));
            }
            ty::Closure(did, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(tcx.def_path_str(did))));
                let c = args.as_closure();
                let ups: Vec<J> = c.upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("fields", A(ups)));
                let inst = Instance::new_raw(did, args);
                let id = self.fn_id(inst);
                o.push(("fn", n(id)));
                o.push(("kind", s(format!("{:?}", c.kind()))));
            }
            ty::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(tcx.def_path_str(did))));
                if let Some(args) = args.no_bound_vars() {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, did, args) {
                        let id = self.fn_id(i);
                        o.push(("fn", n(id)));
                    }
                }
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                o.push(("trait", preds.principal_def_id().map_or(Null, |d| s(tcx.def_path_str(d)))));
            }
            _ => o.push(("k", s("other"))),
        }
        O(o)
    }

    fn vtable(&mut self, from: Ty<'tcx>, dynty: Ty<'tcx>) {
        let tcx = self.tcx;
        if self.vt_seen.insert((from, dynty), ()).is_some() {
            return;
        }
        let ty::Dynamic(preds, _) = *dynty.kind() else { return };
        let Some(principal) = preds.principal() else { return };
        let tr = tcx.instantiate_bound_regions_with_erased(principal.with_self_ty(tcx, from));
        let tr = tcx.erase_and_anonymize_regions(tr);
        let mut ms = vec![];
        for (i, e) in tcx.vtable_entries(tr).iter().enumerate() {
            if let ty::VtblEntry::Method(inst) = e {
                let id = self.fn_id(*inst);
                ms.push(A(vec![n(i), n(id)]));
            }
        }
        let a = self.ty(from);
        let b = self.ty(dynty);
        self.vtables.push(O(vec![("from", a), ("dyn", b), ("methods", A(ms))]));
    }

    fn function(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let did = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("name", s(format!("{inst}"))));
        let path = tcx.def_path_str(did);
        o.push(("path", s(&path)));
        o.push(("item", tcx.opt_item_name(did).map_or(Null, |x| s(x))));
        let krate = tcx.crate_name(did.krate);
        o.push(("crate", s(krate)));
        o.push(("local", B(did.is_local())));
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
            InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
            InstanceKind::Shim(_) => "shim",
        };
        o.push(("kind", s(kind)));
        if let InstanceKind::Virtual(_, i) = inst.def {
            o.push(("vtidx", n(i)));
        }
        // impl facts
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let selfty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            o.push(("impl_self", s(selfty)));
            if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                o.push(("impl_trait", s(tcx.def_path_str(tr))));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("in_trait", s(tcx.def_path_str(tr))));
        }
        let targs: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
        o.push(("targs", A(targs)));
        o.push(("loc", self.loc(tcx.def_span(did))));
        if !did.is_local() {
            let mut doc = false;
            let mut safety = false;
            for a in tcx.get_all_attrs(did) {
                if let Some(d) = a.doc_str() {
                    if d.as_str().contains("# Panics") {
                        doc = true;
                    }
                    if d.as_str().contains("# Safety") {
                        safety = true;
                    }
                }
            }
            o.push(("panics_doc", B(doc)));
            o.push(("safety_doc", B(safety)));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", B(sig.safety().is_unsafe())));
            o.push(("public", B(tcx.visibility(did).is_public() && did.is_local() && tcx.effective_visibilities(()).is_exported(did.expect_local()))));
        }
        // body?
        let stop = !did.is_local()
            && {
                let p = format!("{}", tcx.def_path_str(did));
                let dp = format!("{}{}", krate, tcx.def_path(did).to_string_no_crate_verbose());
                !matches!(krate.as_str(), "core" | "std" | "alloc" | "bitflags")
                    || STOP.iter().any(|x| p.starts_with(x) || dp.starts_with(x))
            };
        let has_body = match inst.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d) && !stop,
            InstanceKind::Shim(ShimKind::DropGlue(..)) => false,
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        if has_body && !tcx.is_constructor(did) || (has_body && tcx.is_constructor(did)) {
            let body = tcx.instance_mir(inst.def).clone();
            let body = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                ty::EarlyBinder::bind(tcx, body),
            );
            let b = self.body(&body);
            o.push(("body", b));
        } else if let Some(b) = self.collecting(inst) {
            o.push(("body", b));
        } else {
            // return type only
            if let InstanceKind::Item(_) | InstanceKind::Virtual(..) | InstanceKind::Intrinsic(_) = inst.def {
                if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
                    let sig = tcx.fn_sig(did).instantiate(tcx, inst.args).skip_norm_wip();
                    let sig = tcx.instantiate_bound_regions_with_erased(sig);
                    let rt = self.norm(sig.output());
                    let rt = self.ty(rt);
                    o.push(("ret", rt));
                    let mut ps = vec![];
                    for t in sig.inputs() {
                        let t = self.norm(*t);
                        let j = self.ty(t);
                        ps.push(j);
                    }
                    o.push(("ptys", A(ps)));
                }
            }
            o.push(("body", Null));
        }
        O(o)
    }

    /// The meaning of `from_iter` and `extend` of the growing containers, whose library code is not
    /// walked: every item of the iterator is pushed, one after the other.
    fn collecting(&mut self, inst: Instance<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let InstanceKind::Item(did) = inst.def else { return None };
        let tr = tcx.impl_opt_trait_id(tcx.impl_of_assoc(did)?)?;
        let name = tcx.opt_item_name(did)?;
        let make = match (tcx.def_path_str(tr).as_str(), name.as_str()) {
            ("std::iter::FromIterator", "from_iter") => true,
            ("std::iter::Extend", "extend") => false,
            _ => return None,
        };
        let sig = tcx.fn_sig(did).instantiate(tcx, inst.args).skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let target = self.norm(if make { sig.output() } else { sig.inputs()[0].builtin_deref(true)? });
        let given = self.norm(*sig.inputs().last()?);
        let ty::Adt(adt, targs) = *target.kind() else { return None };
        let an = tcx.def_path_str(adt.did());
        if !["std::vec::Vec", "std::string::String", "smallvec::SmallVec", "arrayvec::ArrayVec", "bumpalo::collections::Vec"].contains(&an.as_str()) {
            return None;
        }
        let li = tcx.lang_items();
        let erased = tcx.lifetimes.re_erased;
        let out = |me: &Self, d: DefId, a: GenericArgsRef<'tcx>| {
            let g = tcx.fn_sig(d).instantiate(tcx, a).skip_norm_wip();
            me.norm(tcx.instantiate_bound_regions_with_erased(g).output())
        };
        let (start, next) = (li.into_iter_fn()?, li.next_fn()?);
        let a1 = tcx.mk_args(&[given.into()]);
        let it = out(self, start, a1);
        let a2 = tcx.mk_args(&[it.into()]);
        let opt = out(self, next, a2);
        let ty::Adt(_, oargs) = *opt.kind() else { return None };
        let item = oargs.type_at(0);
        let method = |n: &str, argc: usize| {
            tcx.inherent_impls(adt.did()).iter().find_map(|&i| {
                tcx.associated_items(i)
                    .filter_by_name_unhygienic(rustc_span::Symbol::intern(n))
                    .find(|x| tcx.fn_sig(x.def_id).skip_binder().skip_binder().inputs().len() == argc)
                    .map(|x| x.def_id)
            })
        };
        let cut = |d: DefId| tcx.mk_args(&targs[..tcx.generics_of(d).count().min(targs.len())]);
        let mut push = None;
        for n in ["push", "push_str"] {
            let Some(d) = method(n, 2) else { continue };
            let g = tcx.fn_sig(d).instantiate(tcx, cut(d)).skip_norm_wip();
            let want = self.norm(tcx.instantiate_bound_regions_with_erased(g).inputs()[1]);
            if tcx.erase_and_anonymize_regions(want) == tcx.erase_and_anonymize_regions(item) {
                push = Some(d);
                break;
            }
        }
        let push = push?;
        let new = if make { Some(method("new", 0)?) } else { None };
        let mutref = |t| Ty::new_mut_ref(tcx, erased, t);
        let first = if make { vec![target, given] } else { vec![tcx.types.unit, mutref(target), given] };
        let argc = first.len() - 1;
        let k = first.len();
        let (li_, lr, lo, lx, lv, lu, ld) = (k, k + 1, k + 2, k + 3, k + 4, k + 5, k + 6);
        let tys: Vec<Ty<'tcx>> =
            first.into_iter().chain([it, mutref(it), opt, item, mutref(target), tcx.types.unit, tcx.types.isize]).collect();
        let dest = tys.clone();
        let locals: Vec<J> = tys.into_iter().map(|t| self.ty(t)).collect();
        let place = |l: usize| A(vec![n(l)]);
        let mv = |l: usize| A(vec![s("m"), A(vec![n(l)])]);
        let set = |l: usize, rv: J| A(vec![s("="), A(vec![n(l)]), rv]);
        let mut call = |me: &mut Self, d: DefId, a: GenericArgsRef<'tcx>, args: Vec<J>, l: usize, to: usize| {
            let f = me.callee(d, a);
            let t = me.ty(dest[l]);
            A(vec![s("call"), f, A(args), A(vec![n(l)]), n(to), s(""), t])
        };
        let t0 = call(self, start, a1, vec![mv(argc)], li_, 1);
        let t1 = match new {
            Some(d) => call(self, d, cut(d), vec![], 0, 2),
            None => A(vec![s("goto"), n(2usize)]),
        };
        let t2 = call(self, next, a2, vec![mv(lr)], lo, 3);
        let isize_ = self.ty(tcx.types.isize);
        let opt_ = self.ty(opt);
        let item_ = self.ty(item);
        let t3 = A(vec![s("switch"), mv(ld), A(vec![A(vec![n(0usize), n(5usize)])]), n(4usize), isize_, s("")]);
        let t4 = call(self, push, cut(push), vec![mv(lv), mv(lx)], lu, 2);
        let some = A(vec![n(lo), A(vec![s("d"), n(1usize)]), A(vec![s("f"), n(0usize), item_])]);
        let own = if make { place(0) } else { A(vec![n(1usize), s("*")]) };
        let block = |ss: Vec<J>, t: J| O(vec![("s", A(ss)), ("t", t)]);
        let blocks = vec![
            block(vec![], t0),
            block(vec![], t1),
            block(vec![set(lr, A(vec![s("ref"), B(true), place(li_)]))], t2),
            block(vec![set(ld, A(vec![s("discr"), place(lo), opt_]))], t3),
            block(
                vec![
                    set(lx, A(vec![s("use"), A(vec![s("m"), some])])),
                    set(lv, A(vec![s("ref"), B(true), own])),
                ],
                t4,
            ),
            block(vec![], A(vec![s("ret")])),
        ];
        Some(O(vec![
            ("argc", n(argc)),
            ("spread", Null),
            ("locals", A(locals)),
            ("names", A(vec![])),
            ("blocks", A(blocks)),
        ]))
    }

    fn body(&mut self, body: &Body<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("argc", n(body.arg_count)));
        let spread = body.spread_arg.map(|x| x.as_usize());
        o.push(("spread", spread.map_or(Null, |x| n(x))));
        let ls: Vec<J> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        o.push(("locals", A(ls)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(A(vec![n(p.local.as_usize()), s(v.name)]));
                }
            }
        }
        o.push(("names", A(names)));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                bbs.push(Null);
                continue;
            }
            let mut ss = vec![];
            for st in &bb.statements {
                if let Some(j) = self.statement(body, st) {
                    ss.push(j);
                }
            }
            let t = self.terminator(body, bb.terminator());
            bbs.push(O(vec![("s", A(ss)), ("t", t)]));
        }
        o.push(("blocks", A(bbs)));
        O(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    A(vec![s("f"), n(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    A(vec![s("ci"), n(offset), n(min_length), B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => A(vec![s("sub"), n(from), n(to), B(from_end)]),
                ProjectionElem::Downcast(_, v) => A(vec![s("d"), n(v.as_usize())]),
                _ => A(vec![s("x"), s(format!("{e:?}"))]),
            });
        }
        A(v)
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                let v = self.constant(&c.const_, c.span);
                A(vec![s("k"), t, v])
            }
            Operand::RuntimeChecks(r) => A(vec![s("rc"), s(format!("{r:?}"))]),
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, span: Span) -> J {
        let t = c.ty();
        if let ty::FnDef(did, args) = *t.kind() {
            let args = args.no_bound_vars().expect("late bound");
            return match Instance::try_resolve(self.tcx, self.env, did, args) {
                Ok(Some(i)) => {
                    let id = self.fn_id(i);
                    O(vec![("k", s("fn")), ("id", n(id))])
                }
                _ => O(vec![("k", s("fnunk")), ("path", s(self.tcx.def_path_str(did)))]),
            };
        }
        if let mir::Const::Unevaluated(uv, _) = c {
            if let (Some(p), Some(_)) = (uv.promoted, self.tcx.trait_of_assoc(uv.def)) {
                return self.promoted(uv.def, uv.args, p);
            }
        }
        match c.eval(self.tcx, self.env, span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => O(vec![("k", s("unk")), ("s", s(format!("{c:?}")))]),
        }
    }

    /// A promoted constant of a provided trait method: its body, to be interpreted.
    fn promoted(&mut self, def: DefId, args: GenericArgsRef<'tcx>, p: mir::Promoted) -> J {
        let tcx = self.tcx;
        let body = tcx.promoted_mir(def)[p].clone();
        let body = Instance::new_raw(def, args).instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, body),
        );
        let b = self.body(&body);
        let id = self.fn_out.len();
        let name = format!("{}::promoted[{}]", tcx.def_path_str(def), p.as_usize());
        self.fn_out.push(Some(O(vec![
            ("name", s(&name)),
            ("path", s(&name)),
            ("item", Null),
            ("crate", s("core")),
            ("local", B(false)),
            ("kind", s("promoted")),
            ("loc", s("")),
            ("body", b),
        ])));
        O(vec![("k", s("promoted")), ("id", n(id))])
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return O(vec![("k", s("unk"))]);
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => Some(i),
                    ConstValue::Indirect { alloc_id, offset } => {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let size = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                            m.inner()
                                .read_scalar(&tcx, AllocRange { start: offset, size }, false)
                                .ok()
                                .and_then(|x| if let Scalar::Int(i) = x { Some(i) } else { None })
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                match sc {
                    Some(i) => {
                        let val = if matches!(t.kind(), ty::Int(_)) {
                            n(i.to_int(i.size()))
                        } else {
                            n(i.to_bits_unchecked())
                        };
                        O(vec![("k", s("i")), ("v", val)])
                    }
                    None => O(vec![("k", s("unk"))]),
                }
            }
            ty::FnDef(did, args) => {
                if let Some(args) = args.no_bound_vars() {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, did, args) {
                        let id = self.fn_id(i);
                        return O(vec![("k", s("fn")), ("id", n(id))]);
                    }
                }
                O(vec![("k", s("zst"))])
            }
            ty::Ref(_, to, _) | ty::RawPtr(to, _) => {
                // resolve pointer
                let (ptr, meta) = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        (Some((prov.alloc_id(), off)), None)
                    }
                    ConstValue::Slice { alloc_id, meta } => {
                        (Some((alloc_id, rustc_abi::Size::ZERO)), Some(meta))
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let ps = tcx.data_layout.pointer_size();
                            let p = m.inner().read_scalar(&tcx, AllocRange { start: offset, size: ps }, true);
                            match p {
                                Ok(Scalar::Ptr(p, _)) => {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    let meta = if matches!(to.kind(), ty::Str | ty::Slice(_)) {
                                        m.inner()
                                            .read_scalar(&tcx, AllocRange { start: offset + ps, size: ps }, false)
                                            .ok()
                                            .and_then(|x| x.to_target_usize(&tcx).discard_err())
                                    } else {
                                        None
                                    };
                                    (Some((prov.alloc_id(), off)), meta)
                                }
                                _ => (None, None),
                            }
                        } else {
                            (None, None)
                        }
                    }
                    _ => (None, None),
                };
                let Some((aid, off)) = ptr else {
                    return O(vec![("k", s("unk")), ("s", s("ptr"))]);
                };
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => O(vec![("k", s("static")), ("path", s(tcx.def_path_str(d)))]),
                    GlobalAlloc::Function { instance } => {
                        let id = self.fn_id(instance);
                        O(vec![("k", s("fn")), ("id", n(id))])
                    }
                    GlobalAlloc::Memory(m) => match *to.kind() {
                        ty::Str => {
                            let len = meta.unwrap_or(0) as usize;
                            let st = off.bytes_usize();
                            let bytes =
                                m.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + len);
                            O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(bytes)))])
                        }
                        ty::Slice(el) => {
                            let len = meta.unwrap_or(0);
                            let f = self.elems(aid, off, el, len, depth);
                            O(vec![("k", s("ref")), ("v", O(vec![("k", s("agg")), ("f", A(f))]))])
                        }
                        ty::Dynamic(..) => O(vec![("k", s("unk")), ("s", s("dyn"))]),
                        _ => {
                            let x = self.cval(ConstValue::Indirect { alloc_id: aid, offset: off }, to, depth + 1);
                            O(vec![("k", s("ref")), ("v", x)])
                        }
                    },
                    _ => O(vec![("k", s("unk")), ("s", s("alloc"))]),
                }
            }
            ty::Array(el, len) => {
                let len = self.norm(len).try_to_target_usize(tcx).unwrap_or(0);
                match v {
                    ConstValue::Indirect { alloc_id, offset } => {
                        let f = self.elems(alloc_id, offset, el, len, depth);
                        O(vec![("k", s("agg")), ("f", A(f))])
                    }
                    _ => self.destructure(v, t, depth),
                }
            }
            ty::Tuple(ts) if ts.is_empty() => O(vec![("k", s("agg")), ("f", A(vec![]))]),
            ty::Tuple(_) | ty::Adt(..) => self.destructure(v, t, depth),
            ty::Closure(..) => O(vec![("k", s("zst"))]),
            _ => O(vec![("k", s("unk")), ("s", s(t))]),
        }
    }

    fn elems(&mut self, aid: mir::interpret::AllocId, off: rustc_abi::Size, el: Ty<'tcx>, len: u64, depth: usize) -> Vec<J> {
        let size = self.tcx.layout_of(self.env.as_query_input(el)).unwrap().size;
        (0..len.min(4096))
            .map(|i| self.cval(ConstValue::Indirect { alloc_id: aid, offset: off + size * i }, el, depth + 1))
            .collect()
    }

    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if let ty::Adt(def, _) = t.kind() {
            if def.is_union() {
                return O(vec![("k", s("unk")), ("s", s("union"))]);
            }
        }
        match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let f: Vec<J> = d.fields.iter().map(|&(v, t)| self.cval(v, t, depth + 1)).collect();
                match d.variant {
                    Some(vi) => O(vec![("k", s("adt")), ("var", n(vi.as_usize())), ("f", A(f))]),
                    None => O(vec![("k", s("agg")), ("f", A(f))]),
                }
            }
            None => O(vec![("k", s("unk")), ("s", s("destructure"))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> J {
        match rv {
            Rvalue::Use(op, _) => A(vec![s("use"), self.operand(op)]),
            Rvalue::Repeat(op, c) => {
                let c = self.norm(*c);
                A(vec![s("repeat"), self.operand(op), c.try_to_target_usize(self.tcx).map_or(Null, |x| n(x))])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                A(vec![s("ref"), B(m), self.place(p)])
            }
            // only the length of the slice is read through it: a shared borrow
            Rvalue::RawPtr(RawPtrKind::FakeForPtrMetadata, p) => A(vec![s("ref"), B(false), self.place(p)]),
            Rvalue::RawPtr(k, p) => A(vec![s("rawptr"), B(*k != RawPtrKind::Const), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => A(vec![s("tls"), s(self.tcx.def_path_str(*d))]),
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(&body.local_decls, self.tcx);
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = k {
                    self.unsize(from, *t);
                }
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("{c:?}"),
                    k => format!("{k:?}"),
                };
                let f = self.ty(from);
                let o = self.operand(op);
                let t = self.ty(*t);
                A(vec![s("cast"), s(ks), o, t, f])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                A(vec![s("bin"), s(format!("{b:?}")), self.operand(&ops.0), self.operand(&ops.1), t])
            }
            Rvalue::UnaryOp(u, op) => {
                let t = op.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                A(vec![s("un"), s(format!("{u:?}")), self.operand(op), t])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                A(vec![s("discr"), self.place(p), t])
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                let t = rv.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                let kj = match **k {
                    AggregateKind::Array(_) => A(vec![s("array")]),
                    AggregateKind::Tuple => A(vec![s("tuple")]),
                    AggregateKind::Adt(_, v, _, _, uf) => {
                        A(vec![s("adt"), n(v.as_usize()), uf.map_or(Null, |x| n(x.as_usize()))])
                    }
                    AggregateKind::Closure(..) => A(vec![s("closure")]),
                    AggregateKind::RawPtr(..) => A(vec![s("rawptr")]),
                    _ => A(vec![s("other")]),
                };
                A(vec![s("agg"), kj, t, A(fs)])
            }
            Rvalue::CopyForDeref(p) => A(vec![s("use"), A(vec![s("c"), self.place(p)])]),
            Rvalue::Reborrow(_, _, p) => A(vec![s("use"), A(vec![s("c"), self.place(p)])]),
            Rvalue::WrapUnsafeBinder(op, _) => A(vec![s("use"), self.operand(op)]),
        }
    }

    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        let (Some(a), Some(b)) = (from.builtin_deref(true), to.builtin_deref(true)) else {
            return;
        };
        if matches!(b.kind(), ty::Dynamic(..)) && !matches!(a.kind(), ty::Dynamic(..)) {
            let a = self.tcx.erase_and_anonymize_regions(a);
            let b = self.tcx.erase_and_anonymize_regions(b);
            self.vtable(a, b);
        }
    }

    fn statement(&mut self, body: &Body<'tcx>, st: &Statement<'tcx>) -> Option<J> {
        Some(match &st.kind {
            StatementKind::Assign(b) => {
                let (p, rv) = &**b;
                let r = self.rvalue(body, rv);
                A(vec![s("="), self.place(p), r])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                A(vec![s("setd"), self.place(place), n(variant_index.as_usize())])
            }
            StatementKind::StorageDead(l) => A(vec![s("dead"), n(l.as_usize())]),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(op) => A(vec![s("assume"), self.operand(op)]),
                NonDivergingIntrinsic::CopyNonOverlapping(_) => A(vec![s("copynonoverlapping")]),
            },
            _ => return None,
        })
    }

    fn terminator(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let loc = self.loc(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => A(vec![s("goto"), n(target.as_usize())]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, self.tcx);
                let mut v = vec![];
                for (val, bb) in targets.iter() {
                    v.push(A(vec![n(val), n(bb.as_usize())]));
                }
                let ty = self.ty(ty);
                A(vec![s("switch"), self.operand(discr), A(v), n(targets.otherwise().as_usize()), ty, loc])
            }
            TerminatorKind::Return => A(vec![s("ret")]),
            TerminatorKind::Unreachable => A(vec![s("unreachable"), loc]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => A(vec![s("resume")]),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                let needs = ty.needs_drop(self.tcx, self.env);
                let ty = self.ty(ty);
                A(vec![s("drop"), self.place(place), n(target.as_usize()), ty, B(needs)])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(&body.local_decls, self.tcx);
                let f = match *fty.kind() {
                    ty::FnDef(did, gargs) => {
                        let gargs: GenericArgsRef<'tcx> = gargs.no_bound_vars().expect("late bound");
                        self.callee(did, gargs)
                    }
                    _ => A(vec![s("ind"), self.operand(func)]),
                };
                let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                let dty = destination.ty(&body.local_decls, self.tcx).ty;
                let dty = self.ty(dty);
                A(vec![
                    s("call"),
                    f,
                    A(a),
                    self.place(destination),
                    target.map_or(Null, |x| n(x.as_usize())),
                    loc,
                    dty,
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("BoundsCheck".into(), vec![self.operand(len), self.operand(index)])
                    }
                    AssertKind::Overflow(b, x, y) => {
                        (format!("Overflow{b:?}"), vec![self.operand(x), self.operand(y)])
                    }
                    AssertKind::OverflowNeg(x) => ("OverflowNeg".into(), vec![self.operand(x)]),
                    AssertKind::DivisionByZero(x) => ("DivisionByZero".into(), vec![self.operand(x)]),
                    AssertKind::RemainderByZero(x) => ("RemainderByZero".into(), vec![self.operand(x)]),
                    m => {
                        let d = format!("{m:?}");
                        (d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("Assert").to_string(), vec![])
                    }
                };
                A(vec![s("assert"), self.operand(cond), B(*expected), s(k), A(ops), n(target.as_usize()), loc])
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                A(vec![s("goto"), n(real_target.as_usize())])
            }
            TerminatorKind::TailCall { .. } => A(vec![s("tailcall"), loc]),
            _ => A(vec![s("other"), loc]),
        }
    }

    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        match Instance::try_resolve(self.tcx, self.env, did, args) {
            Ok(Some(i)) => {
                let i = self.default_method(did, args, i);
                let id = self.fn_id(i);
                A(vec![s("fn"), n(id)])
            }
            _ => A(vec![s("unres"), s(self.tcx.def_path_str(did))]),
        }
    }

    /// The library overrides the provided methods of the leaf iterators (slices, strings) with
    /// pointer-based versions; the provided method has the same meaning and is written in terms of
    /// `next`, which the analysis models.
    fn default_method(
        &self,
        did: DefId,
        args: GenericArgsRef<'tcx>,
        found: Instance<'tcx>,
    ) -> Instance<'tcx> {
        let tcx = self.tcx;
        if found.def_id() == did || found.def_id().is_local() {
            return found;
        }
        let Some(tr) = tcx.trait_of_assoc(did) else { return found };
        let tn = tcx.def_path_str(tr);
        if !tn.ends_with("::Iterator") && !tn.ends_with("::DoubleEndedIterator") {
            return found;
        }
        if !tcx.defaultness(did).has_value() || !tcx.is_mir_available(did) {
            return found;
        }
        let name = tcx.item_name(did);
        if matches!(name.as_str(), "size_hint" | "next" | "next_back" | "count" | "last") {
            return found;
        }
        let rustc_middle::ty::Adt(adt, _) = args.type_at(0).kind() else { return found };
        let p = tcx.def_path_str(adt.did());
        if ["slice::", "str::", "array::", "vec::"].iter().any(|m| p.contains(m)) {
            return Instance::new_raw(did, args);
        }
        found
    }
}
