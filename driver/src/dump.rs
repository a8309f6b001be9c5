use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, ShimKind, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_abi::{FieldIdx, VariantIdx, Size};
use std::collections::HashMap;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    insts: Vec<Option<J>>,
    imap: HashMap<(InstanceKind<'tcx>, GenericArgsRef<'tcx>), usize>,
    work: Vec<(usize, Instance<'tcx>)>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

/// Parts of the standard library whose bodies are plain data flow and are
/// analysed like crate code; everything else outside the crate is modelled.
fn descend(tcx: TyCtxt<'_>, d: DefId) -> bool {
    if d.krate == LOCAL_CRATE {
        return true;
    }
    let k = tcx.crate_name(d.krate);
    let k = k.as_str();
    if k != "core" && k != "alloc" && k != "std" {
        return false;
    }
    if container(tcx, d) {
        return false;
    }
    let p = tcx.def_path(d).data.iter().map(|x| x.data.to_string()).collect::<Vec<_>>();
    let top = p.first().map(|s| s.as_str()).unwrap_or("");
    let has = |n: &str| p.iter().any(|s| s == n);
    if has("fmt") || has("panicking") || has("rt") || has("raw_vec") || has("intrinsics") {
        return false;
    }
    match top {
        "option" | "result" | "iter" | "ops" | "cmp" | "convert" | "borrow" | "clone" | "bool" | "default" | "tuple" | "any" | "hint" => true,
        "mem" => true,
        "num" => true,
        "array" => true,
        "slice" => true,
        "boxed" | "rc" | "sync" | "vec" | "collections" => true,
        _ => false,
    }
}

/// Collection and lock-step iteration of the standard library, which is
/// written with raw memory: modelled through the iterators' own `next`.
fn container(tcx: TyCtxt<'_>, d: DefId) -> bool {
    if !matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::Fn) {
        return false;
    }
    let name = tcx.item_name(d);
    let name = name.as_str();
    let full = path(tcx, d);
    if full.contains("vec::") || full.contains("Vec<") {
        if matches!(name, "from_iter" | "extend" | "spec_extend" | "extend_desugared" | "extend_trusted" | "extend_one" | "extend_one_unchecked" | "from_elem") {
            return true;
        }
    }
    if full.contains("iter::Zip") || full.contains("zip::Zip") {
        if matches!(name, "new" | "next" | "next_back") {
            return true;
        }
    }
    name == "unzip" && full.contains("Iterator")
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    std::fs::create_dir_all(out).unwrap();
    let ev = tcx.effective_visibilities(());
    let mut index = Vec::new();
    let mut n = 0;
    let only: Option<Vec<String>> = std::env::var("FM_ROOTS").ok().map(|s| s.split(',').map(|x| x.to_string()).collect());
    for &ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let p = path(tcx, d);
        let derived = {
            let parent = tcx.parent(d);
            tcx.def_span(d).from_expansion() || (matches!(tcx.def_kind(parent), DefKind::Impl { .. }) && tcx.is_automatically_derived(parent))
        };
        let (file, line) = loc(tcx, tcx.def_span(d));
        let sig = with_no_trimmed_paths!(tcx.fn_sig(d).instantiate_identity().skip_norm_wip().to_string());
        let mut self_ty = J::Null;
        let mut trait_path = J::Null;
        if kind == DefKind::AssocFn {
            let parent = tcx.parent(d);
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                self_ty = J::s(with_no_trimmed_paths!(format!("{}", tcx.type_of(parent).instantiate_identity().skip_norm_wip())));
                if of_trait {
                    trait_path = J::s(with_no_trimmed_paths!(format!("{}", tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip())));
                }
            }
        }
        let mut entry = vec![
            ("path", J::s(&p)),
            ("name", J::s(tcx.item_name(d))),
            ("pub", J::B(ev.is_reachable(ld))),
            ("vis", J::B(tcx.visibility(d).is_public())),
            ("derived", J::B(derived)),
            ("file", J::S(file)),
            ("line", J::I(line as i128)),
            ("sig", J::S(sig)),
            ("self", self_ty),
            ("trait", trait_path),
        ];
        let wanted = match &only {
            None => !derived || matches!(tcx.item_name(d).as_str(), "clone" | "eq"),
            Some(v) => v.iter().any(|w| &p == w),
        };
        if wanted {
            let mut cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d), types: vec![], tmap: HashMap::new(), insts: vec![], imap: HashMap::new(), work: vec![] };
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance { def: InstanceKind::Item(d), args };
            let r = cx.inst(inst);
            cx.run();
            let j = J::O(vec![
                ("root", J::I(r as i128)),
                ("types", J::A(cx.types)),
                ("insts", J::A(cx.insts.into_iter().map(|x| x.unwrap_or(J::Null)).collect())),
            ]);
            let f = format!("root{}.json", n);
            n += 1;
            let mut s = String::new();
            j.write(&mut s);
            std::fs::write(format!("{}/{}", out, f), s).unwrap();
            entry.push(("dump", J::S(f)));
        }
        index.push(J::O(entry));
    }
    // Items that can hold state outside values: statics, thread locals, unsafe.
    let mut items = Vec::new();
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        let k = tcx.def_kind(d);
        let (file, line) = loc(tcx, tcx.def_span(d));
        let mut e = vec![("kind", J::s(format!("{:?}", k))), ("path", J::S(path(tcx, d))), ("file", J::S(file)), ("line", J::I(line as i128)), ("pub", J::B(ev.is_reachable(ld)))];
        match k {
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                e.push(("ty", J::s(with_no_trimmed_paths!(format!("{}", t)))));
                e.push(("mut", J::B(tcx.is_mutable_static(d))));
                e.push(("tls", J::B(tcx.is_thread_local_static(d))));
                e.push(("freeze", J::B(t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d)))));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(d);
                let mut fs = Vec::new();
                for v in adt.variants() {
                    for f in &v.fields {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(J::A(vec![J::s(v.name), J::s(f.name), J::s(with_no_trimmed_paths!(format!("{}", t))), J::B(f.vis.is_public())]));
                    }
                }
                e.push(("fields", J::A(fs)));
            }
            _ => {}
        }
        items.push(J::O(e));
    }
    let j = J::O(vec![("fns", J::A(index)), ("items", J::A(items))]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(format!("{}/index.json", out), s).unwrap();
}

fn loc(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> (String, usize) {
    let sp = sp.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(sp.lo());
    (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
}

impl<'tcx> Cx<'tcx> {
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&n) = self.imap.get(&(i.def, i.args)) {
            return n;
        }
        let n = self.insts.len();
        self.insts.push(None);
        self.imap.insert((i.def, i.args), n);
        self.work.push((n, i));
        n
    }

    fn run(&mut self) {
        while let Some((n, i)) = self.work.pop() {
            let j = self.instance(i);
            self.insts[n] = Some(j);
        }
    }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tyi(t) as i128)
    }

    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let t = if let ty::Pat(b, _) = t.kind() { *b } else { t };
        if let Some(&n) = self.tmap.get(&t) {
            return n;
        }
        let n = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert(t, n);
        let tcx = self.tcx;
        let s = self.tystr(t);
        let mut o = vec![("s", J::S(s))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => {
                o.push(("k", J::s("int")));
                o.push(("w", J::I(i.bit_width().unwrap_or(64) as i128)));
                o.push(("sg", J::B(true)));
            }
            ty::Uint(i) => {
                o.push(("k", J::s("int")));
                o.push(("w", J::I(i.bit_width().unwrap_or(64) as i128)));
                o.push(("sg", J::B(false)));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", J::s("ref")));
                o.push(("t", self.ty(*x)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(x, _) => {
                o.push(("k", J::s("ptr")));
                o.push(("t", self.ty(*x)));
            }
            ty::Str => o.push(("k", J::s("str"))),
            ty::Slice(x) => {
                o.push(("k", J::s("slice")));
                o.push(("t", self.ty(*x)));
            }
            ty::Array(x, c) => {
                o.push(("k", J::s("array")));
                o.push(("t", self.ty(*x)));
                if let Some(v) = c.try_to_target_usize(tcx) {
                    o.push(("n", J::I(v as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("ts", J::A(v)));
            }
            ty::Adt(adt, args) => {
                o.push(("k", J::s(if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" })));
                o.push(("adt", J::S(path(tcx, adt.did()))));
                o.push(("local", J::B(adt.did().is_local())));
                let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(targs)));
                let deep = !matches!(path(tcx, adt.did()).as_str(), "hashbrown::HashMap" | "alloc::vec::Vec" | "alloc::string::String");
                if deep {
                    let mut vs = Vec::new();
                    for (vi, v) in adt.variants().iter_enumerated() {
                        let mut fs = Vec::new();
                        for f in &v.fields {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.try_normalize_erasing_regions(self.env, ft);
                            if let Ok(ft) = ft {
                                fs.push(J::A(vec![J::s(f.name), self.ty(ft)]));
                            } else {
                                fs.push(J::A(vec![J::s(f.name), J::Null]));
                            }
                        }
                        let dv = if adt.is_enum() { adt.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        vs.push(J::A(vec![J::s(v.name), J::I(dv), J::A(fs)]));
                    }
                    o.push(("vs", J::A(vs)));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("adt", J::S(path(tcx, *d))));
                let ts: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("ts", J::A(ts)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("adt", J::S(path(tcx, *d))));
                let _ = args;
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name)));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Never => o.push(("k", J::s("never"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[n] = J::O(o);
        n
    }

    fn instance(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = i.def_id();
        let mut o = vec![
            ("path", J::S(path(tcx, d))),
            ("s", J::s(with_no_trimmed_paths!(format!("{}", i)))),
            ("krate", J::s(tcx.crate_name(d.krate))),
            ("args", { let v: Vec<J> = i.args.types().map(|x| self.ty(x)).collect(); J::A(v) }),
        ];
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
            _ => "other",
        };
        o.push(("kind", J::s(kind)));
        let dk = tcx.def_kind(d);
        o.push(("closure", J::B(matches!(dk, DefKind::Closure))));
        if matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            if let Some(c) = tcx.trait_impl_of_assoc(d) {
                o.push(("trait", J::S(path(tcx, tcx.impl_trait_id(c)))));
            } else if let Some(t) = tcx.trait_of_assoc(d) {
                o.push(("trait", J::S(path(tcx, t))));
            }
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                o.push(("name", J::s(tcx.item_name(d))));
            }
        }
        let (file, line) = loc(tcx, tcx.def_span(d));
        o.push(("file", J::S(file)));
        o.push(("line", J::I(line as i128)));
        // The predicate that a search asks of each item.
        if matches!(dk, DefKind::AssocFn) && matches!(tcx.item_name(d).as_str(), "all" | "any") {
            let tys: Vec<Ty<'tcx>> = i.args.types().collect();
            for t in tys {
                if let ty::Closure(cd, ca) = t.kind() {
                    let c = Instance::resolve_closure(tcx, *cd, ca, ty::ClosureKind::FnMut);
                    let n = self.inst(c);
                    o.push(("pred", J::I(n as i128)));
                }
            }
        }
        let mut i = i;
        if let Some(t) = self.plain_iterator(i) {
            i = t;
        }
        let d = i.def_id();
        let body = match i.def {
            InstanceKind::Item(_) => {
                if descend(tcx, d) && tcx.is_mir_available(d) && !tcx.is_foreign_item(d) && !is_trait_decl_only(tcx, d) {
                    Some(tcx.instance_mir(i.def))
                } else {
                    None
                }
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) => Some(tcx.instance_mir(i.def)),
            InstanceKind::Shim(ShimKind::Clone(..)) => None,
            _ => None,
        };
        // Closures and iterators handed to code whose body is not analysed.
        if body.is_none() {
            let mut aux = Vec::new();
            let tys: Vec<Ty<'tcx>> = i.args.types().collect();
            for t in tys {
                if let Some(n) = self.trait_method(t, rustc_span::sym::Iterator, "next") {
                    let k = self.tyi(t);
                    aux.push(J::A(vec![J::s("next"), J::I(k as i128), J::I(n as i128)]));
                }
                if let Some(n) = self.trait_method2(t, "core::iter::traits::collect::IntoIterator", "into_iter") {
                    let k = self.tyi(t);
                    aux.push(J::A(vec![J::s("into_iter"), J::I(k as i128), J::I(n as i128)]));
                    if let Some(it) = self.into_iter_ty(t) {
                        if let Some(n) = self.trait_method(it, rustc_span::sym::Iterator, "next") {
                            let k = self.tyi(it);
                            aux.push(J::A(vec![J::s("next"), J::I(k as i128), J::I(n as i128)]));
                        }
                    }
                }
            }
            // Methods through which opaque code looks at its arguments.
            let tys: Vec<Ty<'tcx>> = i.args.types().collect();
            for t in tys {
                if let Some(n) = self.as_ref_bytes(t) {
                    let k = self.tyi(t);
                    aux.push(J::A(vec![J::s("as_ref"), J::I(k as i128), J::I(n as i128)]));
                }
            }
            o.push(("aux", J::A(aux)));
        }
        if let Some(b) = body {
            let b = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, b.clone()));
            let j = self.body(&b);
            o.push(("body", j));
        }
        J::O(o)
    }

    /// Iterator methods that the standard library specialises with pointer
    /// arithmetic are read through the trait's own provided body instead.
    fn plain_iterator(&self, i: Instance<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        if !matches!(i.def, InstanceKind::Item(_)) || !matches!(tcx.def_kind(i.def_id()), DefKind::AssocFn) {
            return None;
        }
        let im = tcx.trait_impl_of_assoc(i.def_id())?;
        let tr = tcx.impl_trait_id(im);
        let trp = path(tcx, tr);
        if !matches!(trp.as_str(), "std::iter::Iterator" | "std::iter::DoubleEndedIterator" | "core::iter::Iterator" | "core::iter::DoubleEndedIterator") {
            return None;
        }
        let name = tcx.item_name(i.def_id());
        if matches!(name.as_str(), "next" | "next_back" | "size_hint" | "__iterator_get_unchecked") {
            return None;
        }
        let tref = tcx.impl_trait_ref(im).instantiate(tcx, i.args).skip_norm_wip();
        let ty::Adt(ad, _) = tref.self_ty().kind() else { return None };
        let p = path(tcx, ad.did());
        if !(p.starts_with("std::slice::") || p.starts_with("core::slice::") || p.starts_with("std::vec::") || p.starts_with("alloc::vec::") || p.starts_with("std::array::") || p.starts_with("core::array::")) {
            return None;
        }
        let ti = tcx.trait_item_of(i.def_id())?;
        if !tcx.defaultness(ti).has_value() || !tcx.is_mir_available(ti) {
            return None;
        }
        let args = i.args.rebase_onto(tcx, im, tref.args);
        Some(Instance { def: InstanceKind::Item(ti), args: tcx.erase_and_anonymize_regions(args) })
    }

    fn resolve(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let args = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).ok()?;
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => Some(i),
            _ => None,
        }
    }

    fn implements(&self, t: Ty<'tcx>, tr: DefId, rest: &[ty::GenericArg<'tcx>]) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, penv) = self.tcx.infer_ctxt().build_with_typing_env(self.env);
        let mut v: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
        v.extend_from_slice(rest);
        if self.tcx.generics_of(tr).own_counts().types != v.len() {
            return false;
        }
        infcx.type_implements_trait(tr, v, penv).must_apply_modulo_regions()
    }

    fn trait_method(&mut self, t: Ty<'tcx>, name: rustc_span::Symbol, m: &str) -> Option<usize> {
        let tr = self.tcx.get_diagnostic_item(name)?;
        if !self.implements(t, tr, &[]) {
            return None;
        }
        let md = self.tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == m)?.def_id;
        let args = self.tcx.mk_args(&[t.into()]);
        let i = self.resolve(md, args)?;
        Some(self.inst(i))
    }

    fn trait_method2(&mut self, t: Ty<'tcx>, _p: &str, m: &str) -> Option<usize> {
        let tr = self.tcx.get_diagnostic_item(rustc_span::sym::IntoIterator)?;
        if !self.implements(t, tr, &[]) {
            return None;
        }
        let md = self.tcx.associated_items(tr).in_definition_order().find(|x| matches!(x.kind, ty::AssocKind::Fn { .. }) && x.name().as_str() == m)?.def_id;
        let args = self.tcx.mk_args(&[t.into()]);
        let i = self.resolve(md, args)?;
        Some(self.inst(i))
    }

    fn into_iter_ty(&mut self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        let tr = self.tcx.get_diagnostic_item(rustc_span::sym::IntoIterator)?;
        let ad = self.tcx.associated_items(tr).in_definition_order().find(|x| x.is_type() && x.name().as_str() == "IntoIter")?.def_id;
        let p = Ty::new_projection(self.tcx, ty::IsRigid::No, ad, [t]);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(p)).ok()
    }

    fn as_ref_bytes(&mut self, t: Ty<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let tr = tcx.get_diagnostic_item(rustc_span::sym::AsRef)?;
        let sl = Ty::new_slice(tcx, tcx.types.u8);
        if !self.implements(t, tr, &[sl.into()]) {
            return None;
        }
        let md = tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == "as_ref")?.def_id;
        let args = tcx.mk_args(&[t.into(), sl.into()]);
        let i = self.resolve(md, args)?;
        Some(self.inst(i))
    }

    fn body(&mut self, b: &Body<'tcx>) -> J {
        let locals: Vec<J> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::I(p.local.as_usize() as i128), J::s(v.name)]));
                }
            }
        }
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let l = loc(self.tcx, s.source_info.span).1 as i128;
                let j = self.stmt(s, b);
                if let Some(mut j) = j {
                    j.push(J::I(l));
                    st.push(J::A(j));
                }
            }
            let t = self.term(bb.terminator(), b);
            let l = loc(self.tcx, bb.terminator().source_info.span).1 as i128;
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("l", J::I(l)), ("cl", J::B(bb.is_cleanup))]));
        }
        J::O(vec![
            ("locals", J::A(locals)),
            ("argc", J::I(b.arg_count as i128)),
            ("spread", b.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![J::s("d")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::I(f.as_usize() as i128), t])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![J::s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![J::s("v"), J::I(vi.as_usize() as i128)]),
                _ => J::A(vec![J::s("x")]),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = self.constant(&c.const_, t);
                let t = self.ty(t);
                J::A(vec![J::s("k"), t, v])
            }
            #[allow(unreachable_patterns)]
            other => J::A(vec![J::s("x"), J::s(format!("{:?}", other))]),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, t: Ty<'tcx>) -> J {
        if let ty::FnDef(d, args) = t.kind() {
            return match self.callee(*d, tcx_args(self.tcx, *args)) {
                Some(j) => J::O(vec![("fn", j)]),
                None => J::O(vec![("z", J::I(1))]),
            };
        }
        // A constant of a function's body belongs to that body, also where the
        // type's own function is another one.
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_some() {
                let id = rustc_middle::mir::interpret::GlobalId { instance: Instance::new_raw(u.def, u.args), promoted: u.promoted };
                return match self.tcx.const_eval_global_id(self.env, id, rustc_span::DUMMY_SP) {
                    Ok(v) => self.constval(v, t),
                    Err(_) => J::O(vec![("u", J::s(with_no_trimmed_paths!(format!("{}", c))))]),
                };
            }
        }
        match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => self.constval(v, t),
            Err(_) => J::O(vec![("u", J::s(with_no_trimmed_paths!(format!("{}", c))))]),
        }
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::ZeroSized => self.zst(t),
            ConstValue::Scalar(s) => self.scalar(s, t, 0),
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                    let inner = match t.kind() {
                        ty::Ref(_, x, _) => *x,
                        ty::RawPtr(x, _) => *x,
                        _ => return J::O(vec![("u", J::s("slice"))]),
                    };
                    return J::O(vec![("r", self.slice_mem(a.inner(), Size::ZERO, meta, inner, 0))]);
                }
                J::O(vec![("u", J::s("slice"))])
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                    return self.mem(a.inner(), offset, t, 0);
                }
                J::O(vec![("u", J::s("indirect"))])
            }
        }
    }

    fn zst(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Adt(a, args) if a.is_struct() => {
                let fs: Vec<J> = a.non_enum_variant().fields.iter().map(|f| {
                    match self.tcx.try_normalize_erasing_regions(self.env, f.ty(self.tcx, args)) {
                        Ok(ft) => self.zst(ft),
                        Err(_) => J::O(vec![("z", J::I(1))]),
                    }
                }).collect();
                J::O(vec![("adt", J::I(0)), ("fs", J::A(fs))])
            }
            ty::Tuple(ts) => {
                let fs: Vec<J> = ts.iter().map(|x| self.zst(x)).collect();
                J::O(vec![("tup", J::A(fs))])
            }
            ty::Array(..) => J::O(vec![("arr", J::A(vec![]))]),
            ty::FnDef(d, args) => match self.callee(*d, tcx_args(self.tcx, *args)) {
                Some(j) => J::O(vec![("fn", j)]),
                None => J::O(vec![("z", J::I(1))]),
            },
            _ => J::O(vec![("z", J::I(1))]),
        }
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, depth: usize) -> J {
        let t = if let ty::Pat(b, _) = t.kind() { *b } else { t };
        match s {
            Scalar::Int(i) => match t.kind() {
                ty::Bool | ty::Char | ty::Uint(_) => J::O(vec![("i", J::I(i.to_bits(i.size()) as i128))]),
                ty::Int(_) => J::O(vec![("i", J::I(i.to_int(i.size())))]),
                _ => {
                    // A scalar-layout aggregate: go through memory.
                    self.scalar_adt(i, t)
                }
            },
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                let inner = match t.kind() {
                    ty::Ref(_, x, _) | ty::RawPtr(x, _) => *x,
                    _ => return J::O(vec![("u", J::s("ptr"))]),
                };
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Memory(a) => J::O(vec![("r", self.mem(a.inner(), off, inner, depth + 1))]),
                    GlobalAlloc::Static(d) => J::O(vec![("static", J::S(path(self.tcx, d)))]),
                    GlobalAlloc::Function { instance } => {
                        let n = self.inst(instance);
                        J::O(vec![("fnptr", J::I(n as i128))])
                    }
                    _ => J::O(vec![("u", J::s("alloc"))]),
                }
            }
        }
    }

    fn scalar_adt(&mut self, i: ty::ScalarInt, t: Ty<'tcx>) -> J {
        let bits = i.to_bits(i.size());
        match t.kind() {
            ty::Adt(a, args) if a.is_enum() => {
                // Variants without data are recognised by discriminant; what is
                // left is the one variant whose data has the whole value.
                let Ok(layout) = self.tcx.layout_of(self.env.as_query_input(t)) else { return J::O(vec![("u", J::s("lay"))]) };
                let mut data: Option<(VariantIdx, Vec<Ty<'tcx>>, usize)> = None;
                for (vi, v) in a.variants().iter_enumerated() {
                    let mut tys = vec![];
                    let mut at = None;
                    let mut n = 0;
                    for (k, f) in v.fields.iter().enumerate() {
                        let Ok(ft) = self.tcx.try_normalize_erasing_regions(self.env, f.ty(self.tcx, args)) else { return J::O(vec![("u", J::s("f"))]) };
                        let Ok(l) = self.tcx.layout_of(self.env.as_query_input(ft)) else { return J::O(vec![("u", J::s("lay"))]) };
                        if !l.is_zst() {
                            n += 1;
                            if l.size == i.size() { at = Some(k); }
                        }
                        tys.push(ft);
                    }
                    if n == 0 {
                        if let Some(tag) = tag_for(self.tcx, &layout, a.discriminant_for_variant(self.tcx, vi).val, vi) {
                            if tag == bits {
                                let fs = tys.iter().map(|x| self.zst(*x)).collect();
                                return J::O(vec![("adt", J::I(vi.as_usize() as i128)), ("fs", J::A(fs))]);
                            }
                        }
                    } else if let (1, Some(k), None) = (n, at, &data) {
                        data = Some((vi, tys, k));
                    } else {
                        return J::O(vec![("u", J::s("enum"))]);
                    }
                }
                if let Some((vi, tys, at)) = data {
                    let fs = tys.iter().enumerate().map(|(k, x)| if k == at { self.scalar(Scalar::Int(i), *x, 0) } else { self.zst(*x) }).collect();
                    return J::O(vec![("adt", J::I(vi.as_usize() as i128)), ("fs", J::A(fs))]);
                }
                J::O(vec![("u", J::s("enum"))])
            }
            ty::Adt(a, args) if a.is_struct() => {
                let fs: Vec<J> = a.non_enum_variant().fields.iter().map(|f| {
                    match self.tcx.try_normalize_erasing_regions(self.env, f.ty(self.tcx, args)) {
                        Ok(ft) => {
                            let z = self.tcx.layout_of(self.env.as_query_input(ft)).map(|l| l.is_zst()).unwrap_or(false);
                            if z { self.zst(ft) } else { self.scalar(Scalar::Int(i), ft, 0) }
                        }
                        Err(_) => J::O(vec![("u", J::s("f"))]),
                    }
                }).collect();
                J::O(vec![("adt", J::I(0)), ("fs", J::A(fs))])
            }
            ty::Tuple(ts) => {
                let fs: Vec<J> = ts.iter().map(|ft| {
                    let z = self.tcx.layout_of(self.env.as_query_input(ft)).map(|l| l.is_zst()).unwrap_or(false);
                    if z { self.zst(ft) } else { self.scalar(Scalar::Int(i), ft, 0) }
                }).collect();
                J::O(vec![("tup", J::A(fs))])
            }
            ty::Array(x, _) => J::O(vec![("arr", J::A(vec![self.scalar(Scalar::Int(i), *x, 0)]))]),
            ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) => J::O(vec![("rawint", J::I(bits as i128))]),
            _ => J::O(vec![("u", J::s("scalar"))]),
        }
    }

    fn slice_mem(&mut self, a: &rustc_middle::mir::interpret::Allocation, off: Size, n: u64, t: Ty<'tcx>, depth: usize) -> J {
        match t.kind() {
            ty::Str => {
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                J::O(vec![("str", J::s(String::from_utf8_lossy(b)))])
            }
            ty::Slice(x) => {
                let Ok(l) = self.tcx.layout_of(self.env.as_query_input(*x)) else { return J::O(vec![("u", J::s("lay"))]) };
                let v = (0..n).map(|k| self.mem(a, off + l.size * k, *x, depth + 1)).collect();
                J::O(vec![("arr", J::A(v))])
            }
            _ => J::O(vec![("u", J::s("slice"))]),
        }
    }

    fn mem(&mut self, a: &rustc_middle::mir::interpret::Allocation, off: Size, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 6 {
            return J::O(vec![("u", J::s("deep"))]);
        }
        let tcx = self.tcx;
        let t = if let ty::Pat(b, _) = t.kind() { *b } else { t };
        let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) else { return J::O(vec![("u", J::s("lay"))]) };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match a.read_scalar(&tcx, AllocRange { start: off, size: l.size }, false) {
                    Ok(s) => self.scalar(s, t, depth),
                    Err(_) => J::O(vec![("u", J::s("uninit"))]),
                }
            }
            ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                let ps = tcx.data_layout.pointer_size();
                match a.read_scalar(&tcx, AllocRange { start: off, size: ps }, true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let (prov, o2) = p.into_raw_parts();
                        let id = prov.alloc_id();
                        match tcx.global_alloc(id) {
                            GlobalAlloc::Memory(m) => {
                                if matches!(x.kind(), ty::Slice(_) | ty::Str) {
                                    let n = match a.read_scalar(&tcx, AllocRange { start: off + ps, size: ps }, false) {
                                        Ok(Scalar::Int(i)) => i.to_bits(i.size()) as u64,
                                        _ => return J::O(vec![("u", J::s("fat"))]),
                                    };
                                    J::O(vec![("r", self.slice_mem(m.inner(), o2, n, *x, depth + 1))])
                                } else {
                                    J::O(vec![("r", self.mem(m.inner(), o2, *x, depth + 1))])
                                }
                            }
                            GlobalAlloc::Static(d) => J::O(vec![("static", J::S(path(tcx, d)))]),
                            _ => J::O(vec![("u", J::s("alloc"))]),
                        }
                    }
                    _ => J::O(vec![("u", J::s("ptr"))]),
                }
            }
            ty::Array(x, _) => {
                let Ok(el) = tcx.layout_of(self.env.as_query_input(*x)) else { return J::O(vec![("u", J::s("lay"))]) };
                let n = if el.size.bytes() == 0 { 0 } else { l.size.bytes() / el.size.bytes() };
                let v = (0..n).map(|k| self.mem(a, off + el.size * k, *x, depth + 1)).collect();
                J::O(vec![("arr", J::A(v))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().enumerate().map(|(k, x)| self.mem(a, off + l.fields.offset(k), x, depth + 1)).collect();
                J::O(vec![("tup", J::A(v))])
            }
            ty::Adt(ad, args) if ad.is_struct() => {
                let v = ad.non_enum_variant().fields.iter().enumerate().map(|(k, f)| {
                    match tcx.try_normalize_erasing_regions(self.env, f.ty(tcx, args)) {
                        Ok(ft) => self.mem(a, off + l.fields.offset(k), ft, depth + 1),
                        Err(_) => J::O(vec![("u", J::s("f"))]),
                    }
                }).collect();
                J::O(vec![("adt", J::I(0)), ("fs", J::A(v))])
            }
            ty::Adt(ad, args) if ad.is_enum() => {
                // Which variant: read the tag.
                use rustc_abi::{TagEncoding, Variants};
                let vi = match &l.variants {
                    Variants::Single { index } => Some(*index),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = off + l.fields.offset(tag_field.as_usize());
                        let sz = tag.size(&tcx);
                        match a.read_scalar(&tcx, AllocRange { start: to, size: sz }, sz == tcx.data_layout.pointer_size()) {
                            Ok(Scalar::Int(i)) => {
                                let bits = i.to_bits(i.size());
                                match tag_encoding {
                                    TagEncoding::Direct => ad.discriminants(tcx).find(|(_, d)| d.val == bits || (d.val & ((1u128 << sz.bits()) - 1)) == bits).map(|x| x.0),
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let rel = bits.wrapping_sub(*niche_start) & if sz.bits() >= 128 { u128::MAX } else { (1u128 << sz.bits()) - 1 };
                                        let lo = niche_variants.start.as_u32() as u128;
                                        let hi = niche_variants.last.as_u32() as u128;
                                        if rel <= hi - lo { Some(VariantIdx::from_u32((lo + rel) as u32)) } else { Some(*untagged_variant) }
                                    }
                                }
                            }
                            Ok(Scalar::Ptr(..)) => match tag_encoding {
                                TagEncoding::Niche { untagged_variant, .. } => Some(*untagged_variant),
                                _ => None,
                            },
                            _ => None,
                        }
                    }
                    _ => None,
                };
                let Some(vi) = vi else { return J::O(vec![("u", J::s("tag"))]) };
                let cx = ty::layout::LayoutCx::new(tcx, self.env);
                let vl = l.for_variant(&cx, vi);
                let v = ad.variant(vi).fields.iter().enumerate().map(|(k, f)| {
                    match tcx.try_normalize_erasing_regions(self.env, f.ty(tcx, args)) {
                        Ok(ft) => self.mem(a, off + vl.fields.offset(k), ft, depth + 1),
                        Err(_) => J::O(vec![("u", J::s("f"))]),
                    }
                }).collect();
                J::O(vec![("adt", J::I(vi.as_usize() as i128)), ("fs", J::A(v))])
            }
            _ => self.zst(t),
        }
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<J> {
        if let Some(i) = self.resolve(d, args) {
            let is_virtual = matches!(i.def, InstanceKind::Virtual(..));
            let n = self.inst(i);
            let mut o = vec![("n", J::I(n as i128)), ("decl", J::S(path(self.tcx, d)))];
            if is_virtual {
                o.push(("virtual", J::B(true)));
            }
            if let Some(t) = self.tcx.trait_of_assoc(d) {
                o.push(("trait", J::S(path(self.tcx, t))));
                o.push(("selfty", { let x = args.type_at(0); self.ty(x) }));
            }
            return Some(J::O(o));
        }
        // A method of a bound of the root's own parameters.
        let mut o = vec![("decl", J::S(path(self.tcx, d))), ("unres", J::B(true)), ("name", J::s(self.tcx.item_name(d)))];
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(path(self.tcx, t))));
        }
        let v: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(v)));
        Some(J::O(o))
    }

    fn stmt(&mut self, s: &Statement<'tcx>, b: &Body<'tcx>) -> Option<Vec<J>> {
        match &s.kind {
            StatementKind::Assign(x) => {
                let (p, r) = &**x;
                let pj = self.place(p);
                let rj = self.rvalue(r, b);
                Some(vec![J::s("="), pj, rj])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pj = self.place(place);
                Some(vec![J::s("sd"), pj, J::I(variant_index.as_usize() as i128)])
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => None,
                _ => Some(vec![J::s("copynon")]),
            },
            StatementKind::StorageDead(l) => Some(vec![J::s("dead"), J::I(l.as_usize() as i128)]),
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => {
                let oj = self.operand(o);
                let n = c.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null);
                J::A(vec![J::s("rep"), oj, n])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::A(vec![J::s("ref"), self.place(p), J::B(m)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), self.place(p), J::B(true)]),
            Rvalue::Cast(k, o, t) => {
                let mut v = vec![J::s("cast"), J::s(format!("{:?}", k)), self.operand(o), self.ty(*t)];
                let from = o.ty(b, tcx);
                v.push(self.ty(from));
                // Unsizing to a trait object: remember the methods.
                if let (Some(a), Some(d)) = (from.builtin_deref(true), t.builtin_deref(true)) {
                    if let ty::Dynamic(preds, _) = d.kind() {
                        if !matches!(a.kind(), ty::Dynamic(..)) {
                            if let Some(pr) = preds.principal_def_id() {
                                let mut vt = Vec::new();
                                let ms: Vec<DefId> = tcx.associated_items(pr).in_definition_order().filter(|x| matches!(x.kind, ty::AssocKind::Fn { .. })).map(|x| x.def_id).collect();
                                for m in ms {
                                    if tcx.generics_of(m).own_requires_monomorphization() {
                                        continue;
                                    }
                                    if tcx.generics_of(pr).own_params.len() > 1 {
                                        continue;
                                    }
                                    let args = tcx.mk_args(&[a.into()]);
                                    if let Some(i) = self.resolve(m, args) {
                                        let n = self.inst(i);
                                        vt.push((path(tcx, m), J::I(n as i128)));
                                    }
                                }
                                v.push(J::M(vt));
                            }
                        }
                    }
                }
                J::A(v)
            }
            Rvalue::BinaryOp(op, x) => {
                let (l, rr) = &**x;
                J::A(vec![J::s("bin"), J::s(format!("{:?}", op)), self.operand(l), self.operand(rr)])
            }
            Rvalue::UnaryOp(op, o) => J::A(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, tcx).ty;
                let pj = self.place(p);
                let tj = self.ty(t);
                J::A(vec![J::s("disc"), pj, tj])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![J::s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = tcx.type_of(*d).instantiate(tcx, args);
                        let t = tcx.try_normalize_erasing_regions(self.env, t).unwrap_or_else(|_| tcx.types.unit);
                        J::A(vec![J::s("adt"), self.ty(t), J::I(vi.as_usize() as i128), af.map(|f: FieldIdx| J::I(f.as_usize() as i128)).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, *d, args);
                        J::A(vec![J::s("closure"), self.ty(t)])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![J::s("rawptr"), self.ty(*t)]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(p);
                J::A(vec![J::s("use"), J::A(vec![J::s("c"), pj])])
            }
            other => J::A(vec![J::s("x"), J::s(format!("{:?}", other))]),
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, b: &Body<'tcx>) -> J {
        let bbj = |x: BasicBlock| J::I(x.as_usize() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bbj(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(b, self.tcx);
                let o = self.operand(discr);
                let v = targets.iter().map(|(x, t)| J::A(vec![J::I(x as i128), bbj(t)])).collect();
                let tj = self.ty(dt);
                J::A(vec![J::s("switch"), o, J::A(v), bbj(targets.otherwise()), tj])
            }
            TerminatorKind::Return => J::A(vec![J::s("ret")]),
            TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
            TerminatorKind::UnwindResume => J::A(vec![J::s("resume")]),
            TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("abort")]),
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(b, self.tcx).ty;
                let pj = self.place(place);
                let tj = self.ty(pt);
                J::A(vec![J::s("drop"), pj, bbj(*target), tj])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(b, self.tcx);
                let callee = if let ty::FnDef(d, a) = ft.kind() {
                    self.callee(*d, tcx_args(self.tcx, *a)).unwrap()
                } else {
                    let o = self.operand(func);
                    J::O(vec![("ptr", o)])
                };
                let aj: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                let atys: Vec<J> = args.iter().map(|x| { let t = x.node.ty(b, self.tcx); self.ty(t) }).collect();
                let dty = destination.ty(b, self.tcx).ty;
                let dj = self.place(destination);
                let tj = self.ty(dty);
                J::A(vec![J::s("call"), callee, J::A(aj), dj, target.map(bbj).unwrap_or(J::Null), tj, J::A(atys)])
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                let o = self.operand(cond);
                let m = format!("{:?}", msg);
                let kind = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                    AssertKind::DivisionByZero(_) => "div0".to_string(),
                    AssertKind::RemainderByZero(_) => "rem0".to_string(),
                    _ => "other".to_string(),
                };
                J::A(vec![J::s("assert"), o, J::B(*expected), bbj(*target), J::S(kind), J::S(m)])
            }
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bbj(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bbj(*real_target)]),
            other => J::A(vec![J::s("x"), J::s(format!("{:?}", other))]),
        }
    }
}

fn is_trait_decl_only(tcx: TyCtxt<'_>, d: DefId) -> bool {
    tcx.trait_of_assoc(d).is_some() && !tcx.defaultness(d).has_value()
}

fn tag_for<'tcx>(tcx: TyCtxt<'tcx>, l: &ty::layout::TyAndLayout<'tcx>, discr: u128, vi: VariantIdx) -> Option<u128> {
    use rustc_abi::{TagEncoding, Variants};
    match &l.variants {
        Variants::Single { index } => (*index == vi).then_some(discr),
        Variants::Multiple { tag, tag_encoding, .. } => {
            let sz = tag.size(&tcx).bits();
            let m = if sz >= 128 { u128::MAX } else { (1u128 << sz) - 1 };
            match tag_encoding {
                TagEncoding::Direct => Some(discr & m),
                TagEncoding::Niche { niche_variants, niche_start, .. } => {
                    let lo = niche_variants.start.as_u32();
                    let hi = niche_variants.last.as_u32();
                    if vi.as_u32() < lo || vi.as_u32() > hi {
                        None
                    } else {
                        Some(niche_start.wrapping_add((vi.as_u32() - lo) as u128) & m)
                    }
                }
            }
        }
        _ => None,
    }
}

fn tcx_args<'tcx>(tcx: TyCtxt<'tcx>, a: ty::Binder<'tcx, GenericArgsRef<'tcx>>) -> GenericArgsRef<'tcx> {
    tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(a))
}
