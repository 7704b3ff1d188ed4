use crate::json::{s, u, J};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::VecDeque;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: FxHashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    seen: FxHashSet<String>,
    fns: Vec<(String, J)>,
    adts: Vec<(String, J)>,
    adtseen: FxHashSet<DefId>,
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        tyidx: Default::default(),
        queue: Default::default(),
        seen: Default::default(),
        fns: vec![],
        adts: vec![],
        adtseen: Default::default(),
    };
    let j = with_no_trimmed_paths!(cx.run());
    let mut t = String::new();
    j.write(&mut t);
    std::fs::write(out, t).expect("write dump");
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.def_path_str(d)
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        J::A(vec![s(lo.file.name.prefer_local_unconditionally().to_string()), u(lo.line)])
    }
    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        u(sm.lookup_char_pos(sp.source_callsite().lo()).line)
    }

    fn inst_key(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let base = match tcx.def_kind(d) {
            DefKind::Closure => tcx.def_path_debug_str(d),
            _ => path(tcx, d),
        };
        let mut a = vec![];
        if tcx.def_kind(d) != DefKind::Closure {
            for x in args.iter() {
                match x.kind() {
                    GenericArgKind::Type(t) => a.push(format!("{}", t)),
                    GenericArgKind::Const(c) => a.push(format!("{}", c)),
                    _ => {}
                }
            }
        } else {
            // parent args of the closure
            let ca = args.as_closure();
            for x in ca.parent_args().iter() {
                match x.kind() {
                    GenericArgKind::Type(t) => a.push(format!("{}", t)),
                    GenericArgKind::Const(c) => a.push(format!("{}", c)),
                    _ => {}
                }
            }
        }
        if a.is_empty() { base } else { format!("{}<[{}]>", base, a.join(", ")) }
    }

    fn region(&self, r: ty::Region<'tcx>) -> J {
        match r.kind() {
            ty::ReErased => J::Null,
            ty::ReStatic => s("'static"),
            _ => s(format!("{:?}", r).chars().take(60).collect::<String>()),
        }
    }

    fn garg(&mut self, a: ty::GenericArg<'tcx>) -> J {
        match a.kind() {
            GenericArgKind::Type(t) => J::O(vec![("t", self.ty(t))]),
            GenericArgKind::Lifetime(r) => J::O(vec![("r", self.region(r))]),
            GenericArgKind::Const(c) => J::O(vec![("c", self.constval(c))]),
        }
    }

    fn constval(&mut self, c: ty::Const<'tcx>) -> J {
        match c.try_to_target_usize(self.tcx) {
            Some(v) => J::U(v as u128),
            None => s(format!("{}", c)),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tyidx.get(&t) {
            return u(*i);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, i);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
        let k = match t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(_) => "int",
            ty::Uint(_) => "uint",
            ty::Float(_) => "float",
            ty::Str => "str",
            ty::Never => "never",
            ty::Adt(def, args) => {
                o.push(("def", s(path(tcx, def.did()))));
                let a = args.iter().map(|a| self.garg(a)).collect();
                o.push(("args", J::A(a)));
                self.adt(*def);
                // instantiated field types
                let vs: Vec<J> = def
                    .variants()
                    .iter()
                    .map(|v| {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = f.ty(tcx, args);
                                self.ty(ft.skip_norm_wip())
                            })
                            .collect();
                        J::A(fs)
                    })
                    .collect();
                o.push(("vf", J::A(vs)));
                "adt"
            }
            ty::Array(e, n) => {
                o.push(("e", self.ty(*e)));
                o.push(("n", self.constval(*n)));
                "array"
            }
            ty::Slice(e) => {
                o.push(("e", self.ty(*e)));
                "slice"
            }
            ty::RawPtr(e, m) => {
                o.push(("e", self.ty(*e)));
                o.push(("m", J::B(m.is_mut())));
                "ptr"
            }
            ty::Ref(r, e, m) => {
                o.push(("r", self.region(*r)));
                o.push(("e", self.ty(*e)));
                o.push(("m", J::B(m.is_mut())));
                "ref"
            }
            ty::Tuple(ts) => {
                let a = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("ts", J::A(a)));
                "tuple"
            }
            ty::Param(p) => {
                o.push(("name", s(p.name.to_string())));
                "param"
            }
            ty::FnDef(..) => {
                "fndef"
            }
            ty::Closure(d, _) => {
                o.push(("def", s(tcx.def_path_debug_str(*d))));
                "closure"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Dynamic(preds, r) => {
                if let Some(p) = preds.principal_def_id() {
                    o.push(("trait", s(path(tcx, p))));
                }
                let autos: Vec<J> = preds.auto_traits().map(|d| s(path(tcx, d))).collect();
                o.push(("autos", J::A(autos)));
                o.push(("r", self.region(*r)));
                "dyn"
            }
            ty::Alias(..) => "alias",
            _ => "other",
        };
        o.push(("k", s(k)));
        // layout when it is known
        use rustc_middle::ty::TypeVisitableExt;
        if !t.has_escaping_bound_vars() && !t.has_infer() {
            let tt = tcx.erase_and_anonymize_regions(t);
            if !tt.has_param() && !tt.has_aliases() {
                let env = TypingEnv::fully_monomorphized();
                if let Ok(l) = tcx.layout_of(env.as_query_input(tt)) {
                    if l.is_sized() {
                        o.push(("size", J::U(l.size.bytes() as u128)));
                    }
                    o.push(("align", J::U(l.align.abi.bytes() as u128)));
                    if let (ty::Adt(..), rustc_abi::FieldsShape::Arbitrary { .. }) = (t.kind(), &l.fields) {
                        let n = l.fields.count();
                        let offs: Vec<J> = (0..n).map(|i| J::U(l.fields.offset(i).bytes() as u128)).collect();
                        o.push(("offs", J::A(offs)));
                    }
                    if let (rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, variants }, rustc_abi::FieldsShape::Arbitrary { .. }) = (&l.variants, &l.fields) {
                        let toff = l.fields.offset(tag_field.as_usize()).bytes();
                        let tsz = tag.size(&tcx).bytes();
                        let vo: Vec<J> = variants.iter().map(|v| {
                            let mut fo: Vec<J> = Vec::new();
                            for i in 0..v.field_offsets.len() { fo.push(J::U(v.field_offsets[rustc_abi::FieldIdx::from_usize(i)].bytes() as u128)); }
                            J::A(fo)
                        }).collect();
                        let mut e = vec![("off", J::U(toff as u128)), ("size", J::U(tsz as u128)), ("vo", J::A(vo))];
                        if let rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } = tag_encoding {
                            e.push(("untagged", u(untagged_variant.as_usize())));
                            e.push(("first", u(niche_variants.start.as_usize())));
                            e.push(("last", u(niche_variants.last.as_usize())));
                            e.push(("start", J::U(*niche_start)));
                        }
                        o.push(("tag", J::O(e)));
                    }
                }
            }
        }
        self.types[i] = J::O(o);
        u(i)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adtseen.insert(def.did()) {
            return;
        }
        let tcx = self.tcx;
        let mut vs = vec![];
        let discrs: Vec<J> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, d)| J::U(d.val)).collect()
        } else {
            vec![]
        };
        for (i, v) in def.variants().iter().enumerate() {
            let fields: Vec<J> = v
                .fields
                .iter()
                .map(|f| J::O(vec![("name", s(f.name.to_string())), ("pub", J::B(f.vis.is_public()))]))
                .collect();
            let mut o = vec![("name", s(v.name.to_string())), ("fields", J::A(fields))];
            if def.is_enum() {
                o.push(("discr", discrs[i].clone()));
            }
            vs.push(J::O(o));
        }
        let mut o = vec![
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(def.did().is_local())),
            ("variants", J::A(vs)),
            ("generics", J::A(tcx.generics_of(def.did()).own_params.iter().map(|p| J::A(vec![s(p.name.to_string()), s(match p.kind { ty::GenericParamDefKind::Lifetime => "r", ty::GenericParamDefKind::Type { .. } => "t", _ => "c" })])).collect())),
            ("repr", s(format!("{:?}", def.repr().align.map(|a| a.bytes())))),
        ];
        if def.did().is_local() {
            o.push(("span", self.span(tcx.def_span(def.did()))));
            o.push(("has_drop", J::B(def.destructor(tcx).is_some())));
            if let Some(d) = def.destructor(tcx) {
                o.push(("drop_fn", s(path(tcx, d.did))));
            }
            let eff = tcx.effective_visibilities(());
            o.push(("exported", J::B(eff.is_exported(def.did().expect_local()))));
        }
        self.adts.push((path(tcx, def.did()), J::O(o)));
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut roots = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            roots.push(d);
        }
        for d in &roots {
            if tcx.def_kind(*d) == DefKind::Closure {
                continue; // reached through their parents
            }
            let args = ty::GenericArgs::identity_for_item(tcx, *d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(*d, args);
            let env = TypingEnv::post_analysis(tcx, *d);
            self.enqueue(inst, env, 0);
        }
        while let Some((inst, env, depth)) = self.queue.pop_front() {
            calm(|| self.body(inst, env, depth));
        }
        // signatures of every local fn
        let mut sigs = vec![];
        let eff = tcx.effective_visibilities(());
        for d in &roots {
            if tcx.def_kind(*d) == DefKind::Closure {
                continue;
            }
            let sig = tcx.fn_sig(*d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
            let outp = self.ty(sig.output());
            let mut o = vec![
                ("inputs", J::A(ins)),
                ("output", outp),
                ("unsafe", J::B(!sig.safety().is_safe())),
                ("exported", J::B(eff.is_exported(d.expect_local()))),
                ("pub", J::B(tcx.visibility(*d).is_public())),
                ("span", self.span(tcx.def_span(*d))),
                ("sig", s(format!("{}", tcx.fn_sig(*d).instantiate_identity().skip_norm_wip()))),
            ];
            let preds: Vec<J> = tcx.clauses_of(*d).instantiate_identity(tcx).clauses.iter().map(|p| s(format!("{}", p.skip_norm_wip()))).collect();
            o.push(("preds", J::A(preds)));
            if let Some(imp) = tcx.impl_of_assoc(*d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", self.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", s(format!("{}", tr.print_only_trait_path()))));
                    o.push(("impl_trait_def", s(path(tcx, tr.def_id))));
                }
            }
            sigs.push((self.inst_key(*d, tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, *d))), J::O(o)));
        }
        let impls = self.impls();
        let auto = self.autos();
        let statics = self.statics();
        J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("types", J::A(std::mem::take(&mut self.types))),
            ("adts", J::M(std::mem::take(&mut self.adts))),
            ("fns", J::M(std::mem::take(&mut self.fns))),
            ("sigs", J::M(sigs)),
            ("impls", impls),
            ("autos", auto),
            ("statics", statics),
        ])
    }

    fn statics(&mut self) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {}
                _ => continue,
            }
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let mut o = vec![("ty", self.ty(t)), ("span", self.span(tcx.def_span(d)))];
            if let DefKind::Static { .. } = tcx.def_kind(d) {
                o.push(("static", J::B(true)));
                if let Ok(a) = tcx.eval_static_initializer(d) {
                    o.push(("bytes", self.hex(a.inner(), 0, None)));
                }
            } else if tcx.generics_of(d).is_empty() || !tcx.generics_of(d).requires_monomorphization(tcx) {
                if let Ok(cv) = tcx.const_eval_poly(d) {
                    o.push(("val", self.cval(cv, t)));
                }
            }
            v.push((path(tcx, d), J::O(o)));
        }
        J::M(v)
    }

    fn impls(&mut self) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        for (tr, list) in tcx.all_local_trait_impls(()).iter() {
            for ld in list {
                let d = ld.to_def_id();
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let header = tcx.impl_trait_header(d);
                let preds: Vec<J> = tcx.clauses_of(d).instantiate_identity(tcx).clauses.iter().map(|p| s(format!("{}", p.skip_norm_wip()))).collect();
                let methods: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|a| J::A(vec![s(a.name().to_string()), s(path(tcx, a.def_id))]))
                    .collect();
                let tref = tcx.impl_opt_trait_ref(d).unwrap().instantiate_identity().skip_norm_wip();
                v.push(J::O(vec![
                    ("trait", s(path(tcx, *tr))),
                    ("trait_ref", s(format!("{}", tref.print_only_trait_path()))),
                    ("self", self.ty(st)),
                    ("polarity", s(format!("{:?}", header.polarity))),
                    ("unsafe", J::B(!header.safety.is_safe())),
                    ("preds", J::A(preds)),
                    ("methods", J::A(methods)),
                    ("span", self.span(tcx.def_span(d))),
                ]));
            }
        }
        J::A(v)
    }

    /// Send/Sync of every local ADT, and of generic ADTs instantiated with probe types.
    fn autos(&mut self) -> J {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let tcx = self.tcx;
        let send = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send")).expect("Send");
        let sync = tcx.lang_items().sync_trait().expect("Sync");
        // probe types: Rc<u8> (neither), Cell<u8> (Send only), MutexGuard-like (Sync only) = *const via wrapper
        let rc = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Rc"));
        let cell = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Cell"));
        let guard = tcx.get_diagnostic_item(rustc_span::Symbol::intern("MutexGuard"));
        let u8t = tcx.types.u8;
        let mk = |d: Option<DefId>| -> Option<Ty<'tcx>> {
            let d = d?;
            let n = tcx.generics_of(d).own_params.len();
            let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Type { .. } => {
                    if p.index == 0 || p.name.as_str() == "T" { u8t.into() }
                    else { tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip().into() }
                }
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_static.into(),
                _ => unreachable!(),
            });
            Some(Ty::new_adt(tcx, tcx.adt_def(d), args))
        };
        let probes: Vec<(&str, Option<Ty<'tcx>>)> = vec![("u8", Some(u8t)), ("Rc", mk(rc)), ("Cell", mk(cell)), ("MutexGuard", mk(guard))];
        let mut v = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {}
                _ => continue,
            }
            let def = tcx.adt_def(d);
            let gens = tcx.generics_of(d);
            let mut res = vec![];
            for (pn, pt) in &probes {
                let Some(pt) = pt else { continue };
                let mut n = 0;
                let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Type { .. } => { n += 1; (*pt).into() }
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_static.into(),
                    ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 4).into(),
                });
                if n == 0 && *pn != "u8" { continue; }
                let t = Ty::new_adt(tcx, def, args);
                let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                let env = ty::ParamEnv::empty();
                let a = infcx.type_implements_trait(send, [t], env).must_apply_modulo_regions();
                let b = infcx.type_implements_trait(sync, [t], env).must_apply_modulo_regions();
                res.push(J::O(vec![("probe", s(*pn)), ("send", J::B(a)), ("sync", J::B(b))]));
            }
            // field types with region info
            let fl: Vec<J> = def.variants().iter().flat_map(|vv| vv.fields.iter()).map(|f| {
                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                J::A(vec![s(f.name.to_string()), self.ty(ft)])
            }).collect();
            v.push((path(tcx, d), J::O(vec![("res", J::A(res)), ("fields", J::A(fl)), ("span", self.span(tcx.def_span(d)))])));
        }
        J::M(v)
    }

    fn want_std(&self, d: DefId, depth: usize) -> bool {
        if depth > 5 { return false; }
        let tcx = self.tcx;
        let k = tcx.crate_name(d.krate);
        if k.as_str() != "core" && k.as_str() != "alloc" { return false; }
        let p = path(tcx, d);
        for bad in ["fmt", "panicking", "alloc::alloc", "raw_vec", "unicode", "float", "str::pattern", "hash::", "ub_checks", "intrinsics::", "handle_alloc", "collections", "Searcher", "sort"] {
            if p.contains(bad) { return false; }
        }
        for good in ["option::", "result::", "ops::", "iter::", "slice::", "cmp::", "num::", "mem::", "ptr::", "convert::", "array::", "clone::", "default::", "borrow::", "cell::", "bool::", "char::", "str::"] {
            if p.contains(good) { return true; }
        }
        false
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, depth: usize) {
        let d = match inst.def {
            InstanceKind::Item(d) => d,
            _ => return,
        };
        let tcx = self.tcx;
        if !tcx.is_mir_available(d) { return; }
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => return,
        }
        let local = d.is_local();
        if !local && !self.want_std(d, depth) { return; }
        let key = self.inst_key(d, inst.args);
        if self.seen.insert(key) {
            self.queue.push_back((inst, env, if local { 0 } else { depth + 1 }));
        }
    }

    fn hex(&mut self, a: &mir::interpret::Allocation, off: u64, len: Option<u64>) -> J {
        let n = a.len() as u64;
        let end = len.map(|l| off + l).unwrap_or(n).min(n);
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize);
        let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
        let rel: Vec<J> = a
            .provenance()
            .ptrs()
            .iter()
            .filter(|(o, _)| o.bytes() >= off && o.bytes() < end)
            .map(|(o, p)| {
                let t = self.alloc(p.alloc_id());
                J::A(vec![J::U((o.bytes() - off) as u128), t])
            })
            .collect();
        if rel.is_empty() { s(h) } else { J::O(vec![("b", s(h)), ("rel", J::A(rel))]) }
    }

    fn alloc(&mut self, id: AllocId) -> J {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let inner = m.inner();
                if inner.len() > 1 << 16 { return s("big"); }
                J::O(vec![("mem", self.hex(inner, 0, None))])
            }
            GlobalAlloc::Static(d) => J::O(vec![("static", s(path(self.tcx, d)))]),
            GlobalAlloc::Function { instance } => J::O(vec![("fn", s(path(self.tcx, instance.def_id())))]),
            _ => s("other"),
        }
    }

    fn cval(&mut self, cv: ConstValue, t: Ty<'tcx>) -> J {
        match cv {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                let v = if t.is_signed() { J::I(size.sign_extend(bits) as i128) } else { J::U(bits) };
                J::O(vec![("int", v), ("sz", J::U(size.bytes() as u128))])
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let a = self.alloc(prov.alloc_id());
                J::O(vec![("ptr", a), ("off", J::U(off.bytes() as u128))])
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                    let inner = m.inner();
                    let h = self.hex(inner, 0, None);
                    J::O(vec![("slice", h), ("len", J::U(meta as u128))])
                } else {
                    J::O(vec![("unknown", J::B(true))])
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                    let inner = m.inner();
                    let h = self.hex(inner, offset.bytes(), None);
                    J::O(vec![("mem", h)])
                } else {
                    J::O(vec![("unknown", J::B(true))])
                }
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("cp", self.place(p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(p))]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let mut v = vec![("ty", self.ty(t))];
                if let ty::FnDef(d, args) = t.kind() {
                    let args = args.skip_binder();
                    let d = *d;
                    v.push(("fn", self.callee(d, args, env, 0)));
                } else if let ty::Closure(d, args) = t.kind() {
                    v.push(("zst", J::B(true)));
                } else {
                    if let mir::Const::Unevaluated(uv, _) = c.const_ {
                        v.push(("def", s(path(self.tcx, uv.def))));
                        if let Some(p) = uv.promoted {
                            v.push(("promoted", u(p.as_usize())));
                        }
                    }
                    // the promoted constants of a default method's body belong to that body, even where the type has its own version
                    let mut r = None;
                    let mut done = false;
                    if let mir::Const::Unevaluated(uv, _) = c.const_ {
                        if uv.promoted.is_some() && self.tcx.trait_of_assoc(uv.def).is_some() {
                            done = true;
                            let eargs = self.tcx.erase_and_anonymize_regions(uv.args);
                            let inst = Instance::new_raw(uv.def, eargs);
                            if self.tcx.promoted_mir(uv.def).len() > uv.promoted.unwrap().as_usize() && !rustc_middle::ty::TypeVisitableExt::has_param(&eargs) {
                                let gid = mir::interpret::GlobalId { instance: inst, promoted: uv.promoted };
                                r = calm(|| self.tcx.const_eval_global_id(env, gid, c.span).ok()).flatten();
                            }
                        }
                    }
                    if !done { r = calm(|| c.const_.eval(self.tcx, env, c.span).ok()).flatten(); }
                    match r {
                        Some(cv) => v.push(("c", self.cval(cv, t))),
                        None => v.push(("c", J::O(vec![("unknown", J::B(true))]))),
                    }
                }
                J::O(vec![("k", J::O(v))])
            }
            _ => J::O(vec![("rt", s(format!("{:?}", o)))]),
        }
    }

    /// The slice iterators' own versions of the Iterator methods work on raw pointers; the trait's default bodies mean the same
    /// and only use next / next_back.
    fn plain(&self, d: DefId, args: GenericArgsRef<'tcx>, inst: Instance<'tcx>) -> Instance<'tcx> {
        let tcx = self.tcx;
        if tcx.trait_of_assoc(d).is_none() || args.is_empty() { return inst; }
        let rd = match inst.def { InstanceKind::Item(rd) => rd, _ => return inst };
        if rd == d || !tcx.is_mir_available(d) { return inst; }
        let n = tcx.item_name(d).to_string();
        if !["fold", "rfold", "for_each", "all", "any", "find", "find_map", "position", "rposition", "count", "last", "nth", "nth_back",
             "advance_by", "advance_back_by", "try_fold", "try_rfold"].contains(&n.as_str()) { return inst; }
        if let Some(t) = args[0].as_type() {
            if let ty::Adt(a, _) = t.kind() {
                let p = path(tcx, a.did());
                if p.ends_with("slice::Iter") || p.ends_with("slice::IterMut") {
                    return Instance::new_raw(d, args);
                }
            }
        }
        inst
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let mut v = vec![("path", s(path(tcx, d)))];
        let ga: Vec<J> = args.iter().map(|a| self.garg(a)).collect();
        v.push(("args", J::A(ga)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", s(path(tcx, tr))));
            v.push(("method", s(tcx.item_name(d).to_string())));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, env, d, eargs).map(|r| r.map(|i| self.plain(d, eargs, i))) {
            Ok(Some(inst)) => {
                match inst.def {
                    InstanceKind::Item(rd) => {
                        v.push(("rpath", s(if tcx.def_kind(rd) == DefKind::Closure { tcx.def_path_debug_str(rd) } else { path(tcx, rd) })));
                        if rd.is_local() { v.push(("local", J::B(true))); }
                        let k = self.inst_key(rd, inst.args);
                        v.push(("key", s(k)));
                        let ra: Vec<J> = inst.args.iter().map(|a| self.garg(a)).collect();
                        v.push(("rargs", J::A(ra)));
                        self.enqueue(inst, env, depth);
                    }
                    InstanceKind::Intrinsic(rd) => {
                        v.push(("rpath", s(path(tcx, rd))));
                        v.push(("intrinsic", s(tcx.item_name(rd).to_string())));
                    }
                    InstanceKind::Virtual(rd, _) => v.push(("virtual", s(path(tcx, rd)))),
                    InstanceKind::Shim(k) => {
                        v.push(("shim", s(format!("{:?}", k).chars().take(200).collect::<String>())));
                        if let ty::ShimKind::ClosureOnce { closure, .. } = k {
                            v.push(("closure_once", s(tcx.def_path_debug_str(closure))));
                        }
                    }
                    _ => {}
                }
            }
            _ => v.push(("unresolved", J::B(true))),
        }
        J::O(v)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![u(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), u(f.as_usize()), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), J::U(offset as u128), J::B(from_end), J::U(min_length as u128)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), J::U(from as u128), J::U(to as u128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), u(v.as_usize())]),
                ProjectionElem::OpaqueCast(t) => J::A(vec![s("oc"), self.ty(t)]),
                _ => s("?"),
            });
        }
        J::A(v)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let a = |v: Vec<J>| J::A(v);
        match r {
            Rvalue::Use(o, _) => a(vec![s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, n) => {
                let op = self.operand(o, env);
                let c = self.constval(*n);
                a(vec![s("repeat"), op, c])
            }
            Rvalue::Ref(_, bk, p) => a(vec![s("ref"), s(if bk.mutability().is_mut() { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::RawPtr(k, p) => a(vec![s("rawptr"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, self.tcx);
                let op = self.operand(o, env);
                let from = self.ty(ot);
                let to = self.ty(*t);
                a(vec![s("cast"), s(format!("{:?}", k)), op, from, to])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t0 = ops.0.ty(&body.local_decls, self.tcx);
                let l = self.operand(&ops.0, env);
                let r = self.operand(&ops.1, env);
                let t = self.ty(t0);
                a(vec![s("bin"), s(format!("{:?}", b)), l, r, t])
            }
            Rvalue::UnaryOp(b, o) => {
                let t0 = o.ty(&body.local_decls, self.tcx);
                let l = self.operand(o, env);
                let t = self.ty(t0);
                a(vec![s("un"), s(format!("{:?}", b)), l, t])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                a(vec![s("discr"), self.place(p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o: Vec<J> = vec![s("agg")];
                o.push(match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        J::A(vec![s("adt"), self.ty(t), u(v.as_usize()), match fi { Some(f) => u(f.as_usize()), None => J::Null }])
                    }
                    AggregateKind::Closure(d, args) => {
                        // make sure the closure body is dumped
                        let cargs = self.tcx.erase_and_anonymize_regions(*args);
                        let inst = Instance::new_raw(*d, cargs);
                        let key = self.inst_key(*d, cargs);
                        self.enqueue(inst, env, 0);
                        J::A(vec![s("closure"), s(key)])
                    }
                    AggregateKind::RawPtr(t, m) => J::A(vec![s("rawptr"), self.ty(*t), J::B(m.is_mut())]),
                    _ => J::A(vec![s("other")]),
                });
                let fs: Vec<J> = ops.iter().map(|x| self.operand(x, env)).collect();
                o.push(J::A(fs));
                a(o)
            }
            Rvalue::CopyForDeref(p) => a(vec![s("use"), J::O(vec![("cp", self.place(p))])]),
            _ => a(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn unwind(&self, uw: &UnwindAction) -> J {
        match uw {
            UnwindAction::Cleanup(b) => u(b.as_usize()),
            _ => J::Null,
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, depth: usize) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let key = self.inst_key(d, inst.args);
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone()))
        })) {
            Ok(b) => b,
            Err(_) => return,
        };
        let mut names: FxHashMap<usize, String> = Default::default();
        let mut upv: Vec<J> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if let Some(l) = p.as_local() {
                    names.insert(l.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, ld)| {
                let t = self.ty(ld.ty);
                J::A(vec![t, match names.get(&l.as_usize()) { Some(n) => s(n.clone()), None => J::Null }])
            })
            .collect();
        let mut blocks = vec![];
        for (bb, bd) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in bd.statements.iter() {
                let ln = self.line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, env, &body);
                        st.push(J::A(vec![s("="), p, r, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setd"), p, u(variant_index.as_usize()), ln]));
                    }
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), u(l.as_usize())])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), u(l.as_usize())])),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => { let o = self.operand(o, env); st.push(J::A(vec![s("assume"), o, ln])) }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let (x, y, z) = (self.operand(&c.src, env), self.operand(&c.dst, env), self.operand(&c.count, env));
                            st.push(J::A(vec![s("cno"), x, y, z, ln]))
                        }
                    },
                    _ => {}
                }
            }
            let t = bd.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), u(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::U(v), u(b.as_usize())])).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let o = self.operand(discr, env);
                    let dty = self.ty(dt);
                    J::A(vec![s("switch"), o, J::A(ts), u(targets.otherwise().as_usize()), dty, ln])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(place);
                    let ty = self.ty(pt);
                    let uw = self.unwind(unwind);
                    let needs = pt.needs_drop(tcx, env);
                    J::A(vec![s("drop"), p, u(target.as_usize()), uw, ty, J::B(needs), ln])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let f = if let ty::FnDef(fd, fargs) = ft.kind() {
                        let fargs = fargs.skip_binder();
                        self.callee(*fd, fargs, env, depth)
                    } else {
                        let o = self.operand(func, env);
                        J::O(vec![("ptr", o)])
                    };
                    let asj: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let ats: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t) }).collect();
                    let dst = self.place(destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dty = self.ty(dt);
                    let uw = self.unwind(unwind);
                    let fl = self.line(*fn_span);
                    J::O(vec![
                        ("call", f), ("a", J::A(asj)), ("at", J::A(ats)), ("d", dst), ("dt", dty),
                        ("t", match target { Some(b) => u(b.as_usize()), None => J::Null }), ("uw", uw), ("ln", fl),
                        ("macro", s(match t.source_info.span.ctxt().outer_expn_data().macro_def_id { Some(m) => path(tcx, m), None => String::new() })),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let o = self.operand(cond, env);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow_neg",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    let extra = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { let l = self.operand(len, env); let i = self.operand(index, env); J::A(vec![l, i]) }
                        AssertKind::Overflow(op, _, _) => s(format!("{:?}", op)),
                        _ => J::Null,
                    };
                    let uw = self.unwind(unwind);
                    J::A(vec![s("assert"), o, J::B(*expected), s(kind), u(target.as_usize()), uw, extra, ln])
                }
                TerminatorKind::InlineAsm { targets, .. } => J::A(vec![s("asm"), J::A(targets.iter().map(|b| u(b.as_usize())).collect()), ln]),
                k => J::A(vec![s("otherterm"), s(format!("{:?}", k).chars().take(100).collect::<String>())]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("c", J::B(bd.is_cleanup))]));
        }
        let mut o = vec![
            ("path", s(if tcx.def_kind(d) == DefKind::Closure { tcx.def_path_debug_str(d) } else { path(tcx, d) })),
            ("local", J::B(d.is_local())),
            ("argc", u(body.arg_count)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("span", self.span(body.span)),
            ("closure", J::B(tcx.def_kind(d) == DefKind::Closure)),
            ("identity", J::B(inst.args == tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d)))),
        ];
        if let Some(sp) = body.spread_arg { o.push(("spread", u(sp.as_usize()))); }
        if d.is_local() {
            let mut par = d;
            while tcx.def_kind(par) == DefKind::Closure { par = tcx.parent(par); }
            o.push(("owner", s(path(tcx, par))));
        }
        self.fns.push((key, J::O(o)));
    }
}

/// What the compiler cannot evaluate is unknown, not a reason to stop.
fn calm<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
