//! Dumps the monomorphic MIR reachable from the functions of a workspace crate as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER. No code of the analysed crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_infer;
extern crate rustc_trait_selection;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::{HashMap, HashSet};

struct Cb;

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    tqueue: Vec<(usize, Ty<'tcx>)>,
    insts: Vec<(String, J)>,
    iseen: HashSet<String>,
    queue: Vec<Instance<'tcx>>,
    statics: Vec<(String, J)>,
    sseen: HashSet<DefId>,
    ws: Vec<String>,
    vts: Vec<J>,
    vseen: HashSet<(Ty<'tcx>, Ty<'tcx>)>,
    cut: Vec<String>,
    cseen: HashSet<(usize, bool)>,
    caps: Vec<J>,
}

fn env() -> TypingEnv<'static> {
    TypingEnv::fully_monomorphized()
}

impl<'tcx> D<'tcx> {
    fn te(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }
    fn path(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.normalize_erasing_regions(self.te(), ty::Unnormalized::new_wip(t));
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert(t, i);
        self.tqueue.push((i, t));
        i
    }
    fn drain_types(&mut self) {
        while let Some((i, t)) = self.tqueue.pop() {
            let j = self.tyjson(t);
            self.types[i] = j;
        }
    }
    fn tyjson(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![];
        let mut p = |k: &str, v: J| o.push((k.to_string(), v));
        match t.kind() {
            ty::Bool => p("k", J::s("bool")),
            ty::Char => p("k", J::s("char")),
            ty::Str => p("k", J::s("str")),
            ty::Never => p("k", J::s("never")),
            ty::Int(_) | ty::Uint(_) => {
                p("k", J::s("int"));
                p("n", J::s(&t.to_string()));
            }
            ty::Float(_) => {
                p("k", J::s("float"));
                p("n", J::s(&t.to_string()));
            }
            ty::Ref(_, x, m) => {
                p("k", J::s("ref"));
                p("t", J::n(self.ty(*x)));
                p("mut", J::Bool(m.is_mut()));
            }
            ty::RawPtr(x, m) => {
                p("k", J::s("ptr"));
                p("t", J::n(self.ty(*x)));
                p("mut", J::Bool(m.is_mut()));
            }
            ty::Slice(x) => {
                p("k", J::s("slice"));
                p("t", J::n(self.ty(*x)));
            }
            ty::Array(x, n) => {
                p("k", J::s("array"));
                p("t", J::n(self.ty(*x)));
                p("len", J::n(n.try_to_target_usize(tcx).unwrap_or(0) as usize));
            }
            ty::Tuple(ts) => {
                p("k", J::s("tuple"));
                let v = ts.iter().map(|x| J::n(self.ty(x))).collect();
                p("ts", J::Arr(v));
            }
            ty::Adt(def, args) => {
                p("k", J::s("adt"));
                p("name", J::s(&self.path(def.did())));
                p(
                    "akind",
                    J::s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                );
                let a = args.types().map(|x| J::n(self.ty(x))).collect();
                p("args", J::Arr(a));
                let mut vs = vec![];
                let discrs: HashMap<_, _> = if def.is_enum() {
                    def.discriminants(tcx).map(|(i, d)| (i, d.val)).collect()
                } else {
                    HashMap::new()
                };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx
                            .try_normalize_erasing_regions(self.te(), ft)
                            .unwrap_or(tcx.types.unit);
                        fs.push(J::Obj(vec![
                            ("n".into(), J::s(f.name.as_str())),
                            ("t".into(), J::n(self.ty(ft))),
                        ]));
                    }
                    vs.push(J::Obj(vec![
                        ("name".into(), J::s(v.name.as_str())),
                        (
                            "d".into(),
                            J::Raw(discrs.get(&vi).map(|x| x.to_string()).unwrap_or("0".into())),
                        ),
                        ("fields".into(), J::Arr(fs)),
                    ]));
                }
                p("variants", J::Arr(vs));
                if self.ws.contains(&tcx.crate_name(def.did().krate).to_string()) && !t.has_param_like() {
                    if let Some(x) = def.destructor(tcx) {
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.te(), x.did, args) {
                            let k = self.inst(i);
                            p("drop", k);
                        }
                    }
                }
            }
            ty::FnDef(d, args) => {
                p("k", J::s("fndef"));
                p("name", J::s(&self.path(*d)));
                let args = args.no_bound_vars();
                if let Some(args) = args {
                    if !t.has_param_like() {
                        let c = self.callee(*d, args);
                        p("callee", c);
                    }
                }
            }
            ty::FnPtr(..) => p("k", J::s("fnptr")),
            ty::Dynamic(preds, _) => {
                p("k", J::s("dyn"));
                if let Some(x) = preds.principal_def_id() {
                    p("name", J::s(&self.path(x)));
                }
            }
            ty::Closure(d, args) => {
                p("k", J::s("closure"));
                p("name", J::s(&self.path(*d)));
                let inst = Instance::new_raw(*d, args);
                let key = self.inst(inst);
                p("body", key);
                let ck = args.as_closure().kind();
                p("ck", J::s(&format!("{:?}", ck)));
                let v = args.as_closure().upvar_tys().iter().map(|x| J::n(self.ty(x))).collect();
                p("ts", J::Arr(v));
            }
            ty::Foreign(_) => p("k", J::s("foreign")),
            _ => {
                p("k", J::s("other"));
            }
        }
        p("s", J::s(&format!("{}", t)));
        if let Ok(l) = tcx.layout_of(self.te().as_query_input(t)) {
            if l.is_sized() {
                p("size", J::n(l.size.bytes() as usize));
                p("align", J::n(l.align.abi.bytes() as usize));
            }
        }
        J::Obj(o)
    }

    /// Trait methods of `t` that library models may need without a call site naming them.
    fn want(&mut self, t: Ty<'tcx>, iter: bool) {
        let i = self.ty(t);
        if !self.cseen.insert((i, iter)) {
            return;
        }
        let c = self.caps(t, iter);
        if !c.is_empty() {
            self.caps.push(J::Arr(vec![J::n(i), J::Obj(c)]));
        }
    }
    fn caps(&mut self, t: Ty<'tcx>, iter: bool) -> Vec<(String, J)> {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let tcx = self.tcx;
        let mut r = vec![];
        if !matches!(
            t.kind(),
            ty::Adt(..) | ty::Ref(..) | ty::Tuple(..) | ty::Array(..) | ty::Closure(..)
        ) {
            return r;
        }
        if t.has_param_like() {
            return r;
        }
        let local = match t.kind() {
            ty::Adt(d, _) => {
                let c = tcx.crate_name(d.did().krate).to_string();
                self.ws.contains(&c) || c == "core" || c == "alloc" || c == "std"
            }
            _ => true,
        };
        if !local {
            return r;
        }
        let list: [(&str, &str); 10] = [
            ("Iterator", "next"),
            ("DoubleEndedIterator", "next_back"),
            ("IntoIterator", "into_iter"),
            ("Clone", "clone"),
            ("PartialEq", "eq"),
            ("Ord", "cmp"),
            ("PartialOrd", "partial_cmp"),
            ("Default", "default"),
            ("Display", "fmt"),
            ("Debug", "fmt"),
        ];
        for (tn, m) in list {
            if iter != matches!(m, "next" | "next_back" | "into_iter") {
                continue;
            }
            let Some(td) = tcx
                .get_diagnostic_item(rustc_span::Symbol::intern(tn))
                .or_else(|| match tn {
                    "DoubleEndedIterator" => None,
                    _ => None,
                })
            else {
                continue;
            };
            let adt_only = matches!(tn, "Clone" | "PartialEq" | "Ord" | "PartialOrd" | "Default" | "Display" | "Debug");
            if adt_only && matches!(t.kind(), ty::Ref(..) | ty::Closure(..)) {
                continue;
            }
            if adt_only {
                if let ty::Adt(d, _) = t.kind() {
                    let c = tcx.crate_name(d.did().krate).to_string();
                    if !(self.ws.contains(&c)
                        || tn != "Debug" && matches!(
                            tcx.item_name(d.did()).as_str(),
                            "Vec" | "String" | "Option" | "Rc" | "Box" | "NonZero" | "Cow" | "Result" | "Arc"
                        ))
                    {
                        continue;
                    }
                }
            }
            let n = tcx.generics_of(td).count();
            let args: Vec<ty::GenericArg<'tcx>> =
                if n == 2 { vec![t.into(), t.into()] } else { vec![t.into()] };
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            let ok = infcx
                .type_implements_trait(td, args.iter().copied(), ty::ParamEnv::empty())
                .must_apply_modulo_regions();
            drop(infcx);
            if !ok {
                continue;
            }
            let Some(md) = tcx
                .associated_items(td)
                .in_definition_order()
                .find(|i| i.opt_name().map(|x| x.as_str() == m).unwrap_or(false))
                .map(|i| i.def_id)
            else {
                continue;
            };
            let ga = tcx.mk_args(&args);
            let Ok(ga) = tcx.try_normalize_erasing_regions(self.te(), ty::Unnormalized::new_wip(ga)) else {
                continue;
            };
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.te(), md, ga) {
                let k = self.inst(i);
                if m == "into_iter" {
                    let sig = tcx.fn_sig(md).instantiate(tcx, ga).skip_norm_wip();
                    let o = tcx
                        .try_normalize_erasing_regions(self.te(), ty::Unnormalized::new_wip(tcx.instantiate_bound_regions_with_erased(sig).output()));
                    if let Ok(o) = o {
                        if o != t {
                            self.want(o, true);
                        }
                    }
                }
                r.push((format!("{}", if tn == "Display" { "display" } else if tn == "Debug" { "debug" } else { m }), k));
            }
        }
        // <T as Hash>::hash::<DefaultHasher> of workspace types: keys of maps and sets
        if !iter {
            if let ty::Adt(d, _) = t.kind() {
                if self.ws.contains(&tcx.crate_name(d.did().krate).to_string()) {
                    if let (Some(td), Some(h)) = (tcx.get_diagnostic_item(rustc_span::Symbol::intern("Hash")), self.hasher()) {
                        let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                        let ok = infcx
                            .type_implements_trait(td, [ty::GenericArg::from(t)], ty::ParamEnv::empty())
                            .must_apply_modulo_regions();
                        drop(infcx);
                        let md = tcx
                            .associated_items(td)
                            .in_definition_order()
                            .find(|i| i.opt_name().map(|x| x.as_str() == "hash").unwrap_or(false))
                            .map(|i| i.def_id);
                        if let (true, Some(md)) = (ok, md) {
                            let ga = tcx.mk_args(&[t.into(), h.into()]);
                            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.te(), md, ga) {
                                let k = self.inst(i);
                                r.push(("hash".to_string(), k));
                            }
                        }
                    }
                }
            }
        }
        r
    }

    /// std::hash::DefaultHasher
    fn hasher(&self) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        let std = tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == "std")?;
        let child = |m: DefId, n: &str| {
            tcx.module_children(m).iter().find(|c| c.ident.name.as_str() == n).and_then(|c| c.res.opt_def_id())
        };
        let d = child(child(std.as_def_id(), "hash")?, "DefaultHasher")?;
        Some(tcx.type_of(d).instantiate_identity().skip_norm_wip())
    }

    fn key(&self, i: Instance<'tcx>) -> String {
        self.tcx.symbol_name(i).name.to_string()
    }

    /// Reference to an instance; queues its body. Returns the key.
    fn inst(&mut self, i: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Intrinsic(d) | InstanceKind::LlvmIntrinsic(d) => {
                // an intrinsic may have a fallback body
                let k = format!("intrinsic:{}<{:?}>", self.path(d), i.args);
                if self.iseen.insert(k.clone()) {
                    let mut m = self.meta(i);
                    m.push(("intrinsic".into(), J::s(tcx.item_name(d).as_str())));
                    self.insts.push((k.clone(), J::Obj(m)));
                }
                return J::s(&k);
            }
            InstanceKind::Virtual(d, n) => {
                let k = format!("virtual:{}:{}", self.path(d), n);
                if self.iseen.insert(k.clone()) {
                    let o = vec![
                        ("virtual".to_string(), J::n(n)),
                        ("name".to_string(), J::s(&self.path(d))),
                        ("item".to_string(), J::s(tcx.item_name(d).as_str())),
                    ];
                    self.insts.push((k.clone(), J::Obj(o)));
                }
                return J::s(&k);
            }
            _ => {}
        }
        let k = self.key(i);
        if self.iseen.insert(k.clone()) {
            self.queue.push(i);
        }
        J::s(&k)
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        match Instance::try_resolve(self.tcx, self.te(), d, args) {
            Ok(Some(i)) => self.inst(i),
            _ => J::s(&format!("unresolved:{}", self.path(d))),
        }
    }

    fn meta(&mut self, i: Instance<'tcx>) -> Vec<(String, J)> {
        let tcx = self.tcx;
        let d = i.def_id();
        let mut o: Vec<(String, J)> = vec![];
        o.push(("name".into(), J::s(&self.path(d))));
        o.push(("disp".into(), J::s(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", i)))));
        o.push(("crate".into(), J::s(tcx.crate_name(d.krate).as_str())));
        let shim = match i.def {
            InstanceKind::Shim(s) => {
                let s = format!("{:?}", s);
                Some(s.split(|c| c == '(' || c == ' ').next().unwrap().to_string())
            }
            _ => None,
        };
        if let Some(s) = shim {
            o.push(("shim".into(), J::s(&s)));
        }
        if let Some(n) = tcx.opt_item_name(d) {
            o.push(("item".into(), J::s(n.as_str())));
        }
        let a = i.args.types().map(|x| J::n(self.ty(x))).collect();
        o.push(("args".into(), J::Arr(a)));
        if let Some(n) = tcx.opt_item_name(d) {
            let it = matches!(
                n.as_str(),
                "from_iter" | "extend" | "append" | "concat" | "join" | "eq_by" | "sum" | "product" | "extend_from_slice"
            );
            let k = tcx.crate_name(d.krate);
            let std = matches!(k.as_str(), "core" | "alloc" | "std");
            if std {
                for x in i.args.types() {
                    if it {
                        self.want(x, true);
                    }
                    if matches!(
                        n.as_str(),
                        "clone" | "to_vec" | "eq" | "ne" | "contains" | "cmp" | "sort" | "or_default" | "unwrap_or_default"
                        | "dedup" | "starts_with" | "ends_with" | "extend_from_slice" | "to_owned" | "clone_from" | "repeat"
                        | "sort_unstable" | "max" | "min" | "insert" | "get" | "contains_key" | "binary_search" | "remove" | "entry"
                        | "resize" | "to_string" | "take" | "default" | "join" | "concat" | "cloned" | "partial_cmp"
                        | "lt" | "le" | "gt" | "ge" | "new_display" | "new_debug" | "unwrap" | "expect" | "unwrap_err" | "expect_err"
                    ) {
                        let mut x = x;
                        while let ty::Ref(_, y, _) = x.kind() {
                            self.want(x, false);
                            x = *y;
                        }
                        self.want(x, false);
                    }
                }
            }
        }
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let n = match st.kind() {
                        ty::Adt(def, _) => self.path(def.did()),
                        ty::Ref(_, x, _) => match x.kind() {
                            ty::Adt(def, _) => format!("&{}", self.path(def.did())),
                            _ => format!("&{}", x),
                        },
                        ty::Slice(_) => "[T]".into(),
                        ty::Array(..) => "[T; N]".into(),
                        _ => format!("{}", st),
                    };
                    o.push(("self".into(), J::s(&n)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).skip_binder();
                        o.push(("trait".into(), J::s(&self.path(tr.def_id))));
                    }
                }
                DefKind::Trait => {
                    o.push(("trait".into(), J::s(&self.path(p))));
                    if i.args.types().next().is_some() {
                        let st = i.args.type_at(0);
                        let n = match st.kind() {
                            ty::Adt(def, _) => self.path(def.did()),
                            ty::Ref(_, x, _) => match x.kind() {
                                ty::Adt(def, _) => format!("&{}", self.path(def.did())),
                                _ => format!("&{}", x),
                            },
                            ty::Slice(_) => "[T]".into(),
                            ty::Array(..) => "[T; N]".into(),
                            _ => format!("{}", st),
                        };
                        o.push(("self".into(), J::s(&n)));
                        o.push(("provided".into(), J::Bool(true)));
                    }
                }
                _ => {}
            }
        }
        o
    }

    fn loc(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        J::Arr(vec![J::s(&l.file.name.prefer_local_unconditionally().to_string()), J::n(l.line)])
    }

    fn descend(&self, i: Instance<'tcx>) -> bool {
        let d = i.def_id();
        let c = self.tcx.crate_name(d.krate);
        let c = c.as_str();
        if !(self.ws.iter().any(|w| w == c) || c == "core" || c == "alloc") {
            return false;
        }
        if matches!(i.def, InstanceKind::Shim(ty::ShimKind::DropGlue(..))) {
            return false;
        }
        let p = self.path(d);
        if self.cut.iter().any(|x| p.starts_with(x.as_str())) {
            return false;
        }
        true
    }

    fn run_inst(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let k = self.key(i);
        let mut o = self.meta(i);
        let mut has_body = false;
        if self.descend(i) {
            let d = i.def_id();
            has_body = match i.def {
                InstanceKind::Item(_) => {
                    (tcx.is_constructor(d) || tcx.is_mir_available(d))
                        && matches!(
                            tcx.def_kind(d),
                            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)
                        )
                        && !tcx.is_foreign_item(d)
                }
                InstanceKind::Shim(_) => true,
                _ => false,
            };
        }
        if has_body {
            let body = tcx.instance_mir(i.def);
            o.push(("span".into(), self.loc(body.span)));
            let body = i.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.te(),
                ty::EarlyBinder::bind(tcx, body.clone()),
            );
            let b = self.body(&body);
            o.push(("body".into(), b));
        }
        self.insts.push((k, J::Obj(o)));
    }

    fn body(&mut self, b: &mir::Body<'tcx>) -> J {
        let locals = b.local_decls.iter().map(|l| J::n(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::Arr(vec![J::n(p.local.as_usize()), J::s(v.name.as_str())]));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        let pj = self.place(p);
                        let rj = self.rvalue(r, b);
                        ss.push(J::Arr(vec![J::s("="), pj, rj]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        ss.push(J::Arr(vec![J::s("sd"), pj, J::n(variant_index.as_usize())]));
                    }
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(_) => {}
                        _ => ss.push(J::Arr(vec![J::s("intr"), J::s(&format!("{:?}", i))])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tj = self.term(t, b);
            blocks.push(J::Arr(vec![J::Arr(ss), tj, J::Bool(bb.is_cleanup)]));
        }
        J::Obj(vec![
            ("argc".into(), J::n(b.arg_count)),
            ("spread".into(), b.spread_arg.map(|l| J::n(l.as_usize())).unwrap_or(J::Null)),
            ("locals".into(), J::Arr(locals)),
            ("names".into(), J::Arr(names)),
            ("blocks".into(), J::Arr(blocks)),
        ])
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => J::s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    J::Arr(vec![J::s("f"), J::n(f.as_usize()), J::n(self.ty(t))])
                }
                mir::ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => J::Arr(vec![
                    J::s("ci"),
                    J::n(offset as usize),
                    J::Bool(from_end),
                ]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    J::s("ss"),
                    J::n(from as usize),
                    J::n(to as usize),
                    J::Bool(from_end),
                ]),
                mir::ProjectionElem::Downcast(_, vi) => {
                    J::Arr(vec![J::s("v"), J::n(vi.as_usize())])
                }
                _ => J::Arr(vec![J::s("cast")]),
            });
        }
        J::Arr(vec![J::n(p.local.as_usize()), J::Arr(v)])
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(p)]),
            mir::Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(p)]),
            mir::Operand::Constant(c) => J::Arr(vec![J::s("k"), self.constant(c)]),
            mir::Operand::RuntimeChecks(_) => {
                let t = self.ty(self.tcx.types.bool);
                J::Arr(vec![
                    J::s("k"),
                    J::Obj(vec![("t".into(), J::n(t)), ("v".into(), J::Arr(vec![J::s("i"), J::n(0)]))]),
                ])
            }
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("t".to_string(), J::n(tj))];
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("name".into(), J::s(&self.path(u.def))));
            }
        }
        if matches!(t.kind(), ty::FnDef(..)) {
            o.push(("v".into(), J::Arr(vec![J::s("z")])));
            return J::Obj(o);
        }
        let v = match c.const_.eval(self.tcx, self.te(), c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => J::Arr(vec![J::s("?"), J::s("eval")]),
        };
        o.push(("v".into(), v));
        J::Obj(o)
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::Arr(vec![J::s("?"), J::s("depth")]);
        }
        match v {
            ConstValue::ZeroSized => match t.kind() {
                ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.destr(v, t, depth),
                _ => J::Arr(vec![J::s("z")]),
            },
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Int(_) => {
                    let sz = i.size();
                    J::Arr(vec![J::s("i"), J::Raw(i.to_int(sz).to_string())])
                }
                ty::Uint(_) | ty::Bool | ty::Char => {
                    let sz = i.size();
                    J::Arr(vec![J::s("i"), J::Raw(i.to_uint(sz).to_string())])
                }
                ty::Float(_) => {
                    let sz = i.size();
                    J::Arr(vec![J::s("flt"), J::Raw(i.to_uint(sz).to_string())])
                }
                ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.destr(v, t, depth),
                _ => {
                    let sz = i.size();
                    J::Arr(vec![J::s("i"), J::Raw(i.to_uint(sz).to_string())])
                }
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Function { instance } => {
                        let k = self.inst(instance);
                        J::Arr(vec![J::s("fn"), k])
                    }
                    GlobalAlloc::Static(d) => {
                        self.stat(d);
                        J::Arr(vec![J::s("static"), J::s(&self.path(d))])
                    }
                    GlobalAlloc::Memory(_) => match t.kind() {
                        ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                            let inner = self.cval(
                                ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off },
                                *x,
                                depth + 1,
                            );
                            J::Arr(vec![J::s("ref"), inner, J::n(self.ty(*x))])
                        }
                        _ => self.destr(v, t, depth),
                    },
                    _ => J::Arr(vec![J::s("?"), J::s("alloc")]),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let elem = match t.kind() {
                    ty::Ref(_, x, _) | ty::RawPtr(x, _) => *x,
                    _ => return J::Arr(vec![J::s("?"), J::s("slice")]),
                };
                self.slice(alloc_id, rustc_abi::Size::ZERO, meta, elem, depth)
            }
            ConstValue::Indirect { alloc_id, offset } => match t.kind() {
                ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.destr(v, t, depth),
                ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                    let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                        return J::Arr(vec![J::s("?"), J::s("indirect")]);
                    };
                    let ps = tcx.data_layout.pointer_size();
                    let r = a.inner().read_scalar(
                        &tcx,
                        mir::interpret::alloc_range(offset, ps),
                        true,
                    );
                    let Ok(s) = r else { return J::Arr(vec![J::s("?"), J::s("rd")]) };
                    match x.kind() {
                        ty::Str | ty::Slice(_) => {
                            let Ok(l) = a.inner().read_scalar(
                                &tcx,
                                mir::interpret::alloc_range(offset + ps, ps),
                                false,
                            ) else {
                                return J::Arr(vec![J::s("?"), J::s("rd")]);
                            };
                            let Scalar::Int(l) = l else { return J::Arr(vec![J::s("?")]) };
                            let len = l.to_uint(ps) as u64;
                            match s {
                                Scalar::Ptr(p, _) => {
                                    let (prov, off) = p.into_raw_parts();
                                    self.slice(prov.alloc_id(), off, len, *x, depth)
                                }
                                _ => J::Arr(vec![J::s("sl"), J::Arr(vec![])]),
                            }
                        }
                        ty::Dynamic(..) => J::Arr(vec![J::s("?"), J::s("dyn")]),
                        _ => self.cval(ConstValue::Scalar(s), t, depth + 1),
                    }
                }
                ty::FnPtr(..) | ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                    let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else {
                        return J::Arr(vec![J::s("?"), J::s("indirect")]);
                    };
                    let Ok(l) = tcx.layout_of(self.te().as_query_input(t)) else {
                        return J::Arr(vec![J::s("?")]);
                    };
                    let r = a.inner().read_scalar(
                        &tcx,
                        mir::interpret::alloc_range(offset, l.size),
                        matches!(t.kind(), ty::FnPtr(..)),
                    );
                    match r {
                        Ok(s) => self.cval(ConstValue::Scalar(s), t, depth + 1),
                        Err(_) => J::Arr(vec![J::s("?"), J::s("rd")]),
                    }
                }
                ty::Str => J::Arr(vec![J::s("?"), J::s("str")]),
                _ => J::Arr(vec![J::s("z")]),
            },
        }
    }

    fn slice(
        &mut self,
        id: mir::interpret::AllocId,
        off: rustc_abi::Size,
        len: u64,
        pointee: Ty<'tcx>,
        depth: usize,
    ) -> J {
        let tcx = self.tcx;
        let GlobalAlloc::Memory(a) = tcx.global_alloc(id) else {
            return J::Arr(vec![J::s("?"), J::s("slicealloc")]);
        };
        match pointee.kind() {
            ty::Str => {
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                    off.bytes_usize()..off.bytes_usize() + len as usize,
                );
                J::Arr(vec![J::s("s"), J::s(&String::from_utf8_lossy(b))])
            }
            ty::Slice(e) => {
                let Ok(l) = tcx.layout_of(self.te().as_query_input(*e)) else {
                    return J::Arr(vec![J::s("?")]);
                };
                let mut v = vec![];
                for i in 0..len {
                    v.push(self.cval(
                        ConstValue::Indirect { alloc_id: id, offset: off + l.size * i },
                        *e,
                        depth + 1,
                    ));
                }
                J::Arr(vec![J::s("sl"), J::Arr(v)])
            }
            _ => J::Arr(vec![J::s("?"), J::s("slicety")]),
        }
    }

    fn destr(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if let ty::Pat(b, _) = t.kind() {
            return self.cval(v, *b, depth + 1);
        }
        if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
            return J::Arr(vec![J::s("?"), J::s("kind")]);
        }
        if let ty::Adt(d, _) = t.kind() {
            if d.is_union() || d.variants().is_empty() {
                return J::Arr(vec![J::s("?"), J::s("union")]);
            }
        }
        match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                let fs = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                J::Arr(vec![J::s("agg"), J::n(vi), J::Arr(fs)])
            }
            None => J::Arr(vec![J::s("?"), J::s("destr")]),
        }
    }

    fn stat(&mut self, d: DefId) {
        if !self.sseen.insert(d) {
            return;
        }
        let p = self.path(d);
        if self.tcx.is_foreign_item(d) || self.tcx.is_thread_local_static(d) {
            return;
        }
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let tj = self.ty(t);
        let v = match self.tcx.eval_static_initializer(d) {
            Ok(_) => {
                if let Ok(a) = self.tcx.eval_static_initializer(d) {
                    let id = self.tcx.reserve_and_set_memory_alloc(a);
                    self.cval(
                        ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO },
                        t,
                        0,
                    )
                } else {
                    J::Null
                }
            }
            Err(_) => J::Null,
        };
        self.statics.push((
            p,
            J::Obj(vec![("t".into(), J::n(tj)), ("v".into(), v)]),
        ));
    }

    fn unsize_pair(&self, s: Ty<'tcx>, d: Ty<'tcx>) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
        match (s.kind(), d.kind()) {
            (
                ty::Ref(_, a, _) | ty::RawPtr(a, _),
                ty::Ref(_, b, _) | ty::RawPtr(b, _),
            ) => Some((*a, *b)),
            (ty::Adt(x, a), ty::Adt(y, b)) if x.did() == y.did() => {
                Some((a.types().next()?, b.types().next()?))
            }
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, b: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(o, _) => J::Arr(vec![J::s("use"), self.operand(o)]),
            mir::Rvalue::Repeat(o, n) => J::Arr(vec![
                J::s("rep"),
                self.operand(o),
                J::n(n.try_to_target_usize(tcx).unwrap_or(0) as usize),
            ]),
            mir::Rvalue::Ref(_, k, p) => J::Arr(vec![
                J::s("ref"),
                self.place(p),
                J::Bool(matches!(k, mir::BorrowKind::Mut { .. })),
            ]),
            mir::Rvalue::Reborrow(_, _, p) => {
                J::Arr(vec![J::s("use"), J::Arr(vec![J::s("c"), self.place(p)])])
            }
            mir::Rvalue::ThreadLocalRef(d) => {
                J::Arr(vec![J::s("tls"), J::s(&self.path(*d))])
            }
            mir::Rvalue::RawPtr(_, p) => J::Arr(vec![J::s("ref"), self.place(p), J::Bool(true)]),
            mir::Rvalue::Cast(k, o, t) => {
                let st = o.ty(b, tcx);
                let mut ks = format!("{:?}", k);
                if let mir::CastKind::PointerCoercion(pc, _) = k {
                    ks = format!("{:?}", pc);
                    if matches!(pc, ty::adjustment::PointerCoercion::Unsize) {
                        if let Some((a, bt)) = self.unsize_pair(st, *t) {
                            let tail = tcx.struct_lockstep_tails_for_codegen(a, bt, self.te());
                            self.vtable(tail.0, tail.1);
                        }
                    }
                    if let ty::adjustment::PointerCoercion::ReifyFnPointer(_) = pc {
                        ks = "Reify".into();
                        if let ty::FnDef(d, args) = st.kind() {
                            if let Some(args) = args.no_bound_vars() {
                                if let Some(i) =
                                    Instance::resolve_for_fn_ptr(tcx, self.te(), *d, args)
                                {
                                    let k = self.inst(i);
                                    return J::Arr(vec![J::s("fnp"), k]);
                                }
                            }
                        }
                    }
                    if let ty::adjustment::PointerCoercion::ClosureFnPointer(_) = pc {
                        if let ty::Closure(d, args) = st.kind() {
                            let i = Instance::resolve_closure(
                                tcx,
                                *d,
                                args,
                                ty::ClosureKind::FnOnce,
                            );
                            let k = self.inst(i);
                            return J::Arr(vec![J::s("fnp"), k]);
                        }
                    }
                }
                let oj = self.operand(o);
                J::Arr(vec![J::s("cast"), J::s(&ks), oj, J::n(self.ty(st)), J::n(self.ty(*t))])
            }
            mir::Rvalue::BinaryOp(op, x) => {
                let t = x.0.ty(b, tcx);
                J::Arr(vec![
                    J::s("bin"),
                    J::s(&format!("{:?}", op)),
                    self.operand(&x.0),
                    self.operand(&x.1),
                    J::n(self.ty(t)),
                ])
            }
            mir::Rvalue::UnaryOp(op, x) => {
                let t = x.ty(b, tcx);
                J::Arr(vec![J::s("un"), J::s(&format!("{:?}", op)), self.operand(x), J::n(self.ty(t))])
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(b, tcx).ty;
                J::Arr(vec![J::s("discr"), self.place(p), J::n(self.ty(t))])
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let (n, vi) = match &**k {
                    mir::AggregateKind::Array(_) => ("array", 0),
                    mir::AggregateKind::Tuple => ("tuple", 0),
                    mir::AggregateKind::Adt(_, vi, ..) => ("adt", vi.as_usize()),
                    mir::AggregateKind::Closure(..) => ("closure", 0),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                let t = r.ty(b, tcx);
                J::Arr(vec![J::s("agg"), J::s(n), J::n(vi), J::Arr(v), J::n(self.ty(t))])
            }
            mir::Rvalue::CopyForDeref(p) => {
                J::Arr(vec![J::s("use"), J::Arr(vec![J::s("c"), self.place(p)])])
            }
            mir::Rvalue::WrapUnsafeBinder(o, _) => J::Arr(vec![J::s("use"), self.operand(o)]),
        }
    }

    fn vtable(&mut self, a: Ty<'tcx>, d: Ty<'tcx>) {
        let tcx = self.tcx;
        let ty::Dynamic(preds, _) = d.kind() else { return };
        if matches!(a.kind(), ty::Dynamic(..)) {
            return;
        }
        if !self.vseen.insert((a, d)) {
            return;
        }
        let mut es = vec![];
        if let Some(pr) = preds.principal() {
            let pr = pr.skip_binder().with_self_ty(tcx, a);
            let pr = tcx.erase_and_anonymize_regions(pr);
            for e in tcx.vtable_entries(pr) {
                es.push(match e {
                    ty::VtblEntry::Method(i) => {
                        let i = *i;
                        self.inst(i)
                    }
                    _ => J::Null,
                });
            }
        }
        let ta = self.ty(a);
        let td = self.ty(d);
        self.vts.push(J::Arr(vec![J::n(ta), J::n(td), J::Arr(es)]));
    }

    fn term(&mut self, t: &mir::Terminator<'tcx>, b: &mir::Body<'tcx>) -> J {
        use mir::TerminatorKind::*;
        let tcx = self.tcx;
        match &t.kind {
            Goto { target, .. } => J::Arr(vec![J::s("goto"), J::n(target.as_usize())]),
            SwitchInt { discr, targets } => {
                let ty = discr.ty(b, tcx);
                let size = tcx
                    .layout_of(self.te().as_query_input(ty))
                    .map(|l| l.size)
                    .unwrap_or(rustc_abi::Size::from_bits(128));
                let v = targets
                    .iter()
                    .map(|(x, bb)| {
                        let s = if ty.is_signed() {
                            size.sign_extend(x).to_string()
                        } else {
                            x.to_string()
                        };
                        J::Arr(vec![J::Raw(s), J::n(bb.as_usize())])
                    })
                    .collect();
                J::Arr(vec![
                    J::s("switch"),
                    self.operand(discr),
                    J::Arr(v),
                    J::n(targets.otherwise().as_usize()),
                    J::n(self.ty(ty)),
                ])
            }
            UnwindResume => J::Arr(vec![J::s("resume")]),
            UnwindTerminate(_) => J::Arr(vec![J::s("abort")]),
            Return => J::Arr(vec![J::s("ret")]),
            Unreachable => J::Arr(vec![J::s("unreachable")]),
            Drop { place, target, .. } => {
                let ty = place.ty(b, tcx).ty;
                J::Arr(vec![
                    J::s("drop"),
                    self.place(place),
                    J::n(target.as_usize()),
                    J::n(self.ty(ty)),
                ])
            }
            Call { func, args, destination, target, fn_span, .. } => {
                let f = self.operand(func);
                let fty = func.ty(b, tcx);
                let mut c = J::Null;
                if let ty::FnDef(d, a) = fty.kind() {
                    if let Some(a) = a.no_bound_vars() {
                        c = self.callee(*d, a);
                    }
                }
                let av = args.iter().map(|x| self.operand(&x.node)).collect();
                let ats = args.iter().map(|x| J::n(self.ty(x.node.ty(b, tcx)))).collect();
                J::Arr(vec![
                    J::s("call"),
                    c,
                    f,
                    J::Arr(av),
                    self.place(destination),
                    target.map(|t| J::n(t.as_usize())).unwrap_or(J::Null),
                    self.loc(*fn_span),
                    J::Arr(ats),
                ])
            }
            TailCall { .. } => J::Arr(vec![J::s("tailcall")]),
            Assert { cond, expected, msg, target, .. } => {
                let k = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    mir::AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                    mir::AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                    mir::AssertKind::DivisionByZero(_) | mir::AssertKind::RemainderByZero(_) => {
                        "divzero".to_string()
                    }
                    _ => "other".to_string(),
                };
                J::Arr(vec![
                    J::s("assert"),
                    self.operand(cond),
                    J::Bool(*expected),
                    J::s(&k),
                    J::n(target.as_usize()),
                    self.loc(t.source_info.span),
                ])
            }
            FalseEdge { real_target, .. } => {
                J::Arr(vec![J::s("goto"), J::n(real_target.as_usize())])
            }
            FalseUnwind { real_target, .. } => {
                J::Arr(vec![J::s("goto"), J::n(real_target.as_usize())])
            }
            _ => J::Arr(vec![J::s("unsupported")]),
        }
    }
}

trait HasParamLike {
    fn has_param_like(&self) -> bool;
}
impl<'tcx> HasParamLike for Ty<'tcx> {
    fn has_param_like(&self) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        self.has_param()
    }
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let _ = env();
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let ws: Vec<String> = std::env::var("MIRDUMP_WS")
            .unwrap_or_default()
            .split(',')
            .map(|s| s.to_string())
            .collect();
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if !ws.contains(&krate) {
            return Compilation::Continue;
        }
        let cut: Vec<String> = std::env::var("MIRDUMP_CUT")
            .unwrap_or_default()
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|s| s.to_string())
            .collect();
        let mut d = D {
            tcx,
            types: vec![],
            tmap: HashMap::new(),
            tqueue: vec![],
            insts: vec![],
            iseen: HashSet::new(),
            queue: vec![],
            statics: vec![],
            sseen: HashSet::new(),
            ws,
            vts: vec![],
            vseen: HashSet::new(),
            cut,
            cseen: HashSet::new(),
            caps: vec![],
        };
        let mut roots = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let dk = tcx.def_kind(did);
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                continue;
            }
            let i = Instance::mono(tcx, did);
            roots.push(d.inst(i));
        }
        while let Some(i) = d.queue.pop() {
            d.run_inst(i);
            d.drain_types();
        }
        d.drain_types();
        while let Some(i) = d.queue.pop() {
            d.run_inst(i);
            d.drain_types();
        }
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
        let kind = if is_bin { "bin" } else { "lib" };
        let j = J::Obj(vec![
            ("crate".into(), J::s(&krate)),
            ("kind".into(), J::s(kind)),
            ("types".into(), J::Arr(d.types)),
            ("insts".into(), J::Obj(d.insts)),
            ("statics".into(), J::Obj(d.statics)),
            ("caps".into(), J::Arr(d.caps)),
            ("vtables".into(), J::Arr(d.vts)),
            ("roots".into(), J::Arr(roots)),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        let f = format!("{}/{}.{}.json", out, krate, kind);
        std::fs::write(format!("{f}.tmp"), s).unwrap();
        std::fs::rename(format!("{f}.tmp"), f).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        if std::env::var_os("MIRDUMP_RELEASE").is_some() {
            args.push("-Cdebug-assertions=off".into());
            args.push("-Coverflow-checks=off".into());
        }
    }
    rustc_driver::install_ice_hook("", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
