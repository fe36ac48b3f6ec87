//! Dumps the type-checked program (mir_built + item tables) of the crate being compiled as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo check`; writes $FACTS_DIR/<crate>.<type>.json.
//! Nothing of the analysed program is executed (apart from rustc's own evaluation of `const` items).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use serde_json::{json, Map, Value as J};
use std::collections::BTreeMap;

struct Dump;

fn tystr(t: Ty<'_>) -> String {
    with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t))))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    consts: BTreeMap<String, J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::String(format!("{}:{}", f, lo.line))
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out: Vec<J> = vec![json!(p.local.as_u32())];
        for el in p.projection.iter() {
            let j = match el {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(f, _) => {
                    let mut name = J::Null;
                    match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_union() || v.as_usize() < def.variants().len() {
                                let vd = def.variant(v);
                                if f.as_usize() < vd.fields.len() {
                                    name = json!(vd.fields[f].name.to_string());
                                }
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            if let Some(l) = d.as_local() {
                                let names = self.tcx.closure_saved_names_of_captured_variables(l.to_def_id());
                                if f.as_usize() < names.len() {
                                    name = json!(names[f].to_string());
                                }
                            }
                        }
                        _ => {}
                    }
                    json!({"f": f.as_u32(), "n": name})
                }
                ProjectionElem::Index(l) => json!({"idx": l.as_u32()}),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    json!({"cidx": offset, "from_end": from_end, "min": min_length})
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    json!({"sub": [from, to], "from_end": from_end})
                }
                ProjectionElem::Downcast(name, v) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(def, _) if def.is_enum() => def.variant(v).name.to_string(),
                        _ => name.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    json!({"v": v.as_u32(), "n": nm})
                }
                _ => json!("~"),
            };
            out.push(j);
            pt = pt.projection_ty(self.tcx, el);
        }
        J::Array(out)
    }

    fn slice_bytes(&self, cv: ConstValue) -> Option<&'tcx [u8]> {
        match cv {
            ConstValue::Slice { .. } => cv.try_get_slice_bytes_for_diagnostics(self.tcx),
            _ => None,
        }
    }

    fn const_bytes(&self, cv: ConstValue, ty: Ty<'tcx>) -> Option<Vec<u8>> {
        match cv {
            ConstValue::Indirect { alloc_id, offset } => {
                let alloc = self.tcx.try_get_global_alloc(alloc_id)?;
                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = alloc {
                    let a = a.inner();
                    if !a.provenance().ptrs().is_empty() {
                        return None;
                    }
                    let off = offset.bytes_usize();
                    let len = a.len();
                    if off > len || a.size().bytes() > (1 << 14) {
                        return None;
                    }
                    let _ = ty;
                    return Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..len).to_vec());
                }
                None
            }
            _ => None,
        }
    }

    fn const_json(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let ty = c.const_.ty();
        let mut m = Map::new();
        m.insert("ty".into(), json!(tystr(ty)));
        if let ty::FnDef(d, args) = ty.kind() {
            m.insert("fn".into(), self.callee(*d, args.skip_binder(), env));
            return J::Object(m);
        }
        let mut tyconst_generic = false;
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if u.promoted.is_none() {
                    m.insert("path".into(), json!(self.path(u.def)));
                    m.insert("def".into(), json!(self.path(u.def)));
                    if u.args.iter().any(|a| rustc_middle::ty::TypeVisitableExt::has_param(&a)) {
                        tyconst_generic = true;
                    }
                }
            }
            Const::Ty(_, ct) => {
                m.insert("tyconst".into(), json!(format!("{}", ct)));
                tyconst_generic = rustc_middle::ty::TypeVisitableExt::has_param(&ct);
            }
            _ => {}
        }
        if !tyconst_generic && !rustc_middle::ty::TypeVisitableExt::references_error(&ty) {
            if let Ok(cv) = c.const_.eval(self.tcx, env, c.span) {
                self.fill_const_val(&mut m, cv, ty);
            }
        }
        J::Object(m)
    }

    fn fill_const_val(&self, m: &mut Map<String, J>, cv: ConstValue, ty: Ty<'tcx>) {
        if let Some(s) = cv.try_to_scalar_int() {
            let bits = s.to_bits_unchecked();
            match ty.kind() {
                ty::Bool => {
                    m.insert("val".into(), json!(bits != 0));
                }
                ty::Int(_) => {
                    let v = s.size().sign_extend(bits) as i128;
                    m.insert("val".into(), json!(v.to_string()));
                    m.insert("int".into(), json!(true));
                }
                ty::Char => {
                    m.insert("val".into(), json!(char::from_u32(bits as u32).map(|c| c.to_string())));
                }
                _ => {
                    m.insert("val".into(), json!(bits.to_string()));
                    m.insert("int".into(), json!(true));
                }
            }
        } else if let (ConstValue::Slice { .. }, Some(b)) = (cv, self.slice_bytes(cv)) {
            if let ty::Ref(_, inner, _) = ty.kind() {
                if inner.is_str() {
                    m.insert("str".into(), json!(String::from_utf8_lossy(b)));
                } else {
                    m.insert("bytes".into(), json!(hex(b)));
                }
            }
        } else if let Some(b) = self.const_bytes(cv, ty) {
            m.insert("raw".into(), json!(hex(&b)));
        } else if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = cv {
            // reference to an array / sized value
            let (prov, off) = p.into_raw_parts();
            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                self.tcx.try_get_global_alloc(prov.alloc_id())
            {
                let a = a.inner();
                if a.provenance().ptrs().is_empty() && a.size().bytes() < (1 << 14) {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
                    m.insert("rawref".into(), json!(hex(b)));
                }
            }
        }
        if let ty::Adt(..) = ty.kind() {
            let k = Const::Val(cv, ty);
            let s = with_no_trimmed_paths!(format!("{}", k));
            if s.len() < 4000 {
                m.insert("pretty".into(), json!(s));
            }
        }
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => json!({"c": self.place(body, p)}),
            Operand::Move(p) => json!({"m": self.place(body, p)}),
            Operand::Constant(c) => json!({"k": self.const_json(c, env)}),
            _ => json!({"k": {"ty": "bool", "rt": true}}),
        }
    }

    fn args_json(&self, args: ty::GenericArgsRef<'tcx>) -> J {
        J::Array(
            args.iter()
                .filter_map(|a| {
                    if let Some(t) = a.as_type() {
                        Some(json!(tystr(t)))
                    } else {
                        a.as_const().map(|c| json!(format!("{}", c)))
                    }
                })
                .collect(),
        )
    }

    fn resolve(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        if rustc_middle::ty::TypeVisitableExt::references_error(&args) {
            return None;
        }
        match Instance::try_resolve(self.tcx, env, d, args) {
            Ok(Some(i)) => {
                let kind = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                Some(json!({"def": self.path(i.def_id()), "kind": kind, "args": self.args_json(i.args),
                    "local": i.def_id().is_local()}))
            }
            _ => None,
        }
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut m = Map::new();
        let p = self.path(d);
        m.insert("def".into(), json!(p));
        m.insert("name".into(), json!(tcx.opt_item_name(d).map(|s| s.to_string())));
        m.insert("args".into(), self.args_json(args));
        m.insert("local".into(), json!(d.is_local()));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            m.insert("ctor".into(), json!(self.path(parent)));
            return J::Object(m);
        }
        let args = if rustc_middle::ty::TypeVisitableExt::references_error(&args) {
            args
        } else {
            tcx.erase_and_anonymize_regions(args)
        };
        if let Some(t) = tcx.trait_of_assoc(d) {
            m.insert("trait".into(), json!(self.path(t)));
            if let Some(r) = self.resolve(d, args, env) {
                m.insert("res".into(), r);
            }
            // conversions: look through the blanket impls
            let tp = self.path(t);
            let via = match tp.as_str() {
                "core::convert::Into" => Some(("core::convert::From", "from")),
                "core::convert::TryInto" => Some(("core::convert::TryFrom", "try_from")),
                _ => None,
            };
            if let (Some((tr, _)), true) = (via, args.len() == 2) {
                if let Some((tdid, mdid)) = self.find_trait_method(tr) {
                    let _ = tdid;
                    let nargs = tcx.mk_args(&[args[1], args[0]]);
                    if let Some(r) = self.resolve(mdid, nargs, env) {
                        m.insert("via".into(), r);
                    }
                }
            }
            if tp == "alloc::string::ToString" {
                if let Some((_, mdid)) = self.find_trait_method("core::fmt::Display") {
                    if let Some(r) = self.resolve(mdid, args, env) {
                        m.insert("via".into(), r);
                    }
                }
            }
        } else if p == "core::str::<impl str>::parse" {
            if let Some((_, mdid)) = self.find_trait_method("core::str::FromStr") {
                let targs: Vec<_> = args.iter().filter(|a| a.as_type().is_some()).collect();
                if targs.len() == 1 {
                    let nargs = tcx.mk_args(&targs);
                    if let Some(r) = self.resolve(mdid, nargs, env) {
                        m.insert("via".into(), r);
                    }
                }
            }
        } else if let Some(r) = self.resolve(d, args, env) {
            m.insert("res".into(), r);
        }
        J::Object(m)
    }

    fn find_trait_method(&self, tr: &str) -> Option<(DefId, DefId)> {
        let name = match tr {
            "core::convert::From" => rustc_span::sym::From,
            "core::convert::TryFrom" => rustc_span::sym::TryFrom,
            "core::str::FromStr" => {
                let t = self.tcx.all_traits_including_private().find(|d| {
                    let p = self.path(*d);
                    p == "core::str::traits::FromStr" || p == "core::str::FromStr"
                })?;
                let m = self.tcx.associated_item_def_ids(t).iter().copied().find(|d| matches!(self.tcx.def_kind(*d), DefKind::AssocFn))?;
                return Some((t, m));
            }
            "core::fmt::Display" => rustc_span::sym::Display,
            _ => return None,
        };
        let t = self.tcx.get_diagnostic_item(name)?;
        let m = self
            .tcx
            .associated_item_def_ids(t)
            .iter()
            .copied()
            .find(|d| matches!(self.tcx.def_kind(*d), DefKind::AssocFn))?;
        Some((t, m))
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => json!({"use": self.operand(body, o, env)}),
            Rvalue::Repeat(o, c) => json!({"repeat": self.operand(body, o, env), "n": format!("{}", c)}),
            Rvalue::Ref(_, k, p) => {
                let mutk = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "f",
                    BorrowKind::Mut { .. } => "m",
                    #[allow(unreachable_patterns)]
                    _ => "m",
                };
                json!({"ref": self.place(body, p), "k": mutk})
            }
            Rvalue::Reborrow(_, _, p) => json!({"ref": self.place(body, p), "k": "m"}),
            Rvalue::ThreadLocalRef(d) => json!({"tls": self.path(*d)}),
            Rvalue::RawPtr(_, p) => json!({"ref": self.place(body, p), "k": "r"}),
            Rvalue::Cast(k, o, t) => {
                json!({"cast": self.operand(body, o, env), "kind": format!("{:?}", k), "ty": tystr(*t), "from": tystr(o.ty(&body.local_decls, self.tcx))})
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, self.tcx);
                json!({"bin": format!("{:?}", op), "a": self.operand(body, &b.0, env), "b": self.operand(body, &b.1, env), "ty": tystr(t)})
            }
            Rvalue::UnaryOp(op, o) => json!({"un": format!("{:?}", op), "a": self.operand(body, o, env)}),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut variants = Map::new();
                let mut adt = J::Null;
                if let ty::Adt(def, _) = t.kind() {
                    adt = json!(self.path(def.did()));
                    if def.is_enum() {
                        for (i, dv) in def.discriminants(self.tcx) {
                            variants.insert(dv.val.to_string(), json!(def.variant(i).name.to_string()));
                        }
                    }
                }
                json!({"discr": self.place(body, p), "adt": adt, "variants": variants})
            }
            Rvalue::Aggregate(k, ops) => {
                let ops_j: Vec<J> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                match &**k {
                    AggregateKind::Array(_) => json!({"agg": "array", "ops": ops_j}),
                    AggregateKind::Tuple => json!({"agg": "tuple", "ops": ops_j}),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let names: Vec<String> = vd.fields.iter().map(|f| f.name.to_string()).collect();
                        json!({"agg": "adt", "adt": self.path(*d), "variant": vd.name.to_string(), "is_enum": def.is_enum(),
                            "fields": names, "ops": ops_j, "args": self.args_json(args), "active": active.map(|a| a.as_u32())})
                    }
                    AggregateKind::Closure(d, _) => json!({"agg": "closure", "def": self.path(*d), "ops": ops_j, "names": self.capnames(*d)}),
                    AggregateKind::Coroutine(d, _) => json!({"agg": "coroutine", "def": self.path(*d), "ops": ops_j, "names": self.capnames(*d)}),
                    AggregateKind::CoroutineClosure(d, _) => json!({"agg": "closure", "def": self.path(*d), "ops": ops_j, "names": self.capnames(*d)}),
                    AggregateKind::RawPtr(..) => json!({"agg": "rawptr", "ops": ops_j}),
                }
            }
            Rvalue::CopyForDeref(p) => json!({"use": {"c": self.place(body, p)}}),
            #[allow(unreachable_patterns)]
            _ => json!({"other": format!("{:?}", r)}),
        }
    }

    fn capnames(&self, d: DefId) -> J {
        let names = self.tcx.closure_saved_names_of_captured_variables(d);
        J::Array(names.iter().map(|s| json!(s.to_string())).collect())
    }

    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let env = if false { TypingEnv::fully_monomorphized() } else { TypingEnv::post_analysis(tcx, did) };
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut stmts = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, &b.1, env);
                        stmts.push(json!({"p": p, "r": r, "s": self.span(s.source_info.span)}));
                    }
                    StatementKind::StorageDead(l) => stmts.push(json!({"dead": l.as_u32()})),
                    StatementKind::StorageLive(l) => stmts.push(json!({"live": l.as_u32()})),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        stmts.push(json!({"setdiscr": self.place(body, place), "v": variant_index.as_u32()}))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => json!({"t": "goto", "to": target.as_u32()}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<J> = targets.iter().map(|(v, b)| json!([v.to_string(), b.as_u32()])).collect();
                    json!({"t": "switch", "on": self.operand(body, discr, env), "ty": tystr(discr.ty(&body.local_decls, tcx)), "cases": v, "else": targets.otherwise().as_u32()})
                }
                TerminatorKind::Return => json!({"t": "return"}),
                TerminatorKind::Unreachable => json!({"t": "unreachable"}),
                TerminatorKind::Drop { place, target, .. } => {
                    let pty = place.ty(&body.local_decls, tcx).ty;
                    json!({"t": "drop", "p": self.place(body, place), "ty": tystr(pty), "to": target.as_u32()})
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<J> = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                    let at: Vec<J> = args.iter().map(|a| json!(tystr(a.node.ty(&body.local_decls, tcx)))).collect();
                    json!({"t": "call", "f": self.operand(body, func, env), "args": a, "argtys": at, "dest": self.place(body, destination),
                        "destty": tystr(destination.ty(&body.local_decls, tcx).ty),
                        "to": target.map(|b| b.as_u32())})
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    json!({"t": "assert", "cond": self.operand(body, cond, env), "exp": expected, "msg": format!("{:?}", msg).chars().take(80).collect::<String>(), "to": target.as_u32()})
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    json!({"t": "yield", "v": self.operand(body, value, env), "to": resume.as_u32(), "arg": self.place(body, resume_arg)})
                }
                TerminatorKind::FalseEdge { real_target, .. } => json!({"t": "goto", "to": real_target.as_u32()}),
                TerminatorKind::FalseUnwind { real_target, .. } => json!({"t": "goto", "to": real_target.as_u32()}),
                _ => json!({"t": "unreachable"}),
            };
            tj["s"] = sp;
            blocks.push(json!({"st": stmts, "te": tj}));
        }
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        let mut upnames: Map<String, J> = Map::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                } else {
                    upnames.insert(v.name.to_string(), self.place(body, &p));
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| json!({"ty": tystr(d.ty), "n": names.get(&l.as_u32())}))
            .collect();
        let dk = tcx.def_kind(did);
        let kind = match dk {
            DefKind::Closure => {
                if tcx.coroutine_kind(did).is_some() {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Fn | DefKind::AssocFn => "fn",
            _ => "const",
        };
        let mut m = Map::new();
        m.insert("def".into(), json!(self.path(did)));
        m.insert("kind".into(), json!(kind));
        m.insert("dk".into(), json!(format!("{:?}", dk)));
        m.insert("span".into(), self.span(tcx.def_span(did)));
        m.insert("argc".into(), json!(body.arg_count));
        m.insert("locals".into(), J::Array(locals));
        m.insert("upv".into(), J::Object(upnames));
        m.insert("tainted".into(), json!(body.tainted_by_errors.is_some()));
        m.insert("blocks".into(), J::Array(blocks));
        if kind == "fn" {
            m.insert("generics".into(), self.args_json(rustc_middle::ty::GenericArgs::identity_for_item(tcx, did)));
            m.insert("asyncness".into(), json!(tcx.asyncness(did).is_async()));
            m.insert("vis".into(), json!(format!("{:?}", tcx.visibility(did))));
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let self_ty = tcx.type_of(imp).instantiate_identity();
                m.insert("impl_self".into(), json!(with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", self_ty.skip_norm_wip()))))));
                m.insert("impl".into(), json!(self.path(imp)));
                let opt = if tcx.impl_opt_trait_ref(imp).is_some() { Some(tcx.impl_trait_ref(imp)) } else { None };
                if let Some(tr) = opt {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    m.insert("impl_trait".into(), json!(self.path(tr.def_id)));
                    m.insert("impl_args".into(), self.args_json(tr.args));
                    if let Some(ai) = tcx.opt_associated_item(did) {
                        if let Some(t) = ai.trait_item_def_id() {
                            m.insert("trait_item".into(), json!(self.path(t)));
                        }
                    }
                }
                m.insert("derived".into(), json!(tcx.is_automatically_derived(imp)));
            } else if let Some(t) = tcx.trait_of_assoc(did) {
                m.insert("in_trait".into(), json!(self.path(t)));
            }
            let fa = tcx.codegen_fn_attrs(did);
            if let Some(s) = fa.symbol_name {
                m.insert("export".into(), json!(s.to_string()));
            }
            m.insert("item_name".into(), json!(tcx.item_name(did).to_string()));
        } else {
            m.insert("parent".into(), json!(self.path(tcx.typeck_root_def_id(did))));
            m.insert("dparent".into(), json!(self.path(tcx.parent(did))));
        }
        J::Object(m)
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn attr_strings(tcx: TyCtxt<'_>, d: LocalDefId) -> Vec<String> {
    let hid = tcx.local_def_id_to_hir_id(d);
    tcx.hir_attrs(hid)
        .iter()
        .filter_map(|a| match a {
            rustc_attr_ir::Attribute::DeriveHelper(it) => {
                let p = it.path.segments.iter().map(|s| s.to_string()).collect::<Vec<_>>().join("::");
                if matches!(p.as_str(), "n" | "cbor" | "b" | "serde" | "strum") {
                    let sm = tcx.sess.source_map();
                    sm.span_to_snippet(it.span).ok().or(Some(p))
                } else {
                    None
                }
            }
            _ => None,
        })
        .collect()
}

impl Callbacks for Dump {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("FACTS_DIR") else { return Compilation::Continue };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let ctype = if tcx.crate_types().iter().any(|c| matches!(c, rustc_structures::CrateType::Executable)) { "bin" } else { "lib" };
        let mut cx = Cx { tcx, consts: BTreeMap::new() };
        // 1. clone every mir_built first: later queries steal them
        let mut bodies: Vec<(LocalDefId, Option<Body<'tcx>>)> = vec![];
        for def in tcx.hir_body_owners() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let steal = tcx.mir_built(def);
                if steal.is_stolen() { None } else { Some(steal.borrow().clone()) }
            }));
            match r {
                Ok(b) => bodies.push((def, b)),
                Err(_) => bodies.push((def, None)),
            }
        }
        let mut out_bodies = vec![];
        let mut failed = vec![];
        for (def, b) in &bodies {
            match b {
                Some(b) => {
                    if b.tainted_by_errors.is_some() {
                        failed.push(json!({"def": cx.path(def.to_def_id()), "why": "tainted", "span": cx.span(tcx.def_span(def.to_def_id()))}));
                        continue;
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cx.body(*def, b)));
                    match r {
                        Ok(j) => out_bodies.push(j),
                        Err(_) => failed.push(json!({"def": cx.path(def.to_def_id()), "why": "panic", "span": cx.span(tcx.def_span(def.to_def_id()))})),
                    }
                }
                None => failed.push(json!({"def": cx.path(def.to_def_id()), "why": "nomir", "span": cx.span(tcx.def_span(def.to_def_id()))})),
            }
        }
        // 2. ADTs, impls, consts
        let mut adts = vec![];
        let mut impls = vec![];
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(did);
                    let discr: BTreeMap<usize, String> = if def.is_enum() {
                        def.discriminants(tcx).map(|(i, d)| (i.as_usize(), d.val.to_string())).collect()
                    } else {
                        BTreeMap::new()
                    };
                    let vs: Vec<J> = def
                        .variants()
                        .iter_enumerated()
                        .map(|(i, v)| {
                            let fs: Vec<J> = v
                                .fields
                                .iter()
                                .map(|f| {
                                    json!({"n": f.name.to_string(), "ty": tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                        "vis": format!("{:?}", f.vis), "attrs": f.did.as_local().map(|l| attr_strings(tcx, l))})
                                })
                                .collect();
                            let at = if def.is_enum() { v.def_id.as_local().map(|l| attr_strings(tcx, l)) } else { None };
                            json!({"n": v.name.to_string(), "discr": discr.get(&i.as_usize()), "fields": fs, "attrs": at})
                        })
                        .collect();
                    adts.push(json!({"path": cx.path(did), "kind": format!("{:?}", tcx.def_kind(did)), "variants": vs,
                        "attrs": attr_strings(tcx, id), "span": cx.span(tcx.def_span(did))}));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let (tr, targs) = if of_trait {
                        let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        (Some(cx.path(t.def_id)), cx.args_json(t.args))
                    } else {
                        (None, J::Null)
                    };
                    impls.push(json!({"self": tystr(st), "trait": tr, "args": targs, "derived": tcx.is_automatically_derived(did),
                        "span": cx.span(tcx.def_span(did)),
                        "items": tcx.associated_item_def_ids(did).iter().map(|d| cx.path(*d)).collect::<Vec<_>>()}));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let generics = tcx.generics_of(did);
                    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut m = Map::new();
                    m.insert("path".into(), json!(cx.path(did)));
                    m.insert("ty".into(), json!(tystr(ty)));
                    m.insert("static".into(), json!(matches!(tcx.def_kind(did), DefKind::Static { .. })));
                    if !matches!(tcx.def_kind(did), DefKind::Static { .. }) && generics.count() == 0
                        && !(tcx.trait_of_assoc(did).is_some())
                    {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tcx.const_eval_poly(did)));
                        if let Ok(Ok(cv)) = r {
                            cx.fill_const_val(&mut m, cv, ty);
                        }
                    }
                    consts.push(J::Object(m));
                }
                _ => {}
            }
        }
        let out = json!({"crate": krate, "type": ctype, "bodies": out_bodies, "failed": failed, "adts": adts, "impls": impls, "consts": consts});
        let fname = format!("{}/{}.{}.json", dir, krate, ctype);
        std::fs::write(&fname, serde_json::to_string(&out).unwrap()).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump));
    let _ = code;
    std::process::exit(if format!("{:?}", code).contains("(0)") { 0 } else { 1 });
}
