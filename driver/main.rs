//! Fact extractor: a `RUSTC_WRAPPER` that compiles each crate with the nightly compiler and, for the
//! crates named in `FACTS_CRATES`, writes the type-checked program (MIR bodies with resolved callees,
//! constants, ADTs, trait impls) as JSON into `FACTS_OUT`.  It decides nothing itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    adts_pending: BTreeSet<String>,
    ids: std::collections::HashMap<DefId, (String, String)>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }

    /// Canonical readable path: independent of re-exports, imports and impl numbering.
    fn canon(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Closure | DefKind::AnonConst | DefKind::SyntheticCoroutineBody => {
                let p = tcx.parent(d);
                let dd = tcx.def_path(d).data.last().map(|x| x.disambiguator).unwrap_or(0);
                return format!("{}::{{closure#{}}}", self.canon(p), dd);
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let s = match st.kind() {
                    ty::Adt(a, _) => self.canon(a.did()),
                    _ => self.ty(st),
                };
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let mut t = self.canon(tr.def_id);
                    let rest: Vec<String> = tr
                        .args
                        .iter()
                        .skip(1)
                        .filter_map(|a| a.as_type())
                        .map(|a| match a.kind() {
                            ty::Adt(x, _) => self.canon(x.did()),
                            _ => self.ty(a),
                        })
                        .collect();
                    if !rest.is_empty() {
                        t = format!("{}<{}>", t, rest.join(", "));
                    }
                    return format!("<{} as {}>", s, t);
                }
                return s;
            }
            _ => {}
        }
        match tcx.opt_parent(d) {
            None => tcx.crate_name(d.krate).to_string(),
            Some(p) => {
                let n = tcx
                    .opt_item_name(d)
                    .map(|n| n.to_string())
                    .unwrap_or_else(|| format!("{:?}", tcx.def_path(d).data.last().map(|x| x.data)));
                format!("{}::{}", self.canon(p), n)
            }
        }
    }

    fn cid(&mut self, d: DefId) -> (String, String) {
        if let Some(x) = self.ids.get(&d) {
            return x.clone();
        }
        let v = (self.canon(d), self.id(d));
        self.ids.insert(d, v.clone());
        v
    }

    fn span(&self, sp: Span) -> String {
        let cs = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(cs.lo());
        let mut mac = String::new();
        if sp.from_expansion() {
            let mut s = sp;
            while s.from_expansion() {
                let e = s.ctxt().outer_expn_data();
                if !mac.is_empty() {
                    mac.push('<');
                }
                mac.push_str(&match e.kind {
                    rustc_span::ExpnKind::Macro(_, n) => n.to_string(),
                    rustc_span::ExpnKind::Desugaring(k) => format!("~{:?}", k),
                    rustc_span::ExpnKind::AstPass(_) => "~ast".to_string(),
                    rustc_span::ExpnKind::Root => "~root".to_string(),
                });
                s = e.call_site;
            }
        }
        if mac.is_empty() {
            format!("[{}]", lo.line)
        } else {
            format!("[{},{}]", lo.line, esc(&mac))
        }
    }

    fn file(&self, sp: Span) -> String {
        let cs = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(cs.lo());
        format!("{}", lo.file.name.prefer_local_unconditionally())
    }

    fn note_adt(&mut self, t: Ty<'tcx>) {
        let mut t = t;
        loop {
            match t.kind() {
                ty::Ref(_, x, _) => t = *x,
                ty::RawPtr(x, _) => t = *x,
                _ => break,
            }
        }
        if let ty::Adt(a, _) = t.kind() {
            self.add_adt(a.did());
        }
    }

    fn add_adt(&mut self, did: DefId) {
        let c = self.cid(did).0;
        if self.adts.contains_key(&c) || self.adts_pending.contains(&c) {
            return;
        }
        self.adts_pending.insert(c.clone());
        let tcx = self.tcx;
        let a = tcx.adt_def(did);
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"kind\":{},\"local\":{},\"variants\":[",
            esc(if a.is_enum() { "enum" } else if a.is_struct() { "struct" } else { "union" }),
            did.is_local()
        );
        for (i, (vi, v)) in a.variants().iter_enumerated().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let d = if a.is_enum() {
                format!("{}", a.discriminant_for_variant(tcx, vi).val)
            } else {
                "0".into()
            };
            let _ = write!(s, "{{\"name\":{},\"discr\":{},\"fields\":[", esc(v.name.as_str()), d);
            for (j, f) in v.fields.iter().enumerate() {
                if j > 0 {
                    s.push(',');
                }
                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let vis = match f.vis {
                    ty::Visibility::Public => "pub".to_string(),
                    ty::Visibility::Restricted(m) => self.cid(m.into()).0,
                };
                let _ = write!(s, "[{},{},{}]", esc(f.name.as_str()), esc(&self.ty(ft)), esc(&vis));
            }
            s.push_str("]}");
        }
        s.push_str("]}");
        self.adts.insert(c, s);
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut s = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => s.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut nm = String::new();
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        let v = match pt.variant_index {
                            Some(v) => Some(v),
                            None if a.is_enum() => None,
                            None => Some(rustc_abi::FIRST_VARIANT),
                        };
                        if let Some(v) = v {
                            nm = a.variant(v).fields[f].name.to_string();
                        }
                        let o = self.cid(a.did()).0;
                        let _ = write!(s, ",[\"f\",{},{},{}]", f.as_usize(), esc(&nm), esc(&o));
                    } else {
                        let _ = write!(s, ",[\"f\",{}]", f.as_usize());
                    }
                    let _ = nm;
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(s, ",[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, ",[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let mut nm = String::new();
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        nm = a.variant(v).name.to_string();
                        self.add_adt(a.did());
                    }
                    let _ = write!(s, ",[\"d\",{},{}]", v.as_usize(), esc(&nm));
                }
                _ => s.push_str(",[\"o\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        s.push(']');
        s
    }

    fn closures_in(&mut self, t: Ty<'tcx>) -> Vec<String> {
        let mut v = vec![];
        for a in t.walk() {
            if let Some(t) = a.as_type() {
                match t.kind() {
                    ty::Closure(d, _) => v.push(self.cid(*d).1),
                    ty::FnDef(d, _) => v.push(self.cid(*d).1),
                    _ => {}
                }
            }
        }
        v
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| esc(&self.ty(t))).collect();
        format!("[{}]", v.join(","))
    }

    fn fndef(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let (c, i) = self.cid(d);
        let mut s = format!("{{\"fn\":{},\"id\":{},\"args\":{}", esc(&c), esc(&i), self.args(args));
        let mut cl = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                cl.extend(self.closures_in(t));
            }
        }
        if !cl.is_empty() {
            let v: Vec<String> = cl.iter().map(|x| esc(x)).collect();
            let _ = write!(s, ",\"cl\":[{}]", v.join(","));
        }
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let t = self.cid(tr).0;
            let _ = write!(s, ",\"trait\":{}", esc(&t));
        }
        if !matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            let args = self.tcx.erase_and_anonymize_regions(args);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(self.tcx, env, d, args)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let (kind, rd) = match inst.def {
                    ty::InstanceKind::Item(x) => ("item", x),
                    ty::InstanceKind::Virtual(x, _) => ("virtual", x),
                    other => ("shim", other.def_id()),
                };
                let (rc, ri) = self.cid(rd);
                let _ = write!(s, ",\"r\":[{},{},{}]", esc(kind), esc(&rc), esc(&ri));
            }
        } else {
            s.push_str(",\"ctor\":true");
        }
        s.push('}');
        s
    }

    /// Data allocation, offset and length of a constant slice reference.
    fn slice_parts(&self, v: ConstValue) -> Option<(interpret::AllocId, rustc_abi::Size, u64)> {
        let tcx = self.tcx;
        match v {
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, rustc_abi::Size::ZERO, meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let interpret::GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(alloc_id)? else {
                    return None;
                };
                let ps = tcx.data_layout.pointer_size();
                let p = a
                    .inner()
                    .read_scalar(&tcx, interpret::AllocRange { start: offset, size: ps }, true)
                    .ok()?;
                let n = a
                    .inner()
                    .read_scalar(&tcx, interpret::AllocRange { start: offset + ps, size: ps }, false)
                    .ok()?;
                let interpret::Scalar::Ptr(p, _) = p else { return None };
                let (prov, off) = p.into_raw_parts();
                let interpret::Scalar::Int(n) = n else { return None };
                Some((prov.alloc_id(), off, n.to_bits(n.size()) as u64))
            }
            _ => None,
        }
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(i) = v.try_to_scalar_int() {
                    let b = i.to_bits(i.size());
                    if let ty::Int(_) = t.kind() {
                        return format!("{{\"int\":{}}}", i.to_int(i.size()));
                    }
                    return format!("{{\"int\":{}}}", b);
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)));
                }
            }
            ty::Ref(_, inner, _) => {
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    match tcx.try_get_global_alloc(aid) {
                        Some(interpret::GlobalAlloc::Static(d)) => {
                            return format!("{{\"static\":{}}}", esc(&self.cid(d).0));
                        }
                        Some(interpret::GlobalAlloc::Memory(_)) if depth < 6 && inner.is_sized(tcx, TypingEnv::fully_monomorphized()) => {
                            let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                            return format!("{{\"ref\":{}}}", self.constval(iv, *inner, depth + 1));
                        }
                        _ => {}
                    }
                }
                if let ty::Slice(elem) = inner.kind() {
                    if depth < 6 && *elem != tcx.types.u8 {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.slice_parts(v)));
                        if let Ok(Some((aid, off, len))) = r {
                            let at = Ty::new_array(tcx, *elem, len);
                            let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                            return format!("{{\"ref\":{}}}", self.constval(iv, at, depth + 1));
                        }
                    }
                }
                if let ConstValue::Slice { .. } = v {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("{{\"bytes\":{}}}", esc(&String::from_utf8_lossy(b)));
                    }
                }
            }
            ty::Adt(..) | ty::Array(..) | ty::Tuple(..) if depth < 6 => {
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    tcx.try_destructure_mir_constant_for_user_output(v, t)
                }));
                if let Ok(Some(d)) = ok {
                    let mut s = String::from("{");
                    if let ty::Adt(a, _) = t.kind() {
                        self.add_adt(a.did());
                        let c = self.cid(a.did()).0;
                        let _ = write!(s, "\"adt\":{},", esc(&c));
                        if let Some(vi) = d.variant {
                            let _ = write!(s, "\"variant\":{},", esc(a.variant(vi).name.as_str()));
                        }
                    }
                    s.push_str("\"fields\":[");
                    for (i, (fv, ft)) in d.fields.iter().enumerate() {
                        if i > 0 {
                            s.push(',');
                        }
                        let x = self.constval(*fv, *ft, depth + 1);
                        s.push_str(&x);
                    }
                    s.push_str("]}");
                    return s;
                }
            }
            _ => {}
        }
        let d = with_no_trimmed_paths!(format!("{}", Const::Val(v, t)));
        format!("{{\"s\":{}}}", esc(&d))
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                let f = self.fndef(env, *d, args.skip_binder());
                return format!("{{\"k\":\"c\",\"f\":{}}}", f);
            }
            ty::Closure(d, _) => {
                return format!("{{\"k\":\"c\",\"closure\":{}}}", esc(&self.cid(*d).1));
            }
            _ => {}
        }
        let mut s = format!("{{\"k\":\"c\",\"ty\":{}", esc(&self.ty(t)));
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                let _ = write!(s, ",\"promoted\":{}}}", p.as_usize());
                return s;
            }
            let cc = self.cid(uv.def).0;
            let _ = write!(s, ",\"const\":{},\"cargs\":{}", esc(&cc), self.args(uv.args));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(self.tcx, env, c.span)));
        if let Ok(Ok(v)) = r {
            let x = self.constval(v, t, 0);
            let _ = write!(s, ",\"v\":{}", x);
        }
        s.push('}');
        s
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"y\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"m\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(env, c),
            _ => "{\"k\":\"c\",\"ty\":\"rtchk\"}".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => {
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(body, env, o), esc(&n.to_string()))
            }
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"raw\",\"p\":{}}}", self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{}}}",
                esc(&format!("{:?}", k)),
                self.operand(body, env, o),
                esc(&self.ty(*t))
            ),
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                esc(&format!("{:?}", op)),
                self.operand(body, env, &b.0),
                self.operand(body, env, &b.1)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", esc(&format!("{:?}", op)), self.operand(body, env, a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                self.note_adt(t);
                let a = match t.kind() {
                    ty::Adt(a, _) => self.cid(a.did()).0,
                    _ => self.ty(t),
                };
                format!("{{\"r\":\"discr\",\"p\":{},\"adt\":{}}}", self.place(body, p), esc(&a))
            }
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.operand(body, env, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "\"agg\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"agg\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        self.add_adt(*d);
                        let names: Vec<String> = match active {
                            Some(_) => vec![],
                            None => a.variant(*v).fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "\"agg\":\"adt\",\"adt\":{},\"variant\":{},\"names\":[{}]",
                            esc(&self.cid(*d).0),
                            esc(a.variant(*v).name.as_str()),
                            names.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        format!("\"agg\":\"closure\",\"closure\":{}", esc(&self.cid(*d).1))
                    }
                    AggregateKind::RawPtr(..) => "\"agg\":\"rawptr\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"fs\":[{}]}}", kind, f.join(","))
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"o\":{{\"k\":\"y\",\"p\":{}}}}}", self.place(body, p))
            }
            Rvalue::ThreadLocalRef(d) => format!("{{\"r\":\"tls\",\"d\":{}}}", esc(&self.cid(*d).0)),
            _ => "{\"r\":\"other\"}".to_string(),
        }
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => format!("{}", b.as_usize()),
            _ => "null".into(),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut s = String::new();
        let _ = write!(s, "\"nargs\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&esc(&self.ty(l.ty)));
        }
        s.push_str("],\"lcl\":{");
        let mut first = true;
        for (i, l) in body.local_decls.iter_enumerated() {
            let c = self.closures_in(l.ty);
            if !c.is_empty() {
                if !first {
                    s.push(',');
                }
                first = false;
                let v: Vec<String> = c.iter().map(|x| esc(x)).collect();
                let _ = write!(s, "\"{}\":[{}]", i.as_usize(), v.join(","));
            }
        }
        s.push_str("},\"names\":[");
        let mut first = true;
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first {
                    s.push(',');
                }
                first = false;
                let _ = write!(s, "[{},{}]", esc(v.name.as_str()), self.place(body, p));
            }
        }
        s.push_str("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            let _ = write!(s, "{{\"c\":{},\"s\":[", if b.is_cleanup { 1 } else { 0 });
            let mut first = true;
            for st in b.statements.iter() {
                let line = match &st.kind {
                    StatementKind::Assign(x) => {
                        format!(
                            "{{\"p\":{},\"v\":{},\"l\":{}}}",
                            self.place(body, &x.0),
                            self.rvalue(body, env, &x.1),
                            self.span(st.source_info.span)
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!(
                            "{{\"p\":{},\"v\":{{\"r\":\"setdiscr\",\"n\":{}}},\"l\":{}}}",
                            self.place(body, place),
                            variant_index.as_usize(),
                            self.span(st.source_info.span)
                        )
                    }
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&line);
            }
            s.push_str("],\"t\":");
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let tt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!(
                        "{{\"t\":\"switch\",\"d\":{},\"to\":[{}],\"else\":{}",
                        self.operand(body, env, discr),
                        v.join(","),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"".to_string(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"resume\"".to_string(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let dt = place.ty(body, self.tcx).ty;
                    format!(
                        "{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{},\"u\":{}",
                        self.place(body, place),
                        esc(&self.ty(dt)),
                        target.as_usize(),
                        Self::unwind(unwind)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":[{}],\"p\":{},\"to\":{},\"u\":{}",
                        self.operand(body, env, func),
                        a.join(","),
                        self.place(body, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        Self::unwind(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (k, ops): (&str, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (
                            match op {
                                BinOp::Add => "ovf+",
                                BinOp::Sub => "ovf-",
                                BinOp::Mul => "ovf*",
                                _ => "ovf",
                            },
                            vec![a, b],
                        ),
                        AssertKind::OverflowNeg(a) => ("ovfneg", vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0", vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0", vec![a]),
                        _ => ("other", vec![]),
                    };
                    let o: Vec<String> = ops.iter().map(|x| self.operand(body, env, x)).collect();
                    format!(
                        "{{\"t\":\"assert\",\"cond\":{},\"exp\":{},\"kind\":{},\"ops\":[{}],\"to\":{},\"u\":{}",
                        self.operand(body, env, cond),
                        expected,
                        esc(k),
                        o.join(","),
                        target.as_usize(),
                        Self::unwind(unwind)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}", real_target.as_usize())
                }
                other => format!("{{\"t\":\"other\",\"s\":{}", esc(&format!("{:?}", other))),
            };
            s.push_str(&tt);
            let _ = write!(s, ",\"l\":{}}}}}", sp);
        }
        s.push(']');
        s
    }
}

struct Dump {
    out: String,
}

impl rustc_driver::Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, adts: BTreeMap::new(), adts_pending: BTreeSet::new(), ids: Default::default() };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let ev = tcx.effective_visibilities(());
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\"bodies\":[\n", esc(&krate));
        let mut first = true;
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            if matches!(kind, DefKind::Ctor(..)) {
                continue;
            }
            let body: &Body<'tcx> = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => tcx.mir_for_ctfe(d),
                _ => continue,
            };
            let env = TypingEnv::post_analysis(tcx, d);
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let (c, i) = cx.cid(d);
            let sp = tcx.def_span(d);
            let lo = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
            let _ = write!(
                o,
                "{{\"path\":{},\"id\":{},\"kind\":{},\"file\":{},\"line\":{},\"exp\":{},\"pub\":{}",
                esc(&c),
                esc(&i),
                esc(match kind {
                    DefKind::Closure => "closure",
                    DefKind::Fn => "fn",
                    DefKind::AssocFn => "method",
                    DefKind::Static { .. } => "static",
                    _ => "const",
                }),
                esc(&cx.file(sp)),
                lo.line,
                sp.from_expansion(),
                ev.is_reachable(ld),
            );
            if let Some(p) = tcx.opt_parent(d) {
                let (pc, pi) = cx.cid(p);
                let _ = write!(o, ",\"parent\":{},\"parent_id\":{}", esc(&pc), esc(&pi));
                if let DefKind::Impl { of_trait: true } = tcx.def_kind(p) {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let t = cx.cid(tr.def_id).0;
                    let _ = write!(o, ",\"impl_trait\":{}", esc(&t));
                }
                if let DefKind::Impl { .. } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"impl_self\":{}", esc(&cx.ty(st)));
                }
                if let DefKind::Trait { .. } = tcx.def_kind(p) {
                    let _ = write!(o, ",\"in_trait\":{}", esc(&cx.cid(p).0));
                }
            }
            if let DefKind::Closure = kind {
                let caps: Vec<String> = tcx
                    .closure_captures(ld)
                    .iter()
                    .map(|cp| {
                        format!(
                            "[{},{}]",
                            esc(&cp.var_ident.name.to_string()),
                            esc(&format!("{:?}", cp.info.capture_kind))
                        )
                    })
                    .collect();
                let _ = write!(o, ",\"caps\":[{}]", caps.join(","));
            }
            {
                let g: Vec<String> = ty::GenericArgs::identity_for_item(tcx, d)
                    .iter()
                    .filter_map(|a| a.as_type())
                    .map(|t| esc(&cx.ty(t)))
                    .collect();
                let _ = write!(o, ",\"gen\":[{}]", g.join(","));
            }
            if let DefKind::Fn | DefKind::AssocFn = kind {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let _ = write!(o, ",\"unsafe\":{}", !sig.safety().is_safe());
            }
            o.push(',');
            let b = cx.body(body, env);
            o.push_str(&b);
            let promoted: Vec<String> = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    tcx.promoted_mir(d).iter().map(|p| format!("{{{}}}", cx.body(p, env))).collect()
                }
                _ => vec![],
            };
            let _ = write!(o, ",\"promoted\":[{}]}}", promoted.join(","));
        }
        o.push_str("],\n\"impls\":[");
        let mut first = true;
        for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
            for im in impls {
                if !first {
                    o.push_str(",\n");
                }
                first = false;
                let st = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
                let adt = match st.kind() {
                    ty::Adt(a, _) => cx.cid(a.did()).0,
                    _ => cx.ty(st),
                };
                let (tc, _) = cx.cid(*tr);
                let mut items = vec![];
                for it in tcx.associated_items(im.to_def_id()).in_definition_order() {
                    if let Some(Ok(ti)) = it.trait_item_def_id().map(Ok::<DefId, ()>) {
                        let a = cx.cid(ti);
                        let b = cx.cid(it.def_id);
                        items.push(format!("[{},{}]", esc(&a.1), esc(&b.1)));
                    }
                }
                let _ = write!(
                    o,
                    "{{\"trait\":{},\"self\":{},\"self_ty\":{},\"items\":[{}]}}",
                    esc(&tc),
                    esc(&adt),
                    esc(&cx.ty(st)),
                    items.join(",")
                );
            }
        }
        o.push_str("],\n\"statics\":[");
        let mut first = true;
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let (c, i) = cx.cid(d);
                    let f = cx.file(tcx.def_span(d));
                    let _ = write!(
                        o,
                        "{{\"path\":{},\"id\":{},\"ty\":{},\"mut\":{},\"freeze\":{},\"tls\":{},\"file\":{}}}",
                        esc(&c),
                        esc(&i),
                        esc(&cx.ty(t)),
                        mutability.is_mut(),
                        t.is_freeze(tcx, TypingEnv::fully_monomorphized()),
                        tcx.is_thread_local_static(d),
                        esc(&f)
                    );
                }
                DefKind::Struct | DefKind::Enum => cx.add_adt(d),
                _ => {}
            }
        }
        o.push_str("],\n\"unsafe_blocks\":[");
        {
            use rustc_hir::intravisit::Visitor;
            struct V<'tcx> {
                tcx: TyCtxt<'tcx>,
                found: Vec<Span>,
            }
            impl<'tcx> Visitor<'tcx> for V<'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::All;
                fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                    self.tcx
                }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                        self.found.push(b.span);
                    }
                    rustc_hir::intravisit::walk_block(self, b);
                }
            }
            let mut v = V { tcx, found: vec![] };
            tcx.hir_visit_all_item_likes_in_crate(&mut v);
            let l: Vec<String> = v.found.iter().map(|s| format!("[{},{}]", esc(&cx.file(*s)), cx.span(*s))).collect();
            o.push_str(&l.join(","));
        }
        o.push_str("],\n\"adts\":{");
        let l: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o.push_str(&l.join(",\n"));
        o.push_str("}}\n");
        // String constants associated with trait implementations (e.g. LSP method names).
        o.truncate(o.len() - 2);
        o.push_str(",\n\"traitconsts\":[");
        let mut first = true;
        for tr in tcx.all_traits_including_private() {
            let tn = cx.cid(tr).0;
            if tn != "lsp_types::request::Request" && tn != "lsp_types::notification::Notification" {
                continue;
            }
            for im in tcx.all_impls(tr) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                for it in tcx.associated_items(im).in_definition_order() {
                    if !matches!(tcx.def_kind(it.def_id), DefKind::AssocConst { .. }) {
                        continue;
                    }
                    let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                    let v = match tcx.const_eval_poly(it.def_id) {
                        Ok(v) => cx.constval(v, t, 0),
                        Err(_) => continue,
                    };
                    if !first {
                        o.push_str(",\n");
                    }
                    first = false;
                    let _ = write!(
                        o,
                        "[{},{},{},{}]",
                        esc(&tn),
                        esc(&cx.ty(st)),
                        esc(it.name().as_str()),
                        v
                    );
                }
            }
        }
        o.push_str("]}\n");
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Executable"));
        let name = format!("{}/{}.{}.json", self.out, krate, if is_bin { "bin" } else { "lib" });
        let tmp = format!("{}.tmp.{}", name, std::process::id());
        std::fs::write(&tmp, o).expect("write facts");
        std::fs::rename(&tmp, &name).expect("rename facts");
        Compilation::Continue
    }
}

fn main() {
    // cargo calls: driver <rustc> args...
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let facts: Vec<String> =
        std::env::var("FACTS_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    // One dependency does not compile under the nightly compiler: read it from a patched copy.
    if let Ok(sub) = std::env::var("FACTS_SUBST") {
        // crate=path/to/lib.rs
        if let Some((c, p)) = sub.split_once('=') {
            if c == name {
                for a in args.iter_mut() {
                    if a.ends_with("src/lib.rs") {
                        *a = p.to_string();
                    }
                }
            }
        }
    }
    let is_lib = args.iter().any(|a| a == "lib" || a.ends_with("lib") && a.starts_with("--crate-type"))
        || args.windows(2).any(|w| w[0] == "--crate-type" && (w[1] == "lib" || w[1] == "bin" || w[1] == "proc-macro"));
    if facts.contains(&name) && is_lib && !args.iter().any(|a| a == "--test") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("--cap-lints=allow".into());
        let out = std::env::var("FACTS_OUT").expect("FACTS_OUT");
        let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump { out }));
        std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
}
