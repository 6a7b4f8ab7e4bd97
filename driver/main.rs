//! axfacts: a rustc driver which writes, for each crate of the mirror of /repo, the type-checked
//! program (ADTs, impls, and every body's `mir_built`) as JSON. It runs no code of the crate.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_lint_defs;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

macro_rules! names {
    ($e:expr) => {
        with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!($e)))
    };
}

struct Cx<'tcx> {
    tcx:    TyCtxt<'tcx>,
    types:  Vec<String>,
    tymap:  HashMap<Ty<'tcx>, usize>,
    adts:   Vec<String>,
    adtmap: HashMap<DefId, ()>,
    paths:  HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&mut self, d: DefId) -> String {
        if let Some(p) = self.paths.get(&d) {
            return p.clone();
        }
        let tcx = self.tcx;
        let mut p = names!(tcx.def_path_str(d));
        // serde's helper types of one function share a name
        for w in ["__SerializeWith", "__DeserializeWith"] {
            if p.contains(w) {
                if let Some(n) = self.number(d) {
                    p = p.replacen(w, &format!("{w}{n}"), 1);
                }
            }
        }
        self.paths.insert(d, p.clone());
        p
    }

    fn number(&self, d: DefId) -> Option<u32> {
        let tcx = self.tcx;
        let mut at = Some(d);
        while let Some(x) = at {
            match tcx.def_kind(x) {
                DefKind::Struct => return tcx.def_path(x).data.last().map(|e| e.disambiguator),
                DefKind::Impl { .. } => {
                    if let ty::Adt(a, _) = tcx.type_of(x).instantiate_identity().skip_norm_wip().kind() {
                        return tcx.def_path(a.did()).data.last().map(|e| e.disambiguator);
                    }
                }
                _ => {}
            }
            at = tcx.opt_parent(x);
        }
        None
    }

    fn loc(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, id);
        let s = names!(format!("{t}"));
        let mut o = format!("{{\"s\":{}", js(&s));
        let mut args: Vec<usize> = vec![];
        let k = match t.kind() {
            ty::Adt(def, a) => {
                let p = self.path(def.did());
                let _ = write!(o, ",\"d\":{}", js(&p));
                self.adt(def.did());
                for x in a.types() {
                    args.push(self.ty(x));
                }
                "adt"
            }
            ty::Ref(_, x, m) => {
                args.push(self.ty(*x));
                if m.is_mut() { "refmut" } else { "ref" }
            }
            ty::RawPtr(x, _) => {
                args.push(self.ty(*x));
                "ptr"
            }
            ty::Slice(x) => {
                args.push(self.ty(*x));
                "slice"
            }
            ty::Array(x, n) => {
                args.push(self.ty(*x));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    let _ = write!(o, ",\"n\":{n}");
                }
                "array"
            }
            ty::Tuple(xs) => {
                for x in xs.iter() {
                    args.push(self.ty(x));
                }
                "tuple"
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                let p = self.path(*d);
                let _ = write!(o, ",\"d\":{}", js(&p));
                "closure"
            }
            ty::FnDef(d, a) => {
                let p = self.path(*d);
                let _ = write!(o, ",\"d\":{}", js(&p));
                let _ = a;
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Dynamic(preds, _) => {
                if let Some(d) = preds.principal_def_id() {
                    let p = self.path(d);
                    let _ = write!(o, ",\"d\":{}", js(&p));
                }
                "dyn"
            }
            ty::Param(_) => "param",
            ty::Alias(..) => {
                // an opaque (impl Trait / async fn) type: name its definition
                let s2 = s.clone();
                let _ = s2;
                "alias"
            }
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Str => "str",
            ty::Never => "never",
            ty::Int(_) => "int",
            ty::Uint(_) => "uint",
            ty::Float(_) => "float",
            _ => "other",
        };
        let _ = write!(o, ",\"k\":\"{k}\"");
        if !args.is_empty() {
            let _ = write!(o, ",\"a\":{args:?}");
        }
        o.push('}');
        self.types[id] = o;
        id
    }

    fn adt(&mut self, d: DefId) {
        if self.adtmap.insert(d, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let p = self.path(d);
        let kind = if def.is_struct() { "struct" } else if def.is_enum() { "enum" } else { "union" };
        let mut o = format!("{{\"path\":{},\"kind\":\"{kind}\",\"local\":{},\"variants\":[", js(&p), d.is_local());
        let discrs: Vec<String> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, x)| x.val.to_string()).collect()
        } else {
            vec!["0".into(); def.variants().len()]
        };
        for (i, v) in def.variants().iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"name\":{},\"discr\":{},\"fields\":[", js(v.name.as_str()), js(&discrs[i]));
            for (j, f) in v.fields.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if d.is_local() || true { self.ty(fty) } else { 0 };
                let vis = if f.vis.is_public() { "pub" } else { "priv" };
                let _ = write!(o, "[{},{},\"{vis}\"]", js(f.name.as_str()), t);
            }
            o.push_str("]}");
        }
        o.push_str("]}");
        self.adts.push(o);
    }

    fn callee(&mut self, caller: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let mut o = format!("{{\"f\":{}", js(&p));
        let targs: Vec<usize> = args.types().map(|t| self.ty(t)).collect();
        if !targs.is_empty() {
            let _ = write!(o, ",\"g\":{targs:?}");
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let tp = self.path(tr);
            let _ = write!(o, ",\"tr\":{}", js(&tp));
        }
        if d.is_local() {
            o.push_str(",\"l\":1");
        }
        // resolve trait methods to impls where the receiver type is known
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let env = ty::TypingEnv::post_analysis(tcx, caller.to_def_id());
            let args = tcx.erase_and_anonymize_regions(args);
            if !args.has_escaping_bound_vars() {
                let args = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                    let rd = inst.def_id();
                    let rp = self.path(rd);
                    if rd != d {
                        let _ = write!(o, ",\"r\":{}", js(&rp));
                    }
                    let kind = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        _ => "shim",
                    };
                    let _ = write!(o, ",\"rk\":\"{kind}\"");
                } else {
                    o.push_str(",\"rk\":\"none\"");
                }
            }
        }
        o.push('}');
        o
    }

    fn place(&mut self, body: &Body<'tcx>, pl: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", pl.local.as_usize());
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[pl.local].ty);
        for e in pl.projection.iter() {
            o.push(',');
            match e {
                PlaceElem::Deref => o.push_str("\"*\""),
                PlaceElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variants().get(v).and_then(|v| v.fields.get(f)).map(|f| f.name.to_string())
                        }
                        _ => None,
                    };
                    match name {
                        Some(n) => {
                            let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), js(&n));
                        }
                        None => {
                            let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), js(&f.as_usize().to_string()));
                        }
                    }
                }
                PlaceElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                PlaceElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"c\",{offset},{min_length},{}]", from_end as u8);
                }
                PlaceElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{from},{to},{}]", from_end as u8);
                }
                PlaceElem::Downcast(n, v) => {
                    let nm = n.map(|x| x.to_string()).unwrap_or_default();
                    let _ = write!(o, "[\"d\",{},{}]", v.as_usize(), js(&nm));
                }
                _ => o.push_str("[\"?\"]"),
            }
            pty = pty.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }

    fn raw_alloc(&self, alloc: &mir::interpret::Allocation, start: usize, len: usize) -> Option<String> {
        if len > 4096 {
            return None;
        }
        let end = start + len;
        if end > alloc.len() {
            return None;
        }
        if !alloc.provenance().ptrs().is_empty() {
            return None;
        }
        let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(start..end);
        Some(b.iter().map(|x| format!("{x:02x}")).collect())
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let sv = if t.is_signed() {
                    i.to_int(i.size()).to_string()
                } else {
                    bits.to_string()
                };
                let _ = write!(o, ",\"v\":{}", js(&sv));
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    mir::interpret::GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        let off = off.bytes() as usize;
                        if let Some(h) = self.raw_alloc(a, off, a.len() - off) {
                            let _ = write!(o, ",\"raw\":{}", js(&h));
                        }
                    }
                    mir::interpret::GlobalAlloc::Static(d) => {
                        let p = self.path(d);
                        let _ = write!(o, ",\"static\":{}", js(&p));
                        if !tcx.is_mutable_static(d) && !tcx.is_foreign_item(d) {
                            let st = tcx.type_of(d).instantiate_identity();
                            if let Ok(a) = tcx.eval_static_initializer(d) {
                                self.memory(a.inner(), 0, st.skip_norm_wip(), o);
                            }
                        }
                    }
                    _ => {}
                }
            }
            ConstValue::ZeroSized => {
                o.push_str(",\"zst\":1");
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
                    let n = meta as usize;
                    if is_str && n <= a.len() {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                        let _ = write!(o, ",\"str\":{}", js(&String::from_utf8_lossy(b)));
                    } else if matches!(t.kind(), ty::Ref(_, x, _) if matches!(x.kind(), ty::Slice(e) if e.is_integral() && *e == tcx.types.u8)) {
                        if let Some(h) = self.raw_alloc(a, 0, n) {
                            let _ = write!(o, ",\"raw\":{}", js(&h));
                        }
                    }
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    self.memory(a.inner(), offset.bytes() as usize, t, o);
                }
            }
        }
    }

    /// What lies in memory at `off` for a value of type `t`: its bytes, or those its reference leads to.
    fn memory(&mut self, a: &mir::interpret::Allocation, off: usize, t: Ty<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        if let ty::Ref(_, x, _) = t.kind() {
            let elem = match x.kind() {
                ty::Str => tcx.types.u8,
                ty::Slice(e) if e.is_integral() => *e,
                _ => return,
            };
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + 16);
            let at = usize::from_le_bytes(b[..8].try_into().unwrap());
            let n = usize::from_le_bytes(b[8..].try_into().unwrap());
            let Some(p) = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off as u64)) else { return };
            let mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(p.alloc_id()) else { return };
            let env = ty::TypingEnv::fully_monomorphized();
            let Ok(l) = tcx.layout_of(env.as_query_input(elem)) else { return };
            if let Some(h) = self.raw_alloc(m.inner(), at, n * l.size.bytes() as usize) {
                let _ = write!(o, ",\"raw\":{}", js(&h));
            }
            return;
        }
        let env = ty::TypingEnv::fully_monomorphized();
        if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
            if let Some(h) = self.raw_alloc(a, off, l.size.bytes() as usize) {
                let _ = write!(o, ",\"raw\":{}", js(&h));
            }
        }
    }

    fn constant(&mut self, owner: LocalDefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.no_bound_vars().unwrap_or(ty::GenericArgs::empty());
            return format!("[\"fn\",{}]", self.callee(owner, *d, a));
        }
        let mut o = format!("{{\"ty\":{}", self.ty(t));
        let env = ty::TypingEnv::post_analysis(tcx, owner.to_def_id());
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                let p = self.path(u.def);
                let _ = write!(o, ",\"def\":{}", js(&p));
                if u.promoted.is_none() && !u.args.has_param() && !u.args.has_escaping_bound_vars() && !t.has_param() {
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        self.cval(v, t, &mut o);
                    }
                } else {
                    let targs: Vec<usize> = u.args.types().map(|t| self.ty(t)).collect();
                    let _ = write!(o, ",\"g\":{targs:?}");
                }
            }
            mir::Const::Val(v, _) => self.cval(v, t, &mut o),
            mir::Const::Ty(_, ct) => {
                if !ct.has_param() {
                    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                        self.cval(v, t, &mut o);
                    }
                } else {
                    let s = names!(format!("{ct}"));
                    let _ = write!(o, ",\"cp\":{}", js(&s));
                }
            }
        }
        o.push('}');
        format!("[\"k\",{o}]")
    }

    fn operand(&mut self, owner: LocalDefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.constant(owner, c),
            _ => "[\"rt\"]".into(),
        }
    }

    fn rvalue(&mut self, owner: LocalDefId, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(op, _) => format!("[\"use\",{}]", self.operand(owner, body, op)),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{n}]", self.operand(owner, body, op))
            }
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "m",
                    _ => "m",
                };
                format!("[\"ref\",\"{k}\",{}]", self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => {
                let p = self.path(*d);
                format!("[\"static\",{}]", js(&p))
            }
            Rvalue::Cast(k, op, t) => {
                let kind = js(&format!("{k:?}"));
                let o = self.operand(owner, body, op);
                let t = self.ty(*t);
                let from = op.ty(&body.local_decls, self.tcx);
                let from = self.ty(from);
                format!("[\"cast\",{kind},{o},{t},{from}]")
            }
            Rvalue::BinaryOp(b, ops) => {
                let x = self.operand(owner, body, &ops.0);
                let y = self.operand(owner, body, &ops.1);
                format!("[\"bin\",\"{b:?}\",{x},{y}]")
            }
            Rvalue::UnaryOp(u, op) => format!("[\"un\",\"{u:?}\",{}]", self.operand(owner, body, op)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{t}]", self.place(body, p))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|x| self.operand(owner, body, x)).collect();
                let ops = ops.join(",");
                match &**k {
                    AggregateKind::Array(_) => format!("[\"array\",[{ops}]]"),
                    AggregateKind::Tuple => format!("[\"tuple\",[{ops}]]"),
                    AggregateKind::Adt(d, v, ..) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let vn = def.variant(*v).name.to_string();
                        let p = self.path(*d);
                        let flds: Vec<String> =
                            def.variant(*v).fields.iter().map(|f| js(f.name.as_str())).collect();
                        let en = def.is_enum() as u8;
                        format!(
                            "[\"adt\",{},{},{},{en},[{}],[{ops}]]",
                            js(&p),
                            v.as_usize(),
                            js(&vn),
                            flds.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        let p = self.path(*d);
                        format!("[\"closure\",{},[{ops}]]", js(&p))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"tuple\",[{ops}]]"),
                }
            }
            Rvalue::WrapUnsafeBinder(op, _) => format!("[\"use\",{}]", self.operand(owner, body, op)),
        }
    }

    fn body(&mut self, owner: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let did = owner.to_def_id();
        let path = self.path(did);
        let kind = tcx.def_kind(did);
        let mut o = format!("{{\"path\":{},\"kind\":{}", js(&path), js(&format!("{kind:?}")));
        let _ = write!(o, ",\"loc\":{}", js(&self.loc(tcx.def_span(did))));
        let _ = write!(o, ",\"macro\":{}", tcx.def_span(did).from_expansion() as u8);
        {
            let mut g = tcx.generics_of(tcx.typeck_root_def_id(did));
            let mut names: Vec<String> = vec![];
            let mut stack = vec![g];
            while let Some(p) = g.parent {
                g = tcx.generics_of(p);
                stack.push(g);
            }
            while let Some(g) = stack.pop() {
                for p in &g.own_params {
                    if let ty::GenericParamDefKind::Type { .. } = p.kind {
                        names.push(js(p.name.as_str()));
                    }
                }
            }
            if !names.is_empty() {
                let _ = write!(o, ",\"gen\":[{}]", names.join(","));
            }
        }
        let parent = tcx.typeck_root_def_id(did);
        if parent != did {
            let pp = self.path(parent);
            let _ = write!(o, ",\"root\":{}", js(&pp));
        }
        if tcx.is_coroutine(did) {
            o.push_str(",\"coroutine\":1");
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(did).is_public();
            let _ = write!(o, ",\"pub\":{}", vis as u8);
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                let _ = write!(o, ",\"self_ty\":{st}");
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let tp = self.path(tr.def_id);
                    let ta: Vec<usize> = tr.args.types().map(|t| self.ty(t)).collect();
                    let _ = write!(o, ",\"trait\":{},\"trait_args\":{ta:?}", js(&tp));
                }
                let nm = tcx.item_name(did);
                let _ = write!(o, ",\"name\":{}", js(nm.as_str()));
                if tcx.is_automatically_derived(imp) {
                    o.push_str(",\"derived\":1");
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                let tp = self.path(tr);
                let nm = tcx.item_name(did);
                let _ = write!(o, ",\"in_trait\":{},\"name\":{}", js(&tp), js(nm.as_str()));
            } else {
                let nm = tcx.item_name(did);
                let _ = write!(o, ",\"name\":{}", js(nm.as_str()));
            }
        }
        // user names of locals, and captured variables of closures
        let mut dbg: HashMap<usize, String> = HashMap::new();
        let mut up: Vec<(usize, String)> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    dbg.insert(p.local.as_usize(), v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let PlaceElem::Field(f, _) = e {
                            up.push((f.as_usize(), v.name.to_string()));
                            break;
                        }
                    }
                }
            }
        }
        if !up.is_empty() {
            o.push_str(",\"upvars\":{");
            up.sort();
            up.dedup_by_key(|x| x.0);
            let v: Vec<String> = up.iter().map(|(i, n)| format!("\"{i}\":{}", js(n))).collect();
            o.push_str(&v.join(","));
            o.push('}');
        }
        // what a closure captures by exclusive reference
        if body.arg_count > 0 {
            let l = rustc_middle::mir::Local::from_usize(1);
            if let ty::Closure(_, ca) = body.local_decls[l].ty.peel_refs().kind() {
                let m: Vec<String> = ca
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| matches!(t.kind(), ty::Ref(_, _, rustc_middle::mir::Mutability::Mut)))
                    .map(|(i, _)| i.to_string())
                    .collect();
                if !m.is_empty() {
                    let _ = write!(o, ",\"upmut\":[{}]", m.join(","));
                }
            }
        }
        let _ = write!(o, ",\"argc\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            match dbg.get(&i) {
                Some(n) => {
                    let _ = write!(o, "[{t},{}]", js(n));
                }
                None => {
                    let _ = write!(o, "[{t}]");
                }
            }
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("[[");
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = rv {
                            continue;
                        }
                        let p = self.place(body, p);
                        let rv = self.rvalue(owner, body, rv);
                        let ln = self.loc(st.source_info.span);
                        let ln = ln.rsplit(':').next().unwrap_or("0").to_string();
                        format!("[\"=\",{p},{rv},{ln}]")
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}]", self.place(body, place), variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],");
            let t = bb.terminator();
            let ln = self.loc(t.source_info.span);
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(owner, body, discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[{},{}]", js(&v.to_string()), t.as_usize())).collect();
                    format!("[\"switch\",{d},[{}],{},{dt},{}]", v.join(","), targets.otherwise().as_usize(), js(&ln))
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let t = self.ty(t);
                        format!("[\"drop\",{},{},{t}]", self.place(body, place), target.as_usize())
                    }
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(owner, body, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(owner, body, &x.node)).collect();
                    let d = self.place(body, destination);
                    let at: Vec<usize> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t) }).collect();
                    let rt = destination.ty(&body.local_decls, tcx).ty;
                    let rt = self.ty(rt);
                    let tg = target.map(|x| x.as_usize() as i64).unwrap_or(-1);
                    let uw = match unwind {
                        UnwindAction::Cleanup(b) => b.as_usize() as i64,
                        _ => -1,
                    };
                    format!("[\"call\",{f},[{}],{d},{tg},{uw},{},{at:?},{rt}]", a.join(","), js(&ln))
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(owner, body, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(owner, body, &x.node)).collect();
                    format!("[\"call\",{f},[{}],[0],-1,-1,{},[],0]", a.join(","), js(&ln))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(owner, body, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(owner, body, len);
                            let i = self.operand(owner, body, index);
                            format!("[\"bounds\",{l},{i}]")
                        }
                        AssertKind::Overflow(op, a, b) => {
                            let a = self.operand(owner, body, a);
                            let b = self.operand(owner, body, b);
                            format!("[\"overflow\",\"{op:?}\",{a},{b}]")
                        }
                        AssertKind::OverflowNeg(_) => "[\"neg\"]".into(),
                        AssertKind::DivisionByZero(_) => "[\"div0\"]".into(),
                        AssertKind::RemainderByZero(_) => "[\"rem0\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{c},{},{m},{},{}]", *expected as u8, target.as_usize(), js(&ln))
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(owner, body, value);
                    let p = self.place(body, resume_arg);
                    format!("[\"yield\",{v},{},{p}]", resume.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::CoroutineDrop => "[\"cdrop\"]".into(),
                _ => "[\"other\"]".into(),
            };
            o.push_str(&s);
            let _ = write!(o, ",{}]", bb.is_cleanup as u8);
        }
        o.push_str("]}");
        o
    }
}

fn skip(tcx: TyCtxt<'_>, d: LocalDefId) -> bool {
    // parts of serde's generated code that say nothing new
    let p = tcx.def_path(d.to_def_id()).to_string_no_crate_verbose();
    (p.contains("deserialize") || p.contains("__FieldVisitor")) && ["visit_seq", "visit_bytes", "visit_u64", "expecting"].iter().any(|m| p.contains(m))
}

/// A copy of each body as it was built: deciding an opaque or coroutine type may have used it up
/// before `after_expansion` asks for it.
type Built = for<'t> fn(TyCtxt<'t>, LocalDefId) -> &'t rustc_data_structures::steal::Steal<Body<'t>>;
static BUILT: std::sync::OnceLock<Built> = std::sync::OnceLock::new();

thread_local! {
    static COPIES: std::cell::RefCell<HashMap<LocalDefId, *const ()>> = Default::default();
}

fn built<'t>(tcx: TyCtxt<'t>, d: LocalDefId) -> &'t rustc_data_structures::steal::Steal<Body<'t>> {
    let s = (BUILT.get().unwrap())(tcx, d);
    if !s.is_stolen() {
        let copy: *const Body<'t> = Box::leak(Box::new(s.borrow().clone()));
        COPIES.with(|c| c.borrow_mut().insert(d, copy as *const ()));
    }
    s
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.lint_cap = Some(rustc_lint_defs::Level::Allow);
        c.override_queries = Some(|_, p| {
            let _ = BUILT.set(p.queries.mir_built);
            p.queries.mir_built = built;
        });
    }

    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // consts first: array lengths and patterns may evaluate (and so steal) them
        owners.sort_by_key(|d| match tcx.def_kind(*d) {
            DefKind::AnonConst => 0,
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => 1,
            _ => 2,
        });
        let mut stolen = 0;
        for d in owners {
            if skip(tcx, d) {
                continue;
            }
            if tcx.is_constructor(d.to_def_id()) {
                continue;
            }
            let s = tcx.mir_built(d);
            if s.is_stolen() {
                if let Some(p) = COPIES.with(|c| c.borrow().get(&d).copied()) {
                    // SAFETY: a leaked copy made under this very `tcx`
                    bodies.push((d, unsafe { &*(p as *const Body<'tcx>) }.clone()));
                    continue;
                }
                stolen += 1;
                if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst) {
                    bodies.push((d, tcx.mir_for_ctfe(d).clone()));
                }
                continue;
            }
            bodies.push((d, s.borrow().clone()));
        }
        let mut cx = Cx {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: vec![],
            adtmap: HashMap::new(),
            paths: HashMap::new(),
        };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut fns = vec![];
        for (d, b) in &bodies {
            fns.push(cx.body(*d, b));
        }
        // local ADTs and trait impls
        let mut impls = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => cx.adt(d.to_def_id()),
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let tr = if of_trait {
                        let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        let a: Vec<usize> = t.args.types().map(|x| cx.ty(x)).collect();
                        let tp = cx.path(t.def_id);
                        format!("{},\"trait_args\":{a:?}", js(&tp))
                    } else {
                        "null".into()
                    };
                    let ms: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|i| {
                            let p = cx.path(i.def_id);
                            let n = i.opt_name().map(|x| x.to_string()).unwrap_or_default();
                            format!("[{},{}]", js(&n), js(&p))
                        })
                        .collect();
                    let der = tcx.is_automatically_derived(d.to_def_id()) as u8;
                    impls.push(format!("{{\"self\":{st},\"trait\":{tr},\"items\":[{}],\"derived\":{der}}}", ms.join(",")));
                }
                DefKind::Trait => {
                    let tp = cx.path(d.to_def_id());
                    let ms: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|i| {
                            let p = cx.path(i.def_id);
                            let n = i.opt_name().map(|x| x.to_string()).unwrap_or_default();
                            let dv = i.defaultness(tcx).has_value() as u8;
                            format!("[{},{},{dv}]", js(&n), js(&p))
                        })
                        .collect();
                    impls.push(format!("{{\"trait_def\":{},\"items\":[{}]}}", js(&tp), ms.join(",")));
                }
                _ => {}
            }
        }
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\"stolen\":{stolen},\n\"types\":[", js(&name));
        o.push_str(&cx.types.join(",\n"));
        o.push_str("],\n\"adts\":[");
        o.push_str(&cx.adts.join(",\n"));
        o.push_str("],\n\"impls\":[");
        o.push_str(&impls.join(",\n"));
        o.push_str("],\n\"fns\":[");
        o.push_str(&fns.join(",\n"));
        o.push_str("]}\n");
        let tmp = format!("{}/{name}.tmp.{}", self.out, std::process::id());
        std::fs::write(&tmp, o).expect("write facts");
        std::fs::rename(&tmp, format!("{}/{name}.json", self.out)).expect("rename facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("AXFACTS_OUT").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let ok = !out.is_empty() && !name.is_empty() && name != "___" && !name.starts_with("build_script") && !args.iter().any(|a| a == "--print");
    rustc_driver::catch_with_exit_code(|| {
        if ok {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
