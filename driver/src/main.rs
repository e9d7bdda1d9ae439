//! Dumps, as JSON, the monomorphised MIR of everything reachable from the crate's functions.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType as _};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_span::source_map::{FileLoader, RealFileLoader};

// ---------------------------------------------------------------- source loading

/// Reads sources; appends the witness module to the crate root and turns the `box` patterns of
/// the nightly configuration into deref patterns (same meaning, the form this compiler knows).
struct Loader {
    root: Option<PathBuf>,
    witness: String,
}

fn replace_box_patterns(src: &str) -> String {
    let b = src.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let prev_ok = i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if prev_ok && b[i..].starts_with(b"box ") {
            out.extend_from_slice(b"    ");
            i += 4;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).unwrap()
}

/// Only code: string literals and comments are left alone.
fn rewrite(src: String) -> String {
    if !src.contains("box ") && !src.contains("box_patterns") {
        return src;
    }
    let mut out = String::new();
    for line in src.split_inclusive('\n') {
        let t = line.trim_start();
        if t.starts_with("//") {
            out.push_str(line);
            continue;
        }
        let (code, comment) = match line.find("//") {
            Some(i) if !line[..i].contains('"') => line.split_at(i),
            _ => (line, ""),
        };
        if code.contains('"') {
            out.push_str(code);
        } else {
            out.push_str(
                &replace_box_patterns(code).replace("feature(box_patterns", "feature(deref_patterns"),
            );
        }
        out.push_str(comment);
    }
    out
}

impl FileLoader for Loader {
    fn file_exists(&self, path: &Path) -> bool {
        RealFileLoader.file_exists(path)
    }
    fn read_file(&self, path: &Path) -> io::Result<String> {
        let mut s = rewrite(RealFileLoader.read_file(path)?);
        if self.root.as_deref() == Some(path) {
            s.push('\n');
            s.push_str(&self.witness);
        }
        Ok(s)
    }
    fn read_binary_file(&self, path: &Path) -> io::Result<Arc<[u8]>> {
        RealFileLoader.read_binary_file(path)
    }
    fn current_directory(&self) -> io::Result<PathBuf> {
        RealFileLoader.current_directory()
    }
}

// ---------------------------------------------------------------- JSON output

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}
fn nums<T: ToString, I: IntoIterator<Item = T>>(i: I) -> String {
    arr(i.into_iter().map(|x| x.to_string()))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    leaves: Vec<String>,
    local_prefix: Vec<String>,
    fn_ids: HashMap<Instance, usize>,
    fn_queue: Vec<Instance>,
    fns: Vec<String>,
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<String>,
    ty_queue: Vec<Ty>,
    allocs: HashMap<AllocId, (usize, String)>,
    n_allocs: usize,
    aux: Vec<String>,
    aux_done: std::collections::HashSet<Ty>,
}

impl<'tcx> Dump<'tcx> {
    fn fn_id(&mut self, i: Instance) -> usize {
        if let Some(&id) = self.fn_ids.get(&i) {
            return id;
        }
        let id = self.fn_ids.len();
        self.fn_ids.insert(i, id);
        self.fn_queue.push(i);
        id
    }
    fn ty_id(&mut self, t: Ty) -> usize {
        if let Some(&id) = self.ty_ids.get(&t) {
            return id;
        }
        let id = self.ty_ids.len();
        self.ty_ids.insert(t, id);
        self.ty_queue.push(t);
        id
    }
    fn path_of(&self, d: rustc_public::DefId) -> String {
        let did = rustc_internal::internal(self.tcx, d);
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(did))
            )
        )
    }
    fn line(&self, s: &rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }

    // ---- types
    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let sh = l.shape();
        let fields = match &sh.fields {
            FieldsShape::Arbitrary { offsets } => nums(offsets.iter().map(|s| s.bytes())),
            FieldsShape::Array { stride, .. } => format!("{}", stride.bytes()),
            _ => "null".into(),
        };
        let variants = match &sh.variants {
            VariantsShape::Empty => "\"empty\"".into(),
            VariantsShape::Single { index } => {
                format!("{{\"single\":{}}}", rustc_internal_idx(*index))
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let tagoff = match &sh.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let prim = match tag {
                    rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                    rustc_public::abi::Scalar::Union { value } => *value,
                };
                let tagsize = prim
                    .size(&rustc_public::target::MachineInfo::target())
                    .bytes();
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".into(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":{}}}",
                        rustc_internal_idx(*untagged_variant),
                        rustc_internal_idx(*niche_variants.start()),
                        rustc_internal_idx(*niche_variants.end()),
                        niche_start
                    ),
                };
                format!(
                    "{{\"tagoff\":{},\"tagsize\":{},\"enc\":{},\"offs\":{}}}",
                    tagoff,
                    tagsize,
                    enc,
                    arr(variants.iter().map(|v| nums(v.offsets.iter().map(|s| s.bytes()))))
                )
            }
        };
        format!("{{\"size\":{},\"fields\":{},\"variants\":{}}}", sh.size.bytes(), fields, variants)
    }

    /// Inputs and output of a function type, regions erased.
    fn erased_sig(&mut self, t: Ty) -> Vec<String> {
        let it = rustc_internal::internal(self.tcx, t);
        let sig = self.tcx.instantiate_bound_regions_with_erased(it.fn_sig(self.tcx));
        let mut v = vec![];
        for x in sig.inputs_and_output {
            let n = self.tcx.normalize_erasing_regions(
                rustc_middle::ty::TypingEnv::fully_monomorphized(),
                rustc_middle::ty::Unnormalized::new_wip(x),
            );
            let s: Ty = rustc_internal::stable(n);
            v.push(self.ty_id(s).to_string());
        }
        v
    }

    fn generic_args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty_id(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("[\"const\",{n}]"),
                    Err(_) => format!("[\"const\",{}]", js(&format!("{c:?}"))),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }

    fn dump_ty(&mut self, t: Ty) -> String {
        let id = self.ty_ids[&t];
        let name = js(&t.to_string());
        let kind = t.kind();
        let Some(k) = kind.rigid() else {
            return format!("{{\"id\":{id},\"k\":\"other\",\"name\":{name}}}");
        };
        let mut extra = String::new();
        let kk = match k {
            RigidTy::Bool => "bool",
            RigidTy::Char => "char",
            RigidTy::Int(i) => {
                let _ = write!(extra, ",\"bits\":{},\"signed\":true", i.num_bytes() * 8);
                "int"
            }
            RigidTy::Uint(i) => {
                let _ = write!(extra, ",\"bits\":{},\"signed\":false", i.num_bytes() * 8);
                "int"
            }
            RigidTy::Float(f) => {
                let b = match f {
                    FloatTy::F16 => 16,
                    FloatTy::F32 => 32,
                    FloatTy::F64 => 64,
                    FloatTy::F128 => 128,
                };
                let _ = write!(extra, ",\"bits\":{b}");
                "float"
            }
            RigidTy::Adt(d, a) => {
                let path = js(&self.path_of(d.def_id()));
                let args = self.generic_args(a);
                let mut vs = vec![];
                let is_enum = d.kind() == AdtKind::Enum;
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(a);
                        let ft = {
                            let it = rustc_internal::internal(self.tcx, ft);
                            let n = self.tcx.normalize_erasing_regions(
                                rustc_middle::ty::TypingEnv::fully_monomorphized(),
                                rustc_middle::ty::Unnormalized::new_wip(it),
                            );
                            rustc_internal::stable(n)
                        };
                        fs.push(format!("[{},{}]", js(&f.name.to_string()), self.ty_id(ft)));
                    }
                    let discr = if is_enum {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!(
                        "{{\"name\":{},\"fields\":{},\"discr\":\"{}\"}}",
                        js(&v.name().to_string()),
                        arr(fs),
                        discr
                    ));
                }
                let dk = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let freeze = {
                    let it = rustc_internal::internal(self.tcx, t);
                    it.is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
                };
                let _ = write!(
                    extra,
                    ",\"path\":{path},\"args\":{args},\"adt\":\"{dk}\",\"box\":{},\"freeze\":{freeze},\"variants\":{}",
                    d.is_box(),
                    arr(vs)
                );
                "adt"
            }
            RigidTy::Str => "str",
            RigidTy::Array(e, n) => {
                let _ = write!(
                    extra,
                    ",\"elem\":{},\"len\":{}",
                    self.ty_id(*e),
                    n.eval_target_usize().map_or("null".into(), |n| n.to_string())
                );
                "array"
            }
            RigidTy::Slice(e) => {
                let _ = write!(extra, ",\"elem\":{}", self.ty_id(*e));
                "slice"
            }
            RigidTy::RawPtr(e, m) => {
                let _ = write!(extra, ",\"to\":{},\"mut\":{}", self.ty_id(*e), *m == Mutability::Mut);
                "ptr"
            }
            RigidTy::Ref(_, e, m) => {
                let _ = write!(extra, ",\"to\":{},\"mut\":{}", self.ty_id(*e), *m == Mutability::Mut);
                "ref"
            }
            RigidTy::FnDef(d, a) => {
                let f = match Instance::resolve_for_fn_ptr(*d, a).or_else(|_| Instance::resolve(*d, a)) {
                    Ok(i) => self.fn_id(i).to_string(),
                    Err(_) => "null".into(),
                };
                let path = js(&self.path_of(d.def_id()));
                let _ = write!(extra, ",\"fn\":{f},\"path\":{path}");
                "fndef"
            }
            RigidTy::FnPtr(s) => {
                let _ = s;
                let v = self.erased_sig(t);
                let _ = write!(extra, ",\"sig\":{}", arr(v));
                "fnptr"
            }
            RigidTy::Closure(d, a) => {
                let f = {
                    let it = rustc_internal::internal(self.tcx, t);
                    if let rustc_middle::ty::Closure(did, args) = it.kind() {
                        let inst = rustc_middle::ty::Instance::new_raw(*did, args);
                        let i: Instance = rustc_internal::stable(inst);
                        Some(self.fn_id(i))
                    } else {
                        None
                    }
                };
                let ups = {
                    let it = rustc_internal::internal(self.tcx, t);
                    let mut v = vec![];
                    if let rustc_middle::ty::Closure(_, args) = it.kind() {
                        for u in args.as_closure().upvar_tys() {
                            let s: Ty = rustc_internal::stable(u);
                            v.push(self.ty_id(s).to_string());
                        }
                    }
                    arr(v)
                };
                let path = js(&self.path_of(d.def_id()));
                let _ = a;
                let _ = write!(
                    extra,
                    ",\"fn\":{},\"ups\":{ups},\"path\":{path}",
                    f.map_or("null".into(), |x| x.to_string())
                );
                "closure"
            }
            RigidTy::Dynamic(..) => "dyn",
            RigidTy::Never => "never",
            RigidTy::Tuple(ts) => {
                let mut v = vec![];
                for x in ts {
                    v.push(self.ty_id(*x).to_string());
                }
                let _ = write!(extra, ",\"elems\":{}", arr(v));
                "tuple"
            }
            _ => "other",
        };
        let lay = self.layout(t);
        format!("{{\"id\":{id},\"k\":\"{kk}\",\"name\":{name}{extra},\"layout\":{lay}}}")
    }

    // ---- constants
    fn alloc_body(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{b:02x}");
                }
                None => hex.push_str("__"),
            }
        }
        let mut ptrs = vec![];
        for (off, p) in &a.provenance.ptrs {
            let id = self.alloc_id(p.0);
            ptrs.push(format!("[{},{}]", off, id));
        }
        format!("[\"{hex}\",{}]", arr(ptrs))
    }
    fn alloc_id(&mut self, id: AllocId) -> usize {
        if let Some((n, _)) = self.allocs.get(&id) {
            return *n;
        }
        let n = self.n_allocs;
        self.n_allocs += 1;
        self.allocs.insert(id, (n, String::new()));
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => format!("{{\"id\":{n},\"k\":\"fn\",\"fn\":{}}}", self.fn_id(i)),
            GlobalAlloc::VTable(t, _) => {
                format!("{{\"id\":{n},\"k\":\"vtable\",\"ty\":{}}}", self.ty_id(t))
            }
            GlobalAlloc::Static(s) => {
                let path = js(&self.path_of(s.def_id()));
                let ty = self.ty_id(s.ty());
                let init = match s.eval_initializer() {
                    Ok(a) => self.alloc_body(&a),
                    Err(_) => "null".into(),
                };
                format!("{{\"id\":{n},\"k\":\"static\",\"path\":{path},\"ty\":{ty},\"init\":{init}}}")
            }
            GlobalAlloc::Memory(a) => {
                let m = a.mutability == Mutability::Mut;
                let b = self.alloc_body(&a);
                format!("{{\"id\":{n},\"k\":\"mem\",\"mut\":{m},\"body\":{b}}}")
            }
            GlobalAlloc::TypeId { ty } => {
                format!("{{\"id\":{n},\"k\":\"typeid\",\"ty\":{}}}", self.ty_id(ty))
            }
        };
        self.allocs.get_mut(&id).unwrap().1 = s;
        n
    }
    fn constant(&mut self, c: &MirConst) -> String {
        let ty = self.ty_id(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("[\"k\",{ty},{}]", self.alloc_body(a)),
            ConstantKind::ZeroSized => format!("[\"k\",{ty},\"zst\"]"),
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(_, a) => {
                    let b = self.alloc_body(a);
                    format!("[\"k\",{ty},{b}]")
                }
                TyConstKind::ZSTValue(_) => format!("[\"k\",{ty},\"zst\"]"),
                _ => match t.eval_target_usize() {
                    Ok(n) => format!("[\"k\",{ty},{n}]"),
                    Err(_) => format!("[\"k\",{ty},null]"),
                },
            },
            ConstantKind::Unevaluated(_) | ConstantKind::Param(_) => {
                // bodies are monomorphic: evaluate
                let internal = rustc_internal::internal(self.tcx, c);
                let r = internal.eval(
                    self.tcx,
                    rustc_middle::ty::TypingEnv::fully_monomorphized(),
                    rustc_span::DUMMY_SP,
                );
                match r {
                    Ok(v) => {
                        let it = internal.ty();
                        let cc = rustc_middle::mir::Const::Val(v, it);
                        let s: MirConst = rustc_internal::stable(cc);
                        match s.kind() {
                            ConstantKind::Allocated(a) => {
                                let a = a.clone();
                                format!("[\"k\",{ty},{}]", self.alloc_body(&a))
                            }
                            _ => format!("[\"k\",{ty},\"zst\"]"),
                        }
                    }
                    Err(_) => format!("[\"k\",{ty},null]"),
                }
            }
        }
    }

    // ---- bodies
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{i},{}]", self.ty_id(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", rustc_internal_idx(*v)),
                ProjectionElem::OpaqueCast(_) => "\"oc\"".into(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{r:?}\"]"),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{m},{}]", self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p))
            }
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{op:?}\",{},{}]", self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",\"{op:?}\",{},{}]", self.operand(a), self.operand(b))
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{op:?}\",{}]", self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c) => format!("Coerce:{c:?}"),
                    k => format!("{k:?}"),
                };
                let op = self.operand(o);
                format!("[\"cast\",{},{},{}]", js(&ks), op, self.ty_id(*t))
            }
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let op = self.operand(o);
                let n = n.eval_target_usize().map_or("null".into(), |n| n.to_string());
                format!("[\"rep\",{op},{n}]")
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", js(&self.path_of(i.def_id()))),
            Rvalue::Aggregate(k, ops) => {
                let (kn, ty, var, act) = match k {
                    AggregateKind::Array(t) => ("array", self.ty_id(*t).to_string(), 0, "null".into()),
                    AggregateKind::Tuple => ("tuple", "null".into(), 0, "null".into()),
                    AggregateKind::Adt(d, v, a, _, f) => (
                        "adt",
                        self.ty_id(d.ty_with_args(a)).to_string(),
                        rustc_internal_idx(*v),
                        f.map_or("null".to_string(), |f| f.to_string()),
                    ),
                    AggregateKind::Closure(d, a) => (
                        "closure",
                        self.ty_id(Ty::new_closure(*d, a.clone())).to_string(),
                        0,
                        "null".into(),
                    ),
                    AggregateKind::RawPtr(t, _) => ("rawptr", self.ty_id(*t).to_string(), 0, "null".into()),
                    _ => ("other", "null".into(), 0, "null".into()),
                };
                let mut v = vec![];
                for o in ops {
                    v.push(self.operand(o));
                }
                format!("[\"agg\",\"{kn}\",{ty},{var},{},{act}]", arr(v))
            }
        }
    }
    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            UnwindAction::Continue => "\"c\"".into(),
            UnwindAction::Unreachable => "\"u\"".into(),
            UnwindAction::Terminate => "\"t\"".into(),
        }
    }
    fn terminator(&mut self, t: &Terminator, locals: &[LocalDecl]) -> String {
        use TerminatorKind::*;
        let ln = js(&self.line(&t.source_info.span));
        match &t.kind {
            Goto { target } => format!("[\"goto\",{target}]"),
            SwitchInt { discr, targets } => {
                let d = self.operand(discr);
                let ty = discr.ty(locals).map(|t| self.ty_id(t).to_string()).unwrap_or("null".into());
                format!(
                    "[\"switch\",{d},{},{},{ty},{ln}]",
                    arr(targets.branches().map(|(v, b)| format!("[\"{v}\",{b}]"))),
                    targets.otherwise()
                )
            }
            Resume => "[\"resume\"]".into(),
            Abort => "[\"abort\"]".into(),
            Return => "[\"ret\"]".into(),
            Unreachable => "[\"unreach\"]".into(),
            Drop { place, target, unwind } => {
                let ty = place.ty(locals).map(|t| self.ty_id(t).to_string()).unwrap_or("null".into());
                format!("[\"drop\",{},{target},{},{ty}]", self.place(place), Self::unwind(unwind))
            }
            Call { func, args, destination, target, unwind } => {
                let f = self.operand(func);
                let callee = match func.ty(locals) {
                    Ok(t) => match t.kind().rigid() {
                        Some(RigidTy::FnDef(d, a)) => match Instance::resolve(*d, a) {
                            Ok(i) => self.fn_id(i).to_string(),
                            Err(_) => "null".into(),
                        },
                        _ => "null".into(),
                    },
                    Err(_) => "null".into(),
                };
                let mut v = vec![];
                for a in args {
                    v.push(self.operand(a));
                }
                let dty = destination
                    .ty(locals)
                    .map(|t| self.ty_id(t).to_string())
                    .unwrap_or("null".into());
                format!(
                    "[\"call\",{f},{callee},{},{},{},{},{ln},{dty}]",
                    arr(v),
                    self.place(destination),
                    target.map_or("null".into(), |t| t.to_string()),
                    Self::unwind(unwind)
                )
            }
            Assert { cond, expected, msg, target, unwind } => {
                let (k, ops): (String, Vec<&Operand>) = match msg {
                    AssertMessage::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len, index]),
                    AssertMessage::Overflow(op, a, b) => (format!("Overflow{op:?}"), vec![a, b]),
                    AssertMessage::OverflowNeg(a) => ("OverflowNeg".into(), vec![a]),
                    AssertMessage::DivisionByZero(a) => ("DivisionByZero".into(), vec![a]),
                    AssertMessage::RemainderByZero(a) => ("RemainderByZero".into(), vec![a]),
                    AssertMessage::NullPointerDereference => ("Null".into(), vec![]),
                    AssertMessage::NullReferenceConstructed => ("Null".into(), vec![]),
                    AssertMessage::MisalignedPointerDereference { .. } => ("Misaligned".into(), vec![]),
                    _ => ("Other".into(), vec![]),
                };
                let c = self.operand(cond);
                let mut v = vec![];
                for o in ops {
                    v.push(self.operand(o));
                }
                format!(
                    "[\"assert\",{c},{expected},\"{k}\",{},{target},{},{ln}]",
                    arr(v),
                    Self::unwind(unwind)
                )
            }
            InlineAsm { .. } => "[\"asm\"]".into(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals();
        let mut lt = vec![];
        for l in locals {
            lt.push(self.ty_id(l.ty));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("\"{l}\":{}", js(&v.name.to_string())));
            }
        }
        names.sort();
        names.dedup_by(|a, b| a.split(':').next() == b.split(':').next());
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p);
                        let rs = self.rvalue(r);
                        let ty = p.ty(locals).map(|t| self.ty_id(t).to_string()).unwrap_or("null".into());
                        ss.push(format!("[\"=\",{ps},{rs},{ty},{}]", s.source_info.span.get_lines().start_line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!(
                        "[\"sd\",{},{}]",
                        self.place(place),
                        rustc_internal_idx(*variant_index)
                    )),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        ss.push(format!("[\"assume\",{}]", self.operand(o)))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (a, b2, n) =
                            (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                        ss.push(format!("[\"cno\",{a},{b2},{n}]"))
                    }
                    _ => {}
                }
            }
            let t = self.terminator(&bb.terminator, locals);
            blocks.push(format!("{{\"s\":{},\"t\":{t}}}", arr(ss)));
        }
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{{{}}},\"blocks\":{}}}",
            b.arg_locals().len(),
            b.spread_arg().map_or("null".into(), |l| l.to_string()),
            nums(lt),
            names.join(","),
            arr(blocks)
        )
    }

    fn is_leaf(&self, path: &str, krate: &str) -> bool {
        if self.local_prefix.iter().any(|p| p == krate) {
            return false;
        }
        // `<Self as Trait>::method`: a modelled trait, else the rule of the type,
        // else (generic parameter, primitive) the one of the trait
        if let Some(rest) = path.strip_prefix('<') {
            let mut depth = 0i32;
            for (i, c) in rest.char_indices() {
                match c {
                    '<' | '(' | '[' => depth += 1,
                    '>' if rest[..i].ends_with('-') => {},
                    '>' | ')' | ']' => depth -= 1,
                    _ => {},
                }
                if depth < 0 {
                    break;
                }
                if depth == 0 && rest[i..].starts_with(" as ") {
                    let of_trait = self.rule(&rest[i + 4..]);
                    let of_self = self.rule(&rest[..i]);
                    let self_is_path = rest[..i].chars().next().is_some_and(char::is_lowercase)
                        && rest[..i].contains("::");
                    return if of_trait == Some(true) {
                        true
                    } else if self_is_path {
                        of_self.unwrap_or(true)
                    } else {
                        of_trait.unwrap_or(true)
                    };
                }
            }
        }
        self.rule(path).unwrap_or(true)
    }

    /// The longest matching rule wins; `+prefix` analyses, `-prefix` models.
    fn rule(&self, path: &str) -> Option<bool> {
        let mut best = (0usize, None);
        for l in &self.leaves {
            let (inc, p) = match l.split_at(1) {
                ("+", p) => (true, p),
                (_, p) => (false, p),
            };
            if path.starts_with(p) && p.len() >= best.0 {
                best = (p.len(), Some(!inc));
            }
        }
        best.1
    }

    fn trait_method(&mut self, t: Ty, tr: rustc_span::def_id::DefId, m: &str, with_self_arg: bool) -> Option<usize> {
        use rustc_trait_selection::infer::InferCtxtExt as _;
        use rustc_infer::infer::TyCtxtInferExt as _;
        let tcx = self.tcx;
        let it = rustc_internal::internal(tcx, t);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
        let gargs: Vec<rustc_middle::ty::GenericArg<'tcx>> =
            if with_self_arg { vec![it.into(), it.into()] } else { vec![it.into()] };
        if !infcx.type_implements_trait(tr, gargs.clone(), penv).must_apply_modulo_regions() {
            return None;
        }
        let item = tcx
            .associated_items(tr)
            .in_definition_order()
            .find(|i| i.opt_name().is_some_and(|n| n.as_str() == m))?
            .def_id;
        let args = tcx.mk_args(&gargs);
        let inst = rustc_middle::ty::Instance::try_resolve(tcx, env, item, args).ok().flatten()?;
        let s: Instance = rustc_internal::stable(inst);
        Some(self.fn_id(s))
    }

    /// A leaf works on these types: which of its trait methods it may call.
    fn add_aux(&mut self, t: Ty) {
        if !self.aux_done.insert(t) {
            return;
        }
        let tcx = self.tcx;
        let id = self.ty_id(t);
        let diag = |n: &str| tcx.get_diagnostic_item(rustc_span::Symbol::intern(n));
        let list: Vec<(Option<rustc_span::def_id::DefId>, &str, &str, bool)> = vec![
            (diag("Iterator"), "next", "next", false),
            (diag("IntoIterator"), "into_iter", "into_iter", false),
            (diag("Display"), "fmt", "display", false),
            (diag("Debug"), "fmt", "debug", false),
            (tcx.lang_items().eq_trait(), "eq", "eq", true),
            (tcx.lang_items().clone_trait(), "clone", "clone", false),
            (diag("Default"), "default", "default", false),
        ];
        for (tr, m, key, sa) in list {
            let Some(tr) = tr else { continue };
            if let Some(f) = self.trait_method(t, tr, m, sa) {
                self.aux.push(format!("[{id},\"{key}\",{f}]"));
            }
        }
        match t.kind().rigid() {
            Some(RigidTy::Ref(_, e, _)) | Some(RigidTy::Slice(e)) | Some(RigidTy::Array(e, _)) => self.add_aux(*e),
            Some(RigidTy::Adt(_, a)) => {
                for g in a.0.clone() {
                    if let GenericArgKind::Type(t) = g {
                        self.add_aux(t);
                    }
                }
            }
            Some(RigidTy::Tuple(ts)) => {
                for t in ts.clone() {
                    self.add_aux(t);
                }
            }
            _ => {}
        }
    }

    fn dump_fn(&mut self, i: Instance) -> String {
        let id = self.fn_ids[&i];
        let did = i.def.def_id();
        let path = self.path_of(did);
        let krate = i.def.krate().name.to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let vidx = match i.kind {
            InstanceKind::Virtual { idx } => idx.to_string(),
            _ => "null".into(),
        };
        let args = i.args();
        let ga = self.generic_args(&args);
        let name = i.name().to_string();
        let foreign = i.is_foreign_item();
        let leaf = self.is_leaf(&path, &krate);
        let dk = rustc_internal::internal(self.tcx, did);
        let is_fn_like = matches!(
            self.tcx.def_kind(dk),
            rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn
        );
        let is_unsafe = is_fn_like
            && self.tcx.fn_sig(dk).skip_binder().safety() == rustc_hir::Safety::Unsafe;
        let body = if kind == "virtual" || kind == "intrinsic" || foreign || (leaf && kind != "shim") {
            None
        } else if kind == "shim" && path.contains("drop_in_place") {
            None
        } else {
            i.body()
        };
        let bs = match &body {
            Some(b) => self.body(b),
            None => {
                for g in args.0.clone() {
                    if let GenericArgKind::Type(t) = g {
                        self.add_aux(t);
                    }
                }
                "null".into()
            }
        };
        let span = js(&self.line(&i.def.span()));
        // monomorphic signature
        let sig = match i.ty().kind().rigid() {
            Some(RigidTy::FnDef(..)) => arr(self.erased_sig(i.ty())),
            _ => "null".into(),
        };
        let parent = {
            let p = self.tcx.opt_parent(dk);
            p.map_or("null".into(), |p| {
                js(&rustc_middle::ty::print::with_no_visible_paths!(
                    rustc_middle::ty::print::with_no_trimmed_paths!(
                        rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(p))
                    )
                ))
            })
        };
        format!(
            "{{\"id\":{id},\"path\":{},\"name\":{},\"krate\":{},\"kind\":\"{kind}\",\"vidx\":{vidx},\"foreign\":{foreign},\"unsafe\":{is_unsafe},\"args\":{ga},\"span\":{span},\"sig\":{sig},\"parent\":{parent},\"body\":{bs}}}",
            js(&path),
            js(&name),
            js(&krate),
        )
    }

    fn run(&mut self, out: &str) {
        let local = rustc_public::local_crate();
        let _ = &local;
        let items = rustc_public::all_local_items();
        let mut roots = vec![];
        let mut generic = vec![];
        for it in items {
            let did = rustc_internal::internal(self.tcx, it.def_id());
            let dk = self.tcx.def_kind(did);
            if !matches!(dk, rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
                continue;
            }
            match Instance::try_from(it) {
                Ok(i) => {
                    let id = self.fn_id(i);
                    roots.push(id);
                }
                Err(_) => generic.push(js(&self.path_of(it.def_id()))),
            }
        }
        loop {
            if let Some(i) = self.fn_queue.pop() {
                let s = self.dump_fn(i);
                self.fns.push(s);
                continue;
            }
            if let Some(t) = self.ty_queue.pop() {
                let s = self.dump_ty(t);
                self.tys.push(s);
                continue;
            }
            break;
        }
        let mut allocs: Vec<_> = self.allocs.values().cloned().collect();
        allocs.sort_by_key(|a| a.0);
        // the crate's own statics
        let mut statics = vec![];
        for s in self.tcx.hir_crate_items(()).definitions() {
            if let rustc_hir::def::DefKind::Static { mutability, .. } = self.tcx.def_kind(s) {
                statics.push(format!(
                    "[{},{}]",
                    js(&self.tcx.def_path_str(s)),
                    mutability == rustc_hir::Mutability::Mut
                ));
            }
        }
        let txt = format!(
            "{{\"crate\":{},\"roots\":{},\"generic\":{},\"statics\":{},\"aux\":{},\n\"fns\":[{}],\n\"types\":[{}],\n\"allocs\":[{}]}}\n",
            js(&rustc_public::local_crate().name.to_string()),
            nums(roots),
            arr(generic),
            arr(statics),
            arr(std::mem::take(&mut self.aux)),
            self.fns.join(",\n"),
            self.tys.join(",\n"),
            allocs.into_iter().map(|a| a.1).collect::<Vec<_>>().join(",\n"),
        );
        std::fs::write(out, txt).expect("write dump");
    }
}

fn rustc_internal_idx(v: VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        let root = std::env::var("MIRDUMP_ROOT").ok().map(PathBuf::from);
        let witness = std::env::var("MIRDUMP_WITNESS")
            .ok()
            .map(|p| std::fs::read_to_string(p).expect("witness"))
            .unwrap_or_default();
        config.file_loader = Some(Box::new(Loader { root, witness }));
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = self.out.take() {
            let leaves = std::env::var("MIRDUMP_LEAVES")
                .ok()
                .map(|p| std::fs::read_to_string(p).expect("leaves"))
                .unwrap_or_default()
                .lines()
                .map(str::trim)
                .filter(|l| !l.is_empty() && !l.starts_with('#'))
                .map(str::to_owned)
                .collect();
            let local_prefix = std::env::var("MIRDUMP_LOCAL")
                .unwrap_or_default()
                .split(',')
                .map(str::to_owned)
                .collect();
            rustc_internal::run(tcx, || {
                let mut d = Dump {
                    tcx,
                    leaves,
                    local_prefix,
                    fn_ids: HashMap::new(),
                    fn_queue: vec![],
                    fns: vec![],
                    ty_ids: HashMap::new(),
                    tys: vec![],
                    ty_queue: vec![],
                    allocs: HashMap::new(),
                    n_allocs: 0,
                    aux: vec![],
                    aux_done: Default::default(),
                };
                d.run(&out);
            })
            .unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRDUMP_OUT").ok();
    args[0] = "rustc".into();
    let mut cb = Cb { out };
    rustc_driver::install_ice_hook("https://example.invalid", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if format!("{code:?}").contains("(0)") { 0 } else { 1 });
}
