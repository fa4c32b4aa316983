//! mirdump: a rustc wrapper which writes the whole, monomorphic MIR program reachable
//! from the `backpak` binary's `main` as JSON lines.
//!
//! Run by cargo as RUSTC_WORKSPACE_WRAPPER. For every workspace crate it makes rustc encode the
//! MIR of all functions (so the binary's compilation sees the library's bodies); for the crate
//! with an entry point it walks the instances reachable from `main` and dumps them.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public_bridge::IndexedVal;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;


use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, rustc_internal};

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("mirdump: run me as RUSTC_WORKSPACE_WRAPPER");
        std::process::exit(2);
    }
    let probe = args.iter().any(|a| a == "-vV" || a == "-V" || a.starts_with("--print"))
        || !args.iter().any(|a| a == "--crate-name");
    if probe {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Zshare-generics=no".into());
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let res = rustc_public::run_with_tcx!(&args, |tcx| -> std::ops::ControlFlow<(), ()> {
        if let Some(entry) = rustc_public::entry_fn() {
            dump(tcx, entry, &out);
        }
        std::ops::ControlFlow::Continue(())
    });
    match res {
        Ok(()) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    fn_ids: HashMap<Instance, usize>,
    fns: Vec<Instance>,
    queue: VecDeque<usize>,
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<String>,
    adts: HashMap<AdtDef, String>,
    statics: HashSet<String>,
    /// Fields of workspace types that are written (or mutably borrowed) after construction; "*" for the whole value.
    muts: HashSet<(String, String)>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    w: std::io::BufWriter<std::fs::File>,
}

/// Third-party crates whose bodies are always followed.
const TRANSPARENT: &[&str] = &["core", "alloc", "std", "anyhow", "tempfile"];
const WORKSPACE: &[&str] = &["backpak", "backpak_b2", "b2"];

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>, entry: rustc_public::CrateItem, out: &str) {
    let tmp = format!("{out}.tmp{}", std::process::id());
    let w = std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap());
    let mut cx = Cx {
        tcx,
        fn_ids: HashMap::new(),
        fns: vec![],
        queue: VecDeque::new(),
        ty_ids: HashMap::new(),
        tys: vec![],
        adts: HashMap::new(),
        statics: HashSet::new(),
        muts: HashSet::new(),
        files: HashMap::new(),
        file_list: vec![],
        w,
    };
    let root = Instance::try_from(entry).unwrap();
    let rid = cx.fn_id(root);
    // Root every public, non-generic function of the workspace's library crates too: the
    // binary may not reach all of it, and what it does not reach is still reported.
    let mut extra = vec![];
    for krate in rustc_public::external_crates() {
        if WORKSPACE.contains(&krate.name.as_str()) {
            for f in krate.fn_defs() {
                let g = f.generics_of_any();
                if g == 0 {
                    if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
                        let id = cx.fn_id(i);
                        extra.push(id);
                    }
                }
            }
        }
    }
    while let Some(id) = cx.queue.pop_front() {
        cx.emit_fn(id);
    }
    let tys = cx.tys.join(",");
    let adts: Vec<String> = cx.adts.values().cloned().collect();
    let mut muts: Vec<String> = cx.muts.iter().map(|(a, f)| format!("[{},{}]", esc(a), esc(f))).collect();
    muts.sort();
    let files: Vec<String> = cx.file_list.iter().map(|f| esc(f)).collect();
    let extra: Vec<String> = extra.iter().map(|e| e.to_string()).collect();
    let nf = cx.fns.len();
    writeln!(
        cx.w,
        "{{\"meta\":1,\"root\":{rid},\"extra\":[{}],\"nfns\":{nf},\"types\":[{tys}],\"adts\":[{}],\"muts\":[{}],\"files\":[{}]}}",
        extra.join(","),
        adts.join(","),
        muts.join(","),
        files.join(",")
    )
    .unwrap();
    cx.w.flush().unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

trait GenericsOf {
    fn generics_of_any(&self) -> usize;
}
impl GenericsOf for FnDef {
    /// Number of type/const generics (lifetimes do not count), or a big number when unknown.
    fn generics_of_any(&self) -> usize {
        match self.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(_, args)) => args
                .0
                .iter()
                .filter(|a| !matches!(a, GenericArgKind::Lifetime(_)))
                .count(),
            _ => 99,
        }
    }
}

impl<'tcx> Cx<'tcx> {
    fn fn_id(&mut self, i: Instance) -> usize {
        if let Some(id) = self.fn_ids.get(&i) {
            return *id;
        }
        let id = self.fns.len();
        self.fn_ids.insert(i, id);
        self.fns.push(i);
        self.queue.push_back(id);
        id
    }

    fn file(&mut self, f: String) -> usize {
        if let Some(i) = self.files.get(&f) {
            return *i;
        }
        let i = self.file_list.len();
        self.file_list.push(f.clone());
        self.files.insert(f, i);
        i
    }

    fn span(&mut self, s: Span) -> String {
        let l = s.get_lines();
        let f = self.file(s.get_filename().to_string());
        format!("[{},{}]", f, l.start_line)
    }

    fn adt(&mut self, def: AdtDef) {
        if self.adts.contains_key(&def) {
            return;
        }
        self.adts.insert(def, String::new());
        let mut vs = vec![];
        let is_enum = def.kind() == AdtKind::Enum;
        for v in def.variants_iter() {
            let fs: Vec<String> = v.fields().iter().map(|f| esc(&f.name.to_string())).collect();
            let d = if is_enum { def.discriminant_for_variant(v.idx()).val } else { 0 };
            vs.push(format!("[{},{},[{}]]", esc(&v.name().to_string()), d, fs.join(",")));
        }
        let s = format!(
            "{{\"name\":{},\"kind\":\"{:?}\",\"krate\":{},\"variants\":[{}]}}",
            esc(&def.name().to_string()),
            def.kind(),
            esc(&def.krate().name.to_string()),
            vs.join(",")
        );
        self.adts.insert(def, s);
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(esc(&format!("{:?}", c.kind()))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        v.join(",")
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(String::new());
        let disp = esc(&format!("{t}"));
        let k = t.kind();
        let body = match &k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(_) => "\"k\":\"int\"".into(),
                RigidTy::Uint(_) => "\"k\":\"uint\"".into(),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Adt(d, a) => {
                    self.adt(*d);
                    let args = self.args(a);
                    format!(
                        "\"k\":\"adt\",\"d\":{},\"a\":[{}]",
                        esc(&d.name().to_string()),
                        args
                    )
                }
                RigidTy::Array(t, _) => format!("\"k\":\"array\",\"a\":[{}]", self.ty(*t)),
                RigidTy::Slice(t) => format!("\"k\":\"slice\",\"a\":[{}]", self.ty(*t)),
                RigidTy::RawPtr(t, m) => {
                    format!("\"k\":\"ptr\",\"m\":{},\"a\":[{}]", *m == Mutability::Mut, self.ty(*t))
                }
                RigidTy::Ref(_, t, m) => {
                    format!("\"k\":\"ref\",\"m\":{},\"a\":[{}]", *m == Mutability::Mut, self.ty(*t))
                }
                RigidTy::Tuple(ts) => {
                    let a: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"a\":[{}]", a.join(","))
                }
                RigidTy::FnDef(d, a) => {
                    let args = self.args(a);
                    format!("\"k\":\"fndef\",\"d\":{},\"a\":[{}]", esc(&d.name().to_string()), args)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    // The closure's own body under each calling convention is resolved by callers;
                    // resolve the natural one here so that creating it is enough to reach it.
                    let fid = Instance::resolve_closure(*d, a, ClosureKind::FnOnce)
                        .ok()
                        .map(|i| self.fn_id(i));
                    let args = self.args(a);
                    format!(
                        "\"k\":\"closure\",\"d\":{},\"fn\":{},\"a\":[{}]",
                        esc(&d.name().to_string()),
                        fid.map(|f| f.to_string()).unwrap_or("null".into()),
                        args
                    )
                }
                RigidTy::Dynamic(preds, _) => {
                    let mut name = String::new();
                    let mut args = String::new();
                    for p in preds {
                        if let ExistentialPredicate::Trait(t) = &p.value {
                            name = t.def_id.name().to_string();
                            args = self.args(&t.generic_args);
                        }
                    }
                    format!("\"k\":\"dyn\",\"d\":{},\"a\":[{}]", esc(&name), args)
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"unk\"".into(),
        };
        self.tys[id] = format!("{{\"s\":{disp},{body}}}");
        id
    }

    fn emit_fn(&mut self, id: usize) {
        let inst = self.fns[id];
        let name = inst.name().to_string();
        let kind = match inst.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let def_name = inst.def.name().to_string();
        let krate = inst.def.krate().name.to_string();
        let local = WORKSPACE.contains(&krate.as_str());
        let args = self.args(&inst.args());
        let sp = inst.def.span();
        let span = self.span(sp);
        // A third-party function whose type arguments name nothing of ours cannot call into the
        // workspace by static dispatch: it is a leaf.
        let leaf = !local
            && !TRANSPARENT.contains(&krate.as_str())
            && !WORKSPACE.iter().any(|w| name.contains(&format!("{w}::")));
        let body = if leaf || matches!(kind, "virtual" | "intrinsic") || inst.is_foreign_item() {
            None
        } else if inst.has_body() || inst.kind == InstanceKind::Shim {
            inst.body()
        } else {
            None
        };
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"id\":{id},\"name\":{},\"def\":{},\"krate\":{},\"kind\":\"{kind}\",\"local\":{local},\"ga\":[{args}],\"span\":{span}",
            esc(&name),
            esc(&def_name),
            esc(&krate)
        );
        if let InstanceKind::Virtual { idx } = inst.kind {
            let _ = write!(s, ",\"vidx\":{idx}");
        }
        if let Some(b) = body {
            let b = self.body(&b);
            let _ = write!(s, ",\"body\":{b}");
        }
        s.push_str("}\n");
        self.w.write_all(s.as_bytes()).unwrap();
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local);
        }
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, _) => format!("{i}"),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"c\",{offset},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "\"o\"".into(),
            });
        }
        format!("[{}]", v.join(","))
    }

    fn fndef_instance(&mut self, ty: Ty) -> Option<usize> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                Instance::resolve(d, &a).ok().map(|i| self.fn_id(i))
            }
            _ => None,
        }
    }

    fn alloc_strings(&mut self, a: &Allocation, depth: usize, out: &mut Vec<String>) {
        // Everything a constant points at: strings, byte strings, functions, statics.
        for (_, p) in &a.provenance.ptrs {
            if depth > 4 {
                return;
            }
            match GlobalAlloc::from(p.0) {
                GlobalAlloc::Memory(m) => {
                    if let Ok(b) = m.raw_bytes() {
                        if m.provenance.ptrs.is_empty() && b.len() < 4096 {
                            out.push(format!("[\"b\",{}]", bytes(&b)));
                        }
                    } else if m.provenance.ptrs.is_empty() && m.bytes.len() <= 64 {
                        // Partly uninitialised, e.g. an enum variant that carries nothing.
                        let b: Vec<String> = m.bytes.iter().map(|x| x.map_or("-1".into(), |x| x.to_string())).collect();
                        out.push(format!("[\"u\",[{}]]", b.join(",")));
                    }
                    self.alloc_strings(&m, depth + 1, out);
                }
                GlobalAlloc::Function(i) => {
                    let f = self.fn_id(i);
                    out.push(format!("[\"fn\",{f}]"));
                }
                GlobalAlloc::Static(s) => {
                    let n = s.name().to_string();
                    out.push(format!("[\"static\",{}]", esc(&n)));
                    let foreign = self.tcx.is_foreign_item(rustc_internal::internal(self.tcx, s.def_id()));
                    if self.statics.insert(n) && !foreign {
                        if let Ok(a) = s.eval_initializer() {
                            // reach functions named by statics (e.g. LazyLock initialisers)
                            let mut v = vec![];
                            self.alloc_strings(&a, depth + 1, &mut v);
                            out.extend(v.into_iter().filter(|x| x.starts_with("[\"fn\"")));
                        }
                    }
                }
                GlobalAlloc::VTable(t, Some(tr)) => {
                    let fs = self.vtable(t, &tr);
                    let tn = tr.value.def_id.name().to_string();
                    out.push(format!("[\"vt\",{},{},[{}]]", self.ty_ids[&t], esc(&tn), fs));
                }
                _ => {}
            }
        }
    }

    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let Some(f) = self.fndef_instance(t) {
            return format!("{{\"t\":{tid},\"fn\":{f}}}");
        }
        let mut s = format!("{{\"t\":{tid}");
        let al = match c.const_.kind() {
            ConstantKind::Allocated(a) => Some(a.clone()),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => Some(a.clone()),
                _ => None,
            },
            ConstantKind::ZeroSized => {
                s.push_str(",\"z\":1");
                None
            }
            _ => None,
        };
        if let Some(a) = al {
            if a.provenance.ptrs.is_empty() {
                if a.bytes.len() <= 16 {
                    if let Ok(u) = a.read_uint() {
                        let _ = write!(s, ",\"v\":{u}");
                    } else if let Some(Some(b0)) = a.bytes.first() {
                        // Partly uninitialised (e.g. a payload-less enum variant): keep the tag byte.
                        let _ = write!(s, ",\"tag\":{b0}");
                    }
                    if a.bytes.len() > 8 || !is_scalar(t) {
                        if let Ok(b) = a.raw_bytes() {
                            let _ = write!(s, ",\"b\":{}", bytes(&b));
                        }
                    }
                } else if a.bytes.len() < 4096 {
                    if let Ok(b) = a.raw_bytes() {
                        let _ = write!(s, ",\"b\":{}", bytes(&b));
                    }
                }
            } else {
                let mut v = vec![];
                self.alloc_strings(&a, 0, &mut v);
                let _ = write!(s, ",\"p\":[{}]", v.join(","));
                // Niche/scalar tag for small constants
            }
        }
        s.push('}');
        s
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(k) => format!("[\"k\",{}]", self.konst(k)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }

    /// All methods in the vtable of `concrete` for the trait.
    fn vtable(&mut self, concrete: Ty, tr: &Binder<ExistentialTraitRef>) -> String {
        self.ty(concrete);
        let tcx = self.tcx;
        let self_ty = rustc_internal::internal(tcx, concrete);
        let tr = rustc_internal::internal(tcx, tr.clone());
        let tr = tcx.instantiate_bound_regions_with_erased(tr);
        let tref = tcx.erase_and_anonymize_regions(tr.with_self_ty(tcx, self_ty));
        let entries: Vec<VtblEntry> =
            tcx.vtable_entries(tref).iter().map(|e| rustc_internal::stable(*e)).collect();
        let mut v = vec![];
        for (n, e) in entries.into_iter().enumerate() {
            if let VtblEntry::Method(i) = e {
                let f = self.fn_id(i);
                v.push(format!("[{n},{f}]"));
            }
        }
        v.join(",")
    }

    /// For an unsizing from `a` to `b`, find the (concrete, dyn) tail types.
    fn unsize_tail(&self, a: Ty, b: Ty, depth: usize) -> Option<(Ty, Ty)> {
        if depth > 8 || a == b {
            return None;
        }
        if let TyKind::RigidTy(RigidTy::Dynamic(..)) = b.kind() {
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = a.kind() {
                return None;
            }
            return Some((a, b));
        }
        match (a.kind(), b.kind()) {
            (
                TyKind::RigidTy(RigidTy::Ref(_, x, _) | RigidTy::RawPtr(x, _)),
                TyKind::RigidTy(RigidTy::Ref(_, y, _) | RigidTy::RawPtr(y, _)),
            ) => self.unsize_tail(x, y, depth + 1),
            (TyKind::RigidTy(RigidTy::Adt(d1, a1)), TyKind::RigidTy(RigidTy::Adt(d2, a2)))
                if d1 == d2 =>
            {
                for (x, y) in a1.0.iter().zip(a2.0.iter()) {
                    if let (GenericArgKind::Type(x), GenericArgKind::Type(y)) = (x, y) {
                        if let Some(r) = self.unsize_tail(*x, *y, depth + 1) {
                            return Some(r);
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// Note what a write through (or mutable borrow of) `p` may change. Writing a whole local is construction.
    fn mutated(&mut self, p: &Place, locals: &[LocalDecl]) {
        if p.projection.is_empty() {
            return;
        }
        for n in (0..p.projection.len()).rev() {
            let base = Place { local: p.local, projection: p.projection[..n].to_vec() };
            if let ProjectionElem::Field(i, _) = &p.projection[n] {
                if let Ok(t) = base.ty(locals) {
                    self.note_mut(t, i.to_string());
                }
            }
            if let ProjectionElem::Deref = &p.projection[n] {
                // everything above is only read
                break;
            }
        }
        if let Ok(t) = p.ty(locals) {
            self.note_mut(t, "*".into());
        }
    }

    /// A mutable borrow may be written through later: of a field, that field; of a whole value, what those who
    /// have the reference write is noted where they write it.
    fn borrowed(&mut self, p: &Place, locals: &[LocalDecl]) {
        for n in (0..p.projection.len()).rev() {
            let base = Place { local: p.local, projection: p.projection[..n].to_vec() };
            match &p.projection[n] {
                ProjectionElem::Field(i, _) => {
                    if let Ok(t) = base.ty(locals) {
                        self.note_mut(t, i.to_string());
                    }
                }
                ProjectionElem::Deref => break,
                _ => {}
            }
        }
    }

    fn note_mut(&mut self, t: Ty, f: String) {
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() {
            if WORKSPACE.contains(&d.krate().name.as_str()) {
                self.muts.insert((d.name().to_string(), f));
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                bk.to_mutable_lossy() == Mutability::Mut,
                self.place(p)
            ),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match k {
                    AggregateKind::Array(_) => "[\"array\"]".into(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        let t = self.ty(t);
                        format!(
                            "[\"adt\",{t},{},{}]",
                            v.to_index(),
                            f.map(|f| f.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"closure\",{t}]")
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{kk},[{}]]", ops.join(","))
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{b:?}\",{},{}]", self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",\"{b:?}\",{},{}]", self.op(x), self.op(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{u:?}\",{}]", self.op(x)),
            Rvalue::Cast(k, o, t) => {
                let tid = self.ty(*t);
                let mut extra = String::new();
                let kn = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                        if let Ok(from) = o.ty(locals) {
                            let fid = self.ty(from);
                            if let Some((c, d)) = self.unsize_tail(from, *t, 0) {
                                if let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = d.kind() {
                                    for p in &preds {
                                        if let ExistentialPredicate::Trait(_) = &p.value {
                                            let tr = p.map_bound_ref(|q| match q {
                                                ExistentialPredicate::Trait(t) => t.clone(),
                                                _ => unreachable!(),
                                            });
                                            let vt = self.vtable(c, &tr);
                                            let dd = self.ty(d);
                                            let cc = self.ty(c);
                                            extra = format!(",{fid},{cc},{dd},[{vt}]");
                                        }
                                    }
                                }
                            }
                        }
                        "unsize"
                    }
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        if let Ok(from) = o.ty(locals) {
                            if let Some(f) = match from.kind() {
                                TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                                    Instance::resolve_for_fn_ptr(d, &a).ok()
                                }
                                _ => None,
                            } {
                                let f = self.fn_id(f);
                                extra = format!(",{f}");
                            }
                        }
                        "reify"
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        if let Ok(from) = o.ty(locals) {
                            if let TyKind::RigidTy(RigidTy::Closure(d, a)) = from.kind() {
                                if let Ok(i) =
                                    Instance::resolve_closure(d, &a, ClosureKind::FnOnce)
                                {
                                    let f = self.fn_id(i);
                                    extra = format!(",{f}");
                                }
                            }
                        }
                        "reify"
                    }
                    CastKind::IntToInt => "int",
                    _ => "other",
                };
                format!("[\"cast\",\"{kn}\",{},{tid}{extra}]", self.op(o))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).ok().map(|t| self.ty(t).to_string());
                format!("[\"discr\",{},{}]", self.place(p), t.unwrap_or("null".into()))
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.op(o)),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name().to_string())),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p))
            }
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for blk in &b.blocks {
            let mut st = vec![];
            for s in &blk.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        self.mutated(p, &locals);
                        match r {
                            Rvalue::AddressOf(_, q) => self.borrowed(q, &locals),
                            Rvalue::Ref(_, bk, q) if bk.to_mutable_lossy() == Mutability::Mut => self.borrowed(q, &locals),
                            Rvalue::Reborrow(_, Mutability::Mut, q) => self.borrowed(q, &locals),
                            _ => {}
                        }
                        let r = self.rvalue(r, &locals);
                        let p = self.place(p);
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[\"=\",{p},{r},{sp}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        self.mutated(place, &locals);
                        st.push(format!(
                            "[\"sd\",{},{}]",
                            self.place(place),
                            variant_index.to_index()
                        ));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"x\",{l}]")),
                    _ => {}
                }
            }
            let t = &blk.terminator;
            let sp = self.span(t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.to_string(),
                _ => "null".into(),
            };
            let term = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    let dt = discr.ty(&locals).ok().map(|t| self.ty(t).to_string());
                    format!(
                        "[\"sw\",{},[{}],{},{}]",
                        self.op(discr),
                        br.join(","),
                        targets.otherwise(),
                        dt.unwrap_or("null".into())
                    )
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let mut g = "null".to_string();
                    let mut t = "null".to_string();
                    if let Ok(ty) = place.ty(&locals) {
                        t = self.ty(ty).to_string();
                        let i = Instance::resolve_drop_in_place(ty);
                        if !i.is_empty_shim() {
                            g = self.fn_id(i).to_string();
                        }
                    }
                    format!(
                        "[\"drop\",{},{target},{},{g},{t}]",
                        self.place(place),
                        uw(unwind)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    self.mutated(destination, &locals);
                    let f = match func {
                        Operand::Constant(c) => {
                            self.fndef_instance(c.const_.ty()).map(|f| f.to_string())
                        }
                        _ => None,
                    };
                    let f = match f {
                        Some(f) => f,
                        None => self.op(func),
                    };
                    let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    format!(
                        "[\"call\",{f},[{}],{},{},{}]",
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        uw(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, target, unwind, .. } => {
                    format!("[\"assert\",{},{expected},{target},{}]", self.op(cond), uw(unwind))
                }
                TerminatorKind::InlineAsm { destination, .. } => format!(
                    "[\"asm\",{}]",
                    destination.map(|t| t.to_string()).unwrap_or("null".into())
                ),
            };
            blocks.push(format!("[[{}],{term},{sp}]", st.join(",")));
        }
        let spread = b.spread_arg().map(|s| s.to_string()).unwrap_or("null".into());
        format!(
            "{{\"argc\":{},\"spread\":{spread},\"lt\":[{}],\"names\":[{}],\"bl\":[{}]}}",
            b.arg_locals().len(),
            lt.join(","),
            names.join(","),
            blocks.join(",")
        )
    }
}

fn is_scalar(t: Ty) -> bool {
    matches!(
        t.kind(),
        TyKind::RigidTy(
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_)
        )
    )
}

fn bytes(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) if !s.is_empty() => esc(s),
        _ => {
            let v: Vec<String> = b.iter().map(|b| b.to_string()).collect();
            format!("[{}]", v.join(","))
        }
    }
}
