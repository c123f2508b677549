//! `RUSTC_WORKSPACE_WRAPPER` driver: after type checking the crate named by
//! MIRDUMP_CRATE, writes its monomorphic MIR (and the bodies of a few generic
//! `core` helpers it instantiates) as JSON to MIRDUMP_OUT.
//!
//! Nothing of the analysed crate is executed: this is only the compiler front
//! end plus a serializer. All rules live in /verif/engine.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::{ExpnKind, Span};

struct Cb;

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper: argv[1] is the path of the real rustc.
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .map(|n| n.replace('-', "_") == want)
        .unwrap_or(false)
        && !args.iter().any(|a| a == "--test");
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=allow".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        // rustix 0.37 (a dependency) detects a nightly compiler and then uses an
        // attribute today's nightly no longer accepts: compile it as on stable.
        let argv: Vec<String> = std::env::args().collect();
        let mut out = vec![];
        let mut k = 2;
        while k < argv.len() {
            if argv[k] == "--cfg" && argv.get(k + 1).map(|s| s == "rustc_attrs").unwrap_or(false) {
                k += 2;
                continue;
            }
            out.push(argv[k].clone());
            k += 1;
        }
        let st = std::process::Command::new(&argv[1]).args(&out).status().expect("run rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        with_no_trimmed_paths!({
            let mut d = Dump::new(tcx);
            d.run();
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            std::fs::write(&out, d.finish()).expect("write dump");
        });
        Compilation::Continue
    }
}

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => write!(o, "{n}").unwrap(),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || c == '\u{7f}' => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{n}\":").unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    insts: Vec<J>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, usize, ty::TypingEnv<'tcx>)>,
    bodies: Vec<J>,
    adts: HashMap<String, J>,
    spans: Vec<J>,
    span_ids: HashMap<Span, usize>,
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump {
            tcx,
            env: ty::TypingEnv::fully_monomorphized(),
            types: vec![],
            type_ids: HashMap::new(),
            insts: vec![],
            inst_ids: HashMap::new(),
            queue: VecDeque::new(),
            bodies: vec![],
            adts: HashMap::new(),
            spans: vec![],
            span_ids: HashMap::new(),
        }
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        for ld in tcx.mir_keys(()) {
            let def_id = ld.to_def_id();
            match tcx.def_kind(def_id) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let g = tcx.generics_of(def_id);
            // generic serializers are called only by library code: dumped as they are
            let generic = g.requires_monomorphization(tcx);
            if generic && tcx.item_name(def_id).as_str() != "serialize" {
                continue;
            }
            if !tcx.is_mir_available(def_id) {
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, def_id, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => tcx.mk_param_from_def(p),
            });
            let inst = Instance::new_raw(def_id, args);
            self.env = if generic { ty::TypingEnv::post_analysis(tcx, def_id) } else { ty::TypingEnv::fully_monomorphized() };
            self.inst(inst);
        }
        while let Some((inst, id, env)) = self.queue.pop_front() {
            self.body(inst, id, env);
        }
    }

    fn finish(self) -> String {
        let mut o = String::new();
        let mut adts: Vec<_> = self.adts.into_iter().collect();
        adts.sort_by(|a, b| a.0.cmp(&b.0));
        J::O(vec![
            ("types", J::A(self.types)),
            ("insts", J::A(self.insts)),
            ("bodies", J::A(self.bodies)),
            ("spans", J::A(self.spans)),
            ("adts", J::A(adts.into_iter().map(|(_, j)| j).collect())),
        ])
        .w(&mut o);
        o
    }

    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    fn raw_path(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn want_body(&self, inst: Instance<'tcx>) -> bool {
        let d = match inst.def {
            InstanceKind::Item(d) => d,
            _ => return false,
        };
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        if d.krate == LOCAL_CRATE {
            return true;
        }
        let rp = self.raw_path(d);
        for p in ["core::option", "core::result", "core::bool", "core::convert", "core::cmp::Ord", "core::cmp::max", "core::cmp::min", "core::ops::control_flow"] {
            if rp.starts_with(p) {
                return true;
            }
        }
        false
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(&k) = self.inst_ids.get(&inst) {
            return k;
        }
        let id = self.insts.len();
        self.inst_ids.insert(inst, id);
        self.insts.push(J::Null);
        let d = inst.def_id();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop_glue",
            InstanceKind::Shim(_) => "shim",
        };
        let body = self.want_body(inst);
        let args: Vec<J> = inst.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t)).map(i).collect();
        let span = self.tcx.def_span(d);
        let sp = self.span(span);
        let j = J::O(vec![
            ("id", i(id)),
            ("path", s(self.path(d))),
            ("raw", s(self.raw_path(d))),
            ("kind", s(kind)),
            ("local", J::B(d.krate == LOCAL_CRATE)),
            ("body", J::B(body)),
            ("args", J::A(args)),
            ("span", i(sp)),
        ]);
        self.insts[id] = j;
        if body {
            self.queue.push_back((inst, id, self.env));
        }
        id
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<usize> {
        if args.has_escaping_bound_vars() || (args.has_param() && self.env == ty::TypingEnv::fully_monomorphized()) {
            return None;
        }
        let args = match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)) {
            Ok(a) => a,
            Err(_) => return None,
        };
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(inst)) => Some(self.inst(inst)),
            _ => None,
        }
    }

    fn span(&mut self, sp: Span) -> usize {
        if let Some(&k) = self.span_ids.get(&sp) {
            return k;
        }
        let sm = self.tcx.sess.source_map();
        let mut macs: Vec<J> = vec![];
        let mut cur = sp;
        while cur.from_expansion() {
            let data = cur.ctxt().outer_expn_data();
            let nm = match data.kind {
                ExpnKind::Macro(_, name) => {
                    let krate = data.macro_def_id.map(|d| self.tcx.crate_name(d.krate).to_string()).unwrap_or_default();
                    format!("{krate}::{name}")
                }
                ExpnKind::Desugaring(k) => format!("desugar:{:?}", k),
                _ => "other".to_string(),
            };
            macs.push(s(nm));
            cur = data.call_site;
        }
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let file = lo.file.name.prefer_local_unconditionally().to_string();
        let mut v = vec![s(file), i(lo.line), i(lo.col.0 + 1)];
        if !macs.is_empty() {
            v.push(J::A(macs));
        }
        let id = self.spans.len();
        self.spans.push(J::A(v));
        self.span_ids.insert(sp, id);
        id
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let p = self.path(def.did());
        if self.adts.contains_key(&p) {
            return p;
        }
        self.adts.insert(p.clone(), J::Null);
        let mut vars = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
            let fields: Vec<J> = v.fields.iter().map(|f| s(f.name.as_str())).collect();
            let ftys: Vec<J> = v
                .fields
                .iter()
                .map(|f| s(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip().to_string()))
                .collect();
            vars.push(J::A(vec![s(v.name.as_str()), J::I(discr), J::A(fields), J::A(ftys)]));
        }
        let j = J::O(vec![
            ("path", s(p.clone())),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(def.did().krate == LOCAL_CRATE)),
            ("variants", J::A(vars)),
        ]);
        self.adts.insert(p.clone(), j);
        p
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&k) = self.type_ids.get(&t) {
            return k;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(J::Null);
        let text = t.to_string();
        let j = match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::O(vec![("k", s("prim")), ("s", s(text))])
            }
            ty::Adt(def, args) => {
                let p = self.adt(def);
                let a: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| i(self.ty(t))).collect();
                J::O(vec![("k", s("adt")), ("s", s(text)), ("p", s(p)), ("a", J::A(a))])
            }
            ty::Ref(_, u, m) => {
                let u = self.ty(u);
                J::O(vec![("k", s("ref")), ("s", s(text)), ("t", i(u)), ("m", J::B(m.is_mut()))])
            }
            ty::RawPtr(u, m) => {
                let u = self.ty(u);
                J::O(vec![("k", s("ptr")), ("s", s(text)), ("t", i(u)), ("m", J::B(m.is_mut()))])
            }
            ty::Slice(u) => {
                let u = self.ty(u);
                J::O(vec![("k", s("slice")), ("s", s(text)), ("t", i(u))])
            }
            ty::Array(u, _) => {
                let u = self.ty(u);
                J::O(vec![("k", s("array")), ("s", s(text)), ("t", i(u))])
            }
            ty::Tuple(ts) => {
                let a: Vec<J> = ts.iter().map(|t| i(self.ty(t))).collect();
                J::O(vec![("k", s("tuple")), ("s", s(text)), ("a", J::A(a))])
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(d, args);
                let k = if args.has_param() { None } else { Some(self.inst(inst)) };
                J::O(vec![("k", s("closure")), ("s", s(text)), ("p", s(self.path(d))), ("i", k.map(i).unwrap_or(J::Null))])
            }
            ty::FnDef(d, args) => {
                let (d, args): (DefId, ty::GenericArgsRef<'tcx>) = (d.into(), args.skip_binder());
                let k = match self.tcx.def_kind(d) {
                    DefKind::Fn | DefKind::AssocFn => self.resolve(d, args),
                    _ => None,
                };
                // for constructors: the variant / struct built
                let ctor = match self.tcx.def_kind(d) {
                    DefKind::Ctor(..) => {
                        let par = self.tcx.parent(d);
                        let (adt, vname) = match self.tcx.def_kind(par) {
                            DefKind::Variant => (self.tcx.parent(par), self.tcx.item_name(par).to_string()),
                            _ => (par, self.tcx.item_name(par).to_string()),
                        };
                        let def = self.tcx.adt_def(adt);
                        let p = self.adt(def);
                        J::A(vec![s(p), s(vname)])
                    }
                    _ => J::Null,
                };
                let a: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| i(self.ty(t))).collect();
                J::O(vec![
                    ("k", s("fndef")),
                    ("s", s(text)),
                    ("p", s(self.path(d))),
                    ("i", k.map(i).unwrap_or(J::Null)),
                    ("a", J::A(a)),
                    ("ctor", ctor),
                ])
            }
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("s", s(text))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", s(text))]),
            _ => J::O(vec![("k", s("other")), ("s", s(text))]),
        };
        self.types[id] = j;
        id
    }

    fn int(&self, bits: u128, t: Ty<'tcx>) -> J {
        match *t.kind() {
            ty::Bool => J::A(vec![s("b"), J::B(bits != 0)]),
            ty::Char => J::A(vec![s("c"), s(char::from_u32(bits as u32).map(String::from).unwrap_or_default())]),
            ty::Int(it) => {
                let size = it.bit_width().unwrap_or(64);
                let sh = 128 - size as u32;
                J::A(vec![s("i"), J::I(((bits << sh) as i128) >> sh)])
            }
            ty::Float(f) => {
                let v = match f.bit_width() {
                    32 => f32::from_bits(bits as u32) as f64,
                    64 => f64::from_bits(bits as u64),
                    _ => f64::NAN,
                };
                J::A(vec![s("f"), s(format!("{v:?}"))])
            }
            _ => {
                if bits > i128::MAX as u128 {
                    J::A(vec![s("big"), s(bits.to_string())])
                } else {
                    J::A(vec![s("i"), J::I(bits as i128)])
                }
            }
        }
    }

    fn alloc_target(&mut self, alloc_id: mir::interpret::AllocId, off: rustc_abi::Size, t: Ty<'tcx>, depth: usize) -> J {
        match self.tcx.global_alloc(alloc_id) {
            GlobalAlloc::Static(d) => {
                if d.krate == LOCAL_CRATE {
                    let sty = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if sty.is_freeze(self.tcx, self.env) {
                        if let Ok(a) = self.tcx.eval_static_initializer(d) {
                            let id = self.tcx.reserve_and_set_memory_alloc(a);
                            let v = self.cval(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, sty, depth + 1);
                            return J::A(vec![s("ref"), v]);
                        }
                    }
                }
                J::A(vec![s("static"), s(self.path(d))])
            }
            GlobalAlloc::Function { instance, .. } => {
                let k = self.inst(instance);
                J::A(vec![s("fnptr"), i(k)])
            }
            GlobalAlloc::Memory(_) => {
                if t.is_sized(self.tcx, self.env) {
                    let v = self.cval(ConstValue::Indirect { alloc_id, offset: off }, t, depth + 1);
                    J::A(vec![s("ref"), v])
                } else {
                    J::A(vec![s("opaque"), s(t.to_string())])
                }
            }
            _ => J::A(vec![s("opaque"), s(t.to_string())]),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::A(vec![s("opaque"), s(t.to_string())]);
        }
        match *t.kind() {
            ty::FnDef(..) | ty::Closure(..) => {
                let k = self.ty(t);
                return J::A(vec![s("fn"), i(k)]);
            }
            ty::Ref(_, u, _) | ty::RawPtr(u, _) => {
                match *u.kind() {
                    ty::Str => {
                        if !matches!(v, ConstValue::Scalar(_) | ConstValue::ZeroSized) {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                return J::A(vec![s("s"), s(String::from_utf8_lossy(b).to_string())]);
                            }
                        }
                        return J::A(vec![s("opaque"), s("str")]);
                    }
                    ty::Slice(el) => {
                        if el == tcx.types.u8 {
                            if !matches!(v, ConstValue::Scalar(_) | ConstValue::ZeroSized) {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    return J::A(vec![s("bytes"), J::A(b.iter().map(|x| i(*x as usize)).collect())]);
                                }
                            }
                            return J::A(vec![s("opaque"), s("bytes")]);
                        }
                        let (alloc_id, start, len) = match v {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, meta),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let a = match tcx.global_alloc(alloc_id) {
                                    GlobalAlloc::Memory(m) => m.inner(),
                                    _ => return J::A(vec![s("opaque"), s(t.to_string())]),
                                };
                                let ps = tcx.data_layout.pointer_size();
                                let p = a.read_scalar(&tcx, mir::interpret::alloc_range(offset, ps), true);
                                let l = a.read_scalar(&tcx, mir::interpret::alloc_range(offset + ps, ps), false);
                                match (p, l) {
                                    (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) => {
                                        let (prov, off) = p.into_raw_parts();
                                        (prov.alloc_id(), off, l.to_target_usize(tcx))
                                    }
                                    _ => return J::A(vec![s("opaque"), s(t.to_string())]),
                                }
                            }
                            _ => return J::A(vec![s("opaque"), s(t.to_string())]),
                        };
                        let Ok(lay) = tcx.layout_of(self.env.as_query_input(el)) else {
                            return J::A(vec![s("opaque"), s(t.to_string())]);
                        };
                        let mut out = vec![];
                        for k in 0..len.min(4096) {
                            out.push(self.cval(
                                ConstValue::Indirect { alloc_id, offset: start + lay.size * k },
                                el,
                                depth + 1,
                            ));
                        }
                        return J::A(vec![s("ref"), J::A(vec![s("arr"), J::A(out)])]);
                    }
                    _ => {
                        let sc = match v {
                            ConstValue::Scalar(sc) => Some(sc),
                            ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                                GlobalAlloc::Memory(m) => {
                                    let ps = tcx.data_layout.pointer_size();
                                    m.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, ps), true).ok()
                                }
                                _ => None,
                            },
                            _ => None,
                        };
                        if let Some(Scalar::Ptr(p, _)) = sc {
                            let (prov, off) = p.into_raw_parts();
                            return self.alloc_target(prov.alloc_id(), off, u, depth);
                        }
                        return J::A(vec![s("opaque"), s(t.to_string())]);
                    }
                }
            }
            ty::FnPtr(..) => {
                let sc = match v {
                    ConstValue::Scalar(sc) => Some(sc),
                    ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(m) => {
                            let ps = tcx.data_layout.pointer_size();
                            m.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, ps), true).ok()
                        }
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(Scalar::Ptr(p, _)) = sc {
                    let (prov, _) = p.into_raw_parts();
                    if let GlobalAlloc::Function { instance, .. } = tcx.global_alloc(prov.alloc_id()) {
                        let k = self.inst(instance);
                        return J::A(vec![s("fnptr"), i(k)]);
                    }
                }
                return J::A(vec![s("opaque"), s(t.to_string())]);
            }
            ty::Pat(inner, _) => return self.cval(v, inner, depth + 1),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sc = match v {
                    ConstValue::Scalar(sc) => Some(sc),
                    ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(m) => {
                            let lay = tcx.layout_of(self.env.as_query_input(t)).unwrap();
                            m.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, lay.size), false).ok()
                        }
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(Scalar::Int(n)) = sc {
                    return self.int(n.to_bits_unchecked(), t);
                }
                return J::A(vec![s("opaque"), s(t.to_string())]);
            }
            ty::Adt(def, _) if def.is_union() => return J::A(vec![s("opaque"), s(t.to_string())]),
            ty::Tuple(_) | ty::Array(..) | ty::Adt(..) => {
                if let ty::Adt(def, _) = *t.kind() {
                    // interior-mutable cells etc. are fine; opaque external types are not worth expanding
                    let _ = def;
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fields: Vec<J> = dc.fields.to_vec().into_iter().map(|(v, t)| self.cval(v, t, depth + 1)).collect();
                    return match *t.kind() {
                        ty::Adt(def, _) => {
                            let p = self.adt(def);
                            J::A(vec![s("adt"), s(p), i(dc.variant.map(|v| v.as_usize()).unwrap_or(0)), J::A(fields)])
                        }
                        ty::Array(..) => J::A(vec![s("arr"), J::A(fields)]),
                        _ => J::A(vec![s("tup"), J::A(fields)]),
                    };
                }
            }
            _ => {}
        }
        J::A(vec![s("opaque"), s(t.to_string())])
    }

    fn konst(&mut self, c: mir::Const<'tcx>, sp: Span) -> J {
        let t = c.ty();
        let tid = self.ty(t);
        let name = match c {
            mir::Const::Unevaluated(u, _) if u.promoted.is_none() => s(self.path(u.def)),
            _ => J::Null,
        };
        let v = match c.eval(self.tcx, self.env, sp) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => J::A(vec![s("opaque"), s(t.to_string())]),
        };
        J::A(vec![s("k"), v, i(tid), name])
    }

    fn place(&mut self, p: Place<'tcx>, body: &mir::Body<'tcx>) -> J {
        let mut v = vec![i(p.local.as_usize())];
        for (base, e) in p.iter_projections() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, fty) => {
                    let bt = base.ty(body, self.tcx);
                    let name = match *bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            s(def.variant(vi).fields[f].name.as_str())
                        }
                        _ => J::Null,
                    };
                    let t = self.ty(fty);
                    J::A(vec![s("f"), i(f.as_usize()), name, i(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("ix"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), i(offset as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), i(from as usize), i(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let bt = base.ty(body, self.tcx);
                    let name = match *bt.ty.kind() {
                        ty::Adt(def, _) => s(def.variant(v).name.as_str()),
                        _ => J::Null,
                    };
                    J::A(vec![s("dc"), i(v.as_usize()), name])
                }
                _ => continue,
            });
        }
        J::A(v)
    }

    fn op(&mut self, o: &Operand<'tcx>, sp: Span, body: &mir::Body<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("p"), self.place(*p, body)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(*p, body)]),
            Operand::Constant(c) => self.konst(c.const_, sp),
            Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::A(vec![s("b"), J::B(false)]), J::Null, J::Null]),
        }
    }

    fn rv(&mut self, r: &Rvalue<'tcx>, sp: Span, body: &mir::Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, sp, body)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                J::A(vec![s("repeat"), self.op(o, sp, body), n.map(|n| J::I(n as i128)).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, bk, p) => {
                J::A(vec![s("ref"), self.place(*p, body), J::B(matches!(bk, mir::BorrowKind::Mut { .. }))])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(*p, body), J::B(true)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), self.place(*p, body), J::B(m.is_mut())]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}").split('(').next().unwrap_or("").to_string()), self.op(o, sp, body), i(t)])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(body, self.tcx);
                let tid = self.ty(t);
                J::A(vec![s("bin"), s(format!("{b:?}")), self.op(&ops.0, sp, body), self.op(&ops.1, sp, body), i(tid)])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), self.op(o, sp, body)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let tid = self.ty(t);
                J::A(vec![s("discr"), self.place(*p, body), i(tid)])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o, sp, body)).collect();
                let head = match **k {
                    mir::AggregateKind::Array(_) => J::A(vec![s("arr")]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tup")]),
                    mir::AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = self.tcx.adt_def(d);
                        let p = self.adt(def);
                        J::A(vec![s("adt"), s(p), i(vi.as_usize()), active.map(|f| i(f.as_usize())).unwrap_or(J::Null)])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let k = self.inst(Instance::new_raw(d, args));
                        J::A(vec![s("closure"), i(k)])
                    }
                    mir::AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), head, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("p"), self.place(*p, body)])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.op(o, sp, body)]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, id: usize, env: ty::TypingEnv<'tcx>) {
        let tcx = self.tcx;
        self.env = if inst.args.has_param() { env } else { ty::TypingEnv::fully_monomorphized() };
        let body0 = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, body0.clone()),
        ) {
            Ok(b) => b,
            Err(_) => return,
        };
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = x.source_info.span;
                let j = match &x.kind {
                    StatementKind::Assign(b) => {
                        let k = self.span(sp);
                        J::A(vec![s("="), self.place(b.0, &body), self.rv(&b.1, sp, &body), i(k)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        J::A(vec![s("sd"), self.place(**place, &body), i(variant_index.as_usize())])
                    }
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), i(l.as_usize())]),
                    StatementKind::StorageLive(l) => J::A(vec![s("live"), i(l.as_usize())]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let sp = t.source_info.span;
            let sid = self.span(sp);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body, tcx);
                    let tid = self.ty(t);
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        let c = self.int(val, t);
                        v.push(J::A(vec![c, i(b.as_usize())]));
                    }
                    J::A(vec![s("switch"), self.op(discr, sp, &body), J::A(v), i(targets.otherwise().as_usize()), i(tid), i(sid)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body, tcx).ty;
                    let tid = self.ty(t);
                    J::A(vec![s("drop"), self.place(*place, &body), i(target.as_usize()), i(tid), i(sid)])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.op(func, sp, &body);
                    let a: Vec<J> = args.iter().map(|o| self.op(&o.node, sp, &body)).collect();
                    let _ = fn_span;
                    let at: Vec<J> = args.iter().map(|o| i(self.ty(o.node.ty(&body, tcx)))).collect();
                    let dt = destination.ty(&body, tcx).ty;
                    let dtid = self.ty(dt);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(*destination, &body),
                        target.map(|b| i(b.as_usize())).unwrap_or(J::Null),
                        i(sid),
                        i(dtid),
                        J::A(at),
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, .. } => {
                    J::A(vec![s("assert"), self.op(cond, sp, &body), J::B(*expected), i(target.as_usize()), i(sid)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::A(vec![J::A(st), term, J::B(bb.is_cleanup)]));
        }
        let locals: Vec<J> = body.local_decls.iter().map(|l| i(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(p, &body)]));
            }
        }
        self.bodies.push(J::O(vec![
            ("id", i(id)),
            ("argc", i(body.arg_count)),
            ("spread", body.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]));
    }
}
