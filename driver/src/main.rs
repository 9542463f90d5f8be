// A rustc_private driver: compiles the crate exactly as cargo asks for, and - for the crate
// named in VP_DUMP_CRATE - writes the type-checked, borrow-checked, monomorphised MIR of every
// function reachable from the crate's functions (plus types, layouts, evaluated constants,
// statics, impls) as JSON to VP_DUMP_OUT.  It decides nothing; the rules are in ../analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

use rustc_abi::{FieldsShape, TagEncoding, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArg, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

struct Cb;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::install_ice_hook("mirdump", |_| ());
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("VP_DUMP_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() == want {
            if let Ok(out) = std::env::var("VP_DUMP_OUT") {
                let stop: Vec<String> = std::env::var("VP_DUMP_STOP")
                    .ok()
                    .and_then(|p| std::fs::read_to_string(p).ok())
                    .map(|s| {
                        s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect()
                    })
                    .unwrap_or_default();
                let js = Dumper::new(tcx, stop).run();
                std::fs::write(out, js).expect("write dump");
            }
        }
        Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    stop: Vec<String>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    tys: Vec<Option<String>>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    insts: Vec<Option<String>>,
    queue: VecDeque<Instance<'tcx>>,
    allocs: HashMap<AllocId, Option<String>>,
    alloc_queue: VecDeque<AllocId>,
}

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>, stop: Vec<String>) -> Self {
        Dumper {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            stop,
            ty_ids: HashMap::new(),
            tys: vec![],
            inst_ids: HashMap::new(),
            insts: vec![],
            queue: VecDeque::new(),
            allocs: HashMap::new(),
            alloc_queue: VecDeque::new(),
        }
    }

    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        // outermost expansion site for macros
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))
        ))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(
            rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", t))
        ))
    }

    // ---------------------------------------------------------------- types
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(None);
        let mut o = format!("{{\"s\":{}", esc(&self.tystr(t)));
        match t.kind() {
            TyKind::Bool => o += ",\"k\":\"bool\"",
            TyKind::Char => o += ",\"k\":\"char\"",
            TyKind::Int(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"signed\":true,\"bits\":{}", i.bit_width().unwrap_or(64));
            }
            TyKind::Uint(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"signed\":false,\"bits\":{}", i.bit_width().unwrap_or(64));
            }
            TyKind::Float(f) => {
                let _ = write!(o, ",\"k\":\"float\",\"bits\":{}", f.bit_width());
            }
            TyKind::Str => o += ",\"k\":\"str\"",
            TyKind::Never => o += ",\"k\":\"never\"",
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx);
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"array\",\"elem\":{},\"len\":{}", e, n.map(|x| x.to_string()).unwrap_or("null".into()));
            }
            TyKind::Slice(e) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"slice\",\"elem\":{}", e);
            }
            TyKind::RawPtr(e, m) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"rawptr\",\"to\":{},\"mut\":{}", e, m.is_mut());
            }
            TyKind::Ref(_, e, m) => {
                let e = self.ty(*e);
                let _ = write!(o, ",\"k\":\"ref\",\"to\":{},\"mut\":{}", e, m.is_mut());
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"fields\":[{}]", v.join(","));
            }
            TyKind::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let callee = self.resolve(*d, args);
                let _ = write!(o, ",\"k\":\"fndef\",\"path\":{},\"inst\":{}", esc(&self.path(*d)), callee);
            }
            TyKind::FnPtr(..) => o += ",\"k\":\"fnptr\"",
            TyKind::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                let _ = write!(o, ",\"k\":\"dyn\",\"trait\":{}", esc(&p));
            }
            TyKind::Closure(d, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"path\":{},\"fields\":[{}]", esc(&self.path(*d)), up.join(","));
            }
            TyKind::Pat(b, _) => {
                let b = self.ty(*b);
                let _ = write!(o, ",\"k\":\"pat\",\"base\":{}", b);
            }
            TyKind::Adt(def, args) => {
                let kind = if def.is_union() { "union" } else if def.is_enum() { "enum" } else { "struct" };
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let d = if def.is_enum() {
                        def.discriminant_for_variant(self.tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(self.tcx, args);
                        let ft = self.tcx.normalize_erasing_regions(self.env, ft);
                        let ft = self.ty(ft);
                        let vis = if f.vis.is_public() { "true" } else { "false" };
                        fs.push(format!("{{\"n\":{},\"t\":{},\"pub\":{}}}", esc(f.name.as_str()), ft, vis));
                    }
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), esc(&d), fs.join(",")));
                }
                let dty = if def.is_enum() {
                    let r = def.repr().discr_type();
                    use rustc_middle::ty::util::IntTypeExt;
                    let rt = r.to_ty(self.tcx);
                    self.ty(rt).to_string()
                } else {
                    "null".into()
                };
                // destructors that are code of the program, or that change data
                let mut drop = "null".to_string();
                if let Some(x) = self.tcx.adt_destructor(def.did()) {
                    if def.did().is_local() || self.path(def.did()).ends_with("::SetLenOnDrop") {
                        drop = self.resolve(x.did, args);
                    }
                }
                let _ = write!(o, ",\"drop\":{}", drop);
                let _ = write!(
                    o,
                    ",\"k\":\"adt\",\"kind\":\"{}\",\"path\":{},\"local\":{},\"box\":{},\"reprc\":{},\"targs\":[{}],\"discr_ty\":{},\"variants\":[{}]",
                    kind, esc(&self.path(def.did())), def.did().is_local(), def.is_box(), def.repr().c(), targs.join(","), dty, vs.join(",")
                );
            }
            k => {
                let _ = write!(o, ",\"k\":\"other\",\"dbg\":{}", esc(&format!("{:?}", k)));
            }
        }
        if !matches!(t.kind(), TyKind::Dynamic(..) | TyKind::Str | TyKind::Slice(..) | TyKind::Param(..)) {
            if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
                let _ = write!(o, ",\"size\":{},\"align\":{}", l.size.bytes(), l.align.abi.bytes());
                let fields = |fs: &FieldsShape<rustc_abi::FieldIdx>| -> String {
                    match fs {
                        FieldsShape::Arbitrary { offsets, .. } => {
                            let v: Vec<String> = offsets.iter().map(|x| x.bytes().to_string()).collect();
                            format!("[{}]", v.join(","))
                        }
                        FieldsShape::Union(n) => format!("[{}]", vec!["0"; n.get()].join(",")),
                        _ => "[]".into(),
                    }
                };
                match &l.variants {
                    Variants::Single { index } => {
                        let _ = write!(o, ",\"lay\":{{\"single\":{},\"offs\":{}}}", index.as_u32(), fields(&l.fields));
                    }
                    Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = l.fields.offset(tag_field.index()).bytes();
                        let tsz = tag.size(&self.tcx).bytes();
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "{\"direct\":true}".to_string(),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                                "{{\"direct\":false,\"untagged\":{},\"first\":{},\"last\":{},\"start\":\"{}\"}}",
                                untagged_variant.as_u32(),
                                niche_variants.start.as_u32(),
                                niche_variants.last.as_u32(),
                                niche_start
                            ),
                        };
                        let vs: Vec<String> = variants
                            .iter()
                            .map(|v| {
                                let x: Vec<String> = v.field_offsets.iter().map(|x| x.bytes().to_string()).collect();
                                format!("[{}]", x.join(","))
                            })
                            .collect();
                        let _ = write!(o, ",\"lay\":{{\"tag_off\":{},\"tag_size\":{},\"enc\":{},\"voffs\":[{}]}}", toff, tsz, enc, vs.join(","));
                    }
                    _ => {}
                }
            }
        }
        o += "}";
        self.tys[id] = Some(o);
        id
    }

    // ------------------------------------------------------------ instances
    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => self.inst(i).to_string(),
            _ => "null".into(),
        }
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.inst_ids.insert(i, id);
        self.insts.push(None);
        self.queue.push_back(i);
        id
    }

    fn stopped(&self, p: &str) -> bool {
        self.stop.iter().any(|s| p.starts_with(s.as_str()))
    }

    fn emit_inst(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let id = self.inst_ids[&i];
        let d = i.def_id();
        let p = self.path(d);
        let (kind, extra) = match i.def {
            InstanceKind::Item(_) => ("item", String::new()),
            InstanceKind::Intrinsic(_) => ("intrinsic", String::new()),
            InstanceKind::LlvmIntrinsic(_) => ("llvm", String::new()),
            InstanceKind::Virtual(_, n) => ("virtual", format!(",\"vidx\":{}", n)),
            InstanceKind::Shim(s) => {
                let n = format!("{:?}", s);
                let n: String = n.chars().take_while(|c| c.is_alphanumeric()).collect();
                ("shim", format!(",\"shim\":{}", esc(&n)))
            }
        };
        let targs: Vec<String> = i.args.types().map(|x| self.ty(x).to_string()).collect();
        let mut o = format!(
            "{{\"id\":{},\"path\":{},\"kind\":\"{}\"{},\"local\":{},\"crate\":{},\"name\":{},\"targs\":[{}],\"span\":{}",
            id, esc(&p), kind, extra, d.is_local(), esc(tcx.crate_name(d.krate).as_str()),
            esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
            targs.join(","), esc(&self.span(tcx.def_span(d)))
        );
        let tc = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
            && tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER);
        let _ = write!(o, ",\"track_caller\":{}", tc);
        if let Some(ai) = tcx.opt_associated_item(d) {
            if let Some(t) = ai.trait_container(tcx) {
                let _ = write!(o, ",\"trait\":{}", esc(&self.path(t)));
            }
            if let Some(im) = ai.impl_container(tcx) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate(tcx, i.args).skip_norm_wip();
                    let tr = tcx.erase_and_anonymize_regions(tr);
                    let st = self.tystr(tr.self_ty());
                    let _ = write!(o, ",\"impl_trait\":{},\"impl_self\":{}", esc(&self.path(tr.def_id)), esc(&st));
                    let full = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(
                        rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", tr.print_only_trait_path()))
                    ));
                    let _ = write!(o, ",\"impl_trait_full\":{}", esc(&full));
                } else {
                    let st = tcx.type_of(im).instantiate(tcx, i.args).skip_norm_wip();
                    let st = self.tystr(tcx.erase_and_anonymize_regions(st));
                    let _ = write!(o, ",\"impl_self\":{}", esc(&st));
                }
            }
        }
        let has = match i.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)),
            InstanceKind::Shim(_) => !matches!(i.def, InstanceKind::Shim(ty::ShimKind::DropGlue(..))),
            _ => false,
        };
        if has && !self.stopped(&p) {
            let body = tcx.instance_mir(i.def);
            if let Ok(b) = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body.clone())) {
                let b = self.body(&b);
                o += ",\"body\":";
                o += &b;
            }
        }
        // a constructor used as a function (`.map(Some)`) whose body the crate of the type does not carry
        if let (InstanceKind::Item(d), false) = (i.def, has) {
            if matches!(tcx.def_kind(d), DefKind::Ctor(_, rustc_hir::def::CtorKind::Fn)) {
                let sig = tcx.fn_sig(d).instantiate(tcx, i.args).skip_norm_wip();
                let sig = tcx.normalize_erasing_late_bound_regions(self.env, sig);
                if let ty::Adt(def, _) = sig.output().kind() {
                    let v = def.variant_index_with_ctor_id(d).as_u32();
                    let out = self.ty(sig.output());
                    let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                    let mvs: Vec<String> = (1..=ins.len()).map(|n| format!("[\"mv\",[{},[]]]", n)).collect();
                    let sp = esc(&self.span(tcx.def_span(d)));
                    let _ = write!(o, ",\"body\":{{\"argc\":{},\"span\":{},\"locals\":[{}],\"names\":[],\"blocks\":[{{\"c\":false,\"s\":[[\"=\",[0,[]],[\"agg\",[\"adt\",{},{},null],[{}]],{}]],\"t\":[\"ret\"]}}]}}",
                        ins.len(), sp, std::iter::once(out.to_string()).chain(ins.iter().cloned()).collect::<Vec<_>>().join(","), out, v, mvs.join(","), sp);
                }
            }
        }
        // virtual call with a default body in the trait: the default, with Self = dyn Trait
        if let InstanceKind::Virtual(d, _) = i.def {
            if tcx.is_mir_available(d) && d.is_local() {
                let di = Instance::new_raw(d, i.args);
                let k = self.inst(di);
                let _ = write!(o, ",\"default\":{}", k);
            }
        }
        o += "}";
        self.insts[id] = Some(o);
    }

    fn body(&mut self, b: &Body<'tcx>) -> String {
        let mut o = format!("{{\"argc\":{},\"span\":{},\"locals\":[", b.arg_count, esc(&self.span(b.span)));
        let ls: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        o += &ls.join(",");
        o += "]";
        if let Some(l) = b.spread_arg {
            let _ = write!(o, ",\"spread\":{}", l.as_u32());
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_u32(), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"names\":[{}]", names.join(","));
        o += ",\"blocks\":[";
        let mut first = true;
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if !first {
                o += ",";
            }
            first = false;
            let mut ss = vec![];
            for s in &bb.statements {
                if let Some(x) = self.stmt(s) {
                    ss.push(x);
                }
            }
            let t = self.term(b, bb.terminator());
            let _ = write!(o, "{{\"c\":{},\"s\":[{}],\"t\":{}}}", bb.is_cleanup, ss.join(","), t);
        }
        o += "]}";
        o
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_u32(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_u32()),
                ProjectionElem::PhantomDeref => "[\"pd\"]".to_string(),
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(t);
                    format!("[\"oc\",{}]", t)
                }
                ProjectionElem::UnwrapUnsafeBinder(t) => {
                    let t = self.ty(t);
                    format!("[\"oc\",{}]", t)
                }
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), v.join(","))
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.konst(&c.const_, c.span)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let mut name = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                name = format!(",\"name\":{}", esc(&self.path(u.def)));
            }
        }
        match c.eval(self.tcx, self.env, span) {
            Ok(v) => {
                let s = self.cval(v, t);
                format!("{{\"t\":{}{},{}}}", ti, name, s)
            }
            Err(_) => format!("{{\"t\":{}{},\"err\":true}}", ti, name),
        }
    }

    fn scalar(&mut self, s: Scalar) -> String {
        match s {
            Scalar::Int(i) => format!("\"int\":\"{}\",\"sz\":{}", i.to_bits(i.size()), i.size().bytes()),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let a = prov.alloc_id();
                self.alloc(a);
                format!("\"ptr\":{},\"off\":{}", a.0, off.bytes())
            }
        }
    }

    fn cval(&mut self, v: ConstValue, _t: Ty<'tcx>) -> String {
        match v {
            ConstValue::Scalar(s) => self.scalar(s),
            ConstValue::ZeroSized => "\"zst\":true".into(),
            ConstValue::Slice { alloc_id, meta } => {
                self.alloc(alloc_id);
                format!("\"slice\":{},\"len\":{}", alloc_id.0, meta)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                self.alloc(alloc_id);
                format!("\"ind\":{},\"off\":{}", alloc_id.0, offset.bytes())
            }
        }
    }

    fn alloc(&mut self, a: AllocId) {
        if !self.allocs.contains_key(&a) {
            self.allocs.insert(a, None);
            self.alloc_queue.push_back(a);
        }
    }

    fn emit_alloc(&mut self, a: AllocId) {
        let s = match self.tcx.global_alloc(a) {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                let n = m.len();
                let bytes = m.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                let mut hex = String::with_capacity(n * 2);
                for b in bytes {
                    let _ = write!(hex, "{:02x}", b);
                }
                let mut rel = vec![];
                for (off, prov) in m.provenance().ptrs().iter() {
                    let t = prov.alloc_id();
                    self.alloc(t);
                    rel.push(format!("[{},{}]", off.bytes(), t.0));
                }
                format!("{{\"k\":\"mem\",\"hex\":\"{}\",\"rel\":[{}]}}", hex, rel.join(","))
            }
            GlobalAlloc::Static(d) => format!("{{\"k\":\"static\",\"path\":{}}}", esc(&self.path(d))),
            GlobalAlloc::Function { instance } => {
                let i = self.inst(instance);
                format!("{{\"k\":\"fn\",\"inst\":{}}}", i)
            }
            GlobalAlloc::VTable(t, _) => {
                let t = self.ty(t);
                format!("{{\"k\":\"vtable\",\"t\":{}}}", t)
            }
            GlobalAlloc::TypeId { ty } => {
                let t = self.ty(ty);
                format!("{{\"k\":\"typeid\",\"t\":{}}}", t)
            }
        };
        self.allocs.insert(a, Some(s));
    }

    fn stmt(&mut self, s: &Statement<'tcx>) -> Option<String> {
        let sp = self.span(s.source_info.span);
        match &s.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                let p = self.place(p);
                let r = self.rvalue(r);
                Some(format!("[\"=\",{},{},{}]", p, r, esc(&sp)))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(place);
                Some(format!("[\"sd\",{},{},{}]", p, variant_index.as_u32(), esc(&sp)))
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(op) => {
                    let o = self.operand(op);
                    Some(format!("[\"assume\",{},{}]", o, esc(&sp)))
                }
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let a = self.operand(&c.src);
                    let b = self.operand(&c.dst);
                    let n = self.operand(&c.count);
                    Some(format!("[\"cpy\",{},{},{},{}]", a, b, n, esc(&sp)))
                }
            },
            StatementKind::StorageLive(l) => Some(format!("[\"live\",{}]", l.as_u32())),
            StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_u32())),
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o);
                let n = n.try_to_target_usize(self.tcx);
                format!("[\"rep\",{},{}]", o, n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(p);
                format!("[\"ref\",{},{}]", p, matches!(k, BorrowKind::Mut { .. }))
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(p);
                format!("[\"ref\",{},true]", p)
            }
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("{:?}", pc),
                    k => format!("{:?}", k),
                };
                let o = self.operand(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&ks), o, t)
            }
            Rvalue::BinaryOp(b, ops) => {
                let x = self.operand(&ops.0);
                let y = self.operand(&ops.1);
                format!("[\"bin\",\"{:?}\",{},{}]", b, x, y)
            }
            Rvalue::UnaryOp(u, o) => {
                let o = self.operand(o);
                format!("[\"un\",\"{:?}\",{}]", u, o)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let vs: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"array\",{}]", t)
                    }
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.ty(t);
                        format!("[\"adt\",{},{},{}]", t, v.as_u32(), af.map(|x| x.as_u32().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, m) => {
                        let t = Ty::new_ptr(self.tcx, *t, *m);
                        let t = self.ty(t);
                        format!("[\"rawptr\",{}]", t)
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", k, vs.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            r => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn term(&mut self, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let sp = esc(&self.span(t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&body.local_decls, self.tcx);
                let dt = self.ty(dt);
                let d = self.operand(discr);
                let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                format!("[\"switch\",{},{},[{}],{},{}]", d, dt, v.join(","), targets.otherwise().as_u32(), sp)
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(&body.local_decls, self.tcx).ty;
                let pt = self.ty(pt);
                let p = self.place(place);
                format!("[\"drop\",{},{},{},{}]", p, pt, target.as_u32(), sp)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(&body.local_decls, self.tcx);
                let fd = match ft.kind() {
                    TyKind::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().unwrap();
                        let i = self.resolve(*d, ga);
                        let targs: Vec<String> = ga.types().map(|x| self.ty(x).to_string()).collect();
                        let us = self.tcx.fn_sig(*d).skip_binder().safety().is_unsafe();
                        format!("{{\"path\":{},\"inst\":{},\"us\":{},\"targs\":[{}]}}", esc(&self.path(*d)), i, us, targs.join(","))
                    }
                    _ => format!("{{\"op\":{}}}", self.operand(func)),
                };
                let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                let d = self.place(destination);
                let dt = destination.ty(&body.local_decls, self.tcx).ty;
                let dt = self.ty(dt);
                let ats: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, self.tcx); self.ty(t).to_string() }).collect();
                format!(
                    "[\"call\",{},[{}],{},{},{},[{}],{}]",
                    fd, a.join(","), d, target.map(|x| x.as_u32().to_string()).unwrap_or("null".into()), sp, ats.join(","), dt
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(cond);
                let (kind, ops) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.operand(len), self.operand(index)]),
                    AssertKind::Overflow(b, x, y) => (format!("overflow-{:?}", b), vec![self.operand(x), self.operand(y)]),
                    AssertKind::OverflowNeg(x) => ("overflow-Neg".into(), vec![self.operand(x)]),
                    AssertKind::DivisionByZero(x) => ("div-zero".into(), vec![self.operand(x)]),
                    AssertKind::RemainderByZero(x) => ("rem-zero".into(), vec![self.operand(x)]),
                    AssertKind::MisalignedPointerDereference { .. } => ("misaligned".into(), vec![]),
                    AssertKind::NullPointerDereference => ("null".into(), vec![]),
                    AssertKind::NullReferenceConstructed => ("null".into(), vec![]),
                    AssertKind::InvalidEnumConstruction(_) => ("invalid-enum".into(), vec![]),
                    _ => ("other".into(), vec![]),
                };
                format!("[\"assert\",{},{},{},[{}],{},{}]", c, expected, esc(&kind), ops.join(","), target.as_u32(), sp)
            }
            TerminatorKind::TailCall { .. } => "[\"other\",\"tailcall\"]".into(),
            k => format!("[\"other\",{}]", esc(&format!("{:?}", k))),
        }
    }

    // ----------------------------------------------------------------- roots
    fn candidates(&self) -> Vec<Ty<'tcx>> {
        let tcx = self.tcx;
        let mut v = vec![];
        let re = tcx.lifetimes.re_erased;
        let u8t = tcx.types.u8;
        let sl = Ty::new_slice(tcx, u8t);
        if let Some(vd) = tcx.get_diagnostic_item(rustc_span::sym::Vec) {
            let alloc = tcx.lang_items().global_alloc_ty();
            let mut a: Vec<GenericArg<'tcx>> = vec![u8t.into()];
            if let Some(g) = alloc {
                a.push(tcx.type_of(g).instantiate_identity().skip_norm_wip().into());
            }
            let vt = Ty::new_adt(tcx, tcx.adt_def(vd), tcx.mk_args(&a));
            v.push(vt);
            v.push(Ty::new_mut_ref(tcx, re, sl));
            v.push(Ty::new_mut_ref(tcx, re, vt));
        }
        v.push(Ty::new_box(tcx, sl));
        v.push(Ty::new_imm_ref(tcx, re, tcx.types.str_));
        v.push(Ty::new_imm_ref(tcx, re, sl));
        v.push(tcx.types.u32);
        v.push(tcx.types.f64);
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            if tcx.def_kind(d) == DefKind::Trait && tcx.is_dyn_compatible(d) && tcx.generics_of(d).own_params.len() <= 1 {
                let tr = ty::ExistentialTraitRef::new_from_args(tcx, d, ty::List::empty());
                let p = ty::ExistentialPredicate::Trait(tr);
                let preds = tcx.mk_poly_existential_predicates(&[ty::Binder::dummy(p)]);
                v.push(Ty::new_dynamic(tcx, preds, re));
            }
        }
        v
    }

    fn arg_lists(&self, d: DefId) -> Vec<ty::GenericArgsRef<'tcx>> {
        let tcx = self.tcx;
        let g = tcx.generics_of(d);
        let cands = self.candidates();
        let ident = ty::GenericArgs::identity_for_item(tcx, d);
        let mut idx = vec![];
        for (k, a) in ident.iter().enumerate() {
            match a.kind() {
                ty::GenericArgKind::Lifetime(_) => {}
                ty::GenericArgKind::Type(_) => idx.push(k),
                ty::GenericArgKind::Const(_) => return vec![],
                #[allow(unreachable_patterns)]
                _ => return vec![],
            }
        }
        let _ = g;
        let base: Vec<GenericArg<'tcx>> = ident
            .iter()
            .map(|a| match a.kind() {
                ty::GenericArgKind::Lifetime(_) => tcx.lifetimes.re_erased.into(),
                _ => a,
            })
            .collect();
        if idx.is_empty() {
            return vec![tcx.mk_args(&base)];
        }
        if idx.len() > 2 {
            return vec![];
        }
        let mut out = vec![];
        let n = cands.len();
        let total = n.pow(idx.len() as u32);
        for code in 0..total {
            let mut b = base.clone();
            let mut c = code;
            for k in &idx {
                b[*k] = cands[c % n].into();
                c /= n;
            }
            let args = tcx.mk_args(&b);
            if !tcx.instantiate_and_check_impossible_clauses((d, args)) {
                out.push(args);
                if out.len() >= 6 {
                    break;
                }
            }
        }
        out
    }

    fn run(mut self) -> String {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut consts = vec![];
        let mut statics = vec![];
        let mut impls = vec![];
        let mut fns = vec![];
        let mut skipped = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            match k {
                DefKind::Fn | DefKind::AssocFn => {
                    let mut ids = vec![];
                    for args in self.arg_lists(d) {
                        let i = Instance::new_raw(d, args);
                        ids.push(self.inst(i).to_string());
                    }
                    let vis = tcx.effective_visibilities(()).is_reachable(ld);
                    if ids.is_empty() {
                        skipped.push(esc(&self.path(d)));
                    }
                    roots.extend(ids.iter().cloned());
                    fns.push(format!(
                        "{{\"path\":{},\"name\":{},\"insts\":[{}],\"reachable\":{},\"span\":{},\"unsafe\":{}}}",
                        esc(&self.path(d)),
                        esc(tcx.item_name(d).as_str()),
                        ids.join(","),
                        vis,
                        esc(&self.span(tcx.def_span(d))),
                        tcx.fn_sig(d).skip_binder().safety().is_unsafe()
                    ));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) {
                        continue;
                    }
                    let c = Const::from_unevaluated(tcx, d).instantiate_identity().skip_norm_wip();
                    let s = self.konst(&c, tcx.def_span(d));
                    let vis = tcx.effective_visibilities(()).is_reachable(ld);
                    consts.push(format!("{{\"path\":{},\"reachable\":{},\"v\":{},\"span\":{}}}", esc(&self.path(d)), vis, s, esc(&self.span(tcx.def_span(d)))));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let freeze = t.is_freeze(tcx, self.env);
                    let ti = self.ty(t);
                    // the functions the initialiser turns into function pointers (lazy initialisers)
                    let mut init = vec![];
                    let body = tcx.mir_for_ctfe(d);
                    for b in body.basic_blocks.iter() {
                        for st in &b.statements {
                            let StatementKind::Assign(a) = &st.kind else { continue };
                            let Rvalue::Cast(CastKind::PointerCoercion(..), o, _) = &a.1 else { continue };
                            let ot = o.ty(&body.local_decls, tcx);
                            match ot.kind() {
                                TyKind::FnDef(fd, ga) => init.push(self.resolve(*fd, ga.no_bound_vars().unwrap()).to_string()),
                                TyKind::Closure(cd, ga) => init.push(self.inst(Instance::new_raw(*cd, ga)).to_string()),
                                _ => {}
                            }
                        }
                    }
                    statics.push(format!(
                        "{{\"path\":{},\"t\":{},\"mut\":{},\"freeze\":{},\"span\":{},\"init\":[{}]}}",
                        esc(&self.path(d)), ti, mutability.is_mut(), freeze, esc(&self.span(tcx.def_span(d))), init.join(",")
                    ));
                }
                _ => {}
            }
        }
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if let DefKind::Impl { .. } = tcx.def_kind(did) {
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let items: Vec<String> = tcx.associated_item_def_ids(did).iter().map(|x| esc(tcx.opt_item_name(*x).map(|s| s.to_string()).unwrap_or_default().as_str())).collect();
                    let full = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(
                        rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", tr.print_only_trait_path()))
                    ));
                    let derived = tcx.is_automatically_derived(did);
                    impls.push(format!(
                        "{{\"trait\":{},\"full\":{},\"self\":{},\"items\":[{}],\"derived\":{},\"span\":{}}}",
                        esc(&self.path(tr.def_id)), esc(&full), esc(&self.tystr(tr.self_ty())), items.join(","), derived, esc(&self.span(tcx.def_span(did)))
                    ));
                }
            }
        }
        // every local ADT without type parameters, for layout / field rules
        let mut adts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                if tcx.generics_of(did).requires_monomorphization(tcx) {
                    continue;
                }
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let ti = self.ty(t);
                adts.push(format!("{{\"path\":{},\"t\":{},\"span\":{}}}", esc(&self.path(did)), ti, esc(&self.span(tcx.def_span(did)))));
            }
        }
        loop {
            if let Some(i) = self.queue.pop_front() {
                self.emit_inst(i);
            } else if let Some(a) = self.alloc_queue.pop_front() {
                self.emit_alloc(a);
            } else {
                break;
            }
        }
        let mut o = String::new();
        o += "{\"types\":[";
        let tys: Vec<String> = self.tys.into_iter().map(|x| x.unwrap_or("null".into())).collect();
        o += &tys.join(",\n");
        o += "],\n\"insts\":[";
        let ins: Vec<String> = self.insts.into_iter().map(|x| x.unwrap_or("null".into())).collect();
        o += &ins.join(",\n");
        o += "],\n\"allocs\":{";
        let al: Vec<String> = self.allocs.into_iter().map(|(k, v)| format!("\"{}\":{}", k.0, v.unwrap_or("null".into()))).collect();
        o += &al.join(",\n");
        let _ = write!(
            o,
            "}},\n\"roots\":[{}],\n\"fns\":[{}],\n\"skipped\":[{}],\n\"consts\":[{}],\n\"statics\":[{}],\n\"impls\":[{}],\n\"adts\":[{}],\n\"overflow_checks\":{},\"crate\":{}}}",
            roots.join(","), fns.join(",\n"), skipped.join(","), consts.join(",\n"), statics.join(",\n"), impls.join(",\n"), adts.join(",\n"),
            tcx.sess.overflow_checks(), esc(tcx.crate_name(LOCAL_CRATE).as_str())
        );
        o
    }
}

// Operand::ty needs HasLocalDecls; only used where the operand's type is irrelevant.
struct EmptyDecls;
impl<'tcx> HasLocalDecls<'tcx> for EmptyDecls {
    fn local_decls(&self) -> &LocalDecls<'tcx> {
        panic!("no locals")
    }
}
