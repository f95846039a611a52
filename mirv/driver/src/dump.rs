use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::VecDeque;
use std::fmt::Write as _;

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn pstr(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}
fn tstr(t: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}"))))
}
fn istr<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args))))
}

struct Cfg {
    roots: Vec<String>,
    descend: Vec<String>,
    stop: Vec<String>,
    max_depth: usize,
}

// glob with '*' only
fn glob(p: &str, s: &str) -> bool {
    let parts: Vec<&str> = p.split('*').collect();
    if parts.len() == 1 {
        return p == s;
    }
    let mut pos = 0usize;
    for (i, part) in parts.iter().enumerate() {
        if i == 0 {
            if !s.starts_with(part) {
                return false;
            }
            pos = part.len();
        } else if i == parts.len() - 1 {
            return s.len() >= pos + part.len() && s.ends_with(part);
        } else {
            match s[pos..].find(part) {
                Some(k) => pos += k + part.len(),
                None => return false,
            }
        }
    }
    true
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    cfg: Cfg,
    types: Vec<String>,
    tmap: FxHashMap<Ty<'tcx>, usize>,
    tqueue: VecDeque<(usize, Ty<'tcx>)>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    seen: FxHashSet<(String, String)>,
    env: TypingEnv<'tcx>,
    envname: String,
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>) {
    let cfgp = std::env::var("MIRDUMP_CFG").expect("MIRDUMP_CFG");
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let mut cfg = Cfg { roots: vec![], descend: vec![], stop: vec![], max_depth: 40 };
    for line in std::fs::read_to_string(&cfgp).unwrap().lines() {
        let line = line.trim();
        if let Some(r) = line.strip_prefix("root ") {
            cfg.roots.push(r.trim().into());
        } else if let Some(r) = line.strip_prefix("descend ") {
            cfg.descend.push(r.trim().into());
        } else if let Some(r) = line.strip_prefix("stop ") {
            cfg.stop.push(r.trim().into());
        }
    }
    let mut names: Vec<(String, DefId)> = vec![];
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => continue,
        }
        names.push((pstr(tcx, d), d));
    }
    names.sort_by(|a, b| a.0.cmp(&b.0));
    if let Ok(p) = std::env::var("MIRDUMP_LIST") {
        let mut s = String::new();
        for (n, d) in &names {
            let sp = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(*d));
            let _ = writeln!(s, "{n}\t{sp}");
        }
        std::fs::write(p, s).unwrap();
    }
    let mut o = String::from("{\"fns\":[\n");
    let mut types_done = 0;
    let mut c = Ctx {
        tcx,
        cfg,
        types: vec![],
        tmap: FxHashMap::default(),
        tqueue: VecDeque::new(),
        queue: VecDeque::new(),
        seen: FxHashSet::default(),
        env: TypingEnv::fully_monomorphized(),
        envname: String::new(),
    };
    let mut roots: Vec<(String, String)> = vec![];
    let mut first = true;
    for (n, d) in &names {
        let pats: Vec<String> = c.cfg.roots.iter().filter(|p| glob(p, n)).cloned().collect();
        if pats.is_empty() {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, *d);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(*d, args);
        let generic = args.non_erasable_generics().next().is_some();
        c.env = TypingEnv::post_analysis(tcx, *d);
        c.envname = if generic { n.clone() } else { String::new() };
        let key = c.enqueue(inst, 0);
        roots.push((n.clone(), key));
        while !c.queue.is_empty() || !c.tqueue.is_empty() {
        while let Some((inst, env, depth)) = c.queue.pop_front() {
            c.env = env;
            if let Some(s) = c.dump_fn(inst, depth) {
                if !first {
                    o.push_str(",\n");
                }
                first = false;
                o.push_str(&s);
            }
        }
        while let Some((i, t)) = c.tqueue.pop_front() {
            let s = c.dump_ty(t);
            c.types[i] = s;
            types_done += 1;
        }
        }
    }
    let _ = types_done;
    o.push_str("],\n\"types\":[\n");
    o.push_str(&c.types.join(",\n"));
    o.push_str("],\n\"roots\":[");
    o.push_str(&roots.iter().map(|(n, k)| format!("[{},{}]", esc(n), esc(k))).collect::<Vec<_>>().join(","));
    o.push_str("],\n\"all\":[");
    o.push_str(&names.iter().map(|(n, _)| esc(n)).collect::<Vec<_>>().join(","));
    o.push_str("]}\n");
    std::fs::write(out, o).unwrap();
}

impl<'tcx> Ctx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, i);
        self.tqueue.push_back((i, t));
        i
    }

    fn key(&self, inst: Instance<'tcx>) -> String {
        let base = istr(self.tcx, inst.def_id(), inst.args);
        let mut k = match inst.def {
            InstanceKind::Item(_) => base,
            other => {
                let s = format!("{:?}", other);
                let n = s.split('(').next().unwrap_or("").to_string();
                format!("{n}!{base}")
            }
        };
        if self.tcx.is_closure_like(inst.def_id()) {
            let parent = self.tcx.typeck_root_def_id(inst.def_id());
            k = format!("{}#{}", k, pstr(self.tcx, parent));
            let sp = self.tcx.def_path(inst.def_id()).to_string_no_crate_verbose();
            k = format!("{k}#{sp}");
        }
        let has_param = inst.args.non_erasable_generics().next().is_some() && format!("{:?}", inst.args).contains('#');
        if has_param {
            format!("{} @ {}", k, self.envname)
        } else {
            k
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, depth: usize) -> String {
        let k = self.key(inst);
        if self.seen.insert((k.clone(), String::new())) {
            self.queue.push_back((inst, self.env, depth));
        }
        k
    }

    fn variants(&mut self, def: ty::AdtDef<'tcx>, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(tcx, vi).val.to_string()
            } else {
                "0".into()
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = f.ty(tcx, args).skip_norm_wip();
                let fty = match tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(fty)) {
                    Ok(t) => t,
                    Err(_) => fty,
                };
                let id = self.ty(fty);
                fs.push(format!("[{},{}]", esc(f.name.as_str()), id));
            }
            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(v.name.as_str()), esc(&discr), fs.join(",")));
        }
        format!("[{}]", vs.join(","))
    }

    fn dump_ty(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let s = esc(&tstr(t));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"b\":{},\"sg\":true", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"int\",\"b\":{},\"sg\":false", i.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("\"k\":\"float\",\"b\":{}", f.bit_width()),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Ref(_, to, m) => format!("\"k\":\"ref\",\"m\":{},\"to\":{}", m.is_mut(), self.ty(*to)),
            ty::RawPtr(to, m) => format!("\"k\":\"ptr\",\"m\":{},\"to\":{}", m.is_mut(), self.ty(*to)),
            ty::Slice(e) => format!("\"k\":\"slice\",\"of\":{}", self.ty(*e)),
            ty::Array(e, n) => format!(
                "\"k\":\"array\",\"of\":{},\"n\":{}",
                self.ty(*e),
                n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"f\":[{}]", v.join(","))
            }
            ty::Adt(def, args) => {
                let p = pstr(tcx, def.did());
                let kr = tcx.crate_name(def.did().krate).to_string();
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let expand = !def.is_union();
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let vs = if expand { self.variants(*def, args) } else { "[]".into() };
                let isbox = def.is_box();
                let dropimpl = match tcx.adt_destructor(def.did()) {
                    Some(d) if def.did().is_local() || tcx.crate_name(d.did.krate).as_str() == "_pydantic_core" => {
                        let inst = Instance::new_raw(d.did, args);
                        let inst = match Instance::try_resolve(tcx, self.env, d.did, args) {
                            Ok(Some(i)) => i,
                            _ => inst,
                        };
                        let k = self.enqueue(inst, 1);
                        esc(&k)
                    }
                    _ => "null".into(),
                };
                format!(
                    "\"k\":\"adt\",\"kind\":\"{kind}\",\"path\":{},\"crate\":{},\"args\":[{}],\"box\":{isbox},\"drop\":{dropimpl},\"v\":{vs}",
                    esc(&p),
                    esc(&kr),
                    a.join(",")
                )
            }
            ty::Closure(d, args) => {
                let c = args.as_closure();
                let ups: Vec<String> = c.upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let inst = Instance::new_raw(*d, args);
                let k = self.enqueue(inst, 1);
                let names: Vec<String> = if d.is_local() {
                    tcx.closure_captures(d.expect_local())
                        .iter()
                        .map(|c| esc(c.to_symbol().as_str()))
                        .collect()
                } else {
                    vec![]
                };
                format!("\"k\":\"closure\",\"fn\":{},\"up\":[{}],\"upn\":[{}]", esc(&k), ups.join(","), names.join(","))
            }
            ty::FnDef(d, args) => {
                format!("\"k\":\"fndef\",\"callee\":{}", self.callee(*d, args.skip_binder(), 1))
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{{body},\"s\":{s}}}")
    }

    fn may_descend(&self, path: &str, d: DefId) -> bool {
        if self.cfg.stop.iter().any(|p| glob(p, path)) {
            return false;
        }
        if d.is_local() {
            return true;
        }
        self.cfg.descend.iter().any(|p| glob(p, path))
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let path = pstr(tcx, d);
        let full = istr(tcx, d, args);
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let trait_of = tcx.trait_of_assoc(d).map(|t| pstr(tcx, t));
        let mut res = "null".to_string();
        let mut key = "null".to_string();
        let mut kind = "none".to_string();
        let mut rargs: Vec<String> = vec![];
        if !matches!(
            tcx.def_kind(d),
            DefKind::Ctor(..) | DefKind::Fn | DefKind::AssocFn
        ) {
            kind = "notfn".into();
        } else if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
            let rd = inst.def_id();
            let rpath = pstr(tcx, rd);
            rargs = inst.args.types().map(|x| self.ty(x).to_string()).collect();
            res = esc(&rpath);
            match inst.def {
                InstanceKind::Item(_) => {
                    kind = "item".into();
                    if matches!(tcx.def_kind(rd), DefKind::Ctor(..)) {
                        kind = "ctor".into();
                    } else if self.may_descend(&rpath, rd) && tcx.is_mir_available(rd) && depth < self.cfg.max_depth {
                        key = esc(&self.enqueue(inst, depth + 1));
                    }
                }
                InstanceKind::Intrinsic(_) => kind = "intrinsic".into(),
                InstanceKind::Virtual(..) => kind = "virtual".into(),
                other => {
                    let s = format!("{:?}", other);
                    kind = s.split('(').next().unwrap_or("").to_string();
                }
            }
        }
        format!(
            "{{\"path\":{},\"full\":{},\"trait\":{},\"targs\":[{}],\"res\":{res},\"rargs\":[{}],\"key\":{key},\"kind\":{},\"local\":{}}}",
            esc(&path),
            esc(&full),
            trait_of.map(|t| esc(&t)).unwrap_or("null".into()),
            targs.join(","),
            rargs.join(","),
            esc(&kind),
            d.is_local()
        )
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("{{\"f\":{},\"t\":{}}}", f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("{{\"ci\":{offset},\"min\":{min_length},\"fe\":{from_end}}}")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"sub\":[{from},{to}],\"fe\":{from_end}}}")
                }
                ProjectionElem::Downcast(_, vi) => format!("{{\"d\":{}}}", vi.index()),
                ProjectionElem::OpaqueCast(t) => format!("{{\"oc\":{}}}", self.ty(t)),
                _ => "\"?\"".into(),
            });
        }
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.index(), v.join(","))
    }

    fn str_in_alloc(&self, a: &interpret::Allocation) -> Option<String> {
        let mut found = None;
        for (_, prov) in a.provenance().ptrs().iter() {
            if let Some(interpret::GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                let m = m.inner();
                if m.provenance().ptrs().is_empty() {
                    let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len());
                    if let Ok(s) = std::str::from_utf8(b) {
                        if found.is_some() {
                            return None;
                        }
                        found = Some(s.to_string());
                    }
                }
            }
        }
        found
    }

    fn constant(&mut self, c: &Const<'tcx>, span: rustc_span::Span, owner: Instance<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let cal = self.callee(*d, args.skip_binder(), depth);
            return format!("{{\"t\":{tid},\"fn\":{cal}}}");
        }
        if let ty::Closure(..) = t.kind() {
            return format!("{{\"t\":{tid},\"zst\":true}}");
        }
        let mut label = with_no_trimmed_paths!(format!("{c}"));
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let _ = owner;
                return format!(
                    "{{\"t\":{tid},\"promoted\":{},\"of\":{}}}",
                    p.index(),
                    esc(&pstr(tcx, u.def))
                );
            }
            label = pstr(tcx, u.def);
        }
        match c.eval(tcx, self.env, span) {
            Ok(ConstValue::Scalar(interpret::Scalar::Int(si))) => {
                let bits = si.to_bits_unchecked();
                format!("{{\"t\":{tid},\"bits\":{},\"size\":{},\"lbl\":{}}}", esc(&bits.to_string()), si.size().bytes(), esc(&label))
            }
            Ok(ConstValue::ZeroSized) => format!("{{\"t\":{tid},\"zst\":true,\"lbl\":{}}}", esc(&label)),
            Ok(v @ ConstValue::Slice { .. }) => {
                let s = v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| String::from_utf8_lossy(b).to_string());
                match s {
                    Some(s) => format!("{{\"t\":{tid},\"str\":{}}}", esc(&s)),
                    None => format!("{{\"t\":{tid},\"named\":{}}}", esc(&label)),
                }
            }
            Ok(ConstValue::Scalar(interpret::Scalar::Ptr(p, _))) => {
                // reference to a constant allocation: try to give bytes for byte-array refs
                let mut extra = String::new();
                let id = p.provenance.alloc_id();
                match tcx.try_get_global_alloc(id) {
                    Some(interpret::GlobalAlloc::Static(d)) => {
                        extra = format!(",\"static\":{}", esc(&pstr(tcx, d)));
                        if let Ok(a) = tcx.eval_static_initializer(d) {
                            if let Some(s) = self.str_in_alloc(a.inner()) {
                                extra.push_str(&format!(",\"static_str\":{}", esc(&s)));
                            }
                        }
                    }
                    Some(interpret::GlobalAlloc::Memory(a)) => {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() && a.len() <= 64 {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            extra = format!(",\"bytes\":{:?}", b);
                        }
                    }
                    _ => {}
                }
                format!("{{\"t\":{tid},\"named\":{}{extra}}}", esc(&label))
            }
            _ => format!("{{\"t\":{tid},\"named\":{}}}", esc(&label)),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, owner: Instance<'tcx>, depth: usize) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.constant(&c.const_, c.span, owner, depth)),
            Operand::RuntimeChecks(r) => {
                let b = r.value(self.tcx.sess);
                let t = self.ty(self.tcx.types.bool);
                format!("{{\"k\":{{\"t\":{t},\"bits\":\"{}\",\"size\":1}}}}", b as u8)
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, owner: Instance<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o, owner, depth)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(o, owner, depth),
                n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"m\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", m.is_mut(), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"ref\",\"m\":true,\"raw\":true,\"p\":{}}}", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("{{\"r\":\"tls\",\"n\":{}}}", esc(&pstr(tcx, *d))),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                let tid = self.ty(*t);
                format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"t\":{tid}}}", esc(&ks), self.operand(o, owner, depth))
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"r\":\"bin\",\"op\":\"{op:?}\",\"a\":{},\"b\":{}}}",
                self.operand(&ab.0, owner, depth),
                self.operand(&ab.1, owner, depth)
            ),
            Rvalue::UnaryOp(op, o) => format!("{{\"r\":\"un\",\"op\":\"{op:?}\",\"o\":{}}}", self.operand(o, owner, depth)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"c\":{}}}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, owner, depth)).collect();
                let os = os.join(",");
                match &**k {
                    AggregateKind::Array(t) => format!("{{\"r\":\"agg\",\"k\":\"array\",\"t\":{},\"o\":[{os}]}}", self.ty(*t)),
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"k\":\"tuple\",\"o\":[{os}]}}"),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = tcx.type_of(*d).instantiate(tcx, args).skip_norm_wip();
                        let t = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                        let tid = self.ty(t);
                        format!(
                            "{{\"r\":\"agg\",\"k\":\"adt\",\"t\":{tid},\"v\":{},\"af\":{},\"o\":[{os}]}}",
                            v.index(),
                            active.map(|x| x.index().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, *d, args);
                        format!("{{\"r\":\"agg\",\"k\":\"closure\",\"t\":{},\"o\":[{os}]}}", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => format!("{{\"r\":\"agg\",\"k\":\"rawptr\",\"o\":[{os}]}}"),
                    _ => "{\"r\":\"?\"}".into(),
                }
            }
            _ => "{\"r\":\"?\"}".into(),
        }
    }

    fn dump_body(&mut self, body: &Body<'tcx>, inst: Instance<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut bbs = vec![];
        for (_bi, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            let mut ss = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let p = self.place(p);
                        let r = self.rvalue(r, inst, depth);
                        ss.push(format!("[{p},{r}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[{p},{{\"r\":\"setdiscr\",\"v\":{}}}]", variant_index.index()));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = {
                let sm = tcx.sess.source_map();
                let sp = term.source_info.span.source_callsite();
                let lo = sm.lookup_char_pos(sp.lo());
                lo.line
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"b\":{}", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tt: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.index())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    format!(
                        "\"k\":\"switch\",\"o\":{},\"ty\":{dt},\"t\":[{}],\"else\":{}",
                        self.operand(discr, inst, depth),
                        tt.join(","),
                        targets.otherwise().index()
                    )
                }
                TerminatorKind::Return => "\"k\":\"return\"".into(),
                TerminatorKind::Unreachable => "\"k\":\"unreachable\"".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"k\":\"resume\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    format!("\"k\":\"drop\",\"p\":{},\"ty\":{pt},\"b\":{}", self.place(place), target.index())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, inst, depth)).collect();
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dty = self.ty(dty);
                    format!(
                        "\"k\":\"call\",\"f\":{},\"a\":[{}],\"d\":{},\"dt\":{dty},\"b\":{}",
                        self.operand(func, inst, depth),
                        a.join(","),
                        self.place(destination),
                        target.map(|b| b.index().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let ms = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "div_by_zero".into(),
                        AssertKind::RemainderByZero(_) => "rem_by_zero".into(),
                        AssertKind::BoundsCheck { .. } => "bounds".into(),
                        _ => "other".into(),
                    };
                    format!(
                        "\"k\":\"assert\",\"o\":{},\"e\":{expected},\"msg\":{},\"b\":{}",
                        self.operand(cond, inst, depth),
                        esc(&ms),
                        target.index()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"k\":\"goto\",\"b\":{}", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("\"k\":\"goto\",\"b\":{}", real_target.index()),
                _ => "\"k\":\"?\"".into(),
            };
            bbs.push(format!("{{\"s\":[{}],\"t\":{{{t},\"ln\":{line}}}}}", ss.join(",")));
        }
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"bbs\":[{}]",
            body.arg_count,
            body.spread_arg.map(|x| x.index().to_string()).unwrap_or("null".into()),
            locals.join(","),
            names.join(","),
            bbs.join(",\n ")
        )
    }

    fn dump_fn(&mut self, inst: Instance<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        let key = self.key(inst);
        let d = inst.def_id();
        if !tcx.is_mir_available(d) {
            return None;
        }
        let body0 = tcx.instance_mir(inst.def);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            EarlyBinder::bind(tcx, body0.clone()),
        ) {
            Ok(b) => b,
            Err(_) => return None,
        };
        let sp = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d));
        let b = self.dump_body(&body, inst, depth);
        let mut proms = vec![];
        if matches!(inst.def, InstanceKind::Item(_)) {
            let pm = tcx.promoted_mir(d);
            for p in pm.iter() {
                match inst.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    EarlyBinder::bind(tcx, p.clone()),
                ) {
                    Ok(pb) => {
                        let s = self.dump_body(&pb, inst, depth);
                        proms.push(format!("{{{s}}}"));
                    }
                    Err(_) => proms.push("null".into()),
                }
            }
        }
        Some(format!(
            "{{\"key\":{},\"path\":{},\"span\":{},\"local\":{},{b},\"proms\":[{}]}}",
            esc(&key),
            esc(&pstr(tcx, d)),
            esc(&sp),
            d.is_local(),
            proms.join(",")
        ))
    }
}
