//! mirdump: a rustc wrapper that compiles a crate as usual and, for the crates
//! named in MIRDUMP_CRATES, writes the monomorphic MIR of everything reachable
//! from the crate's non-generic functions to MIRDUMP_OUT/<crate>.json.
//! Nothing of the analysed program is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal as _;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                write!(o, "\\u{:04x}", c as u32).unwrap();
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, mut f: F) -> String {
    let mut o = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

fn span_js(s: Span) -> String {
    let l = s.get_lines();
    format!("[{},{}]", js(&s.get_filename().to_string()), l.start_line)
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_list: Vec<Ty>,
    fns: HashMap<Instance, usize>,
    fn_list: Vec<Instance>,
    fn_queue: VecDeque<usize>,
    allocs: HashMap<AllocId, usize>,
    alloc_list: Vec<AllocId>,
    skip: Vec<String>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        i
    }
    fn func(&mut self, f: Instance) -> usize {
        if let Some(&i) = self.fns.get(&f) {
            return i;
        }
        let i = self.fn_list.len();
        self.fns.insert(f, i);
        self.fn_list.push(f);
        self.fn_queue.push_back(i);
        i
    }
    fn alloc_id(&mut self, a: AllocId) -> usize {
        if let Some(&i) = self.allocs.get(&a) {
            return i;
        }
        let i = self.alloc_list.len();
        self.allocs.insert(a, i);
        self.alloc_list.push(a);
        i
    }
    fn allocation(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in a.bytes.iter() {
            match b {
                Some(b) => write!(hex, "{:02x}", b).unwrap(),
                None => hex.push_str("__"),
            }
        }
        let prov = a
            .provenance
            .ptrs
            .iter()
            .map(|(off, p)| format!("[{},{}]", off, self.alloc_id(p.0)))
            .collect::<Vec<_>>()
            .join(",");
        format!("{{\"b\":\"{}\",\"p\":[{}]}}", hex, prov)
    }
    fn generic_args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|k| match k {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("[\"c\",{}]", n),
                    Err(_) => format!("[\"cx\",{}]", js(&format!("{:?}", c.kind()))),
                }),
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn fndef(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let inst = Instance::resolve(d, a).ok();
        let (ik, id) = match inst {
            Some(i) => {
                let k = match i.kind {
                    InstanceKind::Item => "item".to_string(),
                    InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic".to_string(),
                    InstanceKind::Virtual { idx } => format!("virtual{}", idx),
                    InstanceKind::Shim => "shim".to_string(),
                };
                let id = match i.kind {
                    InstanceKind::Virtual { .. } => -1i64,
                    _ => self.func(i) as i64,
                };
                (k, id)
            }
            None => ("unresolved".to_string(), -1),
        };
        format!(
            "{{\"d\":{},\"a\":{},\"k\":{},\"i\":{}}}",
            js(&d.name()),
            self.generic_args(a),
            js(&ik),
            id
        )
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        match c.kind() {
            ConstantKind::Allocated(a) => format!("[\"k\",{},{}]", tid, self.allocation(a)),
            ConstantKind::ZeroSized => format!("[\"z\",{}]", tid),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("[\"k\",{},{}]", tid, self.allocation(a)),
                TyConstKind::ZSTValue(_) => format!("[\"z\",{}]", tid),
                o => format!("[\"?\",{},{}]", tid, js(&format!("{:?}", o))),
            },
            o => format!("[\"?\",{},{}]", tid, js(&format!("{:?}", o))),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return format!("[{},[]]", p.local);
        }
        let pr = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            })
            .collect::<Vec<_>>()
            .join(",");
        format!("[{},[{}]]", p.local, pr)
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", js(&format!("{:?}", k)), self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.to_index(),
                            f.map(|x| x as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    o => format!("[\"?\",{}]", js(&format!("{:?}", o))),
                };
                format!("[\"agg\",{},{}]", kk, arr(ops, |o| self.operand(o)))
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y))
            }
            Rvalue::Cast(k, o, t) => {
                // keep the type of a closure/fn item being reified
                format!(
                    "[\"cast\",{},{},{}]",
                    js(&format!("{:?}", k)),
                    self.operand(o),
                    self.ty(*t)
                )
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = match k.to_mutable_lossy() {
                    Mutability::Mut => 1,
                    Mutability::Not => 0,
                };
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::Repeat(o, c) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                c.eval_target_usize().map(|n| n as i64).unwrap_or(-1)
            ),
            Rvalue::ThreadLocalRef(c) => {
                use rustc_public::CrateDef;
                let t = self.ty(c.ty());
                let m = StaticDef::try_from(*c).ok().and_then(|s| s.eval_initializer().ok());
                let m = m.map(|m| self.allocation(&m)).unwrap_or_else(|| "null".to_string());
                format!("[\"tls\",{},{},{}]", js(&c.name()), t, m)
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = arr(b.locals(), |l| format!("{}", self.ty(l.ty)));
        let names = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| format!("[{},{}]", l, js(&v.name))))
            .collect::<Vec<_>>()
            .join(",");
        let mut blocks = String::from("[");
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                blocks.push(',');
            }
            let mut stmts: Vec<String> = vec![];
            for s in bb.statements.iter() {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        stmts.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), line))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => stmts.push(format!(
                        "[\"sd\",{},{},{}]",
                        self.place(place),
                        variant_index.to_index(),
                        line
                    )),
                    StatementKind::StorageLive(l) => stmts.push(format!("[\"sl\",{}]", l)),
                    StatementKind::StorageDead(l) => stmts.push(format!("[\"sx\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => stmts
                        .push(format!(
                            "[\"cno\",{},{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count),
                            line
                        )),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let line = t.source_info.span.get_lines().start_line;
            let fx = js(&t.source_info.span.get_filename().to_string());
            let term = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "[\"switch\",{},{},{},{}]",
                    self.operand(discr),
                    arr(targets.branches(), |(v, b)| format!("[{},{}]", v, b)),
                    targets.otherwise(),
                    line
                ),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b.locals()).unwrap();
                    let inst = Instance::resolve_drop_in_place(pt);
                    let id = if inst.is_empty_shim() { -1 } else { self.func(inst) as i64 };
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target, id, line)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).unwrap();
                    let callee = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.fndef(d, &a),
                        _ => "null".to_string(),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        callee,
                        self.operand(func),
                        arr(args, |o| self.operand(o)),
                        self.place(destination),
                        target.map(|t| t as i64).unwrap_or(-1),
                        line,
                        fx
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let d = msg.description().unwrap_or("assert").to_string();
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        js(&d),
                        target,
                        line
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            write!(blocks, "{{\"s\":[{}],\"t\":{}}}", stmts.join(","), term).unwrap();
        }
        blocks.push(']');
        format!(
            "{{\"locals\":{},\"nargs\":{},\"spread\":{},\"names\":[{}],\"blocks\":{}}}",
            locals,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            names,
            blocks
        )
    }
    fn ty_js(&mut self, t: Ty) -> String {
        let mut o = String::from("{");
        write!(o, "\"s\":{},", js(&format!("{}", t))).unwrap();
        let k = t.kind();
        match &k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push_str("\"k\":\"bool\""),
                RigidTy::Char => o.push_str("\"k\":\"char\""),
                RigidTy::Int(i) => {
                    write!(o, "\"k\":\"int\",\"w\":{},\"sg\":true", i.num_bytes() * 8).unwrap()
                }
                RigidTy::Uint(i) => {
                    write!(o, "\"k\":\"int\",\"w\":{},\"sg\":false", i.num_bytes() * 8).unwrap()
                }
                RigidTy::Float(_) => o.push_str("\"k\":\"float\""),
                RigidTy::Str => o.push_str("\"k\":\"str\""),
                RigidTy::Never => o.push_str("\"k\":\"never\""),
                RigidTy::Adt(d, a) => {
                    write!(
                        o,
                        "\"k\":\"adt\",\"def\":{},\"ak\":\"{:?}\",\"box\":{},\"args\":{},\"variants\":[",
                        js(&d.name()),
                        d.kind(),
                        d.is_box(),
                        self.generic_args(a)
                    )
                    .unwrap();
                    for (i, v) in d.variants().iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let discr = if d.kind() == AdtKind::Enum {
                            format!("{}", d.discriminant_for_variant(v.idx()).val)
                        } else {
                            "0".into()
                        };
                        let fields = arr(v.fields(), |f| {
                            format!("[{},{}]", js(&f.name.to_string()), self.ty(f.ty_with_args(a)))
                        });
                        write!(
                            o,
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            js(&v.name().to_string()),
                            discr,
                            fields
                        )
                        .unwrap();
                    }
                    o.push(']');
                }
                RigidTy::Array(e, c) => write!(
                    o,
                    "\"k\":\"array\",\"e\":{},\"n\":{}",
                    self.ty(*e),
                    c.eval_target_usize().map(|x| x as i64).unwrap_or(-1)
                )
                .unwrap(),
                RigidTy::Slice(e) => write!(o, "\"k\":\"slice\",\"e\":{}", self.ty(*e)).unwrap(),
                RigidTy::RawPtr(e, m) => write!(
                    o,
                    "\"k\":\"ptr\",\"e\":{},\"m\":{}",
                    self.ty(*e),
                    (*m == Mutability::Mut) as u8
                )
                .unwrap(),
                RigidTy::Ref(_, e, m) => write!(
                    o,
                    "\"k\":\"ref\",\"e\":{},\"m\":{}",
                    self.ty(*e),
                    (*m == Mutability::Mut) as u8
                )
                .unwrap(),
                RigidTy::Tuple(ts) => {
                    write!(o, "\"k\":\"tuple\",\"f\":{}", arr(ts, |t| self.ty(*t).to_string())).unwrap()
                }
                RigidTy::FnDef(d, a) => {
                    let f = self.fndef(*d, a);
                    write!(o, "\"k\":\"fndef\",\"fn\":{}", f).unwrap()
                }
                RigidTy::FnPtr(_) => o.push_str("\"k\":\"fnptr\""),
                RigidTy::Closure(d, a) => {
                    // the closure body itself (its real kind, no shim)
                    let ups: Vec<usize> = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                                ts.iter().map(|t| self.ty(*t)).collect()
                            }
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    let mut id = -1i64;
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(*d, a, k) {
                            if i.kind == InstanceKind::Item {
                                id = self.func(i) as i64;
                                break;
                            }
                        }
                    }
                    write!(
                        o,
                        "\"k\":\"closure\",\"def\":{},\"fn\":{},\"ups\":{}",
                        js(&d.name()),
                        id,
                        arr(ups, |u| u.to_string())
                    )
                    .unwrap();
                }
                RigidTy::Dynamic(..) => o.push_str("\"k\":\"dyn\""),
                _ => o.push_str("\"k\":\"other\""),
            },
            _ => o.push_str("\"k\":\"nonrigid\""),
        }
        if !matches!(k, TyKind::RigidTy(RigidTy::FnDef(..))) {
            if let Ok(l) = t.layout() {
                let sh = l.shape();
                write!(o, ",\"size\":{}", sh.size.bytes()).unwrap();
                if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                    write!(o, ",\"offs\":{}", arr(offsets, |s| s.bytes().to_string())).unwrap();
                }
                match &sh.variants {
                    VariantsShape::Single { index } => {
                        write!(o, ",\"single\":{}", index.to_index()).unwrap()
                    }
                    VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "null".to_string(),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                format!(
                                    "[{},{},{},{}]",
                                    untagged_variant.to_index(),
                                    niche_variants.start().to_index(),
                                    niche_variants.end().to_index(),
                                    niche_start
                                )
                            }
                        };
                        let tagsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        write!(
                            o,
                            ",\"multi\":{{\"enc\":{},\"tagf\":{},\"tagsz\":{},\"offs\":{}}}",
                            enc,
                            tag_field,
                            tagsz,
                            arr(variants, |v| arr(&v.offsets, |s| s.bytes().to_string()))
                        )
                        .unwrap();
                    }
                    VariantsShape::Empty => {}
                }
            }
        }
        o.push('}');
        o
    }
    fn fn_js(&mut self, i: usize) -> String {
        let inst = self.fn_list[i];
        let name = inst.name().to_string();
        let item = CrateItem::try_from(inst).ok();
        let def = item.map(|c| c.name().to_string()).unwrap_or_else(|| name.clone());
        let krate = item.map(|c| c.krate().name.to_string()).unwrap_or_default();
        let span = item.map(|c| span_js(c.span())).unwrap_or_else(|| "null".into());
        let kind = format!("{:?}", inst.kind);
        let skip = self.skip.iter().any(|p| def.starts_with(p.as_str()));
        let args = inst.args();
        let a = self.generic_args(&args);
        let body = if skip || matches!(inst.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic)
        {
            "null".to_string()
        } else if inst.has_body() || inst.kind == InstanceKind::Shim {
            match inst.body() {
                Some(b) => self.body(&b),
                None => "null".to_string(),
            }
        } else {
            "null".to_string()
        };
        format!(
            "{{\"n\":{},\"d\":{},\"c\":{},\"sp\":{},\"k\":{},\"a\":{},\"skip\":{},\"body\":{}}}",
            js(&name),
            js(&def),
            js(&krate),
            span,
            js(&kind),
            a,
            skip,
            body
        )
    }
    fn alloc_js(&mut self, a: AllocId) -> String {
        match GlobalAlloc::from(a) {
            GlobalAlloc::Memory(m) => format!("{{\"m\":{}}}", self.allocation(&m)),
            GlobalAlloc::Function(i) => format!("{{\"f\":{}}}", self.func(i)),
            GlobalAlloc::Static(s) => {
                let n = s.name().to_string();
                match s.eval_initializer() {
                    Ok(m) => format!("{{\"st\":{},\"m\":{}}}", js(&n), self.allocation(&m)),
                    Err(_) => format!("{{\"st\":{}}}", js(&n)),
                }
            }
            GlobalAlloc::VTable(t, tr) => {
                let id = self.ty(t);
                let v = GlobalAlloc::VTable(t, tr).vtable_allocation();
                match v {
                    Some(v) => format!("{{\"vt\":{},\"va\":{}}}", id, self.alloc_id(v)),
                    None => format!("{{\"vt\":{}}}", id),
                }
            }
            o => format!("{{\"o\":{}}}", js(&format!("{:?}", o))),
        }
    }
}

fn analyse(out: String) -> ControlFlow<()> {
    let skip = std::env::var("MIRDUMP_SKIP")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_list: vec![],
        fns: HashMap::new(),
        fn_list: vec![],
        fn_queue: VecDeque::new(),
        allocs: HashMap::new(),
        alloc_list: vec![],
        skip,
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if item.requires_monomorphization() || !item.has_body() {
            continue;
        }
        if let Ok(inst) = Instance::try_from(item) {
            if let TyKind::RigidTy(RigidTy::FnDef(..)) = inst.ty().kind() {
                roots.push(cx.func(inst));
            }
        }
    }
    let mut fns: Vec<String> = vec![];
    let mut tys: Vec<String> = vec![];
    let mut allocs: Vec<String> = vec![];
    loop {
        let mut progress = false;
        while let Some(i) = cx.fn_queue.pop_front() {
            progress = true;
            assert_eq!(fns.len(), i);
            let s = cx.fn_js(i);
            fns.push(s);
        }
        while tys.len() < cx.ty_list.len() {
            progress = true;
            let t = cx.ty_list[tys.len()];
            let s = cx.ty_js(t);
            tys.push(s);
        }
        while allocs.len() < cx.alloc_list.len() {
            progress = true;
            let a = cx.alloc_list[allocs.len()];
            let s = cx.alloc_js(a);
            allocs.push(s);
        }
        if !progress {
            break;
        }
    }
    // generic items of the crate, by name (for inventory rules)
    let items = arr(rustc_public::all_local_items(), |i| {
        format!(
            "[{},{},{}]",
            js(&i.name().to_string()),
            i.requires_monomorphization(),
            span_js(i.span())
        )
    });
    let json = format!(
        "{{\"crate\":{},\"roots\":{},\"items\":{},\"types\":[\n{}\n],\"fns\":[\n{}\n],\"allocs\":[\n{}\n]}}\n",
        js(&rustc_public::local_crate().name.to_string()),
        arr(roots, |r| r.to_string()),
        items,
        tys.join(",\n"),
        fns.join(",\n"),
        allocs.join(",\n")
    );
    std::fs::write(&out, json).expect("mirdump: cannot write the dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper we get: mirdump <rustc> <rustc args...>
    args.remove(0);
    let rustc = args[0].clone();
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let key = format!("{}{}", crate_name, if is_bin { ":bin" } else { "" });
    let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let dump = wanted.split(',').any(|c| c == key);
    if !dump {
        let st = std::process::Command::new(&rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let out = format!(
        "{}/{}.json",
        std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT"),
        key.replace(':', "-")
    );
    let _ = std::fs::remove_file(&out);
    let res = rustc_public::run!(&args, || analyse(out.clone()));
    match res {
        Ok(_) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}
