//! Dump of the type-checked program (MIR + types + constants) as JSON.
use crate::json::J;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_const_eval::const_eval::{mk_eval_cx_for_const_val, CompileTimeInterpCx};
use rustc_const_eval::interpret::{Immediate, MPlaceTy, OpTy, Projectable, Scalar};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
	self, EarlyBinder, GenericArgKind, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv,
};
use rustc_span::Span;
use std::collections::VecDeque;

pub struct Cx<'tcx> {
	tcx: TyCtxt<'tcx>,
	types: FxHashMap<Ty<'tcx>, usize>,
	type_list: Vec<(Ty<'tcx>, TypingEnv<'tcx>, Option<DefId>)>,
	queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, Option<DefId>)>,
	seen: FxHashMap<String, ()>,
	bodies: Vec<J>,
	env: TypingEnv<'tcx>,
	/// Root whose generics are in scope (only when the current instance still has params).
	root: Option<DefId>,
}

/// Foreign functions whose (generic / inline) bodies are inlined by the engine.
const TRANSPARENT: &[&str] = &[
	"std::option::", "std::result::", "std::ops::", "std::convert::", "std::cmp::", "std::bool::",
	"core::option::", "core::result::", "core::ops::", "core::convert::", "core::cmp::", "core::bool::",
	"std::mem::swap", "std::mem::replace", "std::mem::take", "<impl bool>", "core::bool",
	"std::tuple::", "core::tuple::", "std::num::TryFromIntError",
];

fn path_of(tcx: TyCtxt<'_>, did: DefId) -> String { with_no_trimmed_paths!(tcx.def_path_str(did)) }

impl<'tcx> Cx<'tcx> {
	fn transparent(&self, did: DefId) -> bool {
		if did.is_local() { return true; }
		let krate = self.tcx.crate_name(did.krate).to_string();
		if krate == "fyi_msg" || krate == "fyi_ansi" { return true; }
		// Judge by the module path of the definition, not of the trait.
		let vp = self.tcx.def_path(did).to_string_no_crate_verbose();
		if krate == "alloc" {
			// String's Extend/FromIterator are plain safe loops over the iterator.
			let p = path_of(self.tcx, did);
			return vp.starts_with("::string::") && (p.ends_with("::extend") || p.ends_with("::from_iter") || p.contains("::extend::"));
		}
		if krate != "core" { return false; }
		for m in ["::option::", "::result::", "::ops::", "::convert::", "::cmp::", "::bool::", "::tuple::",
			"::mem::swap", "::mem::replace", "::mem::take", "::iter::"] {
			if vp.starts_with(m) { return true; }
		}
		let p = path_of(self.tcx, did);
		TRANSPARENT.iter().any(|t| p.starts_with(t)) || p.contains("<impl bool>")
	}

	fn key(&self, inst: Instance<'tcx>, root: Option<DefId>) -> String {
		let base = with_no_trimmed_paths!(format!("{inst}"));
		let kind = match inst.def {
			InstanceKind::Item(d) => format!("{d:?}").chars().filter(|c| !c.is_whitespace()).collect::<String>(),
			other => format!("{other:?}"),
		};
		let mut k = format!("{base}|{}", kind);
		if inst.args.has_param() {
			if let Some(r) = root { k.push_str("|in "); k.push_str(&path_of(self.tcx, r)); }
		}
		k
	}

	fn enqueue(&mut self, inst: Instance<'tcx>) -> Option<String> {
		let tcx = self.tcx;
		match inst.def {
			InstanceKind::Item(d) => {
				if !self.transparent(d) { return None; }
				if !tcx.is_mir_available(d) { return None; }
				if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) { return None; }
			},
			InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => return None,
			InstanceKind::Shim(ShimKind::FnPtr(..)) => return None,
			InstanceKind::Shim(ShimKind::Clone(..)) => return None,
			_ => return None,
		}
		let k = self.key(inst, self.root);
		if self.seen.insert(k.clone(), ()).is_none() {
			self.queue.push_back((inst, self.env, self.root));
		}
		Some(k)
	}

	fn ty(&mut self, t: Ty<'tcx>) -> usize {
		let t = self.tcx.erase_and_anonymize_regions(t);
		if let Some(i) = self.types.get(&t) { return *i; }
		let i = self.type_list.len();
		self.types.insert(t, i);
		self.type_list.push((t, self.env, self.root));
		i
	}

	fn resolve(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
		let tcx = self.tcx;
		let args = tcx.erase_and_anonymize_regions(args);
		let path = path_of(tcx, did);
		let targs: Vec<J> = args.iter().filter_map(|a| match a.kind() {
			GenericArgKind::Type(t) => Some(J::from(self.ty(t))),
			GenericArgKind::Const(c) => Some(J::from(format!("{c}"))),
			_ => None,
		}).collect();
		let trait_ = tcx.trait_of_assoc(did).map(|t| path_of(tcx, t));
		let name = tcx.opt_item_name(did).map(|s| s.to_string());
		let unsafe_ = !tcx.fn_sig(did).skip_binder().safety().is_safe();
		let (mut ipath, mut kind, mut inst_key, mut ikrate, mut iargs) = (J::Null, J::Null, J::Null, J::Null, J::Null);
		let mut iself = J::Null;
		if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, args) {
			ipath = J::from(path_of(tcx, inst.def_id()));
			ikrate = J::from(tcx.crate_name(inst.def_id().krate).to_string());
			kind = J::from(match inst.def {
				InstanceKind::Item(_) => "item",
				InstanceKind::Intrinsic(_) => "intrinsic",
				InstanceKind::LlvmIntrinsic(_) => "llvm",
				InstanceKind::Virtual(..) => "virtual",
				InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
				InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
				InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
				InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
				InstanceKind::Shim(_) => "shim",
			});
			iargs = J::Arr(inst.args.iter().filter_map(|a| match a.kind() {
				GenericArgKind::Type(t) => Some(J::from(self.ty(t))),
				GenericArgKind::Const(c) => Some(J::from(format!("{c}"))),
				_ => None,
			}).collect());
			if let Some(imp) = tcx.impl_of_assoc(inst.def_id()) {
				let st = tcx.type_of(imp).instantiate_identity().skip_normalization();
				iself = J::from(with_no_trimmed_paths!(format!("{st}")));
			}
			inst_key = J::from(self.enqueue(inst));
		}
		else if tcx.trait_of_assoc(did).is_none() {
			// Non-trait function with unresolved params: still itself.
			let inst = Instance::new_raw(did, args);
			ipath = J::from(path.clone());
			kind = J::from("item");
			inst_key = J::from(self.enqueue(inst));
		}
		obj! {
			"path": path, "name": name, "args": targs, "trait": trait_, "krate": tcx.crate_name(did.krate).to_string(),
			"kind": kind, "ipath": ipath, "ikrate": ikrate, "iargs": iargs, "iself": iself, "inst": inst_key, "unsafe": unsafe_,
		}
	}

	fn span(&self, s: Span) -> J {
		let s = s.source_callsite();
		if s.is_dummy() { return J::Null; }
		let sm = self.tcx.sess.source_map();
		let lo = sm.lookup_char_pos(s.lo());
		let f = lo.file.name.prefer_local_unconditionally().to_string();
		arr![f, lo.line]
	}

	fn place(&mut self, p: &Place<'tcx>) -> J {
		let proj: Vec<J> = p.projection.iter().map(|e| match e {
			ProjectionElem::Deref => arr!["d"],
			ProjectionElem::Field(i, t) => { let t = self.ty(t); arr!["f", i.as_u32(), t] },
			ProjectionElem::Index(l) => arr!["i", l.as_u32()],
			ProjectionElem::ConstantIndex { offset, min_length, from_end } => arr!["ci", offset, min_length, from_end],
			ProjectionElem::Subslice { from, to, from_end } => arr!["sub", from, to, from_end],
			ProjectionElem::Downcast(n, v) => arr!["v", v.as_u32(), n.map(|s| s.to_string())],
			other => arr!["?", format!("{other:?}")],
		}).collect();
		arr![p.local.as_u32(), proj]
	}

	fn operand(&mut self, o: &Operand<'tcx>) -> J {
		match o {
			Operand::Copy(p) => arr!["c", self.place(p)],
			Operand::Move(p) => arr!["m", self.place(p)],
			Operand::Constant(c) => arr!["k", self.constant(&c.const_, c.span)],
			Operand::RuntimeChecks(r) => arr!["rt", format!("{r:?}")],
		}
	}

	fn constant(&mut self, c: &Const<'tcx>, span: Span) -> J {
		let t = c.ty();
		let ti = self.ty(t);
		let mut name = J::Null;
		if let Const::Unevaluated(u, _) = c {
			name = J::from(path_of(self.tcx, u.def));
			if u.promoted.is_some() { name = J::Null; }
		}
		if let ty::FnDef(did, args) = t.kind() {
			let args = args.skip_binder();
			let r = self.resolve(*did, args);
			return obj! { "ty": ti, "v": arr!["fn", r] };
		}
		let v = match c.eval(self.tcx, self.env, span) {
			Ok(v) => self.const_value(v, t),
			Err(_) => arr!["opaque", format!("{c}")],
		};
		obj! { "ty": ti, "v": v, "name": name }
	}

	fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
		// Pointers to statics are reported by name (plus their value when readable).
		if let ConstValue::Scalar(Scalar::Ptr(ptr, _)) = v {
			let (prov, _off) = ptr.into_raw_parts();
			match self.tcx.global_alloc(prov.alloc_id()) {
				GlobalAlloc::Static(did) => {
					let p = path_of(self.tcx, did);
					let st = self.tcx.type_of(did).instantiate_identity().skip_normalization();
					let sti = self.ty(st);
					let val = if self.tcx.is_foreign_item(did) { J::Null } else {
						match self.tcx.eval_static_initializer(did) {
							Ok(alloc) => {
								let id = self.tcx.reserve_and_set_memory_alloc(alloc);
								self.const_value(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, st)
							},
							Err(_) => J::Null,
						}
					};
					return arr!["static", p, sti, val];
				},
				_ => {},
			}
		}
		if matches!(v, ConstValue::ZeroSized) { return arr!["zst"]; }
		let env = self.env;
		match mk_eval_cx_for_const_val(self.tcx.at(rustc_span::DUMMY_SP), env, v, t) {
			Some((ecx, op)) => self.read_op(&ecx, &op, 0),
			None => arr!["opaque", "cx"],
		}
	}

	fn read_op(&mut self, ecx: &CompileTimeInterpCx<'tcx>, op: &OpTy<'tcx>, depth: u32) -> J {
		if depth > 12 { return arr!["opaque", "depth"]; }
		let t = op.layout().ty;
		match t.kind() {
			ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
				let Some(s) = ecx.read_scalar(op).discard_err() else { return arr!["opaque", "scalar"]; };
				let Some(i) = s.try_to_scalar_int().ok() else { return arr!["opaque", "ptrint"]; };
				let size = i.size();
				if matches!(t.kind(), ty::Int(_)) { arr!["int", J::Int(i.to_int(size))] }
				else { arr!["int", J::UInt(i.to_uint(size))] }
			},
			ty::Float(_) => {
				let Some(s) = ecx.read_scalar(op).discard_err() else { return arr!["opaque", "float"]; };
				let Some(i) = s.try_to_scalar_int().ok() else { return arr!["opaque", "float"]; };
				let bits = i.to_uint(i.size());
				let txt = if i.size().bytes() == 4 { format!("{:?}", f32::from_bits(bits as u32)) } else { format!("{:?}", f64::from_bits(bits as u64)) };
				arr!["float", txt]
			},
			ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
				// Is it a static?
				if let Some(imm) = ecx.read_immediate(op).discard_err() {
					let first = match *imm {
						Immediate::Scalar(s) | Immediate::ScalarPair(s, _) => Some(s),
						Immediate::Uninit => None,
					};
					if let Some(Scalar::Ptr(ptr, _)) = first {
						let (prov, _) = ptr.into_raw_parts();
						if let Some(GlobalAlloc::Static(did)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
							return arr!["static", path_of(self.tcx, did), J::Null, J::Null];
						}
					}
				}
				if matches!(inner.kind(), ty::Dynamic(..) | ty::Foreign(_)) { return arr!["opaque", "dyn"]; }
				let Some(mp) = ecx.deref_pointer(op).discard_err() else { return arr!["opaque", "deref"]; };
				self.read_pointee(ecx, &mp, depth)
			},
			ty::Array(_, _) => {
				self.read_array(ecx, op, depth)
			},
			ty::Tuple(fs) => {
				let mut out = Vec::new();
				for i in 0..fs.len() {
					let Some(f) = ecx.project_field(op, FieldIdx::from_usize(i)).discard_err() else { return arr!["opaque", "field"]; };
					out.push(self.read_op(ecx, &f, depth + 1));
				}
				arr!["adt", 0_u32, out]
			},
			ty::Adt(def, _) => {
				if def.is_union() { return arr!["opaque", "union"]; }
				let v = if def.is_enum() {
					match ecx.read_discriminant(op).discard_err() {
						Some(v) => v,
						None => return arr!["opaque", "discr"],
					}
				} else { VariantIdx::from_u32(0) };
				let base = if def.is_enum() {
					match ecx.project_downcast(op, v).discard_err() { Some(b) => b, None => return arr!["opaque", "downcast"] }
				} else { op.clone() };
				let n = def.variant(v).fields.len();
				let mut out = Vec::new();
				for i in 0..n {
					let Some(f) = ecx.project_field(&base, FieldIdx::from_usize(i)).discard_err() else { return arr!["opaque", "field"]; };
					out.push(self.read_op(ecx, &f, depth + 1));
				}
				arr!["adt", v.as_u32(), out]
			},
			ty::FnDef(did, args) => {
				let r = self.resolve(*did, args.skip_binder());
				arr!["fn", r]
			},
			ty::Closure(..) => arr!["zst"],
			ty::Pat(..) => {
				let Some(s) = ecx.read_scalar(op).discard_err() else { return arr!["opaque", "scalar"]; };
				let Some(i) = s.try_to_scalar_int().ok() else { return arr!["opaque", "ptrint"]; };
				arr!["int", J::UInt(i.to_uint(i.size()))]
			},
			_ => arr!["opaque", format!("{t}")],
		}
	}

	fn read_pointee(&mut self, ecx: &CompileTimeInterpCx<'tcx>, mp: &MPlaceTy<'tcx>, depth: u32) -> J {
		match mp.layout().ty.kind() {
			ty::Str => match ecx.read_str(mp).discard_err() {
				Some(s) => arr!["ref", arr!["str", s]],
				None => arr!["opaque", "str"],
			},
			ty::Slice(_) => {
				let Some(op) = mp.to_op(ecx).discard_err() else { return arr!["opaque", "slice"]; };
				arr!["ref", self.read_array(ecx, &op, depth)]
			},
			_ => {
				let Some(op) = mp.to_op(ecx).discard_err() else { return arr!["opaque", "pointee"]; };
				arr!["ref", self.read_op(ecx, &op, depth + 1)]
			},
		}
	}

	fn read_array(&mut self, ecx: &CompileTimeInterpCx<'tcx>, op: &OpTy<'tcx>, depth: u32) -> J {
		let n = match op.layout().ty.kind() {
			ty::Array(_, n) => n.try_to_target_usize(self.tcx),
			_ => op.len(ecx).discard_err(),
		};
		let Some(n) = n else { return arr!["opaque", "len"]; };
		if n > 4096 { return arr!["opaque", "bigarray"]; }
		let mut out = Vec::new();
		for i in 0..n {
			let Some(f) = ecx.project_index(op, i).discard_err() else { return arr!["opaque", "idx"]; };
			out.push(self.read_op(ecx, &f, depth + 1));
		}
		arr!["arr", out]
	}

	fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
		match r {
			Rvalue::Use(o, _) => arr!["use", self.operand(o)],
			Rvalue::Repeat(o, n) => arr!["repeat", self.operand(o), n.try_to_target_usize(self.tcx)],
			Rvalue::Ref(_, k, p) => arr!["ref", matches!(k, BorrowKind::Mut { .. }), self.place(p)],
			Rvalue::RawPtr(_, p) => arr!["raw", self.place(p)],
			Rvalue::ThreadLocalRef(d) => arr!["tls", path_of(self.tcx, *d)],
			Rvalue::Cast(k, o, t) => { let ti = self.ty(*t); arr!["cast", format!("{k:?}"), self.operand(o), ti] },
			Rvalue::BinaryOp(op, ab) => arr!["bin", format!("{op:?}"), self.operand(&ab.0), self.operand(&ab.1)],
			Rvalue::UnaryOp(op, a) => arr!["un", format!("{op:?}"), self.operand(a)],
			Rvalue::Discriminant(p) => arr!["discr", self.place(p)],
			Rvalue::CopyForDeref(p) => arr!["use", arr!["c", self.place(p)]],
			Rvalue::Reborrow(_, _, p) => arr!["use", arr!["c", self.place(p)]],
			Rvalue::WrapUnsafeBinder(o, _) => arr!["use", self.operand(o)],
			Rvalue::Aggregate(k, ops) => {
				let ops: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
				let k = match &**k {
					AggregateKind::Array(_) => arr!["array"],
					AggregateKind::Tuple => arr!["tuple"],
					AggregateKind::Adt(d, v, args, _, f) => {
						let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_normalization();
						let t = self.norm(t);
						let ti = self.ty(t);
						arr!["adt", path_of(self.tcx, *d), v.as_u32(), ti, f.map(|f| f.as_u32())]
					},
					AggregateKind::Closure(d, args) => {
						let t = Ty::new_closure(self.tcx, *d, args);
						let ti = self.ty(t);
						arr!["closure", path_of(self.tcx, *d), ti]
					},
					AggregateKind::RawPtr(t, _) => { let ti = self.ty(*t); arr!["rawptr", ti] },
					other => arr!["other", format!("{other:?}")],
				};
				arr!["agg", k, ops]
			},
		}
	}

	fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
		self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(t)).unwrap_or(t)
	}

	fn body(&mut self, inst: Instance<'tcx>) -> Option<J> {
		let tcx = self.tcx;
		let raw = tcx.instance_mir(inst.def);
		let body: Body<'tcx> = inst.try_instantiate_mir_and_normalize_erasing_regions(
			tcx, self.env, EarlyBinder::bind(tcx, raw.clone())
		).ok()?;
		let did = inst.def_id();
		let locals: Vec<J> = body.local_decls.iter().map(|d| J::from(self.ty(d.ty))).collect();
		let mut names: Vec<J> = Vec::new();
		for v in &body.var_debug_info {
			if let VarDebugInfoContents::Place(p) = &v.value {
				let pj = self.place(p);
				names.push(arr![v.name.to_string(), pj]);
			}
		}
		let mut blocks: Vec<J> = Vec::new();
		for bb in body.basic_blocks.iter() {
			let mut stmts: Vec<J> = Vec::new();
			for s in &bb.statements {
				let sp = self.span(s.source_info.span);
				let line = match &sp { J::Arr(v) => v[1].clone(), _ => J::Null };
				match &s.kind {
					StatementKind::Assign(b) => {
						let p = self.place(&b.0);
						let r = self.rvalue(&b.1);
						stmts.push(arr!["=", p, r, line]);
					},
					StatementKind::SetDiscriminant { place, variant_index } => {
						let p = self.place(place);
						stmts.push(arr!["sd", p, variant_index.as_u32(), line]);
					},
					StatementKind::StorageDead(l) => stmts.push(arr!["dead", l.as_u32()]),
					StatementKind::StorageLive(l) => stmts.push(arr!["live", l.as_u32()]),
					StatementKind::Intrinsic(i) => {
						match &**i {
							NonDivergingIntrinsic::Assume(o) => stmts.push(arr!["assume", self.operand(o)]),
							_ => stmts.push(arr!["copy_nonoverlapping"]),
						}
					},
					_ => {},
				}
			}
			let term = bb.terminator();
			let sp = self.span(term.source_info.span);
			let unwind = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => J::from(b.as_u32()), _ => J::Null };
			let t = match &term.kind {
				TerminatorKind::Goto { target, .. } => arr!["goto", target.as_u32()],
				TerminatorKind::SwitchInt { discr, targets } => {
					let ti = { let dt = discr.ty(&body.local_decls, tcx); self.ty(dt) };
					let vs: Vec<J> = targets.iter().map(|(v, b)| arr![v, b.as_u32()]).collect();
					arr!["switch", self.operand(discr), ti, vs, targets.otherwise().as_u32()]
				},
				TerminatorKind::Return => arr!["return"],
				TerminatorKind::Unreachable => arr!["unreachable"],
				TerminatorKind::UnwindResume => arr!["resume"],
				TerminatorKind::UnwindTerminate(_) => arr!["abort"],
				TerminatorKind::Drop { place, target, unwind: u, .. } => {
					let pt = place.ty(&body.local_decls, tcx).ty;
					let ti = self.ty(pt);
					arr!["drop", self.place(place), ti, target.as_u32(), unwind(u)]
				},
				TerminatorKind::Call { func, args, destination, target, unwind: u, .. } => {
					let f = self.operand(func);
					let a: Vec<J> = args.iter().map(|a| self.operand(&a.node)).collect();
					arr!["call", f, a, self.place(destination), target.map(|t| t.as_u32()), unwind(u)]
				},
				TerminatorKind::TailCall { .. } => arr!["tailcall"],
				TerminatorKind::Assert { cond, expected, msg, target, unwind: u } => {
					let (kind, ops): (String, Vec<J>) = match &**msg {
						AssertKind::BoundsCheck { len, index } => ("bounds".to_owned(), vec![self.operand(len), self.operand(index)]),
						AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![self.operand(a), self.operand(b)]),
						AssertKind::OverflowNeg(a) => ("overflow:Neg".to_owned(), vec![self.operand(a)]),
						AssertKind::DivisionByZero(a) => ("div0".to_owned(), vec![self.operand(a)]),
						AssertKind::RemainderByZero(a) => ("rem0".to_owned(), vec![self.operand(a)]),
						_ => ("other".to_owned(), vec![]),
					};
					arr!["assert", self.operand(cond), *expected, kind, ops, target.as_u32(), unwind(u)]
				},
				TerminatorKind::FalseEdge { real_target, .. } => arr!["goto", real_target.as_u32()],
				TerminatorKind::FalseUnwind { real_target, .. } => arr!["goto", real_target.as_u32()],
				other => arr!["other", format!("{other:?}")],
			};
			blocks.push(obj! { "s": stmts, "t": t, "sp": sp, "c": bb.is_cleanup });
		}
		let key = self.key(inst, self.root);
		let mut impl_trait = J::Null;
		let mut impl_self = J::Null;
		let mut impl_self_ty = J::Null;
		if let Some(imp) = tcx.impl_of_assoc(did) {
			let st = tcx.type_of(imp).instantiate_identity().skip_normalization();
			impl_self = J::from(with_no_trimmed_paths!(format!("{st}")));
			impl_self_ty = J::from(self.ty(st));
			if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
				impl_trait = J::from(with_no_trimmed_paths!(format!("{}", tr.instantiate_identity().skip_normalization())));
			}
		}
		let public = did.as_local().is_some_and(|l| tcx.effective_visibilities(()).is_reachable(l));
		let parent = if tcx.def_kind(did) == DefKind::Closure { J::from(path_of(tcx, tcx.typeck_root_def_id(did))) } else { J::Null };
		let sp = self.span(tcx.def_span(did));
		let identity = did.is_local() && tcx.erase_and_anonymize_regions(inst.args) == tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
		Some(obj! {
			"key": key,
			"path": path_of(tcx, did),
			"name": tcx.opt_item_name(did).map(|s| s.to_string()),
			"krate": tcx.crate_name(did.krate).to_string(),
			"local": did.is_local(),
			"identity": identity,
			"closure_of": parent,
			"def_kind": format!("{:?}", tcx.def_kind(did)),
			"impl_self": impl_self, "impl_self_ty": impl_self_ty, "impl_trait": impl_trait,
			"public": public,
			"sp": sp,
			"argc": body.arg_count,
			"spread": body.spread_arg.map(|l| l.as_u32()),
			"locals": locals,
			"names": names,
			"blocks": blocks,
		})
	}

	fn type_json(&mut self, t: Ty<'tcx>) -> J {
		let tcx = self.tcx;
		let s = with_no_trimmed_paths!(format!("{t}"));
		let nd = !t.has_infer() && t.needs_drop(tcx, self.env);
		let mut o: Vec<(&'static str, J)> = vec![("s", J::from(s)), ("nd", J::from(nd))];
		match t.kind() {
			ty::Bool => o.push(("k", J::from("bool"))),
			ty::Char => o.push(("k", J::from("char"))),
			ty::Int(i) => { o.push(("k", J::from("int"))); o.push(("bits", J::from(i.bit_width().unwrap_or(64)))); },
			ty::Uint(i) => { o.push(("k", J::from("uint"))); o.push(("bits", J::from(i.bit_width().unwrap_or(64)))); },
			ty::Float(_) => o.push(("k", J::from("float"))),
			ty::Str => o.push(("k", J::from("str"))),
			ty::Never => o.push(("k", J::from("never"))),
			ty::Slice(e) => { o.push(("k", J::from("slice"))); let e = self.ty(*e); o.push(("e", J::from(e))); },
			ty::Array(e, n) => {
				o.push(("k", J::from("array"))); let e = self.ty(*e); o.push(("e", J::from(e)));
				o.push(("n", J::from(n.try_to_target_usize(tcx))));
			},
			ty::Ref(_, e, m) => { o.push(("k", J::from("ref"))); let e = self.ty(*e); o.push(("e", J::from(e))); o.push(("m", J::from(m.is_mut()))); },
			ty::RawPtr(e, _) => { o.push(("k", J::from("ptr"))); let e = self.ty(*e); o.push(("e", J::from(e))); },
			ty::Tuple(fs) => { o.push(("k", J::from("tuple"))); let v: Vec<J> = fs.iter().map(|f| J::from(self.ty(f))).collect(); o.push(("f", J::Arr(v))); },
			ty::FnDef(did, args) => { o.push(("k", J::from("fndef"))); let r = self.resolve(*did, args.skip_binder()); o.push(("fn", r)); },
			ty::FnPtr(..) => o.push(("k", J::from("fnptr"))),
			ty::Param(_) => o.push(("k", J::from("param"))),
			ty::Alias(..) => o.push(("k", J::from("alias"))),
			ty::Dynamic(..) => o.push(("k", J::from("dyn"))),
			ty::Pat(b, _) => { o.push(("k", J::from("pat"))); let e = self.ty(*b); o.push(("e", J::from(e))); },
			ty::Closure(did, args) => {
				o.push(("k", J::from("closure")));
				o.push(("path", J::from(path_of(tcx, *did))));
				let ca = args.as_closure();
				o.push(("ck", J::from(format!("{:?}", ca.kind()))));
				let up: Vec<J> = ca.upvar_tys().iter().map(|f| J::from(self.ty(f))).collect();
				o.push(("f", J::Arr(up)));
				let inst = Instance::new_raw(*did, args);
				let k = self.enqueue(inst);
				o.push(("inst", J::from(k)));
			},
			ty::Adt(def, args) => {
				o.push(("k", J::from("adt")));
				o.push(("path", J::from(path_of(tcx, def.did()))));
				o.push(("local", J::from(def.did().is_local())));
				o.push(("adt", J::from(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
				let targs: Vec<J> = args.iter().filter_map(|a| match a.kind() {
					GenericArgKind::Type(t) => Some(J::from(self.ty(t))),
					GenericArgKind::Const(c) => Some(J::from(format!("{c}"))),
					_ => None,
				}).collect();
				o.push(("args", J::Arr(targs)));
				if def.is_enum() || def.did().is_local() || matches!(tcx.crate_name(def.did().krate).as_str(), "fyi_msg" | "core") {
					let mut vs = Vec::new();
					let n = def.variants().len();
					for (vi, v) in def.variants().iter_enumerated() {
						let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
						let mut fs = Vec::new();
						if n <= 64 {
							for f in &v.fields {
								let ft = f.ty(tcx, args).skip_normalization();
								let ft = self.norm(ft);
								fs.push(arr![f.name.to_string(), self.ty(ft)]);
							}
						}
						vs.push(arr![v.name.to_string(), d, fs]);
					}
					o.push(("vars", J::Arr(vs)));
				}
				if let Some(d) = def.destructor(tcx) {
					let inst = Instance::new_raw(d.did, args);
					let k = self.enqueue(inst);
					o.push(("dropfn", J::from(k)));
					o.push(("hasdrop", J::from(true)));
				}
			},
			_ => o.push(("k", J::from("other"))),
		}
		J::Obj(o)
	}
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> J {
	let mut cx = Cx {
		tcx, types: FxHashMap::default(), type_list: Vec::new(), queue: VecDeque::new(), seen: FxHashMap::default(),
		bodies: Vec::new(), env: TypingEnv::fully_monomorphized(), root: None,
	};
	// Roots: every local function-like item, with its own generics.
	let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
	keys.sort_by_key(|k| tcx.def_span(k.to_def_id()).lo());
	let mut consts = Vec::new();
	for k in keys {
		let did = k.to_def_id();
		match tcx.def_kind(did) {
			DefKind::Fn | DefKind::AssocFn => {
				let args = ty::GenericArgs::identity_for_item(tcx, did);
				let args = tcx.erase_and_anonymize_regions(args);
				cx.env = TypingEnv::post_analysis(tcx, did);
				cx.root = Some(did);
				cx.enqueue(Instance::new_raw(did, args));
			},
			DefKind::Const { .. } | DefKind::AssocConst { .. } => {
				let generics = tcx.generics_of(did);
				if generics.requires_monomorphization(tcx) { continue; }
				cx.env = TypingEnv::post_analysis(tcx, did);
				cx.root = Some(did);
				let t = tcx.type_of(did).instantiate_identity().skip_normalization();
				let t = cx.norm(t);
				if let Ok(v) = tcx.const_eval_poly(did) {
					let v = cx.const_value(v, t);
					let ti = cx.ty(t);
					let sp = cx.span(tcx.def_span(did));
					consts.push(obj! { "path": path_of(tcx, did), "ty": ti, "v": v, "sp": sp });
				}
			},
			_ => {},
		}
	}
	// Worklist over bodies and types.
	let mut types_done = 0;
	let mut types_json: Vec<J> = Vec::new();
	loop {
		if let Some((inst, env, root)) = cx.queue.pop_front() {
			cx.env = env;
			cx.root = root;
			if let Some(b) = cx.body(inst) { cx.bodies.push(b); }
			continue;
		}
		if types_done < cx.type_list.len() {
			let (t, env, root) = cx.type_list[types_done];
			cx.env = env;
			cx.root = root;
			let j = cx.type_json(t);
			types_json.push(j);
			types_done += 1;
			continue;
		}
		break;
	}
	let unsafety = crate::unsafety::collect(tcx);
	obj! {
		"crate": name,
		"types": J::Arr(types_json),
		"bodies": J::Arr(std::mem::take(&mut cx.bodies)),
		"consts": J::Arr(consts),
		"unsafe": unsafety,
	}
}
