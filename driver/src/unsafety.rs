//! Every unsafe operation written in the local crate (HIR level, after type checking).
use crate::json::J;
use rustc_hir as hir;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, TyCtxt};

struct V<'tcx> { tcx: TyCtxt<'tcx>, depth: usize, owner: String, out: Vec<J>, blocks: usize, items: usize }

fn foreign_macro(_tcx: TyCtxt<'_>, sp: rustc_span::Span) -> bool {
	// Code written by a macro of another crate (format_args! and friends) is that crate's business.
	sp.from_expansion() && sp.ctxt().outer_expn_data().macro_def_id.is_none_or(|d| !d.is_local())
}

impl<'tcx> V<'tcx> {
	fn report(&mut self, kind: &str, what: String, sp: rustc_span::Span) {
		let sp = sp.source_callsite();
		let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
		let f = lo.file.name.prefer_local_unconditionally().to_string();
		self.out.push(obj! { "kind": kind, "what": what, "owner": self.owner.clone(), "file": f, "line": lo.line });
	}
	fn callee_unsafe(&self, did: hir::def_id::DefId) -> bool {
		matches!(self.tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && !self.tcx.fn_sig(did).skip_binder().safety().is_safe()
	}
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
	type NestedFilter = nested_filter::All;
	fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
	fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
		self.items += 1;
		let did = i.owner_id.to_def_id();
		if let hir::ItemKind::Impl(im) = &i.kind {
			if let Some(tr) = im.of_trait {
				if !tr.safety.is_safe() && !foreign_macro(self.tcx, i.span) { self.report("unsafe impl", with_no_trimmed_paths!(self.tcx.def_path_str(did)), i.span); }
			}
		}
		if let hir::ItemKind::ForeignMod { .. } = &i.kind { self.report("extern block", with_no_trimmed_paths!(self.tcx.def_path_str(did)), i.span); }
		intravisit::walk_item(self, i);
	}
	fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, d: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, sp: rustc_span::Span, id: hir::def_id::LocalDefId) {
		let old = std::mem::replace(&mut self.owner, with_no_trimmed_paths!(self.tcx.def_path_str(id)));
		if let Some(h) = k.header() {
			if !h.is_safe() && !foreign_macro(self.tcx, sp) { self.report("unsafe fn", with_no_trimmed_paths!(self.tcx.def_path_str(id)), sp); }
		}
		intravisit::walk_fn(self, k, d, b, id);
		self.owner = old;
	}
	fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
		let un = matches!(b.rules, hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided)) && !foreign_macro(self.tcx, b.span);
		if un { self.depth += 1; self.blocks += 1; }
		intravisit::walk_block(self, b);
		if un { self.depth -= 1; }
	}
	fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
		if self.depth > 0 {
			let tr = self.tcx.typeck(e.hir_id.owner.def_id);
			match &e.kind {
				hir::ExprKind::Call(f, _) => {
					let t = tr.expr_ty_adjusted_opt(f);
					if let Some(t) = t {
						match t.kind() {
							ty::FnDef(did, _) => if self.callee_unsafe(*did) { self.report("call", with_no_trimmed_paths!(self.tcx.def_path_str(*did)), e.span); },
							ty::FnPtr(..) => if !t.fn_sig(self.tcx).skip_binder().safety().is_safe() { self.report("call", "fn pointer".to_owned(), e.span); },
							_ => {},
						}
					}
				},
				hir::ExprKind::MethodCall(..) => if let Some(did) = tr.type_dependent_def_id(e.hir_id) {
					if self.callee_unsafe(did) { self.report("call", with_no_trimmed_paths!(self.tcx.def_path_str(did)), e.span); }
				},
				hir::ExprKind::Unary(hir::UnOp::Deref, inner) => if let Some(t) = tr.expr_ty_adjusted_opt(inner) {
					if t.is_raw_ptr() { self.report("deref", format!("{t}"), e.span); }
				},
				hir::ExprKind::Path(q) => if let Res::Def(DefKind::Static { mutability, .. }, did) = tr.qpath_res(q, e.hir_id) {
					if mutability.is_mut() { self.report("static mut", with_no_trimmed_paths!(self.tcx.def_path_str(did)), e.span); }
				},
				hir::ExprKind::Field(b, _) => if let Some(t) = tr.expr_ty_adjusted_opt(b) {
					if t.is_union() { self.report("union field", format!("{t}"), e.span); }
				},
				hir::ExprKind::InlineAsm(..) => self.report("asm", String::new(), e.span),
				_ => {},
			}
		}
		intravisit::walk_expr(self, e);
	}
}

pub fn collect(tcx: TyCtxt<'_>) -> J {
	let mut v = V { tcx, depth: 0, owner: String::new(), out: Vec::new(), blocks: 0, items: 0 };
	tcx.hir_walk_toplevel_module(&mut v);
	obj! { "ops": J::Arr(v.out), "blocks": v.blocks, "items": v.items }
}
