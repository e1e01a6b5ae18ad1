// Dumps the type-checked program of one crate (its MIR after drop elaboration,
// resolved callees, constants, types) as JSON facts, without running it.
// Used as RUSTC_WORKSPACE_WRAPPER; the crate named by MIRFACTS_CRATE is dumped
// to MIRFACTS_OUT, every other crate is compiled as usual.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::fmt::Write as _;

struct J(String);
fn esc(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
fn arr(v: Vec<String>) -> String {
	format!("[{}]", v.join(","))
}
fn obj(v: Vec<(&str, String)>) -> String {
	format!(
		"{{{}}}",
		v.iter()
			.map(|(k, v)| format!("{}:{}", esc(k), v))
			.collect::<Vec<_>>()
			.join(",")
	)
}

struct Cx<'a, 'tcx> {
	tcx: TyCtxt<'tcx>,
	names: &'a std::collections::HashMap<DefId, String>,
	env: TypingEnv<'tcx>,
	body: Option<&'tcx Body<'tcx>>,
}

impl<'tcx> Cx<'_, 'tcx> {
	fn path(&self, d: DefId) -> String {
		if let Some(n) = self.names.get(&d) {
			return n.clone();
		}
		with_no_trimmed_paths!(self.tcx.def_path_str(d))
	}
	fn ty(&self, t: Ty<'tcx>) -> String {
		with_no_trimmed_paths!(t.to_string())
	}
	fn closure_of(&self, t: Ty<'tcx>) -> Option<DefId> {
		let mut t = t;
		loop {
			match t.kind() {
				ty::Closure(d, _) => return Some(*d),
				ty::Ref(_, i, _) => t = *i,
				ty::Adt(a, args) if a.is_box() => t = args.type_at(0),
				_ => return None,
			}
		}
	}
	fn span(&self, s: Span) -> String {
		let s = s.source_callsite();
		let sm = self.tcx.sess.source_map();
		let lo = sm.lookup_char_pos(s.lo());
		let name = format!("{}", lo.file.name.prefer_local_unconditionally());
		esc(&format!("{}:{}", name, lo.line))
	}
	fn variants(&self, t: Ty<'tcx>) -> String {
		if let ty::Adt(a, _) = t.kind() {
			if a.is_enum() {
				let mut v = vec![];
				for (idx, d) in a.discriminants(self.tcx) {
					v.push(arr(vec![
						format!("\"{}\"", d.val),
						esc(a.variant(idx).name.as_str()),
					]));
				}
				return arr(v);
			}
		}
		"null".into()
	}
	fn place(&self, p: &Place<'tcx>) -> String {
		let body = self.body.unwrap();
		let mut v = vec![];
		let mut pty = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
		for e in p.projection.iter() {
			let s = match e {
				ProjectionElem::Deref => arr(vec![esc("deref")]),
				ProjectionElem::Field(f, t) => {
					let mut name = String::new();
					match pty.ty.kind() {
						ty::Adt(a, _) => {
							let var = match pty.variant_index {
								Some(vi) => Some(a.variant(vi)),
								None if a.is_struct() || a.is_union() => Some(a.non_enum_variant()),
								None => None,
							};
							if let Some(var) = var {
								name = var.fields[f].name.to_string();
							}
						}
						ty::Closure(d, _) => {
							if let Some(l) = d.as_local() {
								if let Some(n) =
									self.tcx.closure_captures(l).get(f.as_usize()).map(|c| c.to_symbol())
								{
									name = n.to_string();
								}
							}
						}
						_ => {}
					}
					arr(vec![
						esc("f"),
						format!("{}", f.as_usize()),
						esc(&name),
						esc(&self.ty(t)),
					])
				}
				ProjectionElem::Index(l) => arr(vec![esc("idx"), format!("{}", l.as_usize())]),
				ProjectionElem::ConstantIndex {
					offset, from_end, ..
				} => arr(vec![
					esc("cidx"),
					format!("{}", offset),
					format!("{}", from_end),
				]),
				ProjectionElem::Subslice { from, to, from_end } => arr(vec![
					esc("sub"),
					format!("{}", from),
					format!("{}", to),
					format!("{}", from_end),
				]),
				ProjectionElem::Downcast(n, vi) => {
					let name = match n {
						Some(n) => n.to_string(),
						None => match pty.ty.kind() {
							ty::Adt(a, _) => a.variant(vi).name.to_string(),
							_ => String::new(),
						},
					};
					arr(vec![
						esc("down"),
						esc(&name),
						format!("{}", vi.as_usize()),
					])
				}
				_ => arr(vec![esc("other")]),
			};
			v.push(s);
			pty = pty.projection_ty(self.tcx, e);
		}
		obj(vec![
			("l", format!("{}", p.local.as_usize())),
			("p", arr(v)),
		])
	}
	fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, String)> {
		let tcx = self.tcx;
		let mut out = vec![
			("path", esc(&self.path(d))),
			(
				"args",
				arr(args.iter().map(|a| esc(&with_no_trimmed_paths!(a.to_string()))).collect()),
			),
		];
		// closures among the generic arguments
		let mut cl = vec![];
		for a in args.iter() {
			if let Some(t) = a.as_type() {
				if let Some(c) = self.closure_of(t) {
					cl.push(esc(&self.path(c)));
				} else if let ty::FnDef(f, _) = t.kind() {
					cl.push(esc(&self.path(*f)));
				}
			}
		}
		out.push(("closures", arr(cl)));
		if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
			if let Some(tr) = tcx.trait_of_assoc(d) {
				out.push(("trait", esc(&self.path(tr))));
			}
			let args = tcx.erase_and_anonymize_regions(args);
			if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
				match i.def {
					InstanceKind::Item(r) => {
						out.push(("res", esc(&self.path(r))));
						out.push(("local", format!("{}", r.is_local())));
					}
					InstanceKind::Virtual(r, _) => {
						out.push(("virt", esc(&self.path(r))));
						out.push(("local", format!("{}", r.is_local())));
					}
					InstanceKind::Shim(_) => {
						out.push(("shim", esc(&self.path(i.def_id()))));
					}
					_ => {}
				}
			}
		}
		out
	}
	fn bytes_str(&self, b: &[u8]) -> String {
		match std::str::from_utf8(b) {
			Ok(s) => esc(s),
			Err(_) => "null".into(),
		}
	}
	fn konst(&self, c: &Const<'tcx>) -> String {
		let tcx = self.tcx;
		let t = c.ty();
		let mut out = vec![("ty", esc(&self.ty(t)))];
		if let ty::FnDef(d, args) = t.kind() {
			out.push(("fn", obj(self.callee(*d, args.skip_binder()))));
			return obj(out);
		}
		if let Some(d) = self.closure_of(t) {
			out.push(("closure", esc(&self.path(d))));
		}
		if let Const::Unevaluated(u, _) = c {
			if let Some(p) = u.promoted {
				out.push((
					"promoted",
					esc(&format!("{}#promoted{}", self.path(u.def), p.as_usize())),
				));
			} else {
				out.push(("named", esc(&self.path(u.def))));
			}
		}
		if let Const::Ty(_, ct) = c {
			out.push(("tyconst", esc(&with_no_trimmed_paths!(ct.to_string()))));
		}
		let val = match c {
			Const::Val(v, _) => Some(*v),
			Const::Unevaluated(u, _) if u.promoted.is_none() => c.eval(tcx, self.env, DUMMY_SP).ok(),
			Const::Ty(..) => c.eval(tcx, self.env, DUMMY_SP).ok(),
			_ => None,
		};
		if let Some(v) = val {
			match v {
				ConstValue::Scalar(s) => {
					if let Ok(i) = s.try_to_scalar_int() {
						let bits = i.to_bits(i.size());
						match t.kind() {
							ty::Bool => out.push(("bool", format!("{}", bits != 0))),
							ty::Char => {
								let ch = char::from_u32(bits as u32).unwrap_or('\u{fffd}');
								out.push(("char", esc(&ch.to_string())));
							}
							ty::Int(_) => {
								let sz = i.size().bits();
								let sh = 128 - sz;
								let sv = ((bits << sh) as i128) >> sh;
								out.push(("int", format!("\"{}\"", sv)));
							}
							ty::Uint(_) => out.push(("int", format!("\"{}\"", bits))),
							ty::Adt(a, _) if a.is_enum() => {
								for (idx, d) in a.discriminants(tcx) {
									if d.val == bits {
										out.push(("variant", esc(a.variant(idx).name.as_str())));
									}
								}
								out.push(("int", format!("\"{}\"", bits)));
							}
							_ => out.push(("int", format!("\"{}\"", bits))),
						}
					} else if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = &s {
						let (prov, off) = p.prov_and_relative_offset();
						use rustc_middle::mir::interpret::GlobalAlloc;
						match tcx.global_alloc(prov.alloc_id()) {
							GlobalAlloc::Static(d) => out.push(("static", esc(&self.path(d)))),
							GlobalAlloc::Memory(m) if off.bytes() == 0 => {
								// reference to an array of chars or an enum
								if let ty::Ref(_, inner, _) = t.kind() {
									if let ty::Array(el, _) = inner.kind() {
										let a = m.inner();
										let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
										if el.is_char() {
											let mut v = vec![];
											for ch in b.chunks(4) {
												let u = u32::from_le_bytes([ch[0], ch[1], ch[2], ch[3]]);
												v.push(esc(&char::from_u32(u).unwrap_or('\u{fffd}').to_string()));
											}
											out.push(("chars", arr(v)));
										} else if *el == tcx.types.u8 {
											out.push(("bytes", self.bytes_str(b)));
											out.push(("raw", arr(b.iter().map(|x| x.to_string()).collect())));
										}
									}
								}
							}
							GlobalAlloc::Function { instance } => {
								out.push(("fnptr", esc(&self.path(instance.def_id()))))
							}
							_ => {}
						}
					}
				}
				ConstValue::Slice { .. } => {
					if let ty::Ref(_, inner, _) = t.kind() {
						if inner.is_str() {
							if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
								out.push(("str", self.bytes_str(b)));
							}
						}
					}
				}
				ConstValue::ZeroSized => out.push(("zst", "true".into())),
				_ => {}
			}
		}
		obj(out)
	}
	fn operand(&self, o: &Operand<'tcx>) -> String {
		match o {
			Operand::Copy(p) => obj(vec![("c", self.place(p))]),
			Operand::Move(p) => obj(vec![("m", self.place(p))]),
			Operand::Constant(c) => obj(vec![("k", self.konst(&c.const_))]),
			_ => obj(vec![("rc", "true".into())]),
		}
	}
	fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
		let body = self.body.unwrap();
		match r {
			Rvalue::Use(o, _) => obj(vec![("k", esc("use")), ("o", self.operand(o))]),
			Rvalue::Repeat(o, n) => obj(vec![
				("k", esc("repeat")),
				("o", self.operand(o)),
				("n", esc(&n.to_string())),
			]),
			Rvalue::Ref(_, bk, p) => obj(vec![
				("k", esc("ref")),
				(
					"mut",
					format!("{}", matches!(bk, BorrowKind::Mut { .. })),
				),
				("pl", self.place(p)),
			]),
			Rvalue::RawPtr(_, p) => obj(vec![("k", esc("rawptr")), ("pl", self.place(p))]),
			Rvalue::Cast(k, o, t) => obj(vec![
				("k", esc("cast")),
				("ck", esc(&format!("{:?}", k))),
				("o", self.operand(o)),
				("ty", esc(&self.ty(*t))),
				("from", esc(&self.ty(o.ty(&body.local_decls, self.tcx)))),
			]),
			Rvalue::BinaryOp(op, b) => obj(vec![
				("k", esc("bin")),
				("op", esc(&format!("{:?}", op))),
				("a", self.operand(&b.0)),
				("b", self.operand(&b.1)),
			]),
			Rvalue::UnaryOp(op, o) => obj(vec![
				("k", esc("un")),
				("op", esc(&format!("{:?}", op))),
				("o", self.operand(o)),
			]),
			Rvalue::Discriminant(p) => {
				let t = p.ty(&body.local_decls, self.tcx).ty;
				obj(vec![
					("k", esc("discr")),
					("pl", self.place(p)),
					("ty", esc(&self.ty(t))),
					("vars", self.variants(t)),
				])
			}
			Rvalue::Aggregate(k, fs) => {
				let ops = arr(fs.iter().map(|o| self.operand(o)).collect());
				match &**k {
					AggregateKind::Array(_) => obj(vec![
						("k", esc("agg")),
						("ak", esc("array")),
						("ops", ops),
					]),
					AggregateKind::Tuple => obj(vec![
						("k", esc("agg")),
						("ak", esc("tuple")),
						("ops", ops),
					]),
					AggregateKind::Adt(d, vi, _, _, _) => {
						let a = self.tcx.adt_def(*d);
						let var = a.variant(*vi);
						obj(vec![
							("k", esc("agg")),
							("ak", esc("adt")),
							("adt", esc(&self.path(*d))),
							("enum", format!("{}", a.is_enum())),
							("var", esc(var.name.as_str())),
							("vi", format!("{}", vi.as_usize())),
							(
								"fields",
								arr(var.fields.iter().map(|f| esc(f.name.as_str())).collect()),
							),
							("ops", ops),
						])
					}
					AggregateKind::Closure(d, _) => {
						let names = match d.as_local() {
							Some(l) => arr(
								self
									.tcx
									.closure_captures(l)
									.iter()
									.map(|c| esc(c.to_symbol().as_str()))
									.collect(),
							),
							None => "[]".into(),
						};
						obj(vec![
							("k", esc("agg")),
							("ak", esc("closure")),
							("def", esc(&self.path(*d))),
							("fields", names),
							("ops", ops),
						])
					}
					_ => obj(vec![("k", esc("agg")), ("ak", esc("other")), ("ops", ops)]),
				}
			}
			Rvalue::CopyForDeref(p) => obj(vec![
				("k", esc("use")),
				("o", obj(vec![("c", self.place(p))])),
			]),
			Rvalue::ThreadLocalRef(d) => obj(vec![("k", esc("tls")), ("def", esc(&self.path(*d)))]),
			_ => obj(vec![("k", esc("other")), ("dbg", esc(&format!("{:?}", r)))]),
		}
	}
	fn term(&self, t: &Terminator<'tcx>) -> String {
		let mut o: Vec<(&str, String)> = vec![("sp", self.span(t.source_info.span))];
		let body = self.body.unwrap();
		match &t.kind {
			TerminatorKind::Goto { target, .. } => {
				o.push(("k", esc("goto")));
				o.push(("t", format!("{}", target.as_usize())));
			}
			TerminatorKind::SwitchInt { discr, targets } => {
				o.push(("k", esc("switch")));
				o.push(("o", self.operand(discr)));
				o.push((
					"ty",
					esc(&self.ty(discr.ty(&body.local_decls, self.tcx))),
				));
				o.push((
					"vals",
					arr(
						targets
							.iter()
							.map(|(v, b)| arr(vec![format!("\"{}\"", v), format!("{}", b.as_usize())]))
							.collect(),
					),
				));
				o.push(("other", format!("{}", targets.otherwise().as_usize())));
			}
			TerminatorKind::Return => o.push(("k", esc("return"))),
			TerminatorKind::Unreachable => o.push(("k", esc("unreachable"))),
			TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
				o.push(("k", esc("resume")))
			}
			TerminatorKind::Drop { place, target, .. } => {
				o.push(("k", esc("drop")));
				o.push(("pl", self.place(place)));
				o.push((
					"ty",
					esc(&self.ty(place.ty(&body.local_decls, self.tcx).ty)),
				));
				o.push(("t", format!("{}", target.as_usize())));
			}
			TerminatorKind::Call {
				func,
				args,
				destination,
				target,
				..
			} => {
				o.push(("k", esc("call")));
				let ft = func.ty(&body.local_decls, self.tcx);
				match ft.kind() {
					ty::FnDef(d, ga) => o.push(("f", obj(self.callee(*d, ga.skip_binder())))),
					_ => {
						o.push(("f", obj(vec![("ptr", self.operand(func))])));
					}
				}
				o.push(("a", arr(args.iter().map(|a| self.operand(&a.node)).collect())));
				o.push((
					"at",
					arr(
						args
							.iter()
							.map(|a| esc(&self.ty(a.node.ty(&body.local_decls, self.tcx))))
							.collect(),
					),
				));
				o.push(("d", self.place(destination)));
				o.push((
					"dt",
					esc(&self.ty(destination.ty(&body.local_decls, self.tcx).ty)),
				));
				o.push((
					"t",
					match target {
						Some(b) => format!("{}", b.as_usize()),
						None => "null".into(),
					},
				));
			}
			TerminatorKind::Assert {
				cond,
				expected,
				msg,
				target,
				..
			} => {
				o.push(("k", esc("assert")));
				o.push(("o", self.operand(cond)));
				o.push(("exp", format!("{}", expected)));
				let (m, ops) = match &**msg {
					AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![len, index]),
					AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![a, b]),
					AssertKind::OverflowNeg(a) => ("overflow:Neg".to_string(), vec![a]),
					AssertKind::DivisionByZero(a) => ("divzero".to_string(), vec![a]),
					AssertKind::RemainderByZero(a) => ("remzero".to_string(), vec![a]),
					_ => ("other".to_string(), vec![]),
				};
				o.push(("msg", esc(&m)));
				o.push(("ops", arr(ops.iter().map(|a| self.operand(a)).collect())));
				o.push(("t", format!("{}", target.as_usize())));
			}
			TerminatorKind::FalseEdge { real_target, .. } => {
				o.push(("k", esc("goto")));
				o.push(("t", format!("{}", real_target.as_usize())));
			}
			TerminatorKind::FalseUnwind { real_target, .. } => {
				o.push(("k", esc("goto")));
				o.push(("t", format!("{}", real_target.as_usize())));
			}
			_ => o.push(("k", esc("other"))),
		}
		obj(o)
	}
	fn dump_body(&mut self, name: &str, def: DefId, body: &'tcx Body<'tcx>) -> String {
		self.body = Some(body);
		let mut names: Vec<(usize, String)> = vec![];
		for v in &body.var_debug_info {
			if let VarDebugInfoContents::Place(p) = v.value {
				if p.projection.is_empty() {
					names.push((p.local.as_usize(), v.name.to_string()));
				}
			}
		}
		let mut locals = vec![];
		for (l, d) in body.local_decls.iter_enumerated() {
			let mut o = vec![("ty", esc(&self.ty(d.ty)))];
			if let Some((_, n)) = names.iter().find(|(i, _)| *i == l.as_usize()) {
				o.push(("n", esc(n)));
			}
			if let Some(c) = self.closure_of(d.ty) {
				o.push(("closure", esc(&self.path(c))));
			}
			locals.push(obj(o));
		}
		let mut blocks = vec![];
		for (_b, data) in body.basic_blocks.iter_enumerated() {
			let mut st = vec![];
			for s in &data.statements {
				match &s.kind {
					StatementKind::Assign(b) => {
						let (p, r) = &**b;
						st.push(obj(vec![
							("k", esc("assign")),
							("pl", self.place(p)),
							("rv", self.rvalue(r)),
							("sp", self.span(s.source_info.span)),
						]));
					}
					StatementKind::StorageDead(l) => st.push(obj(vec![
						("k", esc("dead")),
						("l", format!("{}", l.as_usize())),
					])),
					StatementKind::SetDiscriminant {
						place,
						variant_index,
					} => st.push(obj(vec![
						("k", esc("setdiscr")),
						("pl", self.place(place)),
						("vi", format!("{}", variant_index.as_usize())),
						("sp", self.span(s.source_info.span)),
					])),
					_ => {}
				}
			}
			blocks.push(obj(vec![
				("s", arr(st)),
				("t", self.term(data.terminator())),
				("u", format!("{}", data.is_cleanup)),
			]));
		}
		let tcx = self.tcx;
		let kind = tcx.def_kind(def);
		let mut o = vec![
			("name", esc(name)),
			("kind", esc(&format!("{:?}", kind))),
			("sp", self.span(tcx.def_span(def))),
			("argc", format!("{}", body.arg_count)),
			("locals", arr(locals)),
			("blocks", arr(blocks)),
		];
		if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
			let vis = tcx.visibility(def);
			o.push(("pub", format!("{}", vis.is_public())));
			if let Some(l) = def.as_local() {
				o.push((
					"reach",
					format!(
						"{}",
						tcx.effective_visibilities(()).is_reachable(l)
					),
				));
			}
			o.push((
				"unsafe",
				format!(
					"{}",
					tcx.fn_sig(def).skip_binder().safety().is_unsafe()
				),
			));
			if let Some(t) = tcx.trait_of_assoc(def) {
				o.push(("trait_default", esc(&self.path(t))));
			}
			if let Some(im) = tcx.impl_of_assoc(def) {
				o.push((
					"impl_self",
					esc(&self.ty(tcx.type_of(im).skip_binder())),
				));
				if let Some(tr) = tcx.impl_opt_trait_ref(im) {
					o.push(("impl_trait", esc(&self.path(tr.skip_binder().def_id))));
				}
			}
		}
		if tcx.is_closure_like(def) {
			if let Some(l) = def.as_local() {
				o.push((
					"upvars",
					arr(
						tcx
							.closure_captures(l)
							.iter()
							.map(|c| esc(c.to_symbol().as_str()))
							.collect(),
					),
				));
				o.push(("parent", esc(&self.path(tcx.parent(def)))));
			}
		}
		obj(o)
	}
}

struct Cb {
	out: String,
}
impl rustc_driver::Callbacks for Cb {
	fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
		let mut bodies = vec![];
		let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
		keys.sort_by_key(|k| k.local_def_index.as_u32());
		let mut statics = vec![];
		// unique names: functions nested in different blocks may have the same path
		let mut names = std::collections::HashMap::new();
		let mut seen: std::collections::HashMap<String, usize> = std::collections::HashMap::new();
		for k in &keys {
			let def = k.to_def_id();
			// a closure of a renamed function gets the name of that function
			let parent = tcx.opt_parent(def);
			let n = match parent.and_then(|p| names.get(&p)) {
				Some(pn) if tcx.is_closure_like(def) => {
					let full = with_no_trimmed_paths!(tcx.def_path_str(def));
					let last = full.rsplit("::").next().unwrap_or("").to_string();
					format!("{}::{}", pn, last)
				}
				_ => with_no_trimmed_paths!(tcx.def_path_str(def)),
			};
			let c = seen.entry(n.clone()).or_insert(0);
			let u = if *c == 0 { n.clone() } else { format!("{}~{}", n, c) };
			*c += 1;
			names.insert(def, u);
		}
		for k in keys {
			let def = k.to_def_id();
			let kind = tcx.def_kind(def);
			let env = TypingEnv::post_analysis(tcx, def);
			let mut cx = Cx {
				tcx,
				names: &names,
				env,
				body: None,
			};
			let name = cx.path(def);
			match kind {
				DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
					let body = tcx.optimized_mir(def);
					bodies.push(cx.dump_body(&name, def, body));
				}
				DefKind::Ctor(..) => continue,
				DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
					let body = tcx.mir_for_ctfe(def);
					bodies.push(cx.dump_body(&name, def, body));
					if let DefKind::Static { .. } = kind {
						let t = tcx.type_of(def).skip_binder();
						statics.push(obj(vec![
							("name", esc(&name)),
							("ty", esc(&cx.ty(t))),
							("mut", format!("{}", tcx.is_mutable_static(def))),
							("sp", cx.span(tcx.def_span(def))),
						]));
					}
				}
				_ => continue,
			}
			for (i, b) in tcx.promoted_mir(def).iter_enumerated() {
				let n = format!("{}#promoted{}", name, i.as_usize());
				bodies.push(cx.dump_body(&n, def, b));
			}
		}
		// traits and implementations
		let mut traits = vec![];
		let mut impls = vec![];
		let mut enums = vec![];
		let mut structs = vec![];
		for id in tcx.hir_crate_items(()).definitions() {
			let def = id.to_def_id();
			let cx = Cx {
				tcx,
				names: &names,
				env: TypingEnv::fully_monomorphized(),
				body: None,
			};
			match tcx.def_kind(def) {
				DefKind::Trait => {
					let ms = tcx
						.associated_items(def)
						.in_definition_order()
						.filter(|i| i.is_fn())
						.map(|i| arr(vec![esc(&i.name().to_string()), esc(&cx.path(i.def_id)), format!("{}", i.defaultness(tcx).has_value())]))
						.collect();
					traits.push(obj(vec![("name", esc(&cx.path(def))), ("methods", arr(ms))]));
				}
				DefKind::Impl { .. } => {
					let ms = tcx
						.associated_items(def)
						.in_definition_order()
						.filter(|i| i.is_fn())
						.map(|i| {
							arr(vec![
								esc(&i.name().to_string()),
								esc(&cx.path(i.def_id)),
								format!("{}", tcx.visibility(i.def_id).is_public()),
							])
						})
						.collect();
					impls.push(obj(vec![
						("self", esc(&cx.ty(tcx.type_of(def).skip_binder()))),
						(
							"trait",
							match tcx.impl_opt_trait_ref(def) {
								Some(t) => esc(&cx.path(t.skip_binder().def_id)),
								None => "null".into(),
							},
						),
						("methods", arr(ms)),
						("sp", cx.span(tcx.def_span(def))),
					]));
				}
				DefKind::Enum => {
					let a = tcx.adt_def(def);
					let v = a
						.variants()
						.iter()
						.map(|v| {
							arr(vec![
								esc(v.name.as_str()),
								arr(
									v.fields
										.iter()
										.map(|f| esc(&cx.ty(tcx.type_of(f.did).skip_binder())))
										.collect(),
								),
							])
						})
						.collect();
					enums.push(obj(vec![("name", esc(&cx.path(def))), ("variants", arr(v))]));
				}
				DefKind::Struct => {
					let a = tcx.adt_def(def);
					let v = a
						.non_enum_variant()
						.fields
						.iter()
						.map(|f| {
							arr(vec![
								esc(f.name.as_str()),
								esc(&cx.ty(tcx.type_of(f.did).skip_binder())),
								format!("{}", tcx.visibility(f.did).is_public()),
							])
						})
						.collect();
					structs.push(obj(vec![("name", esc(&cx.path(def))), ("fields", arr(v))]));
				}
				_ => {}
			}
		}
		let s = obj(vec![
			("crate", esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
			("bodies", format!("[\n{}\n]", bodies.join(",\n"))),
			("statics", arr(statics)),
			("traits", arr(traits)),
			("impls", arr(impls)),
			("enums", arr(enums)),
			("structs", arr(structs)),
		]);
		std::fs::write(&self.out, s).expect("write facts");
		let _ = J(String::new()).0;
		Compilation::Continue
	}
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
	let mut args: Vec<String> = std::env::args().collect();
	// as a wrapper: argv[1] is the real rustc
	if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
		args.remove(1);
	}
	let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
	let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
	let mut is = false;
	let mut test = false;
	for w in args.windows(2) {
		if w[0] == "--crate-name" && w[1] == want {
			is = true;
		}
	}
	let mut bin = false;
	for (i, a) in args.iter().enumerate() {
		if a == "--test" {
			test = true;
		}
		if a == "--crate-type" && args.get(i + 1).map(|s| s == "bin").unwrap_or(false) {
			bin = true;
		}
	}
	rustc_driver::catch_with_exit_code(|| {
		if is && !test && !bin && !out.is_empty() {
			rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
		} else {
			rustc_driver::compiler_entrypoint(&args, &mut Plain);
		}
	})
}
