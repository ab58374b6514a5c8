//! Crate-level facts: who claims what unsafely, and whether the compiler can justify the claim field by field.
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{self, TyCtxt, TypingMode};
use rustc_trait_selection::infer::InferCtxtExt;
use serde_json::{json, Value};

struct V<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    out: &'a mut Vec<Value>,
    owner: String,
}

fn loc(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let sp = sp.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(sp.lo());
    let f = match &l.file.name {
        rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
        o => format!("{:?}", o),
    };
    format!("{}:{}", f, l.line)
}

/// does the span come from a macro defined in another crate?
fn foreign(sp: rustc_span::Span) -> bool {
    sp.from_expansion() && sp.ctxt().outer_expn_data().macro_def_id.map(|d| !d.is_local()).unwrap_or(false)
}

impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push(json!({"in": self.owner, "at": loc(self.tcx, b.span), "foreign_macro": foreign(b.span)}));
        }
        intravisit::walk_block(self, b);
    }
}

pub fn dump(tcx: TyCtxt<'_>) -> Value {
    let mut impls = vec![];
    let mut drops = vec![];
    let mut statics = vec![];
    let mut unsafe_fns = vec![];
    let mut other_unsafe_impls = vec![];
    let mut blocks = vec![];
    let mut externs = vec![];
    let mut n_impls = 0;
    let mut adts = vec![];
    for def in tcx.hir_crate_items(()).definitions() {
        let id = def.to_def_id();
        match tcx.def_kind(id) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, ty::TypingEnv::non_body_analysis(tcx, id));
                statics.push(json!({"n": tcx.def_path_str(id), "mut": mutability.is_mut(), "freeze": freeze,
                                    "at": loc(tcx, tcx.def_span(id))}));
            }
            DefKind::ForeignMod => externs.push(json!(loc(tcx, tcx.def_span(id)))),
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(id).instantiate_identity().skip_norm_wip();
                if !sig.safety().is_safe() {
                    unsafe_fns.push(json!({"n": tcx.def_path_str(id), "at": loc(tcx, tcx.def_span(id))}));
                }
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(json!(tcx.def_path_str(id))),
            DefKind::Impl { of_trait: true } => {
                n_impls += 1;
                let h = tcx.impl_trait_header(id);
                let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                let name = tcx.def_path_str(tr.def_id);
                if tcx.lang_items().drop_trait() == Some(tr.def_id) {
                    drops.push(json!({"ty": tr.self_ty().to_string(), "at": loc(tcx, tcx.def_span(id))}));
                }
                if h.safety.is_safe() || h.polarity == ty::ImplPolarity::Negative {
                    continue;
                }
                let is_auto = tcx.trait_is_auto(tr.def_id);
                if !is_auto {
                    other_unsafe_impls.push(json!({"trait": name, "ty": tr.self_ty().to_string(), "at": loc(tcx, tcx.def_span(id))}));
                    continue;
                }
                let mut fields = vec![];
                let st = tr.self_ty();
                let mut adt = String::new();
                if let ty::Adt(a, args) = st.kind() {
                    adt = tcx.def_path_str(a.did());
                    let pe = tcx.param_env(id);
                    let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
                    for v in a.variants() {
                        for f in &v.fields {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let phantom = ft.is_phantom_data();
                            let ok = infcx.type_implements_trait(tr.def_id, [ft], pe).must_apply_modulo_regions();
                            fields.push(json!({"v": v.name.as_str(), "f": f.name.as_str(), "ty": ft.to_string(),
                                               "ok": ok, "phantom": phantom}));
                        }
                    }
                }
                impls.push(json!({"trait": name, "ty": st.to_string(), "adt": adt, "fields": fields,
                                  "at": loc(tcx, tcx.def_span(id))}));
            }
            _ => {}
        }
    }
    for d in tcx.hir_body_owners() {
        let body = tcx.hir_body_owned_by(d);
        let mut v = V { tcx, out: &mut blocks, owner: tcx.def_path_str(d.to_def_id()) };
        v.visit_expr(body.value);
    }
    json!({"auto_impls": impls, "drops": drops, "statics": statics, "unsafe_fns": unsafe_fns,
           "unsafe_impls": other_unsafe_impls, "unsafe_blocks": blocks, "externs": externs,
           "trait_impls": n_impls, "adts": adts})
}
