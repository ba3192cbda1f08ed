//! Decides every property over a recorded history.
use crate::hview::*;
use crate::plan::*;
use crate::runner::RunOut;

/// A history that the oracles cannot make sense of decides nothing.
pub fn judge(plan: &Plan, out: &RunOut) -> Vec<Viol> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decide(plan, out))) {
        Ok(v) => v,
        Err(_) => { eprintln!("nexosim: {} seed {}: the oracle gave up", plan.scen, plan.seed); vec![] }
    }
}
fn decide(plan: &Plan, out: &RunOut) -> Vec<Viol> {
    let h = H::new(plan, out);
    let mut v = Vs(vec![]);
    if plan.scen.starts_with("b-") {
        crate::od::check(plan, &h, out, &mut v);
        crate::ot::check(plan, &h, out, &mut v);
        return v.0;
    }
    crate::oq::check(plan, &h, &mut v);
    crate::ost::check(plan, &h, &mut v);
    crate::opp::check(plan, &h, &mut v);
    crate::ot::check(plan, &h, out, &mut v);
    crate::ov::check(plan, &h, &mut v);
    // these promise that nothing else breaks
    if ["T01", "T02", "T03", "D01", "D02", "N01", "V01"].contains(&plan.prop.as_str()) {
        let more: Vec<Viol> = v.0.iter().filter(|x| x.prop != plan.prop).cloned().collect();
        for x in more { v.add(&plan.prop, &x.kind, x.msg); }
    }
    v.0
}
