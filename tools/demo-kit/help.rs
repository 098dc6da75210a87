//! Small helpers for demonstrations: transactions are sent as they are and judged by the demonstration itself.
pub use crate::abi::*;
pub use crate::case::Case;
pub use crate::gen::*;
pub use crate::mig::*;
pub use crate::mocks::*;
pub use crate::refmodel::*;
pub use crate::sim::*;
pub use crate::tape::Tape;
pub use crate::world::*;
pub use anchor_lang::prelude::Pubkey;

pub fn case() -> Case {
    Case::new(Tape::replay(vec![]), "DEMO")
}
pub fn usual_quote() -> QuoteMint {
    QuoteMint { key: named("quote-spl", 0), spl: true, plain: true }
}
/// parameters of a usual pool: one segment, 1 percent fee
pub fn usual() -> Params {
    plain()
}
/// send transactions; the result tells success or the error
pub fn send(s: &mut Sim, ixs: &[Ix]) -> Result<Outcome, String> {
    let o = s.w.tx(ixs);
    if o.ok { Ok(o) } else { Err(o.err) }
}
pub fn go(s: &mut Sim, b: &Built) -> Result<Outcome, String> {
    send(s, std::slice::from_ref(&b.ix))
}
/// a world with the configuration created (no pool yet)
pub fn configured_with(p: Params, q: QuoteMint, id: u64) -> Sim {
    crate::world::install();
    let c = derive(&p, &q, partner_key(), leftover_key()).expect("a valid configuration");
    let mut s = Sim::new(base_world(), id, p, c, q);
    let b = s.create_config();
    go(&mut s, &b).expect("create_config");
    s
}
pub fn configured(p: Params) -> Sim {
    configured_with(p, usual_quote(), 0)
}
pub fn opened(p: Params) -> Sim {
    let mut s = configured(p);
    s.open_base();
    let b = s.init_pool(s.first_creator);
    go(&mut s, &b).expect("initialize_virtual_pool");
    s
}
pub fn op(who: usize, mode: Mode, buy: bool, amount: u64) -> SwapOp {
    let mut o = SwapOp::new(who, mode, buy, amount);
    o.limit = if matches!(mode, Mode::ExactOut) { u64::MAX } else { 0 };
    o
}
pub fn do_op(s: &mut Sim, o: &SwapOp) -> Result<Outcome, String> {
    let (ix, _) = s.swap_ix(o);
    send(s, &[ix])
}
pub fn swap(s: &mut Sim, who: usize, mode: Mode, buy: bool, amount: u64) -> Result<Outcome, String> {
    do_op(s, &op(who, mode, buy, amount))
}
/// quote and base of a trader
pub fn money(s: &Sim, who: usize) -> (u64, u64) {
    let t = s.traders[who];
    (s.w.bal(&s.qa(&t)), s.w.bal(&s.ba(&t)))
}
/// trader 0 buys until the curve is complete
pub fn buy_out(s: &mut Sim) {
    for _ in 0..12 {
        if s.complete() {
            return;
        }
        let n = money(s, 0).0 / 2;
        swap(s, 0, Mode::Partial, true, n).expect("buy out");
    }
    panic!("not complete");
}
