use common::*;
// what is vested and what is locked for ever keep their proportion when the second position shrinks
fn scenario(_s: &mut S) {
    use dynamic_bonding_curve::state::{LiquidityDistributionItem, LiquidityVestingInfo};
    let mut d = LiquidityDistributionItem { unlocked_liquidity: 0, vested_liquidity: 500, permanent_locked_liquidity: 500, permanent_locked_liquidity_percentage: 20, liquidity_vesting_info: LiquidityVestingInfo { is_initialized: 1, vesting_percentage: 20, ..Default::default() } };
    d.adjust_liquidity(900).unwrap();
    assert!(d.vested_liquidity == 450 && d.permanent_locked_liquidity == 450, "{:?}", (d.unlocked_liquidity, d.vested_liquidity, d.permanent_locked_liquidity));
}
fn main() { demo(scenario) }
