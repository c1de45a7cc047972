use common::*;
// a fixed supply covers the curve with its buffer, the migration and the vesting
fn scenario(s: &mut S) {
    let mut c = params(1);
    let probe = s.make_config(&c, q6(), "probe");
    let k = config(&s.db, &probe).unwrap();
    c.v_amount = k.swap_base_amount / 100;
    c.v_freq = 5;
    c.v_periods = 10;
    let vest = c.v_amount * 10;
    // by bisection: the smallest supply create_config takes
    let post = k.swap_base_amount + k.base_threshold + vest;
    let (mut bad, mut good) = (post, post * 2);
    let mut n = 0;
    let mut takes = |s: &mut S, pre: u64, vest: bool| {
        let mut x = c.clone();
        if !vest { (x.v_amount, x.v_freq, x.v_periods) = (0, 0, 0) }
        let po = if vest { post } else { k.swap_base_amount + k.base_threshold };
        x.supply = Some((pre, po.min(pre)));
        n += 1;
        s.run(vec![create_config(key(&format!("cfg{}", n)), key("p0"), key("rcv0"), q6().mint, key("p0"), &x)]).ok()
    };
    assert!(takes(s, good, true));
    let lowest = |s: &mut S, mut bad: u64, mut good: u64, v: bool, takes: &mut dyn FnMut(&mut S, u64, bool) -> bool| {
        while good - bad > 1 {
            let mid = bad + (good - bad) / 2;
            if takes(s, mid, v) { good = mid } else { bad = mid }
        }
        good
    };
    let with = lowest(s, post - 1, good, true, &mut takes);
    let without = lowest(s, post - vest - 1, good, false, &mut takes);
    bad = without; good = with; let _ = (bad, good);
    assert!(with >= without + vest, "least supply with vesting {}, without {}, vesting {}", with, without, vest);
}
fn main() { demo(scenario) }
