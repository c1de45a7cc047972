use common::*;
// with a fixed supply, what remains after migration is the configured amount
fn scenario(s: &mut S) {
    for vest in [false, true] {
        let mut c = params(1);
        if vest {
            c.v_amount = 1 << 40;
            c.v_freq = 5;
            c.v_periods = 10;
        }
        c.supply = Some((1 << 53, 1 << 52));
        let p = s.make_pool(&c, q6(), if vest { "a" } else { "b" });
        assert!(s.supply(&p) == 1 << 53);
        s.fill(&p);
        if vest {
            s.lock(&p);
        }
        s.migrate2(&p);
        assert!(s.supply(&p) == 1 << 52, "supply {} instead of {}", s.supply(&p), 1u64 << 52);
    }
}
fn main() { demo(scenario) }
