use common::*;
// only an operator appointed by an admin moves protocol fees
fn scenario(s: &mut S) {
    let p = s.make_pool(&params(1), q6(), "a");
    let op = s.operator(3);
    s.ok("buy", vec![p.swap_in(key("t0"), true, 5_000_000_000, 0)]);
    // the same record, in a program of the attacker and about the attacker
    let mut a = (*s.db[&op]).clone();
    a.owner = key("program of the attacker");
    a.data[8..40].copy_from_slice(key("atk").as_ref());
    let own = key("record of the attacker");
    s.db.insert(own, std::rc::Rc::new(a));
    s.refused("a zap by the attacker", vec![zap(&p.pr, false, p.qt("atk"), own, key("atk"), u64::MAX)]);
    s.ok("a zap by the operator", vec![zap(&p.pr, false, p.qt("o0"), op, key("o0"), u64::MAX)]);
}
fn main() { demo(scenario) }
