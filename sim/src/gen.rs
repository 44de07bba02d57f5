//! Workloads: which values and calls a run works on. Everything is drawn from the
//! seeded generator. Calls come in families whose members differ in one small place,
//! because state that is wrongly shared between calls shows between look-alikes.
use crate::rng::Rng;
use crate::sys;
use std::collections::BTreeSet;
use symbolic_rust::sim_hook::{Call, LSpec, NSpec, Spec, Step, Val};

pub struct Pool {
    names: Vec<String>,
    nums: Vec<Spec>,
    lent: usize,
    /// calls may carry the round number
    rounds: bool,
}

const SIMPLE: [&str; 10] = ["x", "y", "z", "a", "t", "u", "k", "n", "alpha", "x1"];
const ODD: [&str; 34] = [
    "pi", "e", "1", "0", "sinx", "sin(x)", "ln", "-x", "x^2", "x+1", "", " ", "\u{3c0}", "x'",
    "ab", "ba", "Aa", "BB", "X", "x ", "none", "None", "exp", "NaN", "inf", "\u{1f980}",
    "x\u{301}", "x*y", "(x)", "{}", "{0}", "%s", "x\ny", "\"x\"",
];

fn long_name(rng: &mut Rng, last: u8) -> String {
    let mut n = *rng.pick(&[7usize, 8, 15, 16, 22, 23, 24, 31, 32, 63, 64, 100, 255, 300]);
    match rng.below(4) {
        0 => n = rng.range(1, 300) as usize,
        1 | 2 => {
            if let Some(k) = known(rng, 3000, 3) {
                n = k as usize;
            }
        }
        _ => {}
    }
    let mut s = "v".repeat(n);
    s.push((b'a' + last) as char);
    s
}

/// Now and then a number at or next to one that the crate's sources mention.
pub fn known(rng: &mut Rng, most: u64, of4: u64) -> Option<u64> {
    let fit: Vec<u64> = sys::numbers().iter().copied().filter(|k| *k <= most).collect();
    if fit.is_empty() || !rng.chance(of4, 4) {
        return None;
    }
    Some(*rng.pick(&fit) - 1 + rng.below(3))
}

fn num(rng: &mut Rng) -> Spec {
    if rng.chance(1, 8) {
        if let Some(k) = known(rng, 1 << 40, 1) {
            return match rng.below(4) {
                0 => Spec::Int(0, -(k as i64)),
                1 => Spec::Rat(1, k, 1 + rng.below(9)),
                _ => Spec::Int(0, k as i64),
            };
        }
    }
    match rng.below(24) {
        0..=8 => Spec::Int(rng.below(7) as u8, rng.range(0, 16) as i64 - 4).fit(),
        9 | 10 => Spec::Int(0, *rng.pick(&[100, 255, 256, 1000, -1000, 65536, i32::MAX as i64, 99999])),
        11 => Spec::Int(0, *rng.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1, 1 << 53, (1 << 53) + 1])),
        12 => Spec::Int(7, *rng.pick(&[-1, 5, 0, i64::MIN, i64::MAX])),
        13..=15 => {
            let f: f64 = *rng.pick(&[
                0.5, 1.5, 0.1, 0.12345, 0.12349, 2.0, 1.0, 0.0, -0.0, -2.5, 3.14159, 3.1415926535,
                std::f64::consts::PI, std::f64::consts::E, 1e-9, 1e300, 1e-300, 1.0000001, 123456.789,
                0.333, 0.3333, 0.33333333, 7.0, -1.0,
            ]);
            Spec::F64(f.to_bits())
        }
        16 => Spec::F64(
            rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE])
                .to_bits(),
        ),
        17 => Spec::F32(rng.pick(&[0.5f32, 0.1, 3.1415927, 1e30, -1.25]).to_bits()),
        18..=20 => {
            let s = *rng.pick(&[1i64, -1, 1, -1, 1]);
            let (n, d) = *rng.pick(&[
                (1u64, 2u64), (1, 3), (2, 3), (2, 4), (10, 4), (22, 7), (355, 113), (0, 5), (7, 1), (6, 3),
                (u64::MAX, 2), (1, u64::MAX), (1 << 40, 3), (999983, 1000003), (5, 10),
            ]);
            Spec::Rat(s, n, d)
        }
        21 => Spec::Rat(*rng.pick(&[0, 2, 1, -1]), rng.below(5), rng.below(3)),
        _ => Spec::Const(rng.below(4) as u8),
    }
}

trait Fit {
    fn fit(self) -> Self;
}
impl Fit for Spec {
    fn fit(self) -> Spec {
        // no negative value for an unsigned kind
        match self {
            Spec::Int(k, v) if matches!(k, 2 | 4 | 6) && v < 0 => Spec::Int(k, -v),
            s => s,
        }
    }
}

impl Pool {
    pub fn new(rng: &mut Rng, rounds: bool) -> Pool {
        let mut names: Vec<String> = vec![];
        for _ in 0..rng.range(1, 3) {
            names.push(rng.pick(&SIMPLE).to_string());
        }
        if rng.chance(1, 2) {
            names.push(rng.pick(&ODD).to_string());
        }
        if rng.chance(1, 2) {
            let mut r2 = rng.fork(9);
            let mut r3 = r2.clone();
            names.push(long_name(&mut r2, 0));
            names.push(long_name(&mut r3, 1));
        }
        if rng.chance(1, 4) {
            names.push("ab".into());
            names.push("ba".into());
        }
        if rng.chance(1, 6) {
            names.push("Aa".into());
            names.push("BB".into());
        }
        if rounds {
            names.push("r#".into());
            if rng.chance(1, 3) {
                names.push("quite_a_long_variable_name_#".into());
            }
        }
        let nums = (0..rng.range(3, 7)).map(|_| num(rng)).collect();
        Pool {
            names,
            nums,
            lent: 0,
            rounds,
        }
    }
    pub fn name(&self, rng: &mut Rng) -> String {
        rng.pick(&self.names).clone()
    }
    fn var(&self, rng: &mut Rng) -> Spec {
        Spec::Var(self.name(rng))
    }
    fn num(&self, rng: &mut Rng) -> Spec {
        if self.rounds && rng.chance(1, 12) {
            return Spec::RoundInt(rng.below(3) as i64 * 100);
        }
        if rng.chance(3, 4) {
            rng.pick(&self.nums).clone()
        } else {
            num(rng)
        }
    }
    fn leaf(&self, rng: &mut Rng) -> Spec {
        let k = rng.below(20);
        if k < 10 {
            self.var(rng)
        } else if k < 12 && self.lent > 0 {
            Spec::Lent(rng.below(self.lent as u64) as usize)
        } else if k < 14 {
            Spec::Const(rng.below(4) as u8)
        } else {
            self.num(rng)
        }
    }

    pub fn expr(&self, rng: &mut Rng, size: u64) -> Spec {
        if size <= 1 {
            return self.leaf(rng);
        }
        if rng.chance(1, 3) {
            let op = rng.below(7) as u8;
            Spec::Un(op, Box::new(self.expr(rng, size - 1)))
        } else {
            let op = *rng.pick(&[0u8, 0, 1, 1, 2, 2, 2, 3, 4, 4]);
            let l = rng.range(1, size - 1);
            let a = self.expr(rng, l);
            let b = if op == 4 && rng.chance(2, 3) {
                Spec::Int(0, rng.range(0, 5) as i64 - 1)
            } else {
                self.expr(rng, size - l)
            };
            Spec::Bin(op, Box::new(a), Box::new(b))
        }
    }

    fn some_expr(&self, rng: &mut Rng) -> Spec {
        let size = match rng.below(20) {
            0..=3 => 1,
            4..=8 => rng.range(2, 4),
            9..=16 => rng.range(3, 9),
            _ => rng.range(8, 26),
        };
        if rng.chance(1, 40) {
            // deep and narrow
            let mut e = self.leaf(rng);
            let op = *rng.pick(&[0u8, 1, 2, 3, 4]);
            let bin = rng.chance(1, 2);
            for _ in 0..rng.range(20, 200) {
                e = if bin {
                    Spec::Bin(*rng.pick(&[0u8, 1, 2]), Box::new(e), Box::new(self.var(rng)))
                } else {
                    Spec::Un(op, Box::new(e))
                };
            }
            return e;
        }
        self.expr(rng, size)
    }

    /// An expression of numbers only.
    fn constant(&self, rng: &mut Rng, size: u64) -> Spec {
        if size <= 1 {
            return if rng.chance(1, 4) { Spec::Const(rng.below(4) as u8) } else { self.num(rng) };
        }
        if rng.chance(1, 4) {
            Spec::Un(rng.below(5) as u8, Box::new(self.constant(rng, size - 1)))
        } else {
            let l = rng.range(1, size - 1);
            Spec::Bin(
                rng.below(5) as u8,
                Box::new(self.constant(rng, l)),
                Box::new(self.constant(rng, size - l)),
            )
        }
    }

    /// Something sensible to differentiate by: mostly a variable.
    fn by(&self, rng: &mut Rng) -> Spec {
        if rng.chance(1, 12) {
            self.some_expr(rng)
        } else {
            self.var(rng)
        }
    }

    /// Order of an expansion: mostly small, sometimes large where the terms stay few.
    fn order(&self, rng: &mut Rng, e: &mut Spec) -> u64 {
        if rng.chance(1, 6) {
            let v = self.var(rng);
            *e = match rng.below(6) {
                0 => v,
                1 => self.leaf(rng),
                2 => Spec::Bin(2, Box::new(self.num(rng)), Box::new(Spec::Un(*rng.pick(&[1u8, 2, 3]), Box::new(v)))),
                3 => Spec::Bin(rng.below(2) as u8, Box::new(Spec::Un(*rng.pick(&[1u8, 2, 3]), Box::new(v))), Box::new(self.leaf(rng))),
                _ => Spec::Un(*rng.pick(&[0u8, 1, 2, 3]), Box::new(v)),
            };
            known(rng, 40, 1).unwrap_or(rng.range(5, 34))
        } else {
            rng.below(5)
        }
    }

    /// The place of an expansion or a limit: mostly a number, sometimes something larger or
    /// a value lent by the caller.
    fn place(&self, rng: &mut Rng) -> Spec {
        if self.lent > 0 && rng.chance(1, 6) {
            return Spec::Lent(rng.below(self.lent as u64) as usize);
        }
        match rng.below(6) {
            0 => self.expr(rng, 2),
            1 => self.constant(rng, 2),
            2 => self.constant(rng, 3),
            _ => self.constant(rng, 1),
        }
    }

    /// Zero, mostly as such.
    fn zero(&self, rng: &mut Rng) -> Spec {
        let n = self.num(rng);
        match rng.below(8) {
            0 => Spec::Bin(1, Box::new(n.clone()), Box::new(n)),
            1 => Spec::Bin(2, Box::new(Spec::Const(2)), Box::new(n)),
            2 => self.place(rng),
            _ => Spec::Const(2),
        }
    }

    fn smooth(&self, rng: &mut Rng) -> Spec {
        // expansions of small expressions that do not explode
        let size = rng.range(1, 5);
        self.expr(rng, size)
    }

    fn lim(&self, rng: &mut Rng, size: u64) -> LSpec {
        if size <= 1 {
            return match rng.below(6) {
                0 => LSpec::Small,
                1 => LSpec::Inf,
                2 => LSpec::Fluct,
                3 => LSpec::Normal(self.constant(rng, 1)),
                _ => {
                    let s = rng.range(1, 3);
                    LSpec::Normal(self.expr(rng, s))
                }
            };
        }
        if rng.chance(1, 4) {
            LSpec::Neg(Box::new(self.lim(rng, size - 1)))
        } else {
            let l = rng.range(1, size - 1);
            LSpec::Op(
                rng.below(4) as u8,
                Box::new(self.lim(rng, l)),
                Box::new(self.lim(rng, size - l)),
            )
        }
    }

    fn nspec(&self, rng: &mut Rng, size: u64) -> NSpec {
        if size <= 1 {
            return NSpec::Leaf(match rng.below(5) {
                0 => Spec::Const(rng.below(4) as u8),
                _ => self.num(rng),
            });
        }
        if rng.chance(1, 5) {
            NSpec::Neg(Box::new(self.nspec(rng, size - 1)))
        } else {
            let l = rng.range(1, size - 1);
            NSpec::Op(
                rng.below(4) as u8,
                Box::new(self.nspec(rng, l)),
                Box::new(self.nspec(rng, size - l)),
            )
        }
    }

    fn rspec(&self, rng: &mut Rng, size: u64) -> NSpec {
        if size <= 1 {
            return NSpec::Leaf(match rng.below(4) {
                0 => Spec::Int(0, rng.range(0, 20) as i64 - 6),
                1 => Spec::Int(7, rng.below(9) as i64),
                _ => Spec::Rat(*rng.pick(&[1i64, -1]), rng.below(30), rng.range(1, 12)),
            });
        }
        let l = rng.range(1, size - 1);
        NSpec::Op(
            rng.below(4) as u8,
            Box::new(self.rspec(rng, l)),
            Box::new(self.rspec(rng, size - l)),
        )
    }

    pub fn step(&self, rng: &mut Rng) -> Step {
        match rng.below(16) {
            0..=3 => Step::Deriv(self.name(rng)),
            4..=6 => {
                let s = rng.range(1, 3);
                Step::Subst(self.name(rng), self.expr(rng, s))
            }
            7..=9 => Step::Agg,
            10 | 11 => Step::Un(rng.below(7) as u8),
            12 | 13 => {
                let s = rng.range(1, 3);
                Step::Bin(rng.below(5) as u8, self.expr(rng, s))
            }
            14 => Step::Clone,
            _ => Step::Child(rng.below(3) as u8),
        }
    }

    pub fn chain(&self, rng: &mut Rng) -> Call {
        let s = rng.range(1, 7);
        let e = self.expr(rng, s);
        let n = rng.range(2, 6);
        Call::Chain(e, (0..n).map(|_| self.step(rng)).collect())
    }

    fn val(&self, rng: &mut Rng) -> Val {
        match rng.below(24) {
            0..=7 => Val::Expr(self.some_expr(rng)),
            8..=11 => {
                let mut e = self.smooth(rng);
                let of = self.by(rng);
                let at = self.place(rng);
                let n = self.order(rng, &mut e);
                Val::Taylor(e, of, at, n)
            }
            12 | 13 => {
                let s = rng.range(1, 3);
                Val::Lim(self.lim(rng, s))
            }
            14 | 15 => {
                let s = rng.range(1, 3);
                Val::Num(self.nspec(rng, s))
            }
            16 => Val::Rat(*rng.pick(&[1i64, -1]), rng.below(40), rng.range(1, 9)),
            17 => Val::Variable(self.name(rng)),
            18 => Val::Operand(self.leaf(rng)),
            19 => Val::Operator(self.expr(rng, 3)),
            20 => {
                let s = rng.range(1, 4);
                Val::DerivErr(self.expr(rng, s), if rng.chance(1, 2) { self.num(rng) } else { self.expr(rng, 3) })
            }
            21 => {
                let s = rng.range(1, 4);
                Val::SubstErr(self.expr(rng, s), if rng.chance(1, 2) { self.num(rng) } else { self.expr(rng, 3) })
            }
            22 => Val::TaylorErr(self.expr(rng, 3), if rng.chance(1, 2) { self.num(rng) } else { self.expr(rng, 3) }),
            _ => {
                if rng.chance(1, 2) {
                    Val::NumErr(self.expr(rng, 3))
                } else {
                    Val::OperandErr(self.name(rng))
                }
            }
        }
    }

    pub fn print(&self, rng: &mut Rng) -> Call {
        let fmt = *rng.pick(&[0u8, 0, 0, 0, 1, 2, 3, 4, 5, 6]);
        Call::Print(self.val(rng), fmt, rng.chance(1, 2))
    }

    /// kind: which operation, or any
    pub fn call(&self, rng: &mut Rng, kind: Option<u64>) -> Call {
        let k = kind.unwrap_or_else(|| {
            *rng.pick(&[0u64, 1, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 11, 11, 12, 12, 13, 13, 13, 13])
        });
        match k {
            0 => Call::Make(self.some_expr(rng)),
            1 => Call::Deriv(self.some_expr(rng), self.by(rng), rng.below(3) as u8),
            2 => {
                let s = rng.range(1, 4);
                let to = if rng.chance(1, 4) { self.place(rng) } else { self.expr(rng, s) };
                Call::Subst(self.some_expr(rng), self.by(rng), to, rng.below(3) as u8)
            }
            3 => {
                let e = if rng.chance(1, 2) {
                    let s = rng.range(2, 8);
                    self.constant(rng, s)
                } else {
                    self.some_expr(rng)
                };
                Call::Agg(e)
            }
            4 => {
                let mut e = self.smooth(rng);
                let of = self.by(rng);
                let at = self.place(rng);
                let n = self.order(rng, &mut e);
                Call::Taylor(e, of, at, n, rng.below(2) as u8)
            }
            5 => {
                let e = if rng.chance(1, 2) {
                    // what the limit rules know about
                    let v = self.var(rng);
                    if rng.chance(1, 3) {
                        // as many differentiations as it takes, or one too few
                        let side = |rng: &mut Rng, n: u64| {
                            let mut e = None;
                            for _ in 0..n {
                                let f = if rng.chance(1, 2) { v.clone() } else { Spec::Un(1, Box::new(v.clone())) };
                                e = Some(match e {
                                    None => f,
                                    Some(e) => Spec::Bin(2, Box::new(e), Box::new(f)),
                                });
                            }
                            e.unwrap()
                        };
                        let (a, b) = (rng.range(1, 3), rng.range(1, 3));
                        let e = Spec::Bin(3, Box::new(side(rng, a)), Box::new(side(rng, b)));
                        let n = (a.min(b) + rng.below(3)).saturating_sub(1);
                        return Call::Limit(e, v, self.zero(rng), n, rng.below(2) as u8);
                    }
                    let mut e = v.clone();
                    let under = |d: &Spec| Spec::Bin(3, Box::new(Spec::Int(0, 1)), Box::new(d.clone()));
                    for _ in 0..rng.range(1, 4) {
                        // the last ones make infinities, on either side of the others
                        e = match rng.below(9) {
                            6 => under(&e),
                            7 => Spec::Bin(rng.below(4) as u8, Box::new(e), Box::new(under(&v))),
                            8 => Spec::Bin(rng.below(4) as u8, Box::new(under(&v)), Box::new(e)),
                            0 => Spec::Un(1, Box::new(e)),
                            1 => Spec::Un(2, Box::new(e)),
                            2 => Spec::Bin(2, Box::new(e), Box::new(v.clone())),
                            3 => Spec::Bin(3, Box::new(e), Box::new(v.clone())),
                            4 => Spec::Bin(0, Box::new(self.num(rng)), Box::new(e)),
                            _ => Spec::Bin(1, Box::new(e), Box::new(Spec::Un(1, Box::new(v.clone())))),
                        };
                    }
                    return Call::Limit(e, v, self.zero(rng), rng.below(4), rng.below(2) as u8);
                } else {
                    self.smooth(rng)
                };
                let of = self.by(rng);
                let mut e = e;
                let n = self.order(rng, &mut e).min(14);
                Call::Limit(e, of, self.place(rng), n, rng.below(2) as u8)
            }
            6 => {
                let s = rng.range(1, 4);
                Call::LimOp(self.lim(rng, s))
            }
            7 => {
                let s = rng.range(1, 5);
                Call::NumOp(self.nspec(rng, s))
            }
            8 => {
                let s = rng.range(1, 4);
                let t = rng.range(1, 4);
                Call::RatOp(self.rspec(rng, s), self.rspec(rng, t))
            }
            9 => {
                let s = rng.range(1, 4) / 3 + 1;
                let eps: f64 = *rng.pick(&[1e-6, 0.0, 1.0, 1e-12, 0.5]);
                let a = self.constant(rng, s);
                let b = match rng.below(3) {
                    0 => a.clone(),
                    1 => match &a {
                        Spec::Int(_, v) => Spec::F64((*v as f64 + 1e-7).to_bits()),
                        Spec::Const(0) => Spec::F64(3.1415926f64.to_bits()),
                        _ => a.clone(),
                    },
                    _ => self.constant(rng, 1),
                };
                Call::Near(a, b, eps.to_bits())
            }
            10 => Call::Conv(if rng.chance(2, 3) { self.leaf(rng) } else { self.expr(rng, 3) }),
            11 => Call::Clones(self.some_expr(rng), rng.below(8) as u8),
            12 => self.chain(rng),
            _ => self.print(rng),
        }
    }

    /// A look-alike: the same call with one small difference.
    pub fn sibling(&self, rng: &mut Rng, call: &Call) -> Call {
        let mut c = call.clone();
        if rng.chance(1, 5) {
            match &mut c {
                Call::Taylor(_, _, _, n, _) | Call::Limit(_, _, _, n, _) => {
                    *n = if *n > 4 || rng.chance(1, 12) { *n + rng.below(3) } else { rng.below(5) };
                    return c;
                }
                Call::Print(_, f, io) => {
                    if rng.chance(1, 2) {
                        *f = rng.below(7) as u8;
                    } else {
                        *io = !*io;
                    }
                    return c;
                }
                Call::Near(_, _, eps) => {
                    *eps = rng.pick(&[1e-6f64, 0.0, 1.0, 1e-12, 0.5]).to_bits();
                    return c;
                }
                Call::Deriv(_, _, f) | Call::Subst(_, _, _, f) => {
                    *f = rng.below(3) as u8;
                    return c;
                }
                _ => {}
            }
        }
        let mut nodes: Vec<*mut Spec> = vec![];
        specs(&mut c, &mut |s| nodes.push(s));
        if nodes.is_empty() {
            return self.call(rng, None);
        }
        if rng.chance(1, 4) {
            // something else that prints the same
            for _ in 0..4 {
                let s = unsafe { &mut **rng.pick(&nodes) };
                if let Some(d) = disguise(rng, s) {
                    *s = d;
                    return c;
                }
            }
        }
        let leaves: Vec<*mut Spec> = nodes
            .iter()
            .copied()
            .filter(|p| unsafe { !matches!(**p, Spec::Un(..) | Spec::Bin(..)) })
            .collect();
        let p = if !leaves.is_empty() && rng.chance(3, 4) { *rng.pick(&leaves) } else { *rng.pick(&nodes) };
        let s = unsafe { &mut *p };
        *s = match s.clone() {
            Spec::Var(n) => {
                if rng.chance(1, 3) && !n.is_empty() && !n.contains('#') {
                    // differ in the last or first character only
                    let mut v: Vec<char> = n.chars().collect();
                    let i = if rng.chance(1, 2) { v.len() - 1 } else { 0 };
                    v[i] = if v[i] == 'q' { 'w' } else { 'q' };
                    Spec::Var(v.into_iter().collect())
                } else {
                    Spec::Var(self.name(rng))
                }
            }
            Spec::Int(k, v) => match rng.below(4) {
                0 => Spec::F64((v as f64).to_bits()),
                1 => Spec::Int(0, -v.max(-i64::MAX)),
                _ => Spec::Int(if matches!(k, 0 | 1) { k } else { 0 }, v.wrapping_add(1)),
            },
            Spec::F64(b) => {
                let f = f64::from_bits(b);
                Spec::F64((f + *rng.pick(&[0.00001, 0.0001, 1.0, 1e-12])).to_bits())
            }
            Spec::Rat(s, n, d) => match rng.below(3) {
                0 => Spec::Rat(-s, n, d),
                1 => Spec::Rat(s, n.wrapping_mul(2), d.wrapping_mul(2)),
                _ => Spec::Rat(s, n, d.wrapping_add(1)),
            },
            // the same value without its name
            Spec::Const(0) if rng.chance(1, 2) => Spec::F64(std::f64::consts::PI.to_bits()),
            Spec::Const(1) if rng.chance(1, 2) => Spec::F64(std::f64::consts::E.to_bits()),
            Spec::Const(k) => Spec::Const((k + 1) % 4),
            Spec::Un(op, a) => Spec::Un((op + 1 + rng.below(3) as u8) % 5, a),
            Spec::Bin(op, a, b) => {
                if rng.chance(1, 2) {
                    Spec::Bin(op, b, a)
                } else {
                    Spec::Bin((op + 1 + rng.below(3) as u8) % 5, a, b)
                }
            }
            Spec::Lent(_) if self.lent > 0 => Spec::Lent(rng.below(self.lent as u64) as usize),
            s => s,
        };
        c
    }

    /// One of many tiny calls on a narrow grid of values: state looked up under a
    /// shortened key (a checksum, a rounded text, a length) collides here.
    fn tiny(&self, rng: &mut Rng, style: u64, m: u64) -> Call {
        let sign = |rng: &mut Rng| *rng.pick(&[1i64, 1, 1, -1]);
        match style {
            0 | 1 => {
                let g = |rng: &mut Rng, top: u64| rng.below(top.max(2));
                let s = sign(rng);
                let top = if rng.chance(1, 2) { 12 } else { m };
                let n = g(rng, top);
                let d = 1 + g(rng, m);
                match rng.below(6) {
                    0 | 1 | 2 => Call::NumOp(NSpec::Op(
                        rng.below(4) as u8,
                        Box::new(NSpec::Leaf(Spec::Rat(s, n, 1))),
                        Box::new(NSpec::Leaf(Spec::Rat(1, 1, d))),
                    )),
                    3 => Call::RatOp(NSpec::Leaf(Spec::Rat(s, n, d)), NSpec::Leaf(Spec::Int(0, 1))),
                    4 => Call::Agg(Spec::Bin(
                        rng.below(5) as u8,
                        Box::new(Spec::Int(0, n as i64)),
                        Box::new(Spec::Int(0, d as i64)),
                    )),
                    _ => Call::Print(Val::Rat(s, n, d), 0, rng.chance(1, 2)),
                }
            }
            2 => {
                let step: f64 = [0.125, 0.001, 0.0001, 0.00001][(m % 4) as usize];
                let f = |rng: &mut Rng| Spec::F64((rng.range(0, 60) as f64 * step - 10.0 * step).to_bits());
                let (a, b) = (f(rng), f(rng));
                match rng.below(3) {
                    0 => Call::Print(Val::Num(NSpec::Leaf(a)), 0, rng.chance(1, 2)),
                    1 => Call::NumOp(NSpec::Op(rng.below(4) as u8, Box::new(NSpec::Leaf(a)), Box::new(NSpec::Leaf(b)))),
                    _ => Call::Agg(Spec::Bin(rng.below(4) as u8, Box::new(a), Box::new(b))),
                }
            }
            _ => {
                let leaf = |rng: &mut Rng, p: &Pool| if rng.chance(1, 2) { Spec::Var(p.name(rng)) } else { Spec::Int(0, rng.below(4) as i64) };
                let tree = |rng: &mut Rng, p: &Pool| match rng.below(5) {
                    0 => leaf(rng, p),
                    1 | 2 => Spec::Un(rng.below(5) as u8, Box::new(leaf(rng, p))),
                    _ => Spec::Bin(rng.below(5) as u8, Box::new(leaf(rng, p)), Box::new(leaf(rng, p))),
                };
                let e = tree(rng, self);
                let v = Spec::Var(self.name(rng));
                match rng.below(7) {
                    0 | 1 => Call::Deriv(e, v, rng.below(3) as u8),
                    2 => {
                        let w = tree(rng, self);
                        Call::Subst(e, v, w, rng.below(3) as u8)
                    }
                    3 => Call::Agg(e),
                    4 => Call::Taylor(e, v, Spec::Int(0, rng.below(3) as i64), rng.below(3), rng.below(2) as u8),
                    5 => Call::Limit(e, v, Spec::Int(0, rng.below(3) as i64), rng.below(3), rng.below(2) as u8),
                    _ => Call::Print(Val::Expr(e), 0, rng.chance(1, 2)),
                }
            }
        }
    }

    /// Lent values and a set of calls: random ones, and the next few of the small cases.
    pub fn batch(rng: &mut Rng, rounds: bool, prints: bool, count: usize, small: &[Call], b: u64) -> (Pool, Vec<Spec>, Vec<Call>) {
        let mut p = Pool::new(rng, rounds);
        let lent: Vec<Spec> = (0..rng.range(1, 4))
            .map(|_| {
                let n = rng.range(1, 8);
                let e = p.expr(rng, n);
                plain(e)
            })
            .collect();
        p.lent = lent.len();
        let mut calls = vec![];
        if !prints && rng.chance(1, 6) {
            let style = rng.below(5);
            let m = *rng.pick(&[8u64, 17, 40, 70, 100]);
            let calls = (0..count * 3).map(|_| p.tiny(rng, style, m)).collect();
            return (p, lent, calls);
        }
        for i in 0..lent.len() {
            if rng.chance(1, 2) {
                calls.push(Call::Make(Spec::Lent(i)));
            }
        }
        for k in 0..SMALL_PER_BATCH {
            // neighbours in the list are look-alikes; steps through it reach every case
            let at = (b * SMALL_PER_BATCH + k) as usize;
            if !small.is_empty() {
                calls.push(small[at % small.len()].clone());
            }
        }
        let count = count + SMALL_PER_BATCH as usize;
        while calls.len() < count {
            let c = if prints && rng.chance(4, 5) { p.print(rng) } else { p.call(rng, None) };
            calls.push(c.clone());
            let mut last = c;
            for _ in 0..*rng.pick(&[0u64, 0, 1, 2, 3]) {
                last = p.sibling(rng, &last);
                calls.push(last.clone());
            }
        }
        (p, lent, calls)
    }
}

const SMALL_PER_BATCH: u64 = 12;

/// Every small case of every operation: each operator, rule and kind of number meets each
/// other at least once. In groups of four neighbours, the groups in an order of their own.
pub fn small_cases(prints: bool, seed: u64) -> Vec<Call> {
    let b = |s: &Spec| Box::new(s.clone());
    let un = |o: u8, a: &Spec| Spec::Un(o, b(a));
    let bin = |o: u8, l: &Spec, r: &Spec| Spec::Bin(o, b(l), b(r));
    let x = Spec::Var("x".into());
    let y = Spec::Var("y".into());
    let int = |v: i64| Spec::Int(0, v);
    let kinds = [
        int(3), int(0), int(-2), int(1), Spec::Rat(1, 1, 2), Spec::Rat(-1, 2, 3), Spec::F64(0.5f64.to_bits()),
        Spec::F64(2.0f64.to_bits()), Spec::Const(0), Spec::Const(1), Spec::Const(2), Spec::Const(3),
        Spec::Rat(1, u64::MAX, 2), int(i64::MAX),
    ];
    let mut list: Vec<Call> = vec![];
    // one and two levels of expression, to print
    let mut inner = vec![x.clone(), int(-2)];
    for o in 0..7 {
        inner.push(un(o, &x));
    }
    for o in 0..5 {
        inner.push(bin(o, &x, &y));
    }
    let mut shapes = vec![];
    for o in 0..7 {
        for i in &inner {
            shapes.push(un(o, i));
        }
    }
    for o in 0..5 {
        for l in &inner {
            for r in &inner {
                shapes.push(bin(o, l, r));
            }
        }
    }
    for (i, e) in shapes.iter().enumerate() {
        list.push(Call::Print(Val::Expr(e.clone()), 0, i % 2 == 0));
    }
    let lims = [
        LSpec::Small, LSpec::Inf, LSpec::Fluct, LSpec::Normal(x.clone()), LSpec::Normal(int(2)), LSpec::Normal(int(0)),
    ];
    let mut lops = vec![];
    for l in &lims {
        lops.push(l.clone());
        lops.push(LSpec::Neg(Box::new(l.clone())));
    }
    for o in 0..4 {
        for l in &lims {
            for r in &lims {
                lops.push(LSpec::Op(o, Box::new(l.clone()), Box::new(r.clone())));
            }
        }
    }
    let mut nops = vec![];
    for l in &kinds {
        nops.push(NSpec::Neg(Box::new(NSpec::Leaf(l.clone()))));
    }
    for o in 0..4 {
        for l in &kinds {
            for r in &kinds {
                nops.push(NSpec::Op(o, Box::new(NSpec::Leaf(l.clone())), Box::new(NSpec::Leaf(r.clone()))));
            }
        }
    }
    if prints {
        for f in 0..7 {
            for e in inner.iter().chain(&kinds) {
                list.push(Call::Print(Val::Expr(e.clone()), f, true));
                list.push(Call::Print(Val::Operand(e.clone()), f, false));
                list.push(Call::Print(Val::Operator(e.clone()), f, true));
                list.push(Call::Print(Val::NumErr(e.clone()), f, false));
                list.push(Call::Print(Val::DerivErr(e.clone(), int(2)), f, true));
                list.push(Call::Print(Val::SubstErr(x.clone(), e.clone()), f, false));
                list.push(Call::Print(Val::TaylorErr(e.clone(), e.clone()), f, true));
            }
            for e in &inner {
                for n in 0..4 {
                    list.push(Call::Print(Val::Taylor(e.clone(), x.clone(), int(n as i64 % 2), n), f, n % 2 == 0));
                }
            }
        }
        for (i, l) in lops.iter().enumerate() {
            list.push(Call::Print(Val::Lim(l.clone()), 0, i % 2 == 0));
        }
        for (i, n) in nops.iter().enumerate() {
            list.push(Call::Print(Val::Num(n.clone()), 0, i % 2 == 0));
        }
    } else {
        list.extend(lops.into_iter().map(Call::LimOp));
        list.extend(nops.into_iter().map(Call::NumOp));
        let rats = [(1i64, 0u64, 1u64), (1, 1, 1), (1, 2, 1), (1, 1, 2), (-1, 1, 2), (1, 2, 4), (-1, 3, 1)];
        for l in rats {
            for r in rats {
                list.push(Call::RatOp(NSpec::Leaf(Spec::Rat(l.0, l.1, l.2)), NSpec::Leaf(Spec::Rat(r.0, r.1, r.2))));
            }
        }
        for k in &kinds {
            list.push(Call::Conv(k.clone()));
            for to in [int(2), Spec::F64(2.0000005f64.to_bits()), Spec::Const(3), k.clone()] {
                for eps in [0f64, 1e-6, 1.0] {
                    list.push(Call::Near(k.clone(), to.clone(), eps.to_bits()));
                }
            }
        }
        for k in 1..8 {
            list.push(Call::Conv(Spec::Int(k, 5)));
        }
        for o in 0..7 {
            for k in &kinds {
                list.push(Call::Agg(un(o, k)));
                list.push(Call::Agg(un(o, &bin(o % 5, &x, k))));
            }
        }
        for o in 0..5 {
            for l in &kinds {
                for r in &kinds {
                    list.push(Call::Agg(bin(o, l, r)));
                }
                list.push(Call::Agg(bin(o, &x, l)));
                list.push(Call::Agg(bin(o, l, &x)));
                list.push(Call::Agg(bin(o, &bin(o, &x, l), &bin(o, l, l))));
            }
        }
        let terms = [
            x.clone(), y.clone(), int(2), un(1, &x), un(2, &x), un(3, &x), un(4, &x), bin(4, &x, &int(2)),
        ];
        let mut f = 0;
        for e in inner.iter() {
            for o in 0..7 {
                list.push(Call::Deriv(un(o, e), x.clone(), f % 3));
                f += 1;
            }
        }
        for o in 0..5 {
            for l in &terms {
                for r in &terms {
                    list.push(Call::Deriv(bin(o, l, r), x.clone(), f % 3));
                    f += 1;
                }
            }
        }
        for e in &shapes[..] {
            if f % 3 == 0 {
                list.push(Call::Subst(e.clone(), x.clone(), bin(0, &y, &int(1)), f % 2));
            }
            f = f.wrapping_add(1) % 240;
        }
        for e in &inner {
            for to in [int(2), y.clone(), un(0, &x), Spec::Const(0)] {
                list.push(Call::Subst(e.clone(), x.clone(), to, f % 3));
                f = f.wrapping_add(1) % 240;
            }
            for k in 0..8 {
                list.push(Call::Clones(e.clone(), k));
            }
            list.push(Call::Make(e.clone()));
        }
        let few = [x.clone(), int(2), un(1, &x), un(2, &x), un(3, &x)];
        for at in [int(0), int(1)] {
            for n in 0..4u64 {
                for e in &inner {
                    list.push(Call::Taylor(e.clone(), x.clone(), at.clone(), n, (n % 2) as u8));
                }
            }
            for o in 0..5 {
                for l in &few {
                    for r in &few {
                        list.push(Call::Taylor(bin(o, l, r), x.clone(), at.clone(), 1 + (o as u64) % 2, o % 2));
                    }
                }
            }
            let lt = [x.clone(), int(2), un(1, &x), un(2, &x), bin(2, &x, &x), un(0, &x), un(0, &un(1, &x)), bin(3, &int(1), &x)];
            for o in 0..4 {
                for l in &lt {
                    for r in &lt {
                        for n in 0..3 {
                            if n < 2 || o == 3 {
                                list.push(Call::Limit(bin(o, l, r), x.clone(), at.clone(), n, (n % 2) as u8));
                            }
                        }
                    }
                }
            }
            for e in &inner {
                list.push(Call::Limit(e.clone(), x.clone(), at.clone(), 1, 0));
            }
        }
    }
    let mut groups: Vec<&[Call]> = list.chunks(4).collect();
    let mut rng = Rng::new(seed ^ 0x51a11);
    for i in (1..groups.len()).rev() {
        groups.swap(i, rng.below(i as u64 + 1) as usize);
    }
    groups.concat()
}

/// Lent values are the same in every round.
fn plain(s: Spec) -> Spec {
    match s {
        Spec::RoundInt(v) => Spec::Int(0, v),
        Spec::Var(n) => Spec::Var(n.replace('#', "_")),
        Spec::Lent(_) => Spec::Const(3),
        Spec::Un(o, a) => Spec::Un(o, Box::new(plain(*a))),
        Spec::Bin(o, a, b) => Spec::Bin(o, Box::new(plain(*a)), Box::new(plain(*b))),
        s => s,
    }
}

// ---- walking over the expressions of a call -----------------------------------------------

fn walk(s: &mut Spec, f: &mut dyn FnMut(&mut Spec)) {
    f(s);
    match s {
        Spec::Un(_, a) => walk(a, f),
        Spec::Bin(_, a, b) => {
            walk(a, f);
            walk(b, f);
        }
        _ => {}
    }
}

fn walk_n(s: &mut NSpec, f: &mut dyn FnMut(&mut Spec)) {
    match s {
        NSpec::Leaf(s) => walk(s, f),
        NSpec::Neg(a) => walk_n(a, f),
        NSpec::Op(_, a, b) => {
            walk_n(a, f);
            walk_n(b, f);
        }
    }
}

fn walk_l(s: &mut LSpec, f: &mut dyn FnMut(&mut Spec)) {
    match s {
        LSpec::Normal(s) => walk(s, f),
        LSpec::Neg(a) => walk_l(a, f),
        LSpec::Op(_, a, b) => {
            walk_l(a, f);
            walk_l(b, f);
        }
        _ => {}
    }
}

/// A different expression with the same text.
fn disguise(rng: &mut Rng, s: &Spec) -> Option<Spec> {
    let text = |s: &Spec| match s {
        Spec::Var(n) if !n.contains('#') => Some(n.clone()),
        Spec::Int(k, v) if *k != 7 => Some(v.to_string()),
        Spec::Const(k) => Some(["pi", "e", "0", "1"][*k as usize % 4].to_string()),
        _ => None,
    };
    let level = |o: u8| [2u8, 2, 3, 4, 4][o as usize % 5];
    match s {
        Spec::Int(_, v) if *v < 0 && *v > i64::MIN && rng.chance(1, 2) => {
            Some(Spec::Un(0, Box::new(Spec::Int(0, -*v))))
        }
        Spec::Const(k) if *k > 1 && rng.chance(1, 2) => Some(Spec::Int(0, *k as i64 - 2)),
        Spec::Int(..) | Spec::Const(_) => text(s).map(Spec::Var),
        Spec::Var(n) => n.parse().ok().map(|v| Spec::Int(0, v)),
        Spec::F64(b) => {
            let f = f64::from_bits(*b);
            Some(match rng.below(4) {
                0 => Spec::Var(format!("{:.3}", f)),
                _ => Spec::F64((f + *rng.pick(&[0.00001, -0.00002, 0.0001, 1e-9])).to_bits()),
            })
        }
        Spec::Rat(g, n, d) => Some(Spec::Var(format!("{}{}/{}", if *g == 1 { "" } else { "-" }, n, d))),
        Spec::Un(o, a) => {
            let name = ["-", "sin", "cos", "exp", "ln"][*o as usize % 5];
            text(a).map(|t| Spec::Var(format!("{}{}", name, t)))
        }
        Spec::Bin(o, a, r) => {
            if let Spec::Bin(o2, b, c) = &**r {
                if level(*o) == level(*o2) {
                    let left = Spec::Bin(*o, a.clone(), b.clone());
                    return Some(Spec::Bin(*o2, Box::new(left), c.clone()));
                }
            }
            if let Spec::Bin(o2, b, c) = &**a {
                if level(*o) == level(*o2) {
                    let right = Spec::Bin(*o, c.clone(), r.clone());
                    return Some(Spec::Bin(*o2, b.clone(), Box::new(right)));
                }
            }
            let sign = ["+", "-", "*", "/", "^"][*o as usize % 5];
            Some(Spec::Var(format!("{} {} {}", text(a)?, sign, text(r)?)))
        }
        _ => None,
    }
}

pub fn specs(c: &mut Call, f: &mut dyn FnMut(&mut Spec)) {
    match c {
        Call::Make(a) | Call::Agg(a) | Call::Conv(a) | Call::Clones(a, _) => walk(a, f),
        Call::Deriv(a, b, _) | Call::Near(a, b, _) => {
            walk(a, f);
            walk(b, f);
        }
        Call::Subst(a, b, c, _) | Call::Taylor(a, b, c, _, _) | Call::Limit(a, b, c, _, _) => {
            walk(a, f);
            walk(b, f);
            walk(c, f);
        }
        Call::LimOp(l) => walk_l(l, f),
        Call::NumOp(n) => walk_n(n, f),
        Call::RatOp(a, b) => {
            walk_n(a, f);
            walk_n(b, f);
        }
        Call::Chain(a, steps) => {
            walk(a, f);
            for s in steps {
                match s {
                    Step::Subst(_, e) | Step::Bin(_, e) => walk(e, f),
                    _ => {}
                }
            }
        }
        Call::Print(v, _, _) => match v {
            Val::Expr(a) | Val::Operand(a) | Val::Operator(a) | Val::NumErr(a) => walk(a, f),
            Val::Taylor(a, b, c, _) => {
                walk(a, f);
                walk(b, f);
                walk(c, f);
            }
            Val::Lim(l) => walk_l(l, f),
            Val::Num(n) => walk_n(n, f),
            Val::DerivErr(a, b) | Val::SubstErr(a, b) | Val::TaylorErr(a, b) => {
                walk(a, f);
                walk(b, f);
            }
            _ => {}
        },
    }
}

pub fn lents_of(c: &Call, o: &mut BTreeSet<usize>) {
    let mut c = c.clone();
    specs(&mut c, &mut |s| {
        if let Spec::Lent(i) = s {
            o.insert(*i);
        }
    });
}

pub fn round_dependent(c: &Call) -> bool {
    let mut d = false;
    let mut k = c.clone();
    specs(&mut k, &mut |s| match s {
        Spec::RoundInt(_) => d = true,
        Spec::Var(n) if n.contains('#') => d = true,
        _ => {}
    });
    match c {
        Call::Chain(_, st) => {
            for s in st {
                match s {
                    Step::Deriv(n) | Step::Subst(n, _) if n.contains('#') => d = true,
                    _ => {}
                }
            }
        }
        Call::Print(Val::Variable(n), _, _) | Call::Print(Val::OperandErr(n), _, _) => d |= n.contains('#'),
        _ => {}
    }
    d
}
