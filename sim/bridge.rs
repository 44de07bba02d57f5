// Included into the crate under test (as the body of `sim_hook`) when it is built
// with --cfg verif_sim. It is the workload interpreter: it turns a plain-data
// description of a call into real calls on the crate's own API and reports what a
// user of that API can observe. It holds no oracle and makes no choices.

use crate::ast::op::operand::{AstOperand, Variable};
use crate::ast::tree::{AstNode, Expression as Expr};
use crate::compute::derivative::Derivative;
use crate::compute::limit::limit_expression::LimitExpression;
use crate::compute::num_aggregate::NumAggregate;
use crate::compute::substitute::Substitute;
use crate::compute::taylor_expansion::partial_expansion::{PartialExpansion, TaylorExpansion};
use crate::math_op::{
    cos::{cos, Cos},
    exp::{exp, Exp},
    ln::{ln, Ln},
    pow::Pow,
    sin::{sin, Sin},
};
use crate::smart_num::rational::{RationalNum, ToRational};
use crate::smart_num::val_holder::IsClose;
use crate::smart_num::{SmartNum, ToSmartNum};
use std::fmt::{Debug, Display, Write as FmtWrite};

pub type Expression = crate::ast::tree::Expression;

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    /// integer of one of the convertible kinds: 0 i64, 1 i32, 2 u32, 3 i16, 4 u16, 5 i8, 6 u8, 7 u64 (bits)
    Int(u8, i64),
    /// integer that differs in every round
    RoundInt(i64),
    /// bits of an f64
    F64(u64),
    /// bits of an f32
    F32(u32),
    Rat(i64, u64, u64),
    /// 0 pi, 1 e, 2 zero, 3 one
    Const(u8),
    /// '#' stands for the round number
    Var(String),
    /// 0 neg 1 sin 2 cos 3 exp 4 ln
    Un(u8, Box<Spec>),
    /// 0 add 1 sub 2 mul 3 div 4 pow
    Bin(u8, Box<Spec>, Box<Spec>),
    /// the n-th lent value
    Lent(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum LSpec {
    Small,
    Inf,
    Fluct,
    Normal(Spec),
    /// 0 add 1 sub 2 mul 3 div
    Op(u8, Box<LSpec>, Box<LSpec>),
    Neg(Box<LSpec>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum NSpec {
    Leaf(Spec),
    /// 0 add 1 sub 2 mul 3 div
    Op(u8, Box<NSpec>, Box<NSpec>),
    Neg(Box<NSpec>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Deriv(String),
    Subst(String, Spec),
    Agg,
    /// put below a unary operator
    Un(u8),
    /// combine with another expression on the right
    Bin(u8, Spec),
    /// replace by a clone and drop the original
    Clone,
    /// replace by one child, if there is one
    Child(u8),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Expr(Spec),
    Taylor(Spec, Spec, Spec, u64),
    Lim(LSpec),
    Num(NSpec),
    Rat(i64, u64, u64),
    Variable(String),
    Operand(Spec),
    Operator(Spec),
    /// the error a failed derivative / substitution / expansion / conversion returns
    DerivErr(Spec, Spec),
    SubstErr(Spec, Spec),
    TaylorErr(Spec, Spec),
    NumErr(Spec),
    OperandErr(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Make(Spec),
    Deriv(Spec, Spec, u8),
    Subst(Spec, Spec, Spec, u8),
    Agg(Spec),
    Taylor(Spec, Spec, Spec, u64, u8),
    Limit(Spec, Spec, Spec, u64, u8),
    LimOp(LSpec),
    NumOp(NSpec),
    RatOp(NSpec, NSpec),
    Near(Spec, Spec, u64),
    Conv(Spec),
    Clones(Spec, u8),
    Chain(Spec, Vec<Step>),
    /// value, format (see `print`), and whether to an io::Write (true) or fmt::Write
    Print(Val, u8, bool),
}

/// What the simulator provides to a call.
pub trait Env {
    fn out(&mut self, s: &str);
    fn fmt_sink(&mut self) -> &mut dyn std::fmt::Write;
    fn io_sink(&mut self) -> &mut dyn std::io::Write;
    /// a print ended: did it report success?
    fn printed(&mut self, ok: bool);
}

struct W<'a>(&'a mut dyn Env);
impl<'a> std::fmt::Write for W<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.out(s);
        Ok(())
    }
}

macro_rules! say { ($e:expr, $($a:tt)*) => { { let _ = write!(W($e), $($a)*); } } }

fn name_of(n: &str, round: u32) -> String {
    if n.contains('#') {
        n.replace('#', &format!("{:07}", round))
    } else {
        n.to_string()
    }
}

pub struct Cx<'a> {
    pub lent: &'a [Expression],
    pub round: u32,
}

enum Arg<'a> {
    Own(Expr),
    Ref(&'a Expr),
}

impl<'a> Arg<'a> {
    fn get(&self) -> &Expr {
        match self {
            Arg::Own(e) => e,
            Arg::Ref(e) => e,
        }
    }
    fn own(self) -> Expr {
        match self {
            Arg::Own(e) => e,
            Arg::Ref(e) => e.clone(),
        }
    }
}

fn arg<'a>(s: &Spec, cx: &Cx<'a>) -> Arg<'a> {
    match s {
        Spec::Lent(i) => Arg::Ref(&cx.lent[*i % cx.lent.len()]),
        _ => Arg::Own(build(s, cx)),
    }
}

pub fn build(s: &Spec, cx: &Cx) -> Expression {
    match s {
        Spec::Int(k, v) => match k {
            1 => Expr::from(*v as i32),
            2 => Expr::from(*v as u32),
            3 => Expr::from(*v as i16),
            4 => Expr::from(*v as u16),
            5 => Expr::from(*v as i8),
            6 => Expr::from(*v as u8),
            7 => Expr::from(*v as u64),
            _ => Expr::from(*v),
        },
        Spec::RoundInt(v) => Expr::from(*v + cx.round as i64),
        Spec::F64(b) => Expr::from(f64::from_bits(*b)),
        Spec::F32(b) => Expr::from(f32::from_bits(*b)),
        Spec::Rat(s, n, d) => match SmartNum::new_rational(*s, *n, *d) {
            Some(v) => Expr::from(AstOperand::Num(v)),
            None => Expr::new_variable("none"),
        },
        Spec::Const(c) => match c {
            0 => const_expr(SmartNum::pi(), Expr::pi),
            1 => const_expr(SmartNum::e(), Expr::e),
            2 => Expr::zero(),
            _ => Expr::one(),
        },
        Spec::Var(n) => {
            let n = name_of(n, cx.round);
            if n.len() % 2 == 0 {
                Expr::new_variable(&n)
            } else {
                Expr::from(Variable::new_variable(&n))
            }
        }
        Spec::Un(op, a) => match (op, arg(a, cx)) {
            (1, Arg::Ref(r)) => r.sin(),
            (2, Arg::Ref(r)) => r.cos(),
            (_, a) => un(*op, a.own()),
        },
        Spec::Bin(op, a, b) => {
            let l = build(a, cx);
            let r = build(b, cx);
            bin(*op, l, r)
        }
        Spec::Lent(i) => cx.lent[*i % cx.lent.len()].clone(),
    }
}

fn const_expr(v: SmartNum, f: fn() -> Expr) -> Expr {
    // two ways to get the same constant
    if v.sign() > 0 {
        f()
    } else {
        Expr::from(AstOperand::Num(v))
    }
}

fn un(op: u8, e: Expr) -> Expr {
    match op {
        0 => -e,
        1 => sin(e),
        2 => cos(e),
        3 => exp(e),
        4 => ln(e),
        5 => e.exp(),
        _ => e.ln(),
    }
}

fn bin(op: u8, l: Expr, r: Expr) -> Expr {
    match op {
        0 => l + r,
        1 => l - r,
        2 => l * r,
        3 => l / r,
        _ => l.pow(r),
    }
}

fn leaf_num(s: &Spec, cx: &Cx) -> SmartNum {
    match s {
        Spec::Int(k, v) => match k {
            1 => SmartNum::from(*v as i32),
            2 => SmartNum::from(*v as u32),
            3 => SmartNum::from(*v as i16),
            4 => SmartNum::from(*v as u16),
            5 => SmartNum::from(*v as i8),
            6 => SmartNum::from(*v as u8),
            7 => SmartNum::from(*v as u64),
            _ => SmartNum::from(*v),
        },
        Spec::RoundInt(v) => SmartNum::from(*v + cx.round as i64),
        Spec::F64(b) => SmartNum::from(f64::from_bits(*b)),
        Spec::F32(b) => SmartNum::from(f32::from_bits(*b)),
        Spec::Rat(s, n, d) => SmartNum::new_rational(*s, *n, *d).unwrap_or(SmartNum::zero()),
        Spec::Const(0) => SmartNum::pi(),
        Spec::Const(1) => SmartNum::e(),
        Spec::Const(2) => SmartNum::zero(),
        Spec::Const(_) => SmartNum::one(),
        _ => SmartNum::one(),
    }
}

fn num(s: &NSpec, cx: &Cx) -> SmartNum {
    match s {
        NSpec::Leaf(l) => leaf_num(l, cx),
        NSpec::Neg(a) => -num(a, cx),
        NSpec::Op(op, a, b) => {
            let l = num(a, cx);
            let r = num(b, cx);
            match op {
                0 => l + r,
                1 => l - r,
                2 => l * r,
                _ => l / r,
            }
        }
    }
}

fn rat(s: &NSpec, cx: &Cx) -> RationalNum {
    match s {
        NSpec::Leaf(Spec::Rat(s, n, d)) => {
            let v = if *s == 1 {
                RationalNum::new_positive(*n, *d)
            } else if *s == -1 {
                RationalNum::new_negative(*n, *d)
            } else {
                RationalNum::new(*s, *n, *d)
            };
            v.unwrap_or(RationalNum::from(3_u64))
        }
        NSpec::Leaf(Spec::Int(7, v)) => RationalNum::from(*v as u64),
        NSpec::Leaf(Spec::Int(_, v)) => RationalNum::from(*v),
        NSpec::Leaf(Spec::RoundInt(v)) => RationalNum::from(*v + cx.round as i64),
        NSpec::Leaf(_) => RationalNum::from(1_i64),
        NSpec::Neg(a) => -rat(a, cx),
        NSpec::Op(op, a, b) => {
            let l = rat(a, cx);
            let r = rat(b, cx);
            match op {
                0 => l + r,
                1 => l - r,
                2 => l * r,
                _ => l / r,
            }
        }
    }
}

fn lim(s: &LSpec, cx: &Cx) -> Option<LimitExpression> {
    Some(match s {
        LSpec::Small => LimitExpression::Infinitesimal,
        LSpec::Inf => LimitExpression::Infinity,
        LSpec::Fluct => LimitExpression::BoundedFluctuation,
        LSpec::Normal(e) => LimitExpression::Normal(build(e, cx)),
        LSpec::Neg(a) => -lim(a, cx)?,
        LSpec::Op(op, a, b) => {
            let l = lim(a, cx)?;
            let r = lim(b, cx)?;
            match op {
                0 => (l + r).ok()?,
                1 => (l - r).ok()?,
                2 => (l * r).ok()?,
                _ => (l / r).ok()?,
            }
        }
    })
}

// ---- observation: what a user can read off a value -------------------------------

fn see_f64(v: f64, env: &mut dyn Env) {
    if v.is_nan() {
        env.out("nan");
    } else {
        say!(env, "{:016x}", v.to_bits());
    }
}

fn see_num(v: &SmartNum, env: &mut dyn Env) {
    say!(env, "#[{:?} ", v.to_i64());
    see_f64(v.to_f64(), env);
    match v.to_rational() {
        Some(r) => say!(env, " {}:{}/{}", r.sign, r.nominator, r.denominator),
        None => env.out(" real"),
    }
    say!(
        env,
        " {}{}{}{} {}]",
        v.is_zero() as u8,
        v.is_one() as u8,
        v.is_pi() as u8,
        v.is_e() as u8,
        v
    );
}

fn see_tree(e: &Expr, env: &mut dyn Env) {
    match &e.root {
        AstNode::Operand(AstOperand::Num(v)) => see_num(v, env),
        AstNode::Operand(AstOperand::Variable(v)) => say!(env, "<{}>", v.name),
        AstNode::Operator(op) => {
            say!(env, "({}.{}.{:?}", op.symbol, op.priority, op.descriptor);
            for c in &e.child {
                env.out(" ");
                see_tree(c, env);
            }
            env.out(")");
        }
    }
}

pub fn see(e: &Expression, env: &mut dyn Env) {
    see_tree(e, env);
    say!(env, " = {}", e);
}

fn see_taylor(p: &PartialExpansion, env: &mut dyn Env) {
    say!(env, "T order={} of=", p.order);
    see(&p.of, env);
    env.out(" at=");
    see(&p.at, env);
    for c in p.coefficient.iter() {
        env.out(" ; ");
        see(c, env);
    }
    env.out(" residual=");
    see(&p.residual, env);
    say!(env, " text={}", p);
}

fn see_lim(l: &LimitExpression, env: &mut dyn Env) {
    match l {
        LimitExpression::Infinitesimal => env.out("small"),
        LimitExpression::Infinity => env.out("inf"),
        LimitExpression::BoundedFluctuation => env.out("fluct"),
        LimitExpression::Normal(e) => see(e, env),
    }
    say!(env, " = {}", l);
}

// ---- calls ------------------------------------------------------------------------

fn variable_of(e: &Expr) -> Option<&Variable> {
    let v: Option<&Variable> = e.into();
    v
}

fn taylor(
    e: &Spec,
    of: &Spec,
    at: &Spec,
    n: u64,
    form: u8,
    cx: &Cx,
) -> Result<PartialExpansion, String> {
    let ex = arg(e, cx).own();
    let of = arg(of, cx);
    let at = arg(at, cx);
    if form == 0 {
        if let Some(v) = variable_of(of.get()) {
            return ex
                .taylor_expansion(v, at.get(), n)
                .map_err(|e| e.to_string());
        }
    }
    ex.taylor_expansion(of.own(), at.own(), n)
        .map_err(|e| e.to_string())
}

fn deriv(e: Expr, to: Arg, form: u8) -> Result<Expr, String> {
    match form {
        0 => match variable_of(to.get()) {
            Some(v) => e.derivative(v).map_err(|e| e.to_string()),
            None => e.derivative(to.get()).map_err(|e| e.to_string()),
        },
        1 => e.derivative(to.get()).map_err(|e| e.to_string()),
        _ => e.derivative(to.own()).map_err(|e| e.to_string()),
    }
}

fn subst(e: Expr, u: Arg, v: Arg, form: u8) -> Result<Expr, String> {
    match form {
        0 => match variable_of(u.get()) {
            Some(x) => e.substitute(x, v.get()).map_err(|e| e.to_string()),
            None => e.substitute(u.get(), v.get()).map_err(|e| e.to_string()),
        },
        1 => e.substitute(u.get(), v.get()).map_err(|e| e.to_string()),
        _ => e.substitute(u.own(), v.own()).map_err(|e| e.to_string()),
    }
}

fn see_result(r: Result<Expr, String>, env: &mut dyn Env) {
    match r {
        Ok(e) => {
            env.out("ok ");
            see(&e, env)
        }
        Err(s) => say!(env, "err {}", s),
    }
}

pub fn chain_start(s: &Spec, cx: &Cx) -> Expression {
    build(s, cx)
}

pub fn chain_step(e: Expression, s: &Step, cx: &Cx) -> Result<Expression, String> {
    Ok(match s {
        Step::Deriv(n) => {
            let v = Variable::new_variable(&name_of(n, cx.round));
            e.derivative(&v).map_err(|e| e.to_string())?
        }
        Step::Subst(n, by) => {
            let v = Variable::new_variable(&name_of(n, cx.round));
            let by = arg(by, cx);
            e.substitute(&v, by.get()).map_err(|e| e.to_string())?
        }
        Step::Agg => e.num_aggregate(),
        Step::Un(op) => un(*op, e),
        Step::Bin(op, r) => bin(*op, e, build(r, cx)),
        Step::Clone => {
            let c = e.clone();
            drop(e);
            c
        }
        Step::Child(i) => {
            let mut e = e;
            if e.child.is_empty() {
                e
            } else {
                let i = *i as usize % e.child.len();
                e.child.swap_remove(i)
            }
        }
    })
}

pub fn chain_end(r: Result<Expression, String>, env: &mut dyn Env) {
    see_result(r, env)
}

fn print<T: Display + Debug>(v: &T, fmt: u8, io: bool, env: &mut dyn Env) {
    let ok = if io {
        let w = env.io_sink();
        match fmt {
            1 => write!(w, "{:?}", v),
            2 => write!(w, "{:#?}", v),
            3 => write!(w, "{:>24}", v),
            4 => write!(w, "{:<30.2}", v),
            5 => write!(w, "[{}|{}]", v, v),
            6 => writeln!(w, "{}", v),
            _ => write!(w, "{}", v),
        }
        .is_ok()
    } else {
        let w = env.fmt_sink();
        match fmt {
            1 => write!(w, "{:?}", v),
            2 => write!(w, "{:#?}", v),
            3 => write!(w, "{:>24}", v),
            4 => write!(w, "{:<30.2}", v),
            5 => write!(w, "[{}|{}]", v, v),
            6 => writeln!(w, "{}", v),
            _ => write!(w, "{}", v),
        }
        .is_ok()
    };
    env.printed(ok);
}

fn print_display<T: Display>(v: &T, fmt: u8, io: bool, env: &mut dyn Env) {
    struct D<'a, T>(&'a T);
    impl<'a, T: Display> Display for D<'a, T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<'a, T: Display> Debug for D<'a, T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    print(&D(v), fmt, io, env)
}

fn print_val(v: &Val, fmt: u8, io: bool, cx: &Cx, env: &mut dyn Env) {
    match v {
        Val::Expr(s) => print(arg(s, cx).get(), fmt, io, env),
        Val::Taylor(e, of, at, n) => match taylor(e, of, at, *n, 1, cx) {
            Ok(p) => print(&p, fmt, io, env),
            Err(_) => env.out("no value"),
        },
        Val::Lim(l) => match lim(l, cx) {
            Some(l) => print(&l, fmt, io, env),
            None => env.out("no value"),
        },
        Val::Num(n) => print(&num(n, cx), fmt, io, env),
        Val::Rat(s, n, d) => match RationalNum::new(*s, *n, *d) {
            Some(r) => print(&r, fmt, io, env),
            None => env.out("no value"),
        },
        Val::Variable(n) => print(&Variable::new_variable(&name_of(n, cx.round)), fmt, io, env),
        Val::Operand(s) => match arg(s, cx).own().root {
            AstNode::Operand(o) => print(&o, fmt, io, env),
            AstNode::Operator(o) => print(&o, fmt, io, env),
        },
        Val::Operator(s) => match &arg(s, cx).get().root {
            AstNode::Operand(o) => print(o, fmt, io, env),
            AstNode::Operator(o) => print(o, fmt, io, env),
        },
        Val::DerivErr(e, to) => match build(e, cx).derivative(build(to, cx)) {
            Ok(_) => env.out("no value"),
            Err(x) => print(&x, fmt, io, env),
        },
        Val::SubstErr(e, to) => match build(e, cx).substitute(build(to, cx), build(e, cx)) {
            Ok(_) => env.out("no value"),
            Err(x) => print(&x, fmt, io, env),
        },
        Val::TaylorErr(e, of) => match build(e, cx).taylor_expansion(build(of, cx), Expr::zero(), 1)
        {
            Ok(_) => env.out("no value"),
            Err(x) => print(&x, fmt, io, env),
        },
        Val::NumErr(e) => match build(e, cx).to_smart_num() {
            Ok(_) => env.out("no value"),
            Err(x) => {
                let source = std::error::Error::source(&x).map(|s| s.to_string());
                say!(env, "source {:?} ", source);
                print(&x, fmt, io, env)
            }
        },
        Val::OperandErr(n) => match AstOperand::new_variable(n).to_smart_num() {
            Ok(_) => env.out("no value"),
            Err(x) => print_display(x, fmt, io, env),
        },
    }
}

pub fn run(call: &Call, cx: &Cx, env: &mut dyn Env) {
    match call {
        Call::Make(s) => see(arg(s, cx).get(), env),
        Call::Deriv(e, to, form) => {
            let r = deriv(arg(e, cx).own(), arg(to, cx), *form);
            see_result(r, env)
        }
        Call::Subst(e, u, v, form) => {
            let r = subst(arg(e, cx).own(), arg(u, cx), arg(v, cx), *form);
            see_result(r, env)
        }
        Call::Agg(e) => see(&arg(e, cx).own().num_aggregate(), env),
        Call::Taylor(e, of, at, n, form) => match taylor(e, of, at, *n, *form, cx) {
            Ok(p) => {
                let q = p.clone();
                drop(p);
                see_taylor(&q, env)
            }
            Err(s) => say!(env, "err {}", s),
        },
        Call::Limit(e, of, to, n, form) => {
            let ex = arg(e, cx).own();
            let ofv = arg(of, cx);
            let to = arg(to, cx).own();
            let r = match (form, variable_of(ofv.get())) {
                (0, Some(v)) => crate::compute::limit::sim_hook::limit_of_variable(ex, v, to, *n),
                _ => crate::compute::limit::sim_hook::limit(ex, ofv.own(), to, *n),
            };
            match r {
                Ok(l) => {
                    env.out("ok ");
                    see_lim(&l, env)
                }
                Err(_) => env.out("no valid limit"),
            }
        }
        Call::LimOp(l) => match lim(l, cx) {
            Some(l) => see_lim(&l, env),
            None => env.out("no valid limit"),
        },
        Call::NumOp(n) => see_num(&num(n, cx), env),
        Call::RatOp(a, b) => {
            let a = rat(a, cx);
            let b = rat(b, cx);
            let r = a.reduce();
            say!(
                env,
                "{}:{}/{} {}:{}/{} eq={} ",
                a.sign,
                a.nominator,
                a.denominator,
                r.sign,
                r.nominator,
                r.denominator,
                a == b
            );
            see_f64(b.to_f64(), env);
            say!(env, " {} {}", a, b);
        }
        Call::Near(a, b, eps) => {
            let x = arg(a, cx);
            let y = arg(b, cx);
            match x.get().near(y.get(), f64::from_bits(*eps)) {
                Ok(v) => say!(env, "near {}", v),
                Err(e) => say!(env, "err {}", e),
            }
            if let (Ok(p), Ok(q)) = (x.get().to_smart_num(), y.get().to_smart_num()) {
                say!(
                    env,
                    " close {} {}",
                    p.is_close(q, f64::from_bits(*eps)),
                    (*p).is_close(*q, f64::from_bits(*eps))
                );
            }
        }
        Call::Conv(s) => {
            let a = arg(s, cx);
            let e = a.get();
            say!(
                env,
                "{}{}{} {}{}{}{} ",
                e.is_operator() as u8,
                e.is_operand() as u8,
                e.is_num() as u8,
                e.is_zero() as u8,
                e.is_one() as u8,
                e.is_pi() as u8,
                e.is_e() as u8
            );
            match e.to_smart_num() {
                Ok(v) => see_num(v, env),
                Err(x) => say!(env, "err {}", x),
            }
            match e.to_rational() {
                Some(r) => say!(env, " {}:{}/{}", r.sign, r.nominator, r.denominator),
                None => env.out(" none"),
            }
            match variable_of(e) {
                Some(v) => say!(env, " var {}", v),
                None => env.out(" novar"),
            }
            if let AstNode::Operand(o) = &e.root {
                say!(
                    env,
                    " {}{}{}{}{} {}",
                    o.is_num() as u8,
                    o.is_zero() as u8,
                    o.is_one() as u8,
                    o.is_pi() as u8,
                    o.is_e() as u8,
                    o
                );
            }
            let owned = a.own();
            match owned.clone().to_rational() {
                Some(r) => say!(env, " {}", r),
                None => env.out(" none"),
            }
            match owned.clone().to_smart_num() {
                Ok(v) => see_num(&v, env),
                Err(x) => say!(env, "err {:?}", x),
            }
            let v: Option<Variable> = owned.into();
            say!(env, " {:?}", v.map(|v| v.name));
        }
        Call::Clones(s, n) => {
            // clones, their originals, and mutations of one of them
            let a = arg(s, cx);
            let mut v: Vec<Expr> = Vec::new();
            for _ in 0..=(*n % 5) {
                v.push(a.get().clone());
            }
            if let Some(last) = v.last_mut() {
                last.child.push(Expr::from(*n as i64));
                last.root = AstNode::from(*n as i64);
            }
            if *n % 2 == 0 {
                v.swap_remove(0);
            }
            see(a.get(), env);
            drop(a);
            for e in v.iter().rev().skip(1) {
                env.out(" ; ");
                see(e, env);
            }
        }
        Call::Chain(s, steps) => {
            let mut e = Ok(chain_start(s, cx));
            for st in steps {
                e = match e {
                    Ok(x) => chain_step(x, st, cx),
                    Err(x) => Err(x),
                };
            }
            chain_end(e, env)
        }
        Call::Print(v, fmt, io) => print_val(v, *fmt, *io, cx, env),
    }
}
