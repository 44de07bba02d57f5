//! Replay files: runs as s-expressions.
use crate::arena::MemCfg;
use crate::exec::{Epoch, Item, Job, Relay, Run, SinkCfg};
use crate::sched::{Decision, Oom, SchedCfg};
use crate::sys::EnvCfg;
use symbolic_rust::sim_hook::{Call, LSpec, NSpec, Spec, Step, Val};

pub enum T {
    A(String),
    S(String),
    L(Vec<T>),
}

pub trait Codec: Sized {
    fn put(&self, o: &mut String);
    fn get(t: &T) -> Option<Self>;
}

pub fn parse(s: &str) -> Option<T> {
    let b: Vec<char> = s.chars().collect();
    let mut stack: Vec<Vec<T>> = vec![vec![]];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            '(' => stack.push(vec![]),
            ')' => {
                let l = stack.pop()?;
                stack.last_mut()?.push(T::L(l));
            }
            '"' => {
                let mut r = String::new();
                i += 1;
                while b[i] != '"' {
                    if b[i] == '\\' {
                        i += 1;
                        let mut h = String::new();
                        while b[i] != ';' {
                            h.push(b[i]);
                            i += 1;
                        }
                        r.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    } else {
                        r.push(b[i]);
                    }
                    i += 1;
                }
                stack.last_mut()?.push(T::S(r));
            }
            c if c.is_whitespace() => {}
            ';' => {
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
            }
            _ => {
                let mut r = String::new();
                while i < b.len() && !b[i].is_whitespace() && b[i] != '(' && b[i] != ')' {
                    r.push(b[i]);
                    i += 1;
                }
                stack.last_mut()?.push(T::A(r));
                continue;
            }
        }
        i += 1;
    }
    let mut l = stack.pop()?;
    if !stack.is_empty() || l.len() != 1 {
        return None;
    }
    l.pop()
}

macro_rules! ints { ($($t:ty)*) => { $(
    impl Codec for $t {
        fn put(&self, o: &mut String) { o.push_str(&self.to_string()); }
        fn get(t: &T) -> Option<Self> { match t { T::A(a) => a.parse().ok(), _ => None } }
    }
)* } }
ints!(u8 u32 u64 i32 i64 usize bool);

impl Codec for String {
    fn put(&self, o: &mut String) {
        o.push('"');
        for c in self.chars() {
            if c == '"' || c == '\\' || c.is_control() {
                o.push_str(&format!("\\{:x};", c as u32));
            } else {
                o.push(c);
            }
        }
        o.push('"');
    }
    fn get(t: &T) -> Option<Self> {
        match t {
            T::S(a) => Some(a.clone()),
            _ => None,
        }
    }
}

impl<X: Codec> Codec for Vec<X> {
    fn put(&self, o: &mut String) {
        o.push('(');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                o.push(' ');
            }
            x.put(o);
        }
        o.push(')');
    }
    fn get(t: &T) -> Option<Self> {
        match t {
            T::L(l) => l.iter().map(X::get).collect(),
            _ => None,
        }
    }
}

impl<X: Codec> Codec for Box<X> {
    fn put(&self, o: &mut String) {
        (**self).put(o)
    }
    fn get(t: &T) -> Option<Self> {
        X::get(t).map(Box::new)
    }
}

macro_rules! variants {
    ($ty:ident { $($v:ident ( $($i:tt $f:ident),* );)* }) => {
        impl Codec for $ty {
            #[allow(unused_variables)]
            fn put(&self, o: &mut String) {
                match self { $(
                    $ty::$v { $($i: $f),* } => {
                        o.push('(');
                        o.push_str(stringify!($v));
                        $( o.push(' '); $f.put(o); )*
                        o.push(')');
                    }
                )* }
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn get(t: &T) -> Option<Self> {
                let l = match t { T::L(l) => l, _ => return None };
                let name = match l.first()? { T::A(a) => a.as_str(), _ => return None };
                match name { $(
                    stringify!($v) => {
                        let mut k = 1;
                        Some($ty::$v { $($i: { let x = Codec::get(l.get(k)?)?; k += 1; x }),* })
                    }
                )*
                    _ => None,
                }
            }
        }
    }
}

macro_rules! fields {
    ($ty:ident { $($f:ident),* } $($skip:ident = $d:expr),*) => {
        impl Codec for $ty {
            fn put(&self, o: &mut String) {
                o.push_str("(");
                $( o.push_str(concat!("(", stringify!($f), " ")); self.$f.put(o); o.push_str(") "); )*
                o.push_str(")");
            }
            fn get(t: &T) -> Option<Self> {
                let l = match t { T::L(l) => l, _ => return None };
                let find = |n: &str| -> Option<&T> {
                    for x in l {
                        if let T::L(p) = x {
                            if let Some(T::A(a)) = p.first() { if a == n { return p.get(1); } }
                        }
                    }
                    None
                };
                Some($ty { $($f: Codec::get(find(stringify!($f))?)?,)* $($skip: $d,)* })
            }
        }
    }
}

variants!(Spec {
    Int(0 a, 1 b); RoundInt(0 a); F64(0 a); F32(0 a); Rat(0 a, 1 b, 2 c); Const(0 a); Var(0 a);
    Un(0 a, 1 b); Bin(0 a, 1 b, 2 c); Lent(0 a);
});
variants!(LSpec { Small(); Inf(); Fluct(); Normal(0 a); Op(0 a, 1 b, 2 c); Neg(0 a); });
variants!(NSpec { Leaf(0 a); Op(0 a, 1 b, 2 c); Neg(0 a); });
variants!(Step { Deriv(0 a); Subst(0 a, 1 b); Agg(); Un(0 a); Bin(0 a, 1 b); Clone(); Child(0 a); });
variants!(Val {
    Expr(0 a); Taylor(0 a, 1 b, 2 c, 3 d); Lim(0 a); Num(0 a); Rat(0 a, 1 b, 2 c); Variable(0 a);
    Operand(0 a); Operator(0 a); DerivErr(0 a, 1 b); SubstErr(0 a, 1 b); TaylorErr(0 a, 1 b);
    NumErr(0 a); OperandErr(0 a);
});
variants!(Call {
    Make(0 a); Deriv(0 a, 1 b, 2 c); Subst(0 a, 1 b, 2 c, 3 d); Agg(0 a); Taylor(0 a, 1 b, 2 c, 3 d, 4 e);
    Limit(0 a, 1 b, 2 c, 3 d, 4 e); LimOp(0 a); NumOp(0 a); RatOp(0 a, 1 b); Near(0 a, 1 b, 2 c);
    Conv(0 a); Clones(0 a, 1 b); Chain(0 a, 1 b); Print(0 a, 1 b, 2 c);
});
variants!(Item { Call(0 a); Stage(0 a, 1 b, 2 c); });
fields!(Oom { at, len, min });
fields!(Decision { epoch, thread, n, target });
fields!(SinkCfg { fail_at, count, mode, partial, eintr, short, reenter });
fields!(Job { call, sink, oom, retry, die, once, nested, undo } bid = usize::MAX);
fields!(Relay { call, cuts } bid = usize::MAX);
fields!(Epoch { rounds, threads });
fields!(MemCfg { reuse, garbage, moving, shared, seed, gaps, spread });
fields!(EnvCfg { seed, start, clock, stdio, files, cpus, pid, vars, stack_pad, args, named, ids });
fields!(SchedCfg { replay, decisions, seed, preempts, hot, warm, stalls, hot_stall, quantum });
fields!(Run { prop, origin, lent, relays, epochs, env, mem, sched, effects, abort, leak } lent_bid = vec![]);

pub fn text<X: Codec>(x: &X) -> String {
    let mut s = String::new();
    x.put(&mut s);
    s
}

/// Line breaks between the larger parts, for the reader of a replay file.
pub fn pretty(s: &str) -> String {
    let mut o = String::new();
    let mut depth = 0;
    let mut quoted = false;
    for c in s.chars() {
        if c == '"' {
            quoted = !quoted;
        }
        if !quoted && c == '(' {
            if depth > 0 && depth <= 6 && !o.ends_with('(') {
                o.push('\n');
                for _ in 0..depth {
                    o.push(' ');
                }
            }
            depth += 1;
        }
        if !quoted && c == ')' {
            depth -= 1;
        }
        o.push(c);
    }
    o.push('\n');
    o
}
