//! Executable form of the contracts of specs/R01..R04 run on the real `rbe` crate.
//! Reference: the language of an expression restricted to a box of 64 bags over {a,b,c}, one bit each:
//! counts <= 3 of three symbols, <= 7 of two symbols, or <= 63 of one.

use rbe::{Bag, RbeAlgorithm, Cardinality, Interval, Max, Min, Rbe, RbeStruct};
use std::collections::HashMap;
use vh::{Ctx, Rng};

type E = Rbe<char>;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
/// 0: 4x4x4, 1: 8x8x1, 2: 64x1x1
static SHAPE: AtomicUsize = AtomicUsize::new(0);
const SHAPES: [[usize; 3]; 3] = [[4, 4, 4], [8, 8, 1], [64, 1, 1]];
fn dims() -> [usize; 3] {
    SHAPES[SHAPE.load(Relaxed)]
}
/// symbols that have a dimension in the current box
fn pool() -> Vec<char> {
    SY[..3 - SHAPE.load(Relaxed)].to_vec()
}
const SY: [char; 3] = ['a', 'b', 'c'];

fn idx(c: [usize; 3]) -> usize {
    let d = dims();
    c[0] + d[0] * c[1] + d[0] * d[1] * c[2]
}
fn cnt(i: usize) -> [usize; 3] {
    let d = dims();
    [i % d[0], i / d[0] % d[1], i / (d[0] * d[1])]
}
fn conv(x: u64, y: u64) -> u64 {
    let mut r = 0u64;
    for i in 0..64 {
        if x >> i & 1 == 0 {
            continue;
        }
        let a = cnt(i);
        for j in 0..64 {
            if y >> j & 1 == 0 {
                continue;
            }
            let b = cnt(j);
            let s = [a[0] + b[0], a[1] + b[1], a[2] + b[2]];
            if s.iter().zip(dims()).all(|(v, d)| *v < d) {
                r |= 1 << idx(s);
            }
        }
    }
    r
}
fn pow(l: u64, n: usize) -> u64 {
    let mut r = 1u64;
    for _ in 0..n {
        let nx = conv(r, l);
        if nx == r && conv(nx, l) == nx {
            return r;
        }
        r = nx;
    }
    r
}
fn star(l: u64) -> u64 {
    let mut r = 1u64;
    loop {
        let nx = r | conv(r, l);
        if nx == r {
            return r;
        }
        r = nx;
    }
}
fn has(c: &Cardinality, n: usize) -> bool {
    n >= c.min.value
        && match c.max {
            Max::Unbounded => true,
            Max::IntMax(m) => n <= m,
        }
}
/// powers lo..=hi
fn rep(l: u64, c: &Cardinality) -> u64 {
    match c.max {
        Max::Unbounded => conv(pow(l, c.min.value), star(l)),
        Max::IntMax(m) if m < c.min.value => 0,
        Max::IntMax(m) => conv(pow(l, c.min.value), pow(l | 1, m - c.min.value)),
    }
}
fn lang(e: &E) -> u64 {
    match e {
        Rbe::Fail { .. } => 0,
        Rbe::Empty => 1,
        Rbe::Symbol { value, card } => {
            let k = SY.iter().position(|s| s == value).unwrap();
            let mut r = 0;
            for n in 0..dims()[k] {
                if has(card, n) {
                    let mut c = [0; 3];
                    c[k] = n;
                    r |= 1 << idx(c);
                }
            }
            r
        },
        Rbe::And { values } => values.iter().fold(1, |a, v| conv(a, lang(v))),
        Rbe::Or { values } => values.iter().fold(0, |a, v| a | lang(v)),
        Rbe::Star { value } => star(lang(value)),
        Rbe::Plus { value } => conv(lang(value), star(lang(value))),
        Rbe::Repeat { value, card } => rep(lang(value), card),
    }
}
fn bag(i: usize, z: usize) -> Bag<char> {
    let mut b = Bag::new();
    let c = cnt(i);
    for k in 0..3 {
        if c[k] > 0 {
            b.insert_many(SY[k], c[k]);
        }
    }
    if z > 0 {
        b.insert_many('z', z);
    }
    b
}
fn mk(min: usize, max: Option<usize>) -> Cardinality {
    Cardinality::from(Min::from(min), max.map(Max::IntMax).unwrap_or(Max::Unbounded))
}
fn show(e: &E) -> String {
    let cs = |c: &Cardinality| match c.max {
        Max::Unbounded => format!("{{{},*}}", c.min.value),
        Max::IntMax(m) => format!("{{{},{m}}}", c.min.value),
    };
    match e {
        Rbe::Fail { .. } => "Fail".into(),
        Rbe::Empty => "Empty".into(),
        Rbe::Symbol { value, card } => format!("{value}{}", cs(card)),
        Rbe::And { values } => format!("({})", values.iter().map(show).collect::<Vec<_>>().join(" ; ")),
        Rbe::Or { values } => format!("({})", values.iter().map(show).collect::<Vec<_>>().join(" | ")),
        Rbe::Star { value } => format!("[{}]*", show(value)),
        Rbe::Plus { value } => format!("[{}]+", show(value)),
        Rbe::Repeat { value, card } => format!("[{}]{}", show(value), cs(card)),
    }
}
fn leaf_cards() -> Vec<Cardinality> {
    vec![mk(1, Some(1)), mk(0, Some(1)), mk(0, None), mk(1, None), mk(2, Some(3)), mk(0, Some(0)), mk(2, None), mk(0, Some(2)), mk(2, Some(2)), mk(2, Some(1)), mk(3, Some(5))]
}
fn rep_cards() -> Vec<Cardinality> {
    vec![mk(1, Some(1)), mk(0, Some(1)), mk(0, None), mk(1, None), mk(2, Some(2)), mk(2, Some(3)), mk(0, Some(0)), mk(0, Some(2)), mk(2, None), mk(1, Some(2)), mk(3, Some(3))]
}
fn unary(e: &E, out: &mut Vec<E>) {
    out.push(Rbe::Star { value: Box::new(e.clone()) });
    out.push(Rbe::Plus { value: Box::new(e.clone()) });
    for c in rep_cards() {
        out.push(Rbe::Repeat { value: Box::new(e.clone()), card: c });
    }
}
fn leaves(s: char) -> Vec<E> {
    leaf_cards().into_iter().map(|c| Rbe::Symbol { value: s, card: c }).collect()
}
/// the enumerated family: leaves; unary over leaves; unary twice; binary of (leaf or unary) over (a,b) and (a,a); unary over binary of leaves
fn family(repeats: bool, thorough: bool) -> Vec<E> {
    let mut v = vec![Rbe::Empty];
    let la = leaves('a');
    let lb = leaves('b');
    v.extend(la.clone());
    let mut ua = vec![];
    let mut ub = vec![];
    for l in &la {
        unary(l, &mut ua);
    }
    for l in &lb {
        unary(l, &mut ub);
    }
    v.extend(ua.clone());
    for u in &ua {
        unary(u, &mut v);
    }
    let bin = |x: &E, y: &E, v: &mut Vec<E>| {
        v.push(Rbe::And { values: vec![x.clone(), y.clone()] });
        v.push(Rbe::Or { values: vec![x.clone(), y.clone()] });
    };
    let mut b = vec![];
    for x in &la {
        for y in &lb {
            bin(x, y, &mut b);
        }
        if repeats {
            for y in &la {
                bin(x, y, &mut b);
            }
        }
    }
    for e in &b {
        unary(e, &mut v);
    }
    v.extend(b);
    let short = if thorough { ua.len() } else { 40 };
    for (k, x) in ua.iter().enumerate() {
        for (j, y) in lb.iter().chain(if repeats { la.iter() } else { [].iter() }).enumerate() {
            if thorough || (k + j) % 3 == 0 {
                bin(x, y, &mut v);
                bin(y, x, &mut v);
            }
        }
        for y in ub.iter().skip(if thorough { 0 } else { k }).step_by(if thorough { 2 } else { 7 }).take(short) {
            bin(x, y, &mut v);
        }
    }
    v
}
fn rand_card(r: &mut Rng, rep: bool) -> Cardinality {
    let cs = if rep { rep_cards() } else { leaf_cards() };
    if r.chance(3, 4) {
        r.pick(&cs).clone()
    } else {
        let min = r.below(if SHAPE.load(Relaxed) > 0 { 7 } else { 4 });
        if r.chance(1, 3) { mk(min, None) } else { mk(min, Some(min + r.below(3))) }
    }
}
/// a random expression; `once`: symbols are taken from `pool` and not reused
fn rand_expr(r: &mut Rng, depth: usize, pool: &mut Vec<char>, once: bool) -> E {
    let leaf = |r: &mut Rng, pool: &mut Vec<char>| {
        if pool.is_empty() || r.chance(1, 12) {
            return Rbe::Empty;
        }
        let i = r.below(pool.len());
        let s = if once { pool.swap_remove(i) } else { pool[i] };
        Rbe::Symbol { value: s, card: rand_card(r, false) }
    };
    if depth == 0 || r.chance(1, 6) {
        return leaf(r, pool);
    }
    match r.below(6) {
        0 => Rbe::Star { value: Box::new(rand_expr(r, depth - 1, pool, once)) },
        1 => Rbe::Plus { value: Box::new(rand_expr(r, depth - 1, pool, once)) },
        2 => Rbe::Repeat { value: Box::new(rand_expr(r, depth - 1, pool, once)), card: rand_card(r, true) },
        k => {
            let n = 1 + r.below(3);
            let values = (0..n).map(|_| rand_expr(r, depth - 1, pool, once)).collect();
            if k == 3 { Rbe::Or { values } } else { Rbe::And { values } }
        },
    }
}
fn syms(e: &E) -> Vec<char> {
    let mut v: Vec<char> = e.symbols().into_iter().collect();
    v.sort();
    v
}
fn ref_syms(e: &E, out: &mut Vec<char>) {
    match e {
        Rbe::Symbol { value, .. } => out.push(*value),
        Rbe::And { values } | Rbe::Or { values } => values.iter().for_each(|v| ref_syms(v, out)),
        Rbe::Star { value } | Rbe::Plus { value } | Rbe::Repeat { value, .. } => ref_syms(value, out),
        _ => {},
    }
}
/// bag i only holds symbols of the expression
fn inside(i: usize, s: &[char]) -> bool {
    let c = cnt(i);
    (0..3).all(|k| c[k] == 0 || s.contains(&SY[k]))
}
/// the part of bag i over the symbols of the expression
fn restrict(i: usize, s: &[char]) -> usize {
    let mut c = cnt(i);
    for k in 0..3 {
        if !s.contains(&SY[k]) {
            c[k] = 0;
        }
    }
    idx(c)
}

fn exprs(ctx: &mut Ctx, once: bool, quick: usize, thorough: usize, f: &mut dyn FnMut(&mut Ctx, &E)) {
    let th = ctx.thorough;
    SHAPE.store(0, Relaxed);
    for e in family(!once, th) {
        if ctx.stop() {
            return;
        }
        f(ctx, &e);
    }
    for (shape, part) in [(0, 1), (1, 2), (2, 6)] {
        SHAPE.store(shape, Relaxed);
        for _ in 0..ctx.n(quick, thorough) / part {
            if ctx.stop() {
                break;
            }
            let d = 1 + ctx.rng.below(4);
            let mut pool = pool();
            let e = rand_expr(&mut ctx.rng, d, &mut pool, once);
            f(ctx, &e);
        }
    }
    SHAPE.store(0, Relaxed);
}

fn check_match(ctx: &mut Ctx, e: &E, label: &str, run: &dyn Fn(&Bag<char>, bool) -> bool, bags: &[usize]) {
    let l = lang(e);
    let mut s = vec![];
    ref_syms(e, &mut s);
    for &i in bags {
        for (z, open) in [(0, false), (0, true), (1, false), (2, true)] {
            // open expressions may skip symbols they do not mention
            let want = if open { l >> restrict(i, &s) & 1 == 1 } else { z == 0 && l >> i & 1 == 1 };
            ctx.case(
                l != 0 && l != 1,
                || format!("{label} {} bag a:{} b:{} c:{} z:{z} open={open}", show(e), cnt(i)[0], cnt(i)[1], cnt(i)[2]),
                || {
                    let got = run(&bag(i, z), open);
                    if got == want { Ok(()) } else { Err(format!("accepted={got}, the language says {want}")) }
                },
            );
        }
    }
}
/// number of repetition operators over something that is not a plain symbol
fn iterated_groups(e: &E) -> usize {
    match e {
        Rbe::And { values } | Rbe::Or { values } => values.iter().map(iterated_groups).sum::<usize>() + (values.len() > 1) as usize * values.iter().map(|v| (iterated_groups(v) > 0) as usize).sum::<usize>(),
        Rbe::Star { value } | Rbe::Plus { value } | Rbe::Repeat { value, .. } => iterated_groups(value) + 1,
        _ => 0,
    }
}
fn bags_for(ctx: &mut Ctx, e: &E) -> Vec<usize> {
    let mut s = vec![];
    ref_syms(e, &mut s);
    let r = ctx.rng.below(64);
    // the derivative grows exponentially with the bag under iterated groups: smaller bags there
    let lim = match (iterated_groups(e), e.symbols().len()) {
        (0, _) => if SHAPE.load(Relaxed) == 0 { 9 } else { 5 },
        (1, _) => if SHAPE.load(Relaxed) == 1 { 3 } else { 4 },
        _ => 3,
    };
    (0..64).filter(|i| (inside(*i, &s) || *i == r || *i == 16) && cnt(*i).iter().sum::<usize>() <= lim).collect()
}

fn r01(ctx: &mut Ctx) {
    ctx.rule("deriv", "derivative matcher against the bag language, bags over a,b,c with counts <= 3 plus 0..2 foreign symbols, open and closed; enumerated family then random expressions of depth <= 4");
    exprs(ctx, false, 2500, 60000, &mut |ctx, e| {
        let b = bags_for(ctx, e);
        check_match(ctx, e, "deriv", &|b, o| e.match_bag_deriv(b, o).is_ok(), &b);
        let st: RbeStruct<char> = RbeStruct::from(e.clone());
        let l = lang(e);
        ctx.case(true, || format!("nullable {}", show(e)), || {
            if st.nullable() == (l & 1 == 1) { Ok(()) } else { Err(format!("nullable()={} but membership of the empty bag is {}", st.nullable(), l & 1 == 1)) }
        });
        ctx.case(true, || format!("symbols {}", show(e)), || {
            let mut w = vec![];
            ref_syms(e, &mut w);
            w.sort();
            w.dedup();
            if syms(e) == w { Ok(()) } else { Err(format!("symbols {:?}, expected {w:?}", syms(e))) }
        });
    });
}
/// the same expression through the constructors
fn build(e: &E) -> RbeStruct<char> {
    match e {
        Rbe::Fail { .. } | Rbe::Empty => RbeStruct::empty(),
        Rbe::Symbol { value, card } => RbeStruct::symbol(*value, card.min.value, card.max.clone()),
        Rbe::And { values } => RbeStruct::and(values.iter().map(build)),
        Rbe::Or { values } => RbeStruct::or(values.iter().map(build)),
        Rbe::Star { value } => RbeStruct::star(build(value)),
        Rbe::Plus { value } => RbeStruct::plus(build(value)),
        Rbe::Repeat { value, card } => match (card.min.value, &card.max) {
            (0, Max::IntMax(1)) => RbeStruct::opt(build(value)),
            _ => RbeStruct::repeat(build(value), card.min.value, card.max.clone()),
        },
    }
}
fn r02(ctx: &mut Ctx) {
    ctx.rule("interval-set", "the interval of a single-occurrence expression holds exactly the k for which the bag is a sum of k bags of its language (k <= 8); all 64 bags of the box");
    exprs(ctx, true, 1500, 30000, &mut |ctx, e| {
        let l = lang(e);
        let mut s = vec![];
        ref_syms(e, &mut s);
        let pw: Vec<u64> = (0..9).map(|k| pow(l, k)).collect();
        for i in (0..64).filter(|i| inside(*i, &s) || *i % 16 == 15) {
            let ri = restrict(i, &s);
            ctx.case(
                true,
                || format!("interval {} bag a:{} b:{} c:{}", show(e), cnt(i)[0], cnt(i)[1], cnt(i)[2]),
                || {
                    let iv = e.interval(&bag(i, 0));
                    for k in 0..9 {
                        let want = pw[k] >> ri & 1 == 1;
                        if iv.contains(k) != want {
                            return Err(format!("interval {iv}: contains({k})={} but {k} repetitions possible={want}", iv.contains(k)));
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    ctx.rule("interval-match", "RbeStruct::match_bag(interval) of expressions made by the constructors and by conversion, against the bag language");
    exprs(ctx, false, 2000, 50000, &mut |ctx, e| {
        let bs = bags_for(ctx, e);
        let st = build(e);
        check_match(ctx, e, "constructed", &|b, o| st.match_bag(b, o, RbeAlgorithm::Interval).is_ok(), &bs);
        let st2: RbeStruct<char> = RbeStruct::from(e.clone());
        check_match(ctx, e, "converted", &|b, o| st2.match_bag_interval(b, o).is_ok(), &bs);
        if ctx.rng.chance(1, 4) {
            check_match(ctx, e, "derivative", &|b, o| st.match_bag(b, o, RbeAlgorithm::Derivatives).is_ok(), &bs);
        }
    });
}
fn r03(ctx: &mut Ctx) {
    ctx.rule("feasible", "single-occurrence expressions; partial bags lo<=hi over counts <= 3: a refusal means no bag between lo and hi is in the language");
    exprs(ctx, true, 4000, 60000, &mut |ctx, e| {
        let l = lang(e);
        let mut s = vec![];
        ref_syms(e, &mut s);
        let st: RbeStruct<char> = RbeStruct::from(e.clone());
        let n = ctx.n(30, 120);
        for _ in 0..n {
            let lo = restrict(ctx.rng.below(64), &s);
            let cl = cnt(lo);
            let mut ch = [0; 3];
            for k in 0..3 {
                if s.contains(&SY[k]) {
                    ch[k] = cl[k] + ctx.rng.below(dims()[k] - cl[k]);
                }
            }
            let wit = (0..64).find(|i| {
                let c = cnt(*i);
                l >> i & 1 == 1 && (0..3).all(|k| cl[k] <= c[k] && c[k] <= ch[k])
            });
            let explicit = ctx.rng.chance(1, 2);
            ctx.case(
                wit.is_some(),
                || format!("feasible {} lo {:?} hi {:?} zeros={explicit}", show(e), cl, ch),
                || {
                    let m = |c: [usize; 3]| -> HashMap<char, usize> { (0..3).filter(|k| c[*k] > 0 || explicit).map(|k| (SY[k], c[k])).collect() };
                    let r = st.feasible(&m(cl), &m(ch));
                    let r2 = e.feasible(&m(cl), &m(ch));
                    match wit {
                        Some(w) if !r || !r2 => Err(format!("refused, but the bag {:?} lies between and is accepted", cnt(w))),
                        _ => Ok(()),
                    }
                },
            );
        }
    });
}
fn r04(ctx: &mut Ctx) {
    let vals: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, usize::MAX - 1, usize::MAX];
    let maxs: Vec<Max> = vals.iter().map(|v| Max::IntMax(*v)).chain([Max::Unbounded]).collect();
    let le = |n: u128, m: &Max| match m {
        Max::Unbounded => true,
        Max::IntMax(k) => n <= *k as u128,
    };
    let big = |i: &usize| *i as u128;
    ctx.rule("max-unary", "bounds against each number of a grid including the machine limits: comparison, subtraction, division");
    for m in &maxs {
        for n in &vals {
            ctx.case(true, || format!("{m}.minus({n})"), || {
                let r = m.minus(*n);
                for k in &vals {
                    if *k > 0 && le(big(k), &r) != le(big(k) + big(n), m) {
                        return Err(format!("= {r}: {k} fits differently"));
                    }
                }
                if matches!(r, Max::Unbounded) != matches!(m, Max::Unbounded) { return Err(format!("= {r}")); }
                Ok(())
            });
            ctx.case(true, || format!("{m}.greater_or_equal({n})"), || if m.greater_or_equal(*n) == le(big(n), m) { Ok(()) } else { Err("wrong".into()) });
            ctx.case(true, || format!("{m}.div_up({n})"), || {
                let r = m.div_up(n);
                for k in &vals {
                    let sc = match m { Max::Unbounded => *n == 0 || *k >= 1, Max::IntMax(m) => big(n) <= big(k) * big(m) };
                    let g = match &r { Max::Unbounded => false, Max::IntMax(t) => k >= t };
                    if sc != g { return Err(format!("= {r}: at {k} expected {sc}")); }
                }
                Ok(())
            });
            if let Max::IntMax(mm) = m {
                ctx.case(true, || format!("{m}.div_down({n})"), || {
                    let r = m.div_down(n);
                    for k in &vals {
                        let sc = big(k) * big(mm) <= big(n);
                        if sc != le(big(k), &r) { return Err(format!("= {r}: at {k} expected {sc}")); }
                    }
                    Ok(())
                });
            }
        }
    }
    ctx.rule("max-binary", "pairs of bounds of the grid: order, maximum, minimum, sum");
    for a in &maxs {
        for b in &maxs {
            ctx.case(true, || format!("{a} , {b}"), || {
                for k in &vals {
                    if le(big(k), &a.max(b)) != (le(big(k), a) || le(big(k), b)) { return Err(format!("max at {k}")); }
                    if le(big(k), &a.min(b)) != (le(big(k), a) && le(big(k), b)) { return Err(format!("min at {k}")); }
                }
                let gt = match (a, b) { (_, Max::Unbounded) => false, (Max::Unbounded, _) => true, (Max::IntMax(x), Max::IntMax(y)) => x > y };
                if a.greater_than(b) != gt { return Err("greater_than".into()); }
                let sum = match (a, b) { (Max::IntMax(x), Max::IntMax(y)) => x.checked_add(*y).map(Max::IntMax), _ => Some(Max::Unbounded) };
                if let Some(s) = sum { if a.plus(b) != s { return Err(format!("plus = {}", a.plus(b))); } }
                Ok(())
            });
        }
    }
    ctx.rule("interval", "all intervals over the grid: emptiness, membership, intersection and sum");
    let small: Vec<Max> = (0..6).map(Max::IntMax).chain([Max::Unbounded]).collect();
    let hasi = |i: &Interval, k: usize| matches!(&i.n, Max::IntMax(n) if *n <= k) && le(k as u128, &i.m);
    let mut ivs = vec![];
    for n in &small {
        for m in &small {
            ivs.push(Interval::new(n.clone(), m.clone()));
        }
    }
    for x in &ivs {
        ctx.case(true, || format!("{x}"), || {
            for k in 0..20 {
                if x.contains(k) != hasi(x, k) { return Err(format!("contains({k})")); }
            }
            if x.is_empty() != (0..20).all(|k| !hasi(x, k)) { return Err("is_empty".into()); }
            Ok(())
        });
        for y in &ivs {
            ctx.case(true, || format!("{x} & {y}"), || {
                let r = x.intersection(y);
                let s = x.addition(y);
                for k in 0..20 {
                    if hasi(&r, k) != (hasi(x, k) && hasi(y, k)) { return Err(format!("intersection {r} at {k}")); }
                    let w = (0..=k).any(|i| hasi(x, i) && hasi(y, k - i));
                    if (!x.is_empty() && !y.is_empty()) && hasi(&s, k) != w { return Err(format!("sum {s} at {k}: expected {w}")); }
                }
                Ok(())
            });
        }
    }
    for (i, f) in [(Interval::fail(), (|_| false) as fn(usize) -> bool), (Interval::zero_any(), |_| true), (Interval::zero_zero(), |k| k == 0), (Interval::one_any(), |k| k >= 1)] {
        ctx.case(true, || format!("constant {i}"), || if (0..20).all(|k| hasi(&i, k) == f(k)) { Ok(()) } else { Err("wrong constant".into()) });
    }
    ctx.rule("cardinality", "all {min,max} over the grid against each number: membership, nullability, special forms, consumption of n occurrences");
    for mn in &vals {
        for mx in &maxs {
            let c = Cardinality::from(Min::from(*mn), mx.clone());
            let hc = |c: &Cardinality, k: u128| c.min.value as u128 <= k && le(k, &c.max);
            ctx.case(true, || format!("{{{mn},{mx}}}"), || {
                if c.nullable() != (*mn == 0) { return Err("nullable".into()); }
                if c.is_0_0() != (*mn == 0 && *mx == Max::IntMax(0)) || c.is_1_1() != (*mn == 1 && *mx == Max::IntMax(1)) || c.is_star() != (*mn == 0 && *mx == Max::Unbounded) || c.is_plus() != (*mn == 1 && *mx == Max::Unbounded) {
                    return Err("special form".into());
                }
                for n in &vals {
                    if c.contains(*n) != hc(&c, big(n)) { return Err(format!("contains({n})")); }
                    if !le(big(n), mx) { continue; }
                    let d = c.minus(*n);
                    for k in &vals {
                        if hc(&d, big(k)) != hc(&c, big(k) + big(n)) { return Err(format!("minus({n}) then {k}")); }
                    }
                }
                Ok(())
            });
        }
    }
}
fn main() {
    vh::main(&[("R01", r01), ("R02", r02), ("R03", r03), ("R04", r04)]);
}
