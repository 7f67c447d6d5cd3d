//! matchers over expression items, replacement, scope wrappers, totality of the basic scope
use crate::text::gen;
use abe::ast::*;
use abe::eval::*;
use abe::scope::BASIC_SCOPE;
use std::rc::Rc;
use std::sync::Arc;
use symrt::*;

fn kind(e: &ABE) -> u8 {
    match e {
        ABE::Ctr(Ctr::Colon) => 0,
        ABE::Ctr(Ctr::FSlash) => 1,
        ABE::Expr(Expr::Bytes(_)) => 2,
        ABE::Expr(Expr::Lst(_)) => 3,
    }
}
/// any sequence of at most n items (not necessarily in normal form)
fn items(n: usize, lit: usize) -> Vec<ABE> {
    let n = choice(n + 1);
    (0..n)
        .map(|_| match choice(4) {
            0 => ABE::Ctr(Ctr::Colon),
            1 => ABE::Ctr(Ctr::FSlash),
            2 => ABE::Expr(Expr::Bytes(vec_upto(lit))),
            _ => ABE::Expr(Expr::Lst(vec![])),
        })
        .collect()
}
fn taken<const N: usize>(v: &[ABE]) {
    match take::<N>(v) {
        Ok((a, r)) => check(v.len() >= N && a[..] == v[..N] && *r == v[N..], 1),
        Err(e) => check(v.len() < N && matches!(e.err, MatchErrorKind::TakeLen { expect, has } if expect == N && has == v.len()), 2),
    }
    match exact::<N>(v) {
        Ok(a) => check(v.len() == N && a[..] == *v, 3),
        Err(e) => check(v.len() != N && matches!(e.err, MatchErrorKind::ExactLen { expect, has } if expect == N && has == v.len()), 4),
    }
}
fn matchers(n: usize) {
    let v = items(n, 1);
    taken::<0>(&v);
    taken::<1>(&v);
    taken::<2>(&v);
    taken::<3>(&v);
    match take_first(&v) {
        Ok((a, r)) => check(!v.is_empty() && *a == v[0] && *r == v[1..], 5),
        Err(_) => check(v.is_empty(), 6),
    }
    check(is_empty(&v).is_ok() == v.is_empty(), 7);
    match one_or(&v) {
        Ok(o) => check(v.len() < 2 && o == v.first(), 8),
        Err(_) => check(v.len() > 1, 9),
    }
    match single(&v) {
        Ok(o) => check(v.len() == 1 && *o == v[0], 10),
        Err(_) => check(v.len() != 1, 11),
    }
    match no_ctrs(&v) {
        Ok(o) => check(*o == v[..] && v.iter().all(|e| kind(e) > 1), 12),
        Err(_) => check(v.iter().any(|e| kind(e) < 2), 13),
    }
    for (c, f) in [(0u8, is_colon as fn(&ABE) -> VResult<()>), (1, is_fslash)] {
        // leading (delimiter, item) pairs
        let mut k = 0;
        while k + 1 < v.len() && kind(&v[k]) == c && kind(&v[k + 1]) > 1 {
            k += 2
        }
        let (got, rest) = multi_ctr_expr(&v, f);
        check(got.len() == k / 2 && *rest == v[k..], 14);
        for (i, e) in got.iter().enumerate() {
            check(ABE::Expr(e.clone()) == v[2 * i + 1], 15)
        }
        match take_ctr_expr(&v, f) {
            Ok((e, r)) => check(k >= 2 && ABE::Expr(e.clone()) == v[1] && *r == v[2..], 16),
            Err(_) => check(k == 0, 17),
        }
        match take_expr_ctr2(&v, f) {
            Ok((e, r)) => check(v.len() > 1 && kind(&v[0]) > 1 && kind(&v[1]) == c && ABE::Expr(e.clone()) == v[0] && *r == v[2..], 18),
            Err(_) => check(!(v.len() > 1 && kind(&v[0]) > 1 && kind(&v[1]) == c), 19),
        }
        match strip_prefix(&v, f) {
            Ok(r) => check(kind(&v[0]) == c && *r == v[1..], 20),
            Err(_) => check(v.is_empty() || kind(&v[0]) != c, 21),
        }
        for e in &v {
            match f(e) {
                Ok(()) => check(kind(e) == c, 22),
                Err(m) => check(kind(e) != c && (if c == 0 { matches!(m.err, MatchErrorKind::ExpectedColon) } else { matches!(m.err, MatchErrorKind::ExpectedFSlash) }), 23),
            }
        }
    }
    for e in &v {
        let k = kind(e);
        check(as_lst(e).is_ok() == (k == 3) && as_expr(e).is_ok() == (k > 1) && e.expr().is_ok() == (k > 1) && as_bytes(e).is_ok() == (k == 2), 24);
        check(e.is_colon() == (k == 0) && e.is_fslash() == (k == 1), 25);
        if let ABE::Expr(x) = e {
            check(x.as_list().is_ok() == (k == 3) && x.as_bytes().is_ok() == (k == 2) && x.as_abstr().is_some() == (k == 2), 26);
            if let (Expr::Bytes(b), Ok(s), Ok(y)) = (x, as_abstr(e), as_bytes(e)) {
                check(*s == *abe::abtxt::as_abtxt(b) && same(y, b), 27)
            }
        }
        reach(1 + k as u32)
    }
    // the same items as one list
    let l = ABE::from_iter(v.clone());
    check(as_lst(&l).map(|x| *x == v[..]).unwrap_or(false), 28);
    match ABList::try_from(&v[..]) {
        Ok(_) => check(v.iter().all(|e| kind(e) != 3), 29),
        Err(e) => check(v.iter().find(|e| kind(e) == 3) == Some(e), 30),
    }
}
pub fn p16_match3() { matchers(3) }
pub fn p16_match5() { matchers(5) }

/// reference: innermost lists first, left to right, not overlapping, replaced text is not searched again
fn r_replace(v: &[ABE], p: &[ABE], n: &[ABE]) -> Vec<ABE> {
    let v: Vec<ABE> = v
        .iter()
        .map(|e| match e {
            ABE::Expr(Expr::Lst(l)) => ABE::Expr(Expr::Lst(r_replace(l, p, n))),
            e => e.clone(),
        })
        .collect();
    let mut r = vec![];
    let mut i = 0;
    while i < v.len() {
        if !p.is_empty() && v[i..].starts_with(p) {
            r.extend_from_slice(n);
            i += p.len()
        } else {
            r.push(v[i].clone());
            i += 1
        }
    }
    r
}
fn replacing(n: usize, lit: usize) {
    let mut b = n;
    let v = gen(&mut b, 2, lit);
    let p = items(2, 1);
    let new = [vec![], vec![ABE::Ctr(Ctr::Colon)], vec![ABE::Expr(Expr::Bytes(vec![b'n'])), ABE::Ctr(Ctr::FSlash), ABE::Ctr(Ctr::FSlash)]][choice(3)].clone();
    let w = r_replace(&v, &p, &new);
    if w == v {
        reach(1)
    } else {
        reach(2)
    }
    let mut g = v.clone();
    replace_abe(&mut g, &p, &new);
    check(g == w, 1)
}
pub fn p16_replace3() { replacing(3, 1) }
pub fn p16_replace4() { replacing(4, 1) }
/// raw dump of a comment bracket [/:..]
pub fn p16_dump() {
    let mut b = 4;
    let v = gen(&mut b, 3, 1);
    fn r(v: &[ABE], o: &mut Vec<u8>) {
        for e in v {
            match e {
                ABE::Ctr(Ctr::Colon) => o.push(b':'),
                ABE::Ctr(Ctr::FSlash) => o.push(b'/'),
                ABE::Expr(Expr::Bytes(b)) => o.extend_from_slice(b),
                ABE::Expr(Expr::Lst(l)) => {
                    o.push(b'[');
                    r(l, o);
                    o.push(b']')
                }
            }
        }
    }
    let mut w = b"k".to_vec();
    r(&v, &mut w);
    let mut g = b"k".to_vec();
    dump_abe_bytes(&mut g, &v);
    check(same(&g, &w), 1);
    let mut l = vec![ABE::Ctr(Ctr::FSlash), ABE::Ctr(Ctr::Colon)];
    l.extend(v);
    match eval(&(), &[ABE::Expr(Expr::Lst(l))]) {
        Ok(l) => check(same(&l.concat(), &w[1..]), 2),
        Err(_) => check(false, 3),
    }
}

// ---------------------------------------------------------------- P17
struct Fun {
    id: Vec<u8>,
    lo: usize,
    hi: usize,
}
fn table() -> (Vec<Fun>, Vec<Vec<u8>>) {
    let mut f = vec![];
    let mut m = vec![];
    BASIC_SCOPE.describe(&mut |_n, _a, fs, ms| {
        for i in fs {
            f.push(Fun { id: i.id.as_bytes().to_vec(), lo: *i.argc.start(), hi: *i.argc.end() })
        }
        for i in ms {
            m.push(i.id.as_bytes().to_vec())
        }
    });
    (f, m)
}
fn lit(v: &mut Vec<ABE>, b: Vec<u8>) {
    if !b.is_empty() {
        v.push(ABE::Expr(Expr::Bytes(b)))
    }
}
/// every function of the basic scope on every argument list: a value or an error, never a crash
fn total(nargs: usize, len: usize) {
    let (f, _) = table();
    check(f.len() > 20, 1);
    let f = &f[choice(f.len())];
    let n = choice(nargs + 1);
    let chained = bool();
    let mut v = vec![];
    if chained {
        // [:x/f:..]
        v.push(ABE::Ctr(Ctr::Colon));
        lit(&mut v, vec_upto(len));
        v.push(ABE::Ctr(Ctr::FSlash));
    }
    lit(&mut v, f.id.clone());
    for _ in 0..n {
        v.push(ABE::Ctr(Ctr::Colon));
        lit(&mut v, vec_upto(len))
    }
    let argc = n + chained as usize;
    match eval(&BASIC_SCOPE, &[ABE::Expr(Expr::Lst(v))]) {
        Ok(l) => {
            check(argc >= f.lo && argc <= f.hi, 2);
            check(l.as_exact_bytes().is_ok(), 3);
            reach(1)
        }
        Err(EvalError::Func(..)) => reach(2),
        Err(_) => check(false, 4),
    }
}
pub fn p17_func1() { total(3, 1) }
pub fn p17_func2() { total(2, 2) }
/// the same for macros, with any items behind the name
pub fn p17_macro() {
    let (_, m) = table();
    check(m.len() > 3, 1);
    let id = m[choice(m.len())].clone();
    let mut v = vec![ABE::Ctr(Ctr::FSlash)];
    lit(&mut v, id);
    let mut it = items(4, 1);
    if let (Some(ABE::Expr(Expr::Bytes(_))), true) = (it.first(), true) {
        it.remove(0);
    }
    v.extend(it);
    match eval(&BASIC_SCOPE, &[ABE::Expr(Expr::Lst(v))]) {
        Ok(l) => {
            check(l.as_exact_bytes().is_ok(), 2);
            reach(1)
        }
        Err(EvalError::SubEval(..)) => reach(2),
        Err(_) => check(false, 3),
    }
}
/// any text inside a bracket
fn anytext(n: usize) {
    let mut t = vec![b'['];
    t.extend_from_slice(&vec_upto(n));
    t.push(b']');
    if let Ok(e) = parse_abe_strict_b(&t) {
        match eval(&BASIC_SCOPE, &e) {
            Ok(_) => reach(1),
            Err(_) => reach(2),
        }
    }
}
pub fn p17_text3() { anytext(3) }
pub fn p17_text4() { anytext(4) }
pub fn p17_text5() { anytext(5) }
pub fn p17_text6() { anytext(6) }
/// function lookup finds every listed function by its name, and only those
pub fn p17_names() {
    let (f, m) = table();
    let id = vec_upto(3);
    let known = f.iter().any(|x| x.id == id);
    let r = BASIC_SCOPE.try_apply_func(&id, &[], true, &());
    check(matches!(r, ApplyResult::NoValue) != known, 1);
    let known = m.iter().any(|x| *x == id);
    let r = BASIC_SCOPE.try_apply_macro(&id, &[], &());
    check(matches!(r, ApplyResult::NoValue) != known, 2)
}

// ---------------------------------------------------------------- P18
/// a scope whose answers reveal everything it was asked
struct Echo(u8);
impl Echo {
    fn ans(&self, what: u8, id: &[u8], args: &[&[u8]], extra: u8) -> ApplyResult {
        if self.0 == 0 {
            return ApplyResult::NoValue;
        }
        let mut r = vec![what, extra];
        r.extend_from_slice(id);
        for a in args {
            r.push(b'|');
            r.extend_from_slice(a)
        }
        if self.0 == 1 {
            ApplyResult::Value(r)
        } else {
            ApplyResult::Err(anyhow::anyhow!("e"))
        }
    }
}
impl Scope for Echo {
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], i: bool, s: &dyn Scope) -> ApplyResult {
        let e = matches!(s.try_apply_func(b"probe", &[], true, &()), ApplyResult::Value(_)) as u8;
        self.ans(1, id, a, i as u8 * 2 + e)
    }
    fn try_apply_macro(&self, id: &[u8], abe: &[ABE], s: &dyn Scope) -> ApplyResult {
        let e = matches!(s.try_apply_func(b"probe", &[], true, &()), ApplyResult::Value(_)) as u8;
        self.ans(2, id, &[], abe.len() as u8 * 2 + e)
    }
    fn try_encode(&self, id: &[u8], o: &[ABE], b: &[u8]) -> ApplyResult<String> {
        self.ans(3, id, &[b], o.len() as u8).map(|v| v.into_iter().map(|c| (c & 127) as char).collect())
    }
    fn describe(&self, cb: Describer) {
        cb("echo", "e", &mut std::iter::empty(), &mut std::iter::empty())
    }
}
fn same_r(a: ApplyResult, b: ApplyResult) -> bool {
    match (a, b) {
        (ApplyResult::NoValue, ApplyResult::NoValue) | (ApplyResult::Err(_), ApplyResult::Err(_)) => true,
        (ApplyResult::Value(a), ApplyResult::Value(b)) => same(&a, &b),
        _ => false,
    }
}
fn transparent(s: &dyn Scope, e: &Echo) {
    let id = [u8()];
    let a = [u8()];
    let init = bool();
    let env: &dyn Scope = if bool() { &Echo(1) } else { &() };
    let ab = [ABE::Ctr(Ctr::Colon)];
    check(same_r(s.try_apply_func(&id, &[&a, &id], init, env), e.try_apply_func(&id, &[&a, &id], init, env)), 1);
    check(same_r(s.try_apply_macro(&id, &ab, env), e.try_apply_macro(&id, &ab, env)), 2);
    check(same_r(s.try_encode(&id, &ab, &a).map(|s| s.into_bytes()), e.try_encode(&id, &ab, &a).map(|s| s.into_bytes())), 3);
    let mut d = 0;
    s.describe(&mut |n, _, _, _| d += (n == "echo") as usize);
    check(d == 1, 4)
}
pub fn p18_wrap() {
    let k = choice(3) as u8;
    let e = Echo(k);
    match choice(11) {
        0 => transparent(&Some(Echo(k)), &e),
        1 => transparent(&Rc::new(Echo(k)), &e),
        2 => transparent(&Arc::new(Echo(k)), &e),
        3 => transparent(&&Echo(k), &e),
        4 => transparent(&(&Echo(k) as &dyn Scope), &e),
        5 => transparent(&anyhow::Result::<Echo>::Ok(Echo(k)), &e),
        6 => transparent(&Some(&Echo(k)), &e),
        7 => transparent(&(Echo(k), ()), &e),
        8 => transparent(&((), Echo(k)), &e),
        9 => transparent(&((), (), Echo(k)), &e),
        _ => transparent(&((), Echo(k), ()), &e),
    }
    reach(k as u32 + 1);
}
/// an absent scope is silent, a failed one fails everything
pub fn p18_absent() {
    let id = vec_upto(2);
    let n: Option<Echo> = None;
    check(matches!(n.try_apply_func(&id, &[&id], bool(), &()), ApplyResult::NoValue), 1);
    check(matches!(n.try_apply_macro(&id, &[], &()), ApplyResult::NoValue) && matches!(n.try_encode(&id, &[], &id), ApplyResult::NoValue), 2);
    let f: anyhow::Result<Echo> = Err(anyhow::anyhow!("x"));
    check(matches!(f.try_apply_func(&id, &[&id], true, &()), ApplyResult::Err(_)), 3);
    check(matches!(f.try_apply_macro(&id, &[], &()), ApplyResult::Err(_)) && matches!(f.try_encode(&id, &[], &id), ApplyResult::Err(_)), 4);
}
fn ar(k: usize, v: u8) -> ApplyResult<u8> {
    match k {
        0 => ApplyResult::NoValue,
        1 => ApplyResult::Value(v),
        _ => ApplyResult::Err(anyhow::anyhow!("e")),
    }
}
fn k_of(r: &ApplyResult<u8>) -> (usize, u8) {
    match r {
        ApplyResult::NoValue => (0, 0),
        ApplyResult::Value(v) => (1, *v),
        ApplyResult::Err(_) => (2, 0),
    }
}
/// the three valued result and its conversions
pub fn p18_result() {
    let (k, v) = (choice(3), u8());
    let w = (k, if k == 1 { v } else { 0 });
    check(k_of(&ar(k, v).map(|x| x ^ 5)) == (k, if k == 1 { v ^ 5 } else { 0 }), 1);
    check(match ar(k, v).into_ok() { Ok(None) => k == 0, Ok(Some(x)) => k == 1 && x == v, Err(_) => k == 2 }, 2);
    check(match ar(k, v).into_opt() { None => k == 0, Some(Ok(x)) => k == 1 && x == v, Some(Err(_)) => k == 2 }, 3);
    let k2 = choice(3);
    let mut called = false;
    let r = ar(k, v).or_else(|| { called = true; ar(k2, 9) });
    check(called == (k == 0), 4);
    check(k_of(&r) == if k == 0 { k_of(&ar(k2, 9)) } else { w }, 5);
    check(k_of(&ar(k, v).require("m")) == if k == 0 { (2, 0) } else { w }, 6);
    check(k_of(&ar(k, v).context("c")) == w, 7);
    fn q(r: ApplyResult<u8>) -> ApplyResult<u8> {
        let x = r?;
        ApplyResult::Value(x ^ 1)
    }
    check(k_of(&q(ar(k, v))) == (k, if k == 1 { v ^ 1 } else { 0 }), 8);
    let back: ApplyResult<u8> = ar(k, v).into_opt().into();
    check(k_of(&back) == w, 9);
    if k < 2 {
        let o: Option<u8> = if k == 1 { Some(v) } else { None };
        check(k_of(&o.into()) == w, 10);
        fn qo(o: Option<u8>) -> ApplyResult<u8> {
            ApplyResult::Value(o?)
        }
        check(k_of(&qo(o)) == w, 11)
    }
    if k > 0 {
        let o = || -> Result<u8, ApplyErr> { if k == 1 { Ok(v) } else { Err(anyhow::anyhow!("e")) } };
        check(k_of(&o().into()) == w, 12);
        fn qr(o: Result<u8, ApplyErr>) -> ApplyResult<u8> {
            ApplyResult::Value(o?)
        }
        check(k_of(&qr(o())) == w, 13)
    }
    reach(k as u32 + 1)
}
symrt::export!(p16_match3, p16_match5, p16_replace3, p16_replace4, p16_dump, p17_func1, p17_func2, p17_macro, p17_text3, p17_text4, p17_text5, p17_text6, p17_names, p18_wrap, p18_absent, p18_result);
