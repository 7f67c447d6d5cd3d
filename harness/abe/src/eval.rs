//! evaluation: lists of components, dispatch of functions and macros, scope combinators
use crate::text::{gen, plain, ref_escape};
use abe::ast::*;
use abe::eval::*;
use std::cell::RefCell;
use symrt::*;

// ---------------------------------------------------------------- reference representation of a list
/// components: (delimiter or 0, bytes)
type RList = Vec<(u8, Vec<u8>)>;
fn r_push_bytes(l: &mut RList, b: &[u8]) {
    match l.last_mut() {
        Some(x) => x.1.extend_from_slice(b),
        None => l.push((0, b.to_vec())),
    }
}
fn r_concat(l: &RList) -> Vec<u8> {
    let mut r = vec![];
    for (c, b) in l {
        if *c != 0 {
            r.push(*c)
        }
        r.extend_from_slice(b)
    }
    r
}
fn same_list(a: &ABList, l: &RList) -> bool {
    let s = a.as_slice();
    if s.len() != l.len() {
        return false;
    }
    let mut ok = true;
    for ((c, b), (rc, rb)) in s.iter().zip(l) {
        let cc = match c {
            None => 0,
            Some(Ctr::Colon) => b':',
            Some(Ctr::FSlash) => b'/',
        };
        ok &= cc == *rc;
        ok &= same(b, rb)
    }
    ok
}

// ---------------------------------------------------------------- reference evaluator
#[derive(Debug)]
enum RErr {
    NoFunc(Vec<u8>),
    Func(Vec<u8>),
    NoMacro(Vec<u8>),
    Macro(Vec<u8>),
    Other,
}
/// what the recording scope does with a function id: decided by its first byte
fn class(id: &[u8]) -> u8 {
    match id.first() {
        None => 0,
        Some(b'n') => 1,
        Some(b'e') => 2,
        Some(_) => 0,
    }
}
fn answer(id: &[u8], args: &[&[u8]], init: bool) -> Vec<u8> {
    let mut r = id.to_vec();
    r.push(if init { b'!' } else { b'.' });
    r.push(b'0' + args.len() as u8);
    for a in args {
        r.extend_from_slice(a);
    }
    r
}
fn r_dump(out: &mut Vec<u8>, l: &[ABE]) {
    for x in l {
        match x {
            ABE::Ctr(Ctr::Colon) => out.push(b':'),
            ABE::Ctr(Ctr::FSlash) => out.push(b'/'),
            ABE::Expr(Expr::Bytes(b)) => out.extend_from_slice(b),
            ABE::Expr(Expr::Lst(l)) => {
                out.push(b'[');
                r_dump(out, l);
                out.push(b']')
            }
        }
    }
}
fn r_eval(l: &[ABE], log: &mut Vec<u8>) -> Result<RList, RErr> {
    let mut r: RList = vec![];
    for x in l {
        match x {
            ABE::Ctr(Ctr::Colon) => r.push((b':', vec![])),
            ABE::Ctr(Ctr::FSlash) => r.push((b'/', vec![])),
            ABE::Expr(Expr::Bytes(b)) => r_push_bytes(&mut r, b),
            ABE::Expr(Expr::Lst(l)) => {
                let b = r_group(l, log)?;
                r_push_bytes(&mut r, &b)
            }
        }
    }
    Ok(r)
}
fn r_group(l: &[ABE], log: &mut Vec<u8>) -> Result<Vec<u8>, RErr> {
    if let Some(ABE::Ctr(Ctr::FSlash)) = l.first() {
        // macro
        let (id, rest) = match l.get(1) {
            None | Some(ABE::Expr(Expr::Lst(_))) => return Err(RErr::Other),
            Some(ABE::Ctr(Ctr::Colon)) => {
                let mut o = vec![];
                r_dump(&mut o, &l[2..]);
                return Ok(o);
            }
            Some(ABE::Ctr(Ctr::FSlash)) => (vec![], &l[1..]),
            Some(ABE::Expr(Expr::Bytes(b))) => (b.clone(), &l[2..]),
        };
        log.push(b'M');
        log.extend_from_slice(&id);
        log.push(rest.len() as u8);
        return match class(&id) {
            1 => Err(RErr::NoMacro(id)),
            2 => Err(RErr::Macro(id)),
            _ => {
                let mut o = id;
                r_dump(&mut o, rest);
                Ok(o)
            }
        };
    }
    if let Some(ABE::Expr(Expr::Lst(_))) = l.first() {
        return Err(RErr::Other);
    }
    if l.len() == 2 {
        if let [ABE::Expr(_), ABE::Expr(_)] = l {
            return Err(RErr::Other);
        }
    }
    let c = r_eval(l, log)?;
    // split in calls at '/'
    let mut carry: Vec<u8> = vec![];
    let mut i = 0;
    while i < c.len() {
        let mut j = i + 1;
        while j < c.len() && c[j].0 != b'/' {
            j += 1
        }
        let g = &c[i..j];
        if g.len() > 16 {
            return Err(RErr::Other);
        }
        if g[0].0 == b':' {
            carry = g.iter().flat_map(|x| x.1.iter().copied()).collect();
        } else {
            let init = g[0].0 == 0;
            let id = g[0].1.clone();
            let mut args: Vec<&[u8]> = vec![];
            if !init {
                args.push(&carry)
            }
            for a in &g[1..] {
                args.push(&a.1)
            }
            log.push(b'F');
            log.extend_from_slice(&answer(&id, &args, init));
            match class(&id) {
                1 => return Err(RErr::NoFunc(id)),
                2 => return Err(RErr::Func(id)),
                _ => {
                    let v = answer(&id, &args, init);
                    carry = v
                }
            }
        }
        i = j
    }
    Ok(carry)
}
struct Rec(RefCell<Vec<u8>>);
impl Scope for Rec {
    fn try_apply_macro(&self, id: &[u8], abe: &[ABE], _scope: &dyn Scope) -> ApplyResult {
        let mut l = self.0.borrow_mut();
        l.push(b'M');
        l.extend_from_slice(id);
        l.push(abe.len() as u8);
        match class(id) {
            1 => ApplyResult::NoValue,
            2 => ApplyResult::Err(anyhow::anyhow!("e")),
            _ => {
                let mut o = id.to_vec();
                r_dump(&mut o, abe);
                ApplyResult::Value(o)
            }
        }
    }
    fn try_apply_func(&self, id: &[u8], args: &[&[u8]], init: bool, _scope: &dyn Scope) -> ApplyResult {
        let v = answer(id, args, init);
        let mut l = self.0.borrow_mut();
        l.push(b'F');
        l.extend_from_slice(&v);
        match class(id) {
            1 => ApplyResult::NoValue,
            2 => ApplyResult::Err(anyhow::anyhow!("e")),
            _ => ApplyResult::Value(v),
        }
    }
    fn try_encode(&self, _: &[u8], _: &[ABE], _: &[u8]) -> ApplyResult<String> {
        ApplyResult::NoValue
    }
}
fn compare(v: &[ABE]) {
    let mut log = vec![];
    let want = r_eval(v, &mut log);
    let rec = Rec(RefCell::new(vec![]));
    let got = eval(&rec, v);
    let glog = rec.0.into_inner();
    check(same(&glog, &log), 1);
    observe(&glog);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            check(same_list(&g, &w), 2);
            let c = g.concat();
            check(same(&c, &r_concat(&w)), 3);
            observe(&c);
            reach(1)
        }
        (Err(EvalError::NoSuchFunc(i)), Err(RErr::NoFunc(w))) => {
            check(same(&i, &w), 4);
            reach(2)
        }
        (Err(EvalError::Func(i, _)), Err(RErr::Func(w))) => {
            check(same(&i, &w), 5);
            reach(3)
        }
        (Err(EvalError::NoSuchSubEval(i)), Err(RErr::NoMacro(w))) => {
            check(same(&i, &w), 6);
            reach(4)
        }
        (Err(EvalError::SubEval(i, _)), Err(RErr::Macro(w))) => {
            check(same(&i, &w), 7);
            reach(5)
        }
        (Err(EvalError::Other(_)), Err(RErr::Other)) => reach(6),
        _ => check(false, 8),
    }
}
fn ev<const NODES: usize>() {
    let mut b = NODES;
    let v = gen(&mut b, NODES, 1);
    compare(&v)
}
pub fn p07_eval4() { ev::<4>() }
pub fn p07_eval5() { ev::<5>() }
pub fn p07_eval6() { ev::<6>() }
pub fn p07_eval7() { ev::<7>() }
/// the expression in one bracket: any sequence of delimiters and literals
fn ev_flat<const NODES: usize>() {
    let mut b = NODES;
    let v = gen(&mut b, 0, 1);
    compare(&[ABE::Expr(Expr::Lst(v))])
}
pub fn p07_flat7() { ev_flat::<7>() }
pub fn p07_flat9() { ev_flat::<9>() }
/// many components: the 16 component limit, in the first and in a chained call
pub fn p07_args() {
    let n = choice(20);
    let lead = choice(3);
    let chained = bool();
    let mut v = vec![];
    if chained {
        v.push(ABE::Expr(Expr::Bytes(b"f".to_vec())));
        v.push(ABE::Ctr(Ctr::Colon));
        v.push(ABE::Expr(Expr::Bytes(vec(2))));
        v.push(ABE::Ctr(Ctr::FSlash));
    }
    if !chained && lead == 2 {
        v.push(ABE::Ctr(Ctr::Colon))
    }
    if lead != 1 {
        v.push(ABE::Expr(Expr::Bytes(b"g".to_vec())));
    }
    for i in 0..n {
        v.push(ABE::Ctr(Ctr::Colon));
        if bool_at(i, n) {
            v.push(ABE::Expr(Expr::Bytes(vec(2))))
        }
    }
    if bool() {
        v.push(ABE::Ctr(Ctr::FSlash));
        v.push(ABE::Expr(Expr::Bytes(b"h".to_vec())));
    }
    compare(&[ABE::Expr(Expr::Lst(v))]);
    if n == 15 {
        reach(7)
    }
    if n == 16 {
        reach(8)
    }
}
/// all arguments present except the one at an arbitrary place
fn bool_at(i: usize, n: usize) -> bool {
    !(i == 0 && n % 2 == 0)
}

// ---------------------------------------------------------------- P06
/// an arbitrary list value: components as the evaluator can produce them
fn genlist(max: usize, lit: usize) -> (ABList, RList) {
    let n = choice(max + 1);
    let mut r: RList = vec![];
    let mut l = ABList::default();
    for i in 0..n {
        let c = if i == 0 { choice(3) } else { 1 + choice(2) };
        let b = vec_upto(lit);
        let ctr = [None, Some(Ctr::Colon), Some(Ctr::FSlash)][c];
        r.push(([0, b':', b'/'][c], b.clone()));
        l.push_v((ctr, b))
    }
    (l, r)
}
fn list<const N: usize, const LIT: usize>() {
    let (l, r) = genlist(N, LIT);
    check(same_list(&l, &r), 1);
    // concatenation keeps the delimiters
    let single = r.is_empty() || (r.len() == 1 && r[0].0 == 0);
    let c = l.clone().concat();
    check(same(&c, &r_concat(&r)), 2);
    let c2: Vec<u8> = l.clone().into();
    check(same(&c2, &c), 3);
    // text form
    let t = l.to_string();
    observe(t.as_bytes());
    let mut w = vec![];
    for (d, b) in &r {
        if *d != 0 {
            w.push(*d)
        }
        for x in b {
            ref_escape(*x, &mut w)
        }
    }
    check(same(t.as_bytes(), &w), 4);
    // a list consisting of the empty component and the empty list have the same text
    let norm: RList = if r.len() == 1 && r[0].0 == 0 && r[0].1.is_empty() { vec![] } else { r.clone() };
    // a first component without delimiter which is empty is not visible
    let norm: RList = if norm.len() > 1 && norm[0].0 == 0 && norm[0].1.is_empty() { norm[1..].to_vec() } else { norm };
    match abe::abconf::parse_ablist_b(t.as_bytes()) {
        Ok(p) => {
            check(same_list(&p, &norm), 5);
            reach(1)
        }
        Err(_) => check(false, 6),
    }
    // evaluating the items of the list gives the list
    let items: Vec<ABE> = l.clone().into();
    match eval(&(), &items) {
        Ok(p) => check(same_list(&p, &norm), 7),
        Err(_) => check(false, 8),
    }
    match ABList::try_from(&items[..]) {
        Ok(p) => check(same_list(&p, &norm), 9),
        Err(_) => check(false, 10),
    }
    check(print_abe(&items).as_bytes() == t.as_bytes(), 11);
    let mut k = 0;
    for it in l.item_refs() {
        check(k < items.len() && match (&items[k], it) {
            (ABE::Ctr(a), ABItem::Ctr(b)) => *a as u8 == b as u8,
            (ABE::Expr(Expr::Bytes(a)), ABItem::Bytes(b)) => same(a, b),
            _ => false,
        }, 24);
        k += 1
    }
    check(k == items.len(), 25);
    let again: Vec<ABE> = l.clone().into_iter().collect();
    check(again == items, 26);
    let again: ABList = l.clone().items().collect();
    check(same_list(&again, &norm), 27);
    let mut by_v = ABList::default();
    for x in l.iter() {
        by_v.push_v(x.clone())
    }
    check(by_v == l, 28);
    check(l.clone().unwrap().len() == r.len(), 29);
    if single && !r.is_empty() {
        check(same_list(&ABList::from(&c[..]), &r) && same_list(&ABList::from(c.clone()), &r), 30)
    }
    // logical components
    let mut comps: Vec<&[u8]> = vec![];
    if r.first().map(|x| x.0 != 0).unwrap_or(false) {
        comps.push(b"")
    }
    for x in &r {
        comps.push(&x.1)
    }
    let got: Vec<&[u8]> = l.iter_bytes().collect();
    check(got.len() == comps.len(), 12);
    for (a, b) in got.iter().zip(&comps) {
        check(same(a, b), 13)
    }
    let got: Vec<Vec<u8>> = l.clone().into_iter_bytes().collect();
    check(got.len() == comps.len(), 14);
    for (a, b) in got.iter().zip(&comps) {
        check(same(a, b), 15)
    }
    // exact bytes only without any delimiter
    check(l.as_exact_bytes().is_ok() == single, 16);
    match l.clone().into_exact_bytes() {
        Ok(b) => check(single && same(&b, &c), 17),
        Err(x) => check(!single && same_list(&x, &r), 18),
    }
    check(l.is_empty() == (single && c.is_empty()), 19);
    // pop_front removes the first component
    let mut m = l.clone();
    let f = m.pop_front();
    check(f.is_some() == !r.is_empty(), 20);
    if let Some((_, b)) = f {
        check(same(&b, &r[0].1), 21);
        check(same_list(&m, &r[1..].to_vec()), 22)
    } else {
        check(same_list(&m, &r), 23)
    }
}
pub fn p06_list2() { list::<2, 1>() }
pub fn p06_list3() { list::<3, 1>() }
pub fn p06_list22() { list::<2, 2>() }
/// clist and flist
pub fn p06_delim() {
    let n = choice(4);
    let v: Vec<Vec<u8>> = (0..n).map(|_| vec_upto(2)).collect();
    let colon = bool();
    let l = if colon { clist(&v) } else { flist(&v) };
    let d = if colon { b':' } else { b'/' };
    let r: RList = v.iter().enumerate().map(|(i, b)| (if i == 0 { 0 } else { d }, b.clone())).collect();
    check(same_list(&l, &r), 1);
    let got: Vec<&[u8]> = l.iter_bytes().collect();
    check(got.len() == n, 2);
    for (a, b) in got.iter().zip(&v) {
        check(same(a, b), 3)
    }
    // pushing the items one by one
    let mut p = ABList::default();
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            p = p.push_ctr(if colon { Ctr::Colon } else { Ctr::FSlash })
        }
        p = p.push_bytes(b)
    }
    check(same_list(&p, &r), 4);
    reach(1)
}

// ---------------------------------------------------------------- P07 scope combinators
struct One(u8, u8);
/// a scope that answers (value/err) or not, to one id
impl Scope for One {
    fn try_apply_macro(&self, id: &[u8], _abe: &[ABE], _s: &dyn Scope) -> ApplyResult {
        self.ans(id)
    }
    fn try_apply_func(&self, id: &[u8], _a: &[&[u8]], _i: bool, _s: &dyn Scope) -> ApplyResult {
        self.ans(id)
    }
    fn try_encode(&self, id: &[u8], _: &[ABE], _: &[u8]) -> ApplyResult<String> {
        self.ans(id).map(|v| (v[0] as char).to_string())
    }
}
impl One {
    fn ans(&self, _id: &[u8]) -> ApplyResult {
        match self.0 {
            0 => ApplyResult::NoValue,
            1 => ApplyResult::Value(vec![self.1]),
            _ => ApplyResult::Err(anyhow::anyhow!("e")),
        }
    }
}
fn first_wins(s: &dyn Scope, k: &[u8]) {
    let want = k.iter().position(|x| *x != 0);
    let chk = |r: ApplyResult, id: u32| match (r, want) {
        (ApplyResult::NoValue, None) => {}
        (ApplyResult::Value(v), Some(i)) => check(k[i] == 1 && v == [b'a' + i as u8], id),
        (ApplyResult::Err(_), Some(i)) => check(k[i] == 2, id),
        _ => check(false, id),
    };
    chk(s.try_apply_func(b"x", &[], true, &()), 1);
    chk(s.try_apply_macro(b"x", &[], &()), 2);
    chk(s.try_encode(b"x", &[], b"").map(|s| s.into_bytes()), 3);
    // the chain as the evaluator uses it
    let v = [ABE::Expr(Expr::Lst(vec![ABE::Expr(Expr::Bytes(b"x".to_vec()))]))];
    match (eval(s, &v), want) {
        (Ok(l), Some(i)) => check(k[i] == 1 && l.concat() == [b'a' + i as u8], 4),
        (Err(EvalError::NoSuchFunc(_)), None) => reach(1),
        (Err(EvalError::Func(..)), Some(i)) => {
            check(k[i] == 2, 5);
            reach(2)
        }
        _ => check(false, 6),
    }
}
pub fn p07_scopes() {
    let k: Vec<u8> = (0..4).map(|_| choice(3) as u8).collect();
    let o = |i: usize| One(k[i], b'a' + i as u8);
    match choice(6) {
        0 => first_wins(&(o(0), o(1)), &k[..2]),
        1 => first_wins(&(o(0), o(1), o(2)), &k[..3]),
        2 => first_wins(&((o(0), o(1)), (o(2), o(3))), &k),
        3 => {
            let first = bool().then(|| o(0));
            let none = first.is_none();
            let mut kk = k.clone();
            if none {
                kk[0] = 0
            }
            first_wins(&(first, o(1)), &kk[..2])
        }
        4 => first_wins(&((), (&o(0), o(1))), &k[..2]),
        _ => {
            let r: anyhow::Result<One> = if bool() { Ok(o(0)) } else { Err(anyhow::anyhow!("x")) };
            let mut kk = k.clone();
            if r.is_err() {
                kk[0] = 2
            }
            first_wins(&(r, o(1)), &kk[..2])
        }
    }
}
/// EScope: lookup by exact id, argument count and position in the chain
struct Impl;
impl EvalScopeImpl for Impl {
    fn list_funcs(&self) -> &[ScopeFunc<&Self>] {
        abe::fncs!([
            ("p", 1..=2, "", |_, i: &[&[u8]]| Ok::<_, ApplyErr>(i.concat())),
            ("q", 0..=0, Some(true), "", |_, _i: &[&[u8]]| Ok::<_, ApplyErr>(b"Q".to_vec())),
            ("r", 1..=3, Some(false), "", |_, i: &[&[u8]]| Ok::<_, ApplyErr>(vec![i.len() as u8])),
            ("pp", 0..=16, "", |_, i: &[&[u8]]| Ok::<_, ApplyErr>(vec![b'z', i.len() as u8]))
        ])
    }
}
pub fn p07_escope() {
    let id = vec_upto(2);
    let n = choice(6);
    let args: Vec<Vec<u8>> = (0..n).map(|_| vec(1)).collect();
    let a: Vec<&[u8]> = args.iter().map(|x| &x[..]).collect();
    let init = bool();
    let r = EScope(Impl).try_apply_func(&id, &a, init, &());
    let known = |r: ApplyResult, argc: std::ops::RangeInclusive<usize>, ini: Option<bool>, v: Vec<u8>| {
        let ok = argc.contains(&n) && (ini.is_none() || ini == Some(init));
        match r {
            ApplyResult::Value(g) => {
                check(ok && same(&g, &v), 1);
                reach(1)
            }
            ApplyResult::Err(_) => {
                check(!ok, 2);
                reach(2)
            }
            ApplyResult::NoValue => check(false, 3),
        }
    };
    match &id[..] {
        b"p" => known(r, 1..=2, None, a.concat()),
        b"q" => known(r, 0..=0, Some(true), b"Q".to_vec()),
        b"r" => known(r, 1..=3, Some(false), vec![n as u8]),
        b"pp" => known(r, 0..=16, None, vec![b'z', n as u8]),
        _ => {
            check(matches!(r, ApplyResult::NoValue), 4);
            reach(3)
        }
    }
    check(matches!(EScope(Impl).try_encode(&id, &[], b"x"), ApplyResult::NoValue), 5);
    check(matches!(EScope(Impl).try_apply_macro(&id, &[], &()), ApplyResult::NoValue), 6);
}

// ---------------------------------------------------------------- P13 ABConf
fn conf_list(max: usize) -> (ABList, RList) {
    genlist(max, 1)
}
/// lookups find the latest entry whose first components are the key
fn conf<const ENTRIES: usize, const COMPS: usize>() {
    let n = choice(ENTRIES + 1);
    let mut c = abe::abconf::ABConf::new(vec![]);
    let mut rs: Vec<RList> = vec![];
    for _ in 0..n {
        let (l, r) = conf_list(COMPS);
        c.push(l);
        rs.push(r)
    }
    let k = 1 + choice(2);
    let keys: Vec<Vec<u8>> = (0..k).map(|i| if i == 0 { vec_upto(1) } else { vec(1) }).collect();
    let key: Vec<&[u8]> = keys.iter().map(|x| &x[..]).collect();
    // logical components of an entry with the delimiter in front of each
    let logical = |r: &RList| -> Vec<(u8, Vec<u8>)> {
        let mut v = r.clone();
        if r.first().map(|x| x.0 != 0).unwrap_or(false) {
            v.insert(0, (0, vec![]))
        }
        v
    };
    let hits: Vec<Vec<(u8, Vec<u8>)>> = rs
        .iter()
        .rev()
        .map(logical)
        .filter(|v| {
            if v.len() < k {
                return false;
            }
            let mut ok = true;
            for (x, w) in v.iter().zip(&key) {
                ok = ok && same(&x.1, w)
            }
            ok
        })
        .collect();
    let got: Vec<&ABList> = c.get_inner(&key).collect();
    check(got.len() == hits.len(), 1);
    for (g, h) in got.iter().zip(&hits) {
        let gl: Vec<&[u8]> = g.iter_bytes().collect();
        check(gl.len() == h.len(), 2);
        for (a, b) in gl.iter().zip(h) {
            check(same(a, &b.1), 3)
        }
    }
    match hits.first() {
        None => {
            check(c.has_optional_value(&key).is_none(), 4);
            reach(1)
        }
        Some(h) => {
            // delimiters inside the key must be ':'
            let r = c.has_optional_value(&key);
            let slash_in_key = h[..k].iter().any(|x| x.0 == b'/');
            match r {
                None => check(false, 5),
                Some(Err(_)) => {
                    check(slash_in_key || h.len() > k + 1 || (h.len() == k + 1 && h[k].0 != b':'), 6);
                    reach(2)
                }
                Some(Ok(None)) => {
                    check(h.len() == k && !slash_in_key, 7);
                    reach(3)
                }
                Some(Ok(Some(v))) => {
                    check(h.len() == k + 1 && h[k].0 == b':' && same(v, &h[k].1) && !slash_in_key, 8);
                    reach(4)
                }
            }
        }
    }
    if k == 1 {
        let g = c.get(key[0]);
        check(g.is_some() == !hits.is_empty(), 9)
    }
}
pub fn p13_conf1() { conf::<1, 3>() }
pub fn p13_conf2() { conf::<2, 2>() }
pub fn p13_conf3() { conf::<2, 3>() }
/// text form: one entry per line, the latest first; parsing it gives the entries back
fn conf_text<const N: usize, const C: usize>() {
    let n = choice(N + 1);
    let mut c = abe::abconf::ABConf::new(vec![]);
    let mut rs: Vec<RList> = vec![];
    for _ in 0..n {
        let (l, r) = genlist(C, 1);
        // the empty first component is not visible in text
        assume(!(r.len() > 0 && r[0].0 == 0 && r[0].1.is_empty()));
        c.push(l);
        rs.push(r)
    }
    let t = c.to_string();
    observe(t.as_bytes());
    let hdr = choice(2);
    // without header an entry that looks like one is taken for it
    assume(hdr == 1 || !t.starts_with(":%"));
    let t2 = if hdr == 1 { format!(":%abctxt\n{t}") } else { t.clone() };
    match abe::abconf::ABConf::try_from(t2.as_bytes()) {
        Ok(p) => {
            // one empty entry for the end of the text
            let all: Vec<&ABList> = p.get_inner(&[]).collect();
            check(all.len() == n + 1, 1);
            for (i, r) in rs.iter().rev().enumerate() {
                check(same_list(all[i], r), 2)
            }
            check(all[n].is_empty(), 3);
            let mut w = t.clone();
            w.push('\n');
            check(p.to_string() == w, 4);
            reach(1)
        }
        Err(_) => check(false, 5),
    }
}
pub fn p13_text1() { conf_text::<1, 2>() }
pub fn p13_text2() { conf_text::<2, 1>() }
/// reading any text never panics and either gives one entry per line or an error
fn conf_any<const N: usize>() {
    let n = choice(N + 1);
    let all = vec(n);
    let mut s = &all[..];
    let mut lines = 1;
    let mut ok = true;
    if s.starts_with(b":%") {
        ok = s.starts_with(b":%abctxt\n");
        s = if ok { &s[9..] } else { b"" };
    }
    for l in s.split(|b| *b == b'\n') {
        ok = ok && abe::abconf::parse_ablist_b(l).is_ok();
    }
    for b in s {
        if *b == b'\n' {
            lines += 1
        }
    }
    match abe::abconf::ABConf::try_from(&all) {
        Ok(c) => {
            check(ok, 1);
            check(c.get_inner(&[]).count() == lines, 2);
            let mut it = c.get_inner(&[]);
            for l in s.split(|b| *b == b'\n') {
                match (it.next(), abe::abconf::parse_ablist_b(l)) {
                    (Some(a), Ok(b)) => check(*a == b, 3),
                    _ => check(false, 4),
                }
            }
            reach(1)
        }
        Err(_) => {
            check(!ok, 5);
            reach(2)
        }
    }
}
pub fn p13_any3() { conf_any::<3>() }
pub fn p13_any4() { conf_any::<4>() }

symrt::export!(p07_eval4, p07_eval5, p07_eval6, p07_eval7, p07_flat7, p07_flat9, p07_args, p07_scopes, p07_escope, p06_list2, p06_list3, p06_list22, p06_delim, p13_conf1, p13_conf2, p13_conf3, p13_text1, p13_text2, p13_any3, p13_any4);
