//! the functions of the basic scope against reference definitions
use abe::ast::*;
use abe::eval::*;
use abe::scope::BASIC_SCOPE;
use symrt::*;

/// `[f:a0:a1..]` evaluated in the basic scope
pub fn call_in(s: &dyn Scope, f: &[u8], args: &[&[u8]]) -> Result<Vec<u8>, EvalError> {
    let mut v = vec![];
    let lit = |v: &mut Vec<ABE>, b: &[u8]| {
        if !b.is_empty() {
            v.push(ABE::Expr(Expr::Bytes(b.to_vec())))
        }
    };
    lit(&mut v, f);
    for a in args {
        v.push(ABE::Ctr(Ctr::Colon));
        lit(&mut v, a)
    }
    Ok(eval(s, &[ABE::Expr(Expr::Lst(v))])?.concat())
}
pub fn call(f: &[u8], args: &[&[u8]]) -> Result<Vec<u8>, EvalError> {
    call_in(&BASIC_SCOPE, f, args)
}
/// the result is the value, or an error of the function itself
pub fn expect(r: Result<Vec<u8>, EvalError>, want: Option<Vec<u8>>, id: u32) {
    match (r, want) {
        (Ok(g), Some(w)) => {
            observe(&g);
            check(same(&g, &w), id);
            reach(1)
        }
        (Err(EvalError::Func(..)), None) => reach(2),
        _ => check(false, id + 1),
    }
}
/// decimal text as std's FromStr reads it: optional '+', at least one digit
pub fn r_dec(t: &[u8], max: u128) -> Option<u128> {
    let t = t.strip_prefix(b"+").unwrap_or(t);
    if t.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for d in t {
        if !(b'0'..=b'9').contains(d) {
            return None;
        }
        v = v.checked_mul(10)?.checked_add((*d - b'0') as u128)?
    }
    if v > max {
        None
    } else {
        Some(v)
    }
}
const USIZE: u128 = usize::MAX as u128;

// ---------------------------------------------------------------- P08
const PADS: [(&[u8], bool, u8, bool, bool); 8] = [
    // name, left, default, error when too long, cut
    (b"a", true, 0, true, false),
    (b"f", true, 255, true, false),
    (b"lpad", true, 0, true, false),
    (b"rpad", false, 0, true, false),
    (b"~lpad", true, 0, false, false),
    (b"~rpad", false, 0, false, false),
    (b"lfixed", true, 0, false, true),
    (b"rfixed", false, 0, false, true),
];
fn r_pad(k: usize, args: &[&[u8]]) -> Option<Vec<u8>> {
    let (_, left, def, strict, cut) = PADS[k];
    let len = match args.get(1) {
        None | Some([]) => 16,
        Some(t) => r_dec(t, USIZE)? as usize,
    };
    let mut b = args[0];
    if cut && b.len() > len {
        b = if left { &b[..len] } else { &b[b.len() - len..] };
    }
    if b.len() > len {
        return if strict { None } else { Some(b.to_vec()) };
    }
    let p = match args.get(2) {
        None => def,
        Some([x]) => *x,
        _ => return None,
    };
    if len > 1 << 40 {
        return None;
    }
    let mut v = vec![];
    if left {
        v.resize(len - b.len(), p);
        v.extend_from_slice(b)
    } else {
        v.extend_from_slice(b);
        v.resize(len, p)
    }
    Some(v)
}
fn lens(k: usize) -> Vec<u8> {
    match k {
        0 => vec_upto(2),
        1 => b"17".to_vec(),
        2 => b"40".to_vec(),
        3 => b"255".to_vec(),
        4 => b"9223372036854775807".to_vec(),
        5 => b"9223372036854775808".to_vec(),
        6 => b"18446744073709551615".to_vec(),
        7 => b"18446744073709551616".to_vec(),
        _ => b"340282366920938463463374607431768211457".to_vec(),
    }
}
fn pad(huge: bool, blen: usize) {
    let k = choice(8);
    let b = vec(blen);
    let n = choice(3);
    let l = if n > 0 { if huge { lens(1 + choice(8)) } else { lens(0) } } else { vec![] };
    let p = if n > 1 { vec_upto(2) } else { vec![] };
    let a: [&[u8]; 3] = [&b, &l, &p];
    let a = &a[..n + 1];
    expect(call(PADS[k].0, a), r_pad(k, a), 1)
}
pub fn p08_pad() { pad(false, choice(4)) }
pub fn p08_padlong() { pad(false, 12 + choice(10)) }
pub fn p08_padhuge() { pad(true, [0, 1, 16, 17, 41][choice(5)]) }
fn cutf(huge: bool, blen: usize) {
    let k = choice(4);
    let (f, left, strict): (&[u8], bool, bool) = [(&b"lcut"[..], true, true), (b"rcut", false, true), (b"~lcut", true, false), (b"~rcut", false, false)][k];
    let b = vec(blen);
    let n = choice(2);
    let l = if n > 0 { if huge { lens(1 + choice(8)) } else { lens(0) } } else { vec![] };
    let a: [&[u8]; 2] = [&b, &l];
    let a = &a[..n + 1];
    let len = if n == 0 { Some(16) } else { r_dec(&l, USIZE).map(|x| x as usize) };
    let want = match len {
        None => None,
        Some(len) if len > b.len() => {
            if strict {
                None
            } else {
                Some(b.clone())
            }
        }
        Some(len) => Some(if left { b[..len].to_vec() } else { b[b.len() - len..].to_vec() }),
    };
    expect(call(f, a), want, 1)
}
pub fn p08_cut() { cutf(false, choice(5)) }
pub fn p08_cuthuge() { cutf(true, [0, 1, 16, 17, 20][choice(5)]) }

/// python slicing; indices are signed decimal text, '' and absent mean the default
fn r_slice(n: usize, args: &[&[u8]]) -> Option<Vec<usize>> {
    let n = n as i128;
    let sgn = |t: Option<&&[u8]>| -> Option<Option<i128>> {
        let t = t.copied().unwrap_or(b"");
        if t.is_empty() {
            return Some(None);
        }
        Some(Some(match t.strip_prefix(b"-") {
            Some(m) => n - r_dec(m, USIZE)? as i128,
            None => r_dec(t, USIZE)? as i128,
        }))
    };
    let start = sgn(args.first())?;
    let stop = sgn(args.get(1))?;
    let step: i128 = match args.get(2) {
        None => 1,
        Some(t) => match t.strip_prefix(b"-") {
            // std's signed parser does not take "-+1"
            Some(m) if m.first() == Some(&b'+') => return None,
            Some(m) => -(r_dec(m, 1 << 63)? as i128),
            None => r_dec(t, (1 << 63) - 1)? as i128,
        },
    };
    if step == 0 {
        return Some(vec![]);
    }
    let (lo, hi) = if step > 0 { (0, n) } else { (-1, n - 1) };
    let cl = |v: i128| if v < lo { lo } else if v > hi { hi } else { v };
    let s = start.map(cl).unwrap_or(if step > 0 { 0 } else { n - 1 });
    let e = stop.map(cl).unwrap_or(if step > 0 { n } else { -1 });
    let mut r = vec![];
    let mut i = s;
    while if step > 0 { i < e } else { i > e } {
        r.push(i as usize);
        i += step
    }
    Some(r)
}
const IDX: [&[u8]; 8] = [
    b"9223372036854775807", b"9223372036854775808", b"18446744073709551615", b"18446744073709551616", b"-9223372036854775807", b"-9223372036854775808", b"-9223372036854775809", b"-18446744073709551615",
];
fn idx(kind: usize) -> Vec<u8> {
    // 0: any text of up to two bytes   1: a small number or none   2: extreme values
    match kind {
        0 => vec_upto(2),
        1 => [&b""[..], b"0", b"1", b"2", b"3", b"4", b"5", b"-1", b"-2", b"-3", b"-4", b"-5", b"-6"][choice(13)].to_vec(),
        _ => IDX[choice(8)].to_vec(),
    }
}
fn slicef(kinds: [usize; 3], blen: usize) {
    let b = vec(blen);
    let n = choice(4);
    let t: Vec<Vec<u8>> = (0..n).map(|i| idx(kinds[i])).collect();
    let mut a: Vec<&[u8]> = vec![&b];
    for x in &t {
        a.push(x)
    }
    let want = r_slice(b.len(), &a[1..]).map(|v| v.iter().map(|i| b[*i]).collect());
    expect(call(b"slice", &a), want, 1)
}
pub fn p08_slice() { slicef([1, 1, 1], choice(6)) }
pub fn p08_slicetext() {
    let k = [[0, 1, 1], [1, 0, 1], [1, 1, 0]][choice(3)];
    slicef(k, 2)
}
pub fn p08_slicehuge() {
    let k = [[2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 2]][choice(4)];
    slicef(k, choice(3))
}
/// non overlapping, leftmost replacement
fn replacef(n: usize, m: usize) {
    let b = vec_upto(n);
    let from = vec_upto(m);
    let to = vec_upto(m);
    let mut w = vec![];
    let mut i = 0;
    if from.is_empty() {
        // nothing to look for: an error or the input, but an answer
        match call(b"replace", &[&b, &from, &to]) {
            Ok(g) => check(same(&g, &b), 3),
            Err(EvalError::Func(..)) => reach(2),
            Err(_) => check(false, 4),
        }
        return;
    }
    while i < b.len() {
        if i + from.len() <= b.len() && same(&b[i..i + from.len()], &from) {
            w.extend_from_slice(&to);
            i += from.len()
        } else {
            w.push(b[i]);
            i += 1
        }
    }
    expect(call(b"replace", &[&b, &from, &to]), Some(w), 1)
}
pub fn p08_replace() { replacef(4, 2) }
pub fn p08_replace5() { replacef(5, 3) }
/// ?a ?a0 ~utf8 C
pub fn p08_text() {
    let b = vec_upto(3);
    let mut w = vec![];
    for x in &b {
        crate::text::ref_escape(*x, &mut w)
    }
    expect(call(b"?a", &[&b]), Some(w), 1);
    let z = b.iter().take_while(|x| **x == 0).count();
    let mut w = vec![];
    for x in &b[z..] {
        crate::text::ref_escape(*x, &mut w)
    }
    expect(call(b"?a0", &[&b]), Some(w), 3);
    let mut ascii = true;
    for x in &b {
        ascii &= *x < 128
    }
    match call(b"~utf8", &[&b]) {
        Ok(g) => {
            check(std::str::from_utf8(&g).is_ok(), 5);
            if ascii {
                check(same(&g, &b), 6)
            }
        }
        Err(_) => check(false, 7),
    }
    expect(call(b"C", &[&b]), Some(vec![]), 8);
}
/// wrong numbers of arguments are function errors, unknown names are reported as such
pub fn p08_argc() {
    let names: [(&[u8], usize, usize); 30] = [
        (b"?a", 1, 1), (b"?a0", 1, 1), (b"a", 1, 3), (b"f", 1, 3), (b"lpad", 1, 3), (b"rpad", 1, 3), (b"~lpad", 1, 3), (b"~rpad", 1, 3), (b"lcut", 1, 2), (b"rcut", 1, 2), (b"~lcut", 1, 2),
        (b"~rcut", 1, 2), (b"lfixed", 1, 3), (b"rfixed", 1, 3), (b"replace", 3, 3), (b"slice", 1, 4), (b"u8", 1, 1), (b"u16", 1, 1), (b"u32", 1, 1), (b"u64", 1, 1), (b"u128", 1, 1), (b"?u", 1, 1),
        (b"lu", 1, 1), (b"?lu", 1, 1), (b"b2", 1, 1), (b"b8", 1, 1), (b"b16", 1, 1), (b"?b", 1, 1), (b"b", 1, 1), (b"size?", 3, 3),
    ];
    let (f, lo, hi) = names[choice(30)];
    let n = choice(6);
    let mut a: Vec<&[u8]> = vec![];
    for _ in 0..n {
        a.push(b"1")
    }
    match call(f, &a) {
        Err(EvalError::Func(..)) => reach(1),
        Err(_) => check(false, 1),
        Ok(_) => {
            check(n >= lo && n <= hi, 2);
            reach(2)
        }
    }
    // a prefix of a name or a longer name is a different name
    let mut g = f.to_vec();
    g.push(b'z');
    check(matches!(call(&g, &a), Err(EvalError::NoSuchFunc(_))), 3);
}
// ---------------------------------------------------------------- P15
pub fn p15_test() {
    let b = vec_upto(3);
    let t = vec_upto(2);
    let op = vec_upto(1);
    let is_eq = same(&op, b"=");
    let ok = is_eq && r_dec(&t, USIZE) == Some(b.len() as u128);
    expect(call(b"size?", &[&b, &op, &t]), if ok { Some(b.clone()) } else { None }, 1);
    let ok = is_eq && same(&b, &t);
    expect(call(b"val?", &[&b, &op, &t]), if ok { Some(b.clone()) } else { None }, 3);
}
/// `[/or:A:B:C]` is the first alternative that evaluates; an alternative is a sequence of literals, delimiters and calls
fn or_alts(alts: usize, items: usize) {
    let n = choice(alts + 1);
    let mut v = vec![ABE::Ctr(Ctr::FSlash), ABE::Expr(Expr::Bytes(b"or".to_vec()))];
    let junk = choice(4) == 0;
    if junk {
        v.push(ABE::Expr(Expr::Lst(vec![])))
    }
    let mut want: Option<Vec<u8>> = None;
    for _ in 0..n {
        v.push(ABE::Ctr(Ctr::Colon));
        let val = |f: &[u8], a: &[u8], e: bool| {
            let mut l = vec![ABE::Expr(Expr::Bytes(f.to_vec())), ABE::Ctr(Ctr::Colon), ABE::Expr(Expr::Bytes(a.to_vec()))];
            if e {
                l.extend([ABE::Ctr(Ctr::Colon), ABE::Expr(Expr::Bytes(b"1".to_vec()))])
            }
            ABE::Expr(Expr::Lst(l))
        };
        let mut r: Option<Vec<u8>> = Some(vec![]);
        let mut add = |x: Option<Vec<u8>>| match (&mut r, x) {
            (Some(r), Some(x)) => r.extend(x),
            (r, _) => *r = None,
        };
        let m = choice(items + 1);
        for _ in 0..m {
            match choice(5) {
                0 => {
                    let x = vec(1);
                    v.push(ABE::Expr(Expr::Bytes(x.clone())));
                    add(Some(x))
                }
                1 => {
                    // a value or an error depending on the byte
                    let x = vec(1);
                    v.push(val(b"u8", &x, false));
                    add(r_dec(&x, 255).map(|d| vec![d as u8]))
                }
                2 => {
                    v.push(val(b"nope", b"x", false));
                    add(None)
                }
                3 => {
                    v.push(val(b"slice", b"x", true));
                    add(Some(vec![]))
                }
                _ => {
                    v.push(ABE::Ctr(Ctr::FSlash));
                    add(Some(vec![b'/']))
                }
            }
        }
        if want.is_none() {
            want = r
        }
    }
    if junk {
        want = None
    }
    match (eval(&BASIC_SCOPE, &[ABE::Expr(Expr::Lst(v))]), want) {
        (Ok(l), Some(w)) => {
            check(same(&l.concat(), &w), 1);
            reach(1)
        }
        (Err(EvalError::SubEval(..)), None) => reach(2),
        _ => check(false, 2),
    }
}
pub fn p15_or() { or_alts(3, 1) }
pub fn p15_orseq() { or_alts(2, 2) }
// ---------------------------------------------------------------- P10
pub fn be(v: u128, n: usize) -> Vec<u8> {
    v.to_be_bytes()[16 - n..].to_vec()
}
pub fn le(v: u128, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}
const INTS: [(&[u8], &[u8], usize); 5] = [(b"u8", b"lu8", 1), (b"u16", b"lu16", 2), (b"u32", b"lu32", 4), (b"u64", b"lu64", 8), (b"u128", b"lu128", 16)];
fn max(n: usize) -> u128 {
    if n == 16 {
        u128::MAX
    } else {
        (1u128 << (8 * n)) - 1
    }
}
fn ints(t: &[u8]) {
    for (be_f, le_f, n) in INTS {
        let v = r_dec(t, max(n));
        expect(call(be_f, &[t]), v.map(|v| be(v, n)), 1);
        expect(call(le_f, &[t]), v.map(|v| le(v, n)), 3)
    }
    let v = r_dec(t, u128::MAX).map(|v| {
        let mut b = le(v, 16);
        while b.last() == Some(&0) {
            b.pop();
        }
        b
    });
    expect(call(b"lu", &[t]), v, 5);
}
pub fn p10_parse3() { ints(&vec_upto(3)) }
pub fn p10_parse4() { ints(&vec_upto(4)) }
/// numbers around the limits of each width: the last two digits are arbitrary bytes
pub fn p10_limits() {
    let t: &[u8] = [&b"2__"[..], b"655__", b"42949672__", b"184467440737095516__", b"3402823669209384634633746074317682114__"][choice(5)];
    let mut t = t.to_vec();
    let n = t.len();
    let d = bytes::<2>();
    t[n - 2] = d[0];
    t[n - 1] = d[1];
    if bool() {
        t.insert(0, b'0')
    }
    ints(&t)
}
/// printing: the decimal text of the value; reading it gives the value
fn print_u(n: usize, sym: usize) {
    // `sym` symbolic bytes at an arbitrary position of n bytes, the others 0
    let mut b = vec![0u8; n];
    let at = if n == sym { 0 } else { choice(n - sym + 1) };
    let s = vec(sym);
    b[at..at + sym].copy_from_slice(&s);
    let mut v = 0u128;
    for x in &b {
        v = v << 8 | *x as u128
    }
    let chk = |f: &[u8], v: u128, id: u32| match call(f, &[&b]) {
        Ok(t) => {
            check(!t.is_empty() && (t.len() == 1 || t[0] != b'0'), id);
            let mut digits = true;
            for d in &t {
                digits &= d.is_ascii_digit()
            }
            check(digits, id + 1);
            let mut w = 0u128;
            for d in &t {
                w = w * 10 + (*d - b'0') as u128
            }
            check(w == v, id + 2);
            reach(1)
        }
        Err(_) => check(false, id + 3),
    };
    chk(b"?u", v, 1);
    let mut v = 0u128;
    for x in b.iter().rev() {
        v = v << 8 | *x as u128
    }
    chk(b"?lu", v, 5)
}
pub fn p10_print1() { print_u([1, 2, 3, 8, 9, 16][choice(6)], 1) }
pub fn p10_print2() { print_u(2, 2) }
pub fn p10_print3() { print_u(3, 2) }
pub fn p10_printbig() {
    let n = 16 + choice(4);
    let b = vec(n);
    if n > 16 {
        expect(call(b"?u", &[&b]), None, 1);
        expect(call(b"?lu", &[&b]), None, 3)
    }
    // the empty number is 0
    expect(call(b"?u", &[b""]), Some(b"0".to_vec()), 5);
    expect(call(b"?lu", &[b""]), Some(b"0".to_vec()), 7);
}
/// saturating addition and subtraction of equally long big endian numbers
fn arith(lens: usize, args: usize) {
    let n = 1 + choice(args);
    let l = choice(lens + 1);
    let odd = if n > 1 && bool() { 1 + choice(n - 1) } else { 99 };
    let v: Vec<Vec<u8>> = (0..n).map(|i| vec(if i == odd { l + 1 } else { l })).collect();
    let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    let val = |b: &[u8]| {
        let mut v = 0u64;
        for x in b {
            v = v << 8 | *x as u64
        }
        v
    };
    let top = if l == 0 { 0 } else { (1u64 << (8 * l)) - 1 };
    let mut s = val(a[0]);
    let mut d = val(a[0]);
    for x in &a[1..] {
        let t = s + val(x);
        s = if t > top { top } else { t };
        let t = d.wrapping_sub(val(x));
        d = if val(x) > d { 0 } else { t };
    }
    let (s, d) = (s.to_be_bytes()[8 - l..].to_vec(), d.to_be_bytes()[8 - l..].to_vec());
    let bad = odd != 99;
    expect(call(b"+", &a), if bad { None } else { Some(s) }, 1);
    expect(call(b"-", &a), if bad { None } else { Some(d) }, 3);
}
pub fn p10_arith2() { arith(2, 3) }
pub fn p10_arith4() { arith(4, 3) }
/// wide operands: add then subtract, and against u128
pub fn p10_wide() {
    let n = [8usize, 16][choice(2)];
    let (x, y) = (vec(n), vec(n));
    let val = |b: &[u8]| {
        let mut v = 0u128;
        for x in b {
            v = v << 8 | *x as u128
        }
        v
    };
    let (a, b) = (val(&x), val(&y));
    let (s, c) = if n == 16 { a.overflowing_add(b) } else { (a + b, a + b > max(8)) };
    let s = if c { max(n) } else { s };
    let d = if b > a { 0 } else { a.wrapping_sub(b) };
    expect(call(b"+", &[&x, &y]), Some(be(s, n)), 1);
    expect(call(b"-", &[&x, &y]), Some(be(d, n)), 3);
}

// ---------------------------------------------------------------- P09
fn digit(c: u8, radix: u32) -> Option<u32> {
    let d = match c {
        b'0'..=b'9' => (c - b'0') as u32,
        b'a'..=b'z' => (c - b'a') as u32 + 10,
        b'A'..=b'Z' => (c - b'A') as u32 + 10,
        _ => return None,
    };
    if d < radix {
        Some(d)
    } else {
        None
    }
}
fn r_bin(t: &[u8], radix: u32) -> Option<Vec<u8>> {
    let t = t.strip_prefix(b"+").unwrap_or(t);
    if t.is_empty() {
        return None;
    }
    let mut v = 0u128;
    for c in t {
        v = v.checked_mul(radix as u128)?.checked_add(digit(*c, radix)? as u128)?
    }
    let b = be(v, 16);
    let z = b.iter().take_while(|x| **x == 0).count();
    Some(if v == 0 { vec![0] } else { b[z..].to_vec() })
}
fn bases(t: &[u8]) {
    for (f, r) in [(&b"b2"[..], 2), (b"b8", 8), (b"b16", 16)] {
        expect(call(f, &[t]), r_bin(t, r), 1)
    }
}
pub fn p09_bin3() { bases(&vec_upto(3)) }
pub fn p09_bin4() { bases(&vec_upto(4)) }
/// numbers at the 128 bit limit
pub fn p09_binlimit() {
    let (f, r, n, hi): (&[u8], u32, usize, u8) = [(&b"b16"[..], 16, 32, b'f'), (b"b8", 8, 43, b'3'), (b"b2", 2, 128, b'1')][choice(3)];
    let len = n - 1 + choice(3);
    let mut t = vec![match r {
        16 => b'f',
        8 => b'7',
        _ => b'1',
    }; len];
    t[0] = bytes::<1>()[0];
    let _ = hi;
    t[len - 1] = bytes::<1>()[0];
    expect(call(f, &[&t]), r_bin(&t, r), 1)
}
pub const URL: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
pub const STD: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn r_b64(b: &[u8], al: &[u8; 64], padded: bool) -> Vec<u8> {
    let mut r = vec![];
    for c in b.chunks(3) {
        let g = |i: usize| c.get(i).copied().unwrap_or(0) as usize;
        let v = g(0) << 16 | g(1) << 8 | g(2);
        for i in 0..4 {
            if i <= c.len() {
                r.push(al[(v >> (18 - 6 * i)) & 63])
            } else if padded {
                r.push(b'=')
            }
        }
    }
    r
}
/// base64 text of a value, and back
fn b64<const N: usize>() {
    let b = vec(N);
    let w = r_b64(&b, URL, false);
    expect(call(b"?b", &[&b]), Some(w.clone()), 1);
    expect(call(b"b", &[&w]), Some(b.clone()), 3);
    let ws = r_b64(&b, STD, true);
    expect(call(b"?bs", &[&b]), Some(ws.clone()), 5);
    expect(call(b"bs", &[&ws]), Some(b.clone()), 7);
    check(same(abe::scope::base::base64(&b).as_bytes(), &w), 9);
    match abe::scope::base::base64_decode(&w) {
        Ok(v) => check(same(&v, &b), 10),
        Err(_) => check(false, 11),
    }
}
pub fn p09_b64_0() { b64::<0>() }
pub fn p09_b64_1() { b64::<1>() }
pub fn p09_b64_2() { b64::<2>() }
pub fn p09_b64_3() { b64::<3>() }
pub fn p09_b64_4() { b64::<4>() }
/// any text: accepted exactly when it is the encoding of some value
fn b64any<const N: usize>() {
    let t = vec_upto(N);
    match call(b"b", &[&t]) {
        Ok(v) => {
            check(same(&r_b64(&v, URL, false), &t), 1);
            reach(1)
        }
        Err(EvalError::Func(..)) => {
            let mut all = t.len() % 4 != 1;
            for c in &t {
                let mut m = false;
                for x in URL {
                    m |= x == c
                }
                all &= m
            }
            // the unused low bits of the last digit must be zero
            let spare = match t.len() % 4 {
                2 => 16,
                3 => 4,
                _ => 1,
            };
            let mut last = 0;
            if let Some(c) = t.last() {
                for (i, x) in URL.iter().enumerate() {
                    if x == c {
                        last = i
                    }
                }
            }
            check(!all || last % spare != 0, 2);
            reach(2)
        }
        Err(_) => check(false, 3),
    }
}
pub fn p09_b64any2() { b64any::<2>() }
pub fn p09_b64any3() { b64any::<3>() }
/// 2mini: an abbreviation for every length
pub fn p09_mini() {
    let n = choice(70);
    let b = vec![b'a'; n];
    let full = r_b64(&b, URL, false);
    match call(b"2mini", &[&b]) {
        Ok(t) => {
            if n <= 12 {
                check(t == full, 1)
            } else {
                check(t[..6] == full[..6] && t[t.len() - 2..] == full[full.len() - 2..], 2);
                let mid = &t[6..t.len() - 2];
                let c = n / 8;
                check(mid.len() == c / 2 + c % 2, 3);
                check(mid.iter().take(c / 2).all(|x| *x == b':') && (c % 2 == 0 || mid.last() == Some(&b'.')), 4)
            }
            reach(1)
        }
        Err(_) => check(false, 5),
    }
}

// ---------------------------------------------------------------- P11
fn fits<const L: usize>() {
    let n = choice(L + 3);
    let b = vec(n);
    match abe::fit::<L>(&b) {
        Ok(v) => check(n == L && same(&v, &b), 1),
        Err(e) => check(n != L && e.size == Some(L) && e.got == Ok(n), 2),
    }
    match abe::fit_front::<L>(&b) {
        Ok(v) => {
            check(n <= L && same(&v[..n], &b), 3);
            let mut z = 0;
            for x in &v[n..] {
                z |= *x
            }
            check(z == 0, 4);
            reach(1)
        }
        Err(e) => check(n > L && e.got == Ok(n), 5),
    }
    match abe::fit_back::<7, L>(&b) {
        Ok(v) => {
            check(n <= L && same(&v[L - n..], &b), 6);
            let mut z = 0;
            for x in &v[..L - n] {
                z |= *x ^ 7
            }
            check(z == 0, 7)
        }
        Err(e) => check(n > L && e.got == Ok(n), 8),
    }
    let c = abe::cut_prefix_nulls(&b);
    let z = b.iter().take_while(|x| **x == 0).count();
    check(same(c, &b[z..]), 9);
    let c = abe::cut_ending_nulls2(&b);
    let z = b.iter().rev().take_while(|x| **x == 0).count();
    check(same(c, &b[..n - z]), 10);
    let c = abe::cut_prefixeq::<0xff>(&b);
    let z = b.iter().take_while(|x| **x == 0xff).count();
    check(same(c, &b[z..]), 11);
}
pub fn p11_fit() {
    match choice(4) {
        0 => fits::<0>(),
        1 => fits::<1>(),
        2 => fits::<4>(),
        _ => fits::<16>(),
    }
}

// ---------------------------------------------------------------- P13 arguments
/// `[N]` and `[argv:..]` give the arguments
pub fn p13_argv() {
    let n = choice(10);
    let args: Vec<Vec<u8>> = (0..n).map(|_| vec(1)).collect();
    let al: Vec<&[u8]> = args.iter().map(|x| &x[..]).collect();
    let scope = (abe::scope::argv::ArgList::new(&al[..]), &BASIC_SCOPE);
    let id = vec_upto(2);
    let two = bool();
    let mut v = vec![];
    if !id.is_empty() {
        v.push(ABE::Expr(Expr::Bytes(id.clone())))
    }
    if two {
        v.push(ABE::Ctr(Ctr::Colon))
    }
    let r = eval(&scope, &[ABE::Expr(Expr::Lst(v))]);
    let i = r_dec(&id, USIZE);
    match (r, i) {
        (Ok(l), Some(i)) => {
            check(!two && (i as usize) < n && same(&l.concat(), al[i as usize]), 1);
            reach(1)
        }
        (Err(EvalError::Func(..)), Some(i)) => {
            check(two || i as usize >= n, 2);
            reach(2)
        }
        (_, Some(_)) => check(false, 3),
        // not a number: any function of the basic scope
        (_, None) => {}
    }
    if let Some(a) = abe::scope::ArgV::try_fit(&al) {
        check(n <= 8, 4);
        match (EScope(a).try_apply_func(&id, &[], true, &()), &id[..]) {
            (ApplyResult::Value(g), [d @ b'0'..=b'7']) => {
                check(((d - b'0') as usize) < n && same(&g, al[(d - b'0') as usize]), 5);
                reach(3)
            }
            (ApplyResult::Err(_), [d @ b'0'..=b'7']) => check((d - b'0') as usize >= n, 6),
            (ApplyResult::NoValue, [b'0'..=b'7']) => check(false, 7),
            (ApplyResult::NoValue, _) => reach(4),
            _ => check(false, 8),
        }
    } else {
        check(n > 8, 9)
    };
}
pub fn p13_argvslice() {
    let n = choice(5);
    let args: Vec<Vec<u8>> = (0..n).map(|i| vec(i % 3)).collect();
    let al: Vec<&[u8]> = args.iter().map(|x| &x[..]).collect();
    let scope = abe::scope::argv::ArgList::new(&al[..]);
    let k = choice(4);
    let t: Vec<Vec<u8>> = (0..k).map(|i| idx(1)).collect();
    let a: Vec<&[u8]> = t.iter().map(|x| &x[..]).collect();
    let want = r_slice(n, &a).map(|v| v.iter().flat_map(|i| al[*i].iter().copied()).collect::<Vec<u8>>());
    expect(call_in(&scope, b"argv", &a), want, 1)
}

// ---------------------------------------------------------------- P14
const ENC: [&[u8]; 10] = [b"a", b"u8", b"u16", b"u32", b"u64", b"u128", b"b2", b"b16", b"b", b"bs"];
/// what an encoder prints evaluates to the value it was given
fn enc1(k: usize, b: &[u8]) {
    let opts = vec![ABE::Expr(Expr::Bytes(ENC[k].to_vec()))];
    match encode_abe(&BASIC_SCOPE, b, &opts, false) {
        Ok(t) => {
            observe(t.as_bytes());
            match parse_abe_strict_b(t.as_bytes()) {
                Ok(e) => match eval(&BASIC_SCOPE, &e) {
                    Ok(l) => match l.into_exact_bytes() {
                        Ok(v) => {
                            check(same(&v, b), 1);
                            reach(1)
                        }
                        Err(_) => check(false, 2),
                    },
                    Err(_) => check(false, 3),
                },
                Err(_) => check(false, 4),
            }
        }
        Err(EncodeError::NoneFound) => {
            // the text encoders take every value, the integers those of their width
            check(k >= 1 && k <= 7, 5);
            if k <= 5 && k >= 1 {
                check(b.len() != [1, 2, 4, 8, 16][k - 1], 6)
            }
            reach(2)
        }
        Err(_) => check(false, 7),
    }
}
fn encn<const N: usize>() {
    let k = choice(10);
    let b = vec_upto(N);
    assume(k != 0 || b.len() <= 2);
    enc1(k, &b)
}
pub fn p14_enc1() { encn::<1>() }
pub fn p14_enc2() { encn::<2>() }
pub fn p14_enc3() { encn::<3>() }
/// longer values: one symbolic byte anywhere, the others equal
pub fn p14_enclong() {
    let k = choice(10);
    let n = [4, 8, 15, 16, 17, 20][choice(6)];
    let mut b = vec![[0, 1, 0xff][choice(3)]; n];
    let at = [0, 1, n / 2, n - 1][choice(4)];
    b[at] = bytes::<1>()[0];
    enc1(k, &b)
}
/// option lists: encoders are tried in order, the empty option is the text encoding
pub fn p14_opts() {
    let b = vec_upto(2);
    let n = choice(4);
    let mut opts = vec![];
    let mut want: Option<usize> = None; // index of the encoder that must have been used
    let mut fallback = false;
    for i in 0..n {
        if i > 0 {
            opts.push(ABE::Ctr(Ctr::FSlash))
        }
        let c = choice(5);
        if c == 4 {
            if want.is_none() {
                fallback = true
            }
            continue;
        }
        let (name, ok): (&[u8], bool) = [(&b"u8"[..], b.len() == 1), (b"u16", b.len() == 2), (b"nope", false), (b"b", true)][c];
        opts.push(ABE::Expr(Expr::Bytes(name.to_vec())));
        if ok && want.is_none() && !fallback {
            want = Some(c)
        }
    }
    // splitting an empty option list gives no options at all
    if opts.is_empty() {
        fallback = false
    }
    let mut txt = vec![];
    for x in &b {
        crate::text::ref_escape(*x, &mut txt)
    }
    match encode_abe(&BASIC_SCOPE, &b, &opts, false) {
        Ok(t) => match want {
            Some(c) => {
                let p: &str = ["[u8:", "[u16:", "", "[b:"][c];
                check(t.starts_with(p) && t.ends_with(']'), 1);
                reach(1)
            }
            None => {
                check(fallback && same(t.as_bytes(), &txt), 2);
                reach(2)
            }
        },
        Err(EncodeError::NoneFound) => {
            check(want.is_none() && !fallback, 3);
            reach(3)
        }
        Err(_) => check(false, 4),
    }
}
/// length options: b and b16/b2 only apply to the listed lengths
pub fn p14_lens() {
    let b = vec_upto(2);
    let k = [6, 7, 8][choice(3)];
    let n = if k == 8 { 1 + choice(2) } else { 1 };
    let mut opts = vec![ABE::Expr(Expr::Bytes(ENC[k].to_vec()))];
    let mut any = false;
    for _ in 0..n {
        let l = choice(3);
        any |= l == b.len();
        opts.push(ABE::Ctr(Ctr::Colon));
        opts.push(ABE::Expr(Expr::Bytes(vec![b'0' + l as u8])));
    }
    match encode_abe(&BASIC_SCOPE, &b, &opts, false) {
        Ok(_) => {
            check(any, 1);
            reach(1)
        }
        Err(EncodeError::NoneFound) => {
            check(!any || k < 8, 2);
            reach(2)
        }
        Err(_) => check(false, 3),
    }
}
/// the functions ? ?? ??? eval and the macros e ? ~? :
pub fn p14_funcs() {
    let b = vec(2);
    let lit = |b: &[u8]| ABE::Expr(Expr::Bytes(b.to_vec()));
    let (col, sl) = (|| ABE::Ctr(Ctr::Colon), || ABE::Ctr(Ctr::FSlash));
    let w = match call(b"?", &[&b, b"u16"]) {
        Ok(w) => w,
        Err(_) => return check(false, 1),
    };
    check(w.starts_with(b"[u16:") && w.ends_with(b"]"), 2);
    observe(&w);
    let n = w.len();
    expect(call(b"??", &[&b, b"u16"]), Some(w[1..n - 1].to_vec()), 3);
    expect(call(b"???", &[&b, b"u16"]), Some(w[5..n - 1].to_vec()), 5);
    expect(call(b"eval", &[&w]), Some(b.clone()), 7);
    for m in [&b"?"[..], b"~?"] {
        let e = [ABE::Expr(Expr::Lst(vec![sl(), lit(m), col(), lit(&b), sl(), lit(b"nope"), sl(), lit(b"u16")]))];
        match eval(&BASIC_SCOPE, &e) {
            Ok(l) => check(same(&l.concat(), &w), 9),
            Err(_) => check(false, 10),
        }
    }
    // [/e:x:y] evaluates the rest
    let e = [ABE::Expr(Expr::Lst(vec![sl(), lit(b"e"), col(), lit(&b), sl(), ABE::Expr(Expr::Lst(vec![lit(b"u8"), col(), lit(b"7")]))]))];
    let mut want = b.clone();
    want.extend_from_slice(b"/\x07");
    match eval(&BASIC_SCOPE, &e) {
        Ok(l) => check(same(&l.concat(), &want), 11),
        Err(_) => check(false, 12),
    }
    expect(call(b"?", &[&b, b"nope"]), None, 13);
    reach(3)
}

symrt::export!(p08_pad, p08_padlong, p08_padhuge, p08_cut, p08_cuthuge, p08_slice, p08_slicetext, p08_slicehuge, p08_replace, p08_replace5, p08_text, p08_argc, p15_test, p15_or, p15_orseq,
    p10_parse3, p10_parse4, p10_limits, p10_print1, p10_print2, p10_print3, p10_printbig, p10_arith2, p10_arith4, p10_wide, p09_bin3, p09_bin4, p09_binlimit, p09_b64_0, p09_b64_1, p09_b64_2, p09_b64_3, p09_b64_4, p09_b64any2, p09_b64any3, p09_mini,
    p11_fit, p13_argv, p13_argvslice, p14_enc1, p14_enc2, p14_enc3, p14_enclong, p14_opts, p14_lens, p14_funcs);
