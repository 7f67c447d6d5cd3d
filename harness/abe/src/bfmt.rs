//! byte-fmt: AB / B64 newtypes, endian integers, typed expressions
use crate::funcs::{r_b64, r_dec, URL};
use crate::text::{ref_decode, ref_escape};
use abe::ast::*;
use abe::eval::*;
use abe::scope::BASIC_SCOPE;
use abe::{ABEValidator, ToABE, TypedABE};
use byte_fmt::endian_types::*;
use byte_fmt::*;
use std::str::FromStr;
use symrt::*;

fn r_fit(v: &[u8], n: usize, fill: u8) -> Option<Vec<u8>> {
    if v.len() > n {
        return None;
    }
    let mut r = vec![fill; n - v.len()];
    r.extend_from_slice(v);
    Some(r)
}
fn r_esc(b: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    for x in b {
        ref_escape(*x, &mut r)
    }
    r
}
fn eq(r: Option<&[u8]>, w: &Option<Vec<u8>>, id: u32) {
    match (r, w) {
        (Some(r), Some(w)) => {
            check(same(r, w), id);
            reach(1)
        }
        (None, None) => reach(2),
        _ => check(false, id + 1),
    }
}

// ---------------------------------------------------------------- P20
fn ab_n<const N: usize>(v: &[u8]) {
    let w = r_fit(v, N, 0);
    eq(try_ab::<N>(v).ok().as_ref().map(|a| &a.0[..]), &w, 1);
    eq(AB::<[u8; N]>::try_fit_byte_slice(v).ok().as_ref().map(|a| &a.0[..]), &w, 3);
    eq(AB::<[u8; N]>::try_from(v).ok().as_ref().map(|a| &a.0[..]), &w, 5);
    eq(AB::<[u8; N]>::try_fit_slice_filled::<255>(v).ok().as_ref().map(|a| &a.0[..]), &r_fit(v, N, 255), 7);
    eq(AB::<[u8; N]>::try_fit_slice_filled::<7>(v).ok().as_ref().map(|a| &a.0[..]), &r_fit(v, N, 7), 9);
    eq(AB::<[u8; N]>::try_from(ABList::from(v.to_vec())).ok().as_ref().map(|a| &a.0[..]), &w, 11);
    panic_ok(w.is_none());
    if bool() {
        let r = ab::<N>(v);
        eq(Some(&r.0), &w, 13)
    } else {
        let r = abx::<N>(v);
        eq(Some(&r.0), &r_fit(v, N, 255), 15)
    }
}
pub fn p20_fit() {
    let v = vec_upto(5);
    match choice(6) {
        0 => ab_n::<0>(&v),
        1 => ab_n::<1>(&v),
        2 => ab_n::<2>(&v),
        3 => ab_n::<3>(&v),
        4 => ab_n::<4>(&v),
        _ => ab_n::<16>(&v),
    }
}
pub fn p20_fitlong() {
    let v = vec(15 + choice(3));
    match choice(2) {
        0 => ab_n::<16>(&v),
        _ => ab_n::<32>(&v),
    }
}
/// text of a fixed size value reads back to the value; the pieces without leading nulls as well
fn ab_text<const N: usize>(b: [u8; N]) {
    let v = AB(b);
    let t = v.to_string();
    check(same(t.as_bytes(), &r_esc(&b)), 1);
    check(same(v.as_str(false).as_bytes(), &r_esc(&b)), 2);
    eq(AB::<[u8; N]>::from_str(&t).ok().as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 3);
    let mut cut = 0;
    while cut < N && b[cut] == 0 {
        cut += 1
    }
    check(same(v.cut_prefix_nulls(), &b[cut..]), 5);
    check(same(v.as_ref_cut(true), &b[cut..]) && same(v.as_ref_cut(false), &b), 6);
    let c = v.as_str(true).into_owned();
    check(same(c.as_bytes(), &r_esc(&b[cut..])), 7);
    eq(AB::<[u8; N]>::from_str(&c).ok().as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 8);
    // variable size
    let vv = AB(b.to_vec());
    check(same(vv.to_string().as_bytes(), &r_esc(&b)), 10);
    eq(AB::<Vec<u8>>::from_str(&t).ok().as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 11);
    check(same(byte_fmt::as_abtxt_c(&b, true).as_bytes(), &r_esc(&b[cut..])) && same(byte_fmt::as_abtxt_c(&b, false).as_bytes(), &r_esc(&b)), 13);
    let l: ABList = v.into();
    eq(l.as_exact_bytes().ok(), &Some(b.to_vec()), 14);
    check(ab_slice(&[b, b])[1].0 == b && AB::from_ref(&b).0 == b, 16);
    reach(3)
}
pub fn p20_text1() { ab_text::<1>(bytes()); }
pub fn p20_text3() { ab_text::<3>(bytes()); }
pub fn p20_text16() {
    let mut b = [b'x'; 16];
    let lead = [0, 1, 15][choice(3)];
    for i in 0..lead {
        b[i] = 0
    }
    let at = choice(16);
    b[at] = u8();
    ab_text(b)
}
pub fn p20_utf8() {
    let b: [u8; 3] = bytes();
    let v = AB(b);
    let mut cut = 0;
    while cut < 3 && b[cut] == 0 {
        cut += 1
    }
    let r = std::str::from_utf8(&b[cut..]).ok();
    check(v.utf8().ok() == r, 1);
    match r {
        Some(s) => check(same(v.try_utf8().as_bytes(), s.as_bytes()), 2),
        None => check(same(v.try_utf8().as_bytes(), &r_esc(&b[cut..])), 3),
    }
}
/// every text against the reference decoder
fn ab_parse<const N: usize>(t: &[u8]) {
    let w = ref_decode(t, N).and_then(|v| r_fit(&v, N, 0));
    eq(AB::<[u8; N]>::parse_abtxt(t).ok().as_ref().map(|a| &a.0[..]), &w, 1);
    if let Ok(s) = std::str::from_utf8(t) {
        eq(AB::<[u8; N]>::from_str(s).ok().as_ref().map(|a| &a.0[..]), &w, 3);
        eq(AB::<Vec<u8>>::from_str(s).ok().as_ref().map(|a| &a.0[..]), &ref_decode(t, 65000), 5)
    }
}
fn ab_parses(n: usize) {
    let t = vec_upto(n);
    match choice(4) {
        0 => ab_parse::<0>(&t),
        1 => ab_parse::<1>(&t),
        2 => ab_parse::<2>(&t),
        _ => ab_parse::<4>(&t),
    }
}
pub fn p20_parse4() { ab_parses(4) }
pub fn p20_parse5() { ab_parses(5) }
fn toabe<T: ToABE>(v: &T, w: &[u8], id: u32) -> Option<ABList> {
    let e = v.to_abe();
    let r = eval(&BASIC_SCOPE, &e).ok();
    eq(r.as_ref().and_then(|l| l.as_exact_bytes().ok()), &Some(w.to_vec()), id);
    let t = v.to_abe_str();
    let e2 = parse_abe_strict_b(t.as_bytes());
    let r2 = e2.ok().and_then(|e| eval(&BASIC_SCOPE, &e).ok());
    eq(r2.as_ref().and_then(|l| l.as_exact_bytes().ok()), &Some(w.to_vec()), id + 2);
    r
}
/// the abe expression of a value evaluates to the value
fn ab_abe<const N: usize>(b: [u8; N]) {
    let v = AB(b);
    let l = toabe(&v, &b, 1);
    eq(l.and_then(|l| AB::<[u8; N]>::try_from(l).ok()).as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 5);
    toabe(&AB(b.to_vec()), &b, 7);
}
pub fn p20_abe1() { ab_abe::<1>(bytes()) }
pub fn p20_abe2() { ab_abe::<2>(bytes()) }
pub fn p20_abe3() { ab_abe::<3>(bytes()) }
pub fn p20_abe16() {
    let mut b = [b'x'; 16];
    let f = [0u8, 255][choice(2)];
    for i in 0..[0, 1, 14, 16][choice(4)] {
        b[i] = f
    }
    let at = choice(16);
    b[at] = u8();
    ab_abe(b)
}
pub fn p20_u128() {
    let x = u128();
    let v: AB<[u8; 16]> = x.into();
    check(v.0 == crate::funcs::be(x, 16)[..], 1);
    let y: u128 = v.into();
    check(y == x && v.to_u128() == x && AB::<[u8; 16]>::from_u128(x).0 == v.0, 2)
}
/// any list converts to a fixed size value only when it is one plain component that fits
pub fn p20_list() {
    let (l, w) = small_list();
    let w2 = w.clone().and_then(|v| r_fit(&v, 2, 0));
    eq(AB::<[u8; 2]>::try_from(l.clone()).ok().as_ref().map(|a| &a.0[..]), &w2, 1);
    check(U8::try_from(l.clone()).ok().map(|u| vec![u.0]) == w.clone().filter(|v| v.len() == 1), 3);
    check(U16::try_from(l.clone()).ok().map(|u| u.0.to_vec()) == w.clone().filter(|v| v.len() == 2), 4);
    check(LU16::try_from(l.clone()).ok().map(|u| u.0.to_vec()) == w.clone().filter(|v| v.len() <= 2).map(|mut v| { v.resize(2, 0); v }), 5);
    check(String::try_from(l).ok() == w.and_then(|v| String::from_utf8(v).ok()), 6)
}
/// a list of at most 2 components of at most 2 bytes; the bytes if it is one plain component
fn small_list() -> (ABList, Option<Vec<u8>>) {
    let n = choice(3);
    let mut l = ABList::default();
    let mut w = Some(vec![]);
    for i in 0..n {
        let c = [None, Some(Ctr::Colon), Some(Ctr::FSlash)][choice(3)];
        if i > 0 && c.is_none() {
            end()
        }
        let b = vec_upto(2);
        l.push_v((c, b.clone()));
        w = if c.is_none() { Some(b) } else { None };
    }
    (l, w)
}

// ---------------------------------------------------------------- P22
fn b64_text<const N: usize>(b: [u8; N]) {
    let w = r_b64(&b, URL, false);
    let v = B64(b);
    let t = v.to_string();
    check(same(t.as_bytes(), &w), 1);
    check(same(v.b64().as_bytes(), &w) && same(byte_fmt::b64(&b, false).as_bytes(), &w), 2);
    let mut s = String::from("x");
    v.b64_into(&mut s);
    check(s.len() == 1 + w.len() && same(&s.as_bytes()[1..], &w), 3);
    check(same(format!("{v:?}").as_bytes(), &w), 4);
    eq(B64::<[u8; N]>::from_str(&t).ok().as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 5);
    eq(B64::<Vec<u8>>::parse_str(&t).ok().as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 7);
    eq(B64::<[u8; N]>::try_fit_bytes_or_b64(&w).ok().as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 9);
    eq(B64::<[u8; N]>::try_fit_bytes_or_b64(&b).ok().as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 11);
    check(B64::<[u8; N]>::from_ref(&b).0 == b && v.inner() == b, 13);
    let l: ABList = v.into();
    eq(l.as_exact_bytes().ok(), &Some(b.to_vec()), 15);
    eq(B64::<[u8; N]>::try_from(l).ok().as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 17)
}
pub fn p22_text0() { b64_text::<0>([]) }
pub fn p22_text1() { b64_text::<1>(bytes()) }
pub fn p22_text2() { b64_text::<2>(bytes()) }
pub fn p22_text3() { b64_text::<3>(bytes()) }
pub fn p22_text4() { b64_text::<4>(bytes()) }
pub fn p22_text32() {
    let mut b = [0u8; 32];
    for i in 0..32 {
        b[i] = (i * 7) as u8
    }
    let at = choice(32);
    b[at] = u8();
    b64_text(b)
}
fn r_unb64(t: &[u8]) -> Option<Vec<u8>> {
    let mut d = vec![];
    for c in t {
        let mut m = 64usize;
        for (i, x) in URL.iter().enumerate() {
            if x == c {
                m = i
            }
        }
        if m == 64 {
            return None;
        }
        d.push(m)
    }
    if t.len() % 4 == 1 {
        return None;
    }
    let mut r = vec![];
    for c in d.chunks(4) {
        let g = |i: usize| c.get(i).copied().unwrap_or(0);
        let v = g(0) << 18 | g(1) << 12 | g(2) << 6 | g(3);
        for i in 0..3 {
            if i + 1 < c.len() {
                r.push((v >> (16 - 8 * i)) as u8)
            } else if v >> (16 - 8 * i) & 255 != 0 {
                return None;
            }
        }
    }
    Some(r)
}
fn b64_any<const N: usize>(t: &[u8]) {
    let w = r_unb64(t).filter(|v| v.len() == N);
    eq(B64::<[u8; N]>::parse_str(t).ok().as_ref().map(|a| &a.0[..]), &w, 1);
    let raw = if t.len() == N { Some(t.to_vec()) } else { None };
    eq(B64::<[u8; N]>::try_from(t).ok().as_ref().map(|a| &a.0[..]), &raw, 3);
    eq(B64::<[u8; N]>::try_fit_slice(t).ok().as_ref().map(|a| &a.0[..]), &raw, 5);
    let either = w.or(raw);
    eq(B64::<[u8; N]>::try_fit_bytes_or_b64(t).ok().as_ref().map(|a| &a.0[..]), &either, 7);
    eq(B64::<[u8; N]>::try_from(ABList::from(t.to_vec())).ok().as_ref().map(|a| &a.0[..]), &either, 9)
}
pub fn p22_any() {
    let t = vec_upto(3);
    match choice(4) {
        0 => b64_any::<0>(&t),
        1 => b64_any::<1>(&t),
        2 => b64_any::<2>(&t),
        _ => b64_any::<3>(&t),
    }
}
pub fn p22_any4() { b64_any::<3>(&vec(4)) }
/// lists with delimiters are refused with an error
pub fn p22_list() {
    let (l, w) = small_list();
    let w = w.and_then(|v| r_unb64(&v).filter(|x| x.len() == 1).or(if v.len() == 1 { Some(v) } else { None }));
    eq(B64::<[u8; 1]>::try_from(l).ok().as_ref().map(|a| &a.0[..]), &w, 1)
}
fn b64_abe<const N: usize>(b: [u8; N]) {
    let v = B64(b);
    let l = toabe(&v, &b, 1);
    eq(l.and_then(|l| B64::<[u8; N]>::try_from(l).ok()).as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 5)
}
pub fn p22_abe1() { b64_abe::<1>(bytes()) }
pub fn p22_abe2() { b64_abe::<2>(bytes()) }
pub fn p22_abe3() { b64_abe::<3>(bytes()) }
pub fn p22_abe32() {
    let mut b = [3u8; 32];
    let at = choice(32);
    b[at] = u8();
    b64_abe(b)
}
/// number views and xor of hashes
pub fn p22_num() {
    let a: [u8; 32] = bytes();
    let b: [u8; 32] = bytes();
    let x = B64(a) ^ B64(b);
    let mut ok = true;
    for i in 0..32 {
        ok &= x.0[i] == a[i] ^ b[i]
    }
    check(ok, 1);
    let u: U256 = B64(a).into();
    let limbs = u.as_limbs();
    let mut ok = true;
    for i in 0..4 {
        let mut w = 0u64;
        for k in 0..8 {
            w = w << 8 | a[(3 - i) * 8 + k] as u64
        }
        ok &= limbs[i] == w
    }
    check(ok, 2);
    let back: B64<[u8; 32]> = u.into();
    check(same(&back.0, &a) && same(&B64::from_u256(B64(a).to_u256()).0, &a), 3);
    check(same(&B64(a).into_bytes(), &a), 4);
    let mut w = [0u8; 64];
    w[..32].copy_from_slice(&a);
    w[32..].copy_from_slice(&b);
    let u: U512 = B64(w).into();
    check(u.as_limbs()[7] == u64::from_be_bytes(a[..8].try_into().unwrap()) && u.as_limbs()[0] == u64::from_be_bytes(b[24..].try_into().unwrap()), 5);
    let back: B64<[u8; 64]> = u.into();
    check(same(&back.0, &w), 6);
    let p: B64<[u128; 2]> = B64(unsafe { std::mem::transmute(a) });
    let r: &[u8; 32] = p.as_ref();
    check(same(r, &a), 7)
}

// ---------------------------------------------------------------- P21
macro_rules! num {
    ($f:ident, $t:ident, $n:ident, $s:expr, $be:expr, $alt:ident, $sym:expr) => {
        fn $f() {
            let b: [u8; $s] = bytes();
            let c: [u8; $s] = bytes();
            let val = |b: &[u8; $s]| {
                let mut v: $n = 0;
                for i in 0..$s {
                    v = v << 8 | b[if $be { i } else { $s - 1 - i }] as $n
                }
                v
            };
            let (x, y) = (val(&b), val(&c));
            let (p, q) = ($t(b), $t(c));
            check(p.get() == x, 1);
            check(same(&$t::new(x).0, &b) && same(&$t::from(x).0, &b) && same(&$t::from(b).0, &b), 2);
            let mut m = q;
            m.set(x);
            check(same(&m.0, &b), 3);
            let i: $n = p.into();
            let a: [u8; $s] = p.into();
            check(i == x && same(&a, &b) && same(&p.to_bytes(), &b) && same(p.as_ref(), &b) && same(&*p, &b), 4);
            check(p.incr().get() == if x == $n::MAX { x } else { x + 1 }, 5);
            check(p.saturating_add(q).get() == if $n::MAX - x < y { $n::MAX } else { x + y }, 6);
            check(p.saturating_sub(q).get() == if x < y { 0 } else { x - y }, 7);
            check((p & q).get() == x & y && (p | q).get() == x | y && (!p).get() == !x, 8);
            check((p < q) == (x < y) && (p == q) == (x == y) && (p >= q) == (x >= y), 9);
            check(p.cmp(&q) == x.cmp(&y) && p.partial_cmp(&q) == Some(x.cmp(&y)), 10);
            if $be {
                check(p.cmp(&q) == b.cmp(&c), 11)
            }
            let alt: $alt = p.into();
            check(alt.get() == x, 12);
            check($t::ZERO.get() == 0 && $t::MAX.get() == $n::MAX, 13);
            check(p.align() == [$n::from_ne_bytes(b)], 14);
            let l: ABList = p.into();
            match l.as_exact_bytes() {
                Ok(e) => {
                    let cut = if $be { $s } else { b.iter().rposition(|v| *v != 0).map(|i| i + 1).unwrap_or(0) };
                    check(same(e, &b[..cut]), 15)
                }
                Err(_) => check(false, 16),
            }
            eq($t::try_from(l).ok().as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 17);
            reach(3)
        }
    };
}
num!(n16, U16, u16, 2, true, LU16, 2);
num!(n32, U32, u32, 4, true, LU32, 1);
num!(n64, U64, u64, 8, true, LU64, 1);
num!(n128, U128, u128, 16, true, LU128, 1);
num!(l16, LU16, u16, 2, false, U16, 2);
num!(l32, LU32, u32, 4, false, U32, 1);
num!(l64, LU64, u64, 8, false, U64, 1);
num!(l128, LU128, u128, 16, false, U128, 1);
pub fn p21_be16() { n16() }
pub fn p21_be32() { n32() }
pub fn p21_be64() { n64() }
pub fn p21_be128() { n128() }
pub fn p21_le16() { l16() }
pub fn p21_le32() { l32() }
pub fn p21_le64() { l64() }
pub fn p21_le128() { l128() }

fn r_bits(b: &[u8]) -> Vec<u8> {
    let mut r = b"0b".to_vec();
    for x in b {
        r.push(b'_');
        for i in 0..8 {
            r.push(b'0' + (x >> (7 - i) & 1))
        }
    }
    r
}
macro_rules! txt {
    ($f:ident, $t:ident, $n:ident, $s:expr) => {
        /// decimal and binary text, abe expression, of values with one arbitrary byte
        fn $f(b: [u8; $s]) {
            let p = $t(b);
            let t = p.to_string();
            let mut d = t.len() > 0 && (t.len() == 1 || t.as_bytes()[0] != b'0');
            for c in t.as_bytes() {
                d &= c.is_ascii_digit()
            }
            check(d, 1);
            check(r_dec(t.as_bytes(), $n::MAX as u128) == Some(p.get() as u128), 2);
            eq($t::from_str(&t).ok().as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 3);
            let e = p.to_abe();
            let l = eval(&BASIC_SCOPE, &e).ok();
            eq(l.and_then(|l| $t::try_from(l).ok()).as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 5);
            let l = parse_abe_strict_b(p.to_abe_str().as_bytes()).ok().and_then(|e| eval(&BASIC_SCOPE, &e).ok());
            eq(l.and_then(|l| $t::try_from(l).ok()).as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 7);
            reach(3)
        }
    };
}
txt!(t16, U16, u16, 2);
txt!(t32, U32, u32, 4);
txt!(t64, U64, u64, 8);
txt!(t128, U128, u128, 16);
txt!(tl16, LU16, u16, 2);
txt!(tl32, LU32, u32, 4);
txt!(tl64, LU64, u64, 8);
txt!(tl128, LU128, u128, 16);
fn one<const N: usize>() -> [u8; N] {
    let mut b = [[0u8; N], [255; N]][choice(2)];
    let at = choice(N);
    b[at] = u8();
    b
}
pub fn p21_text_be() {
    match choice(4) {
        0 => t16(one()),
        1 => t32(one()),
        2 => t64(one()),
        _ => t128(one()),
    }
}
pub fn p21_text_le() {
    match choice(4) {
        0 => tl16(one()),
        1 => tl32(one()),
        2 => tl64(one()),
        _ => tl128(one()),
    }
}
pub fn p21_text16() { if bool() { t16(bytes()) } else { tl16(bytes()) } }
pub fn p21_bits() {
    let b: [u8; 2] = bytes();
    let w = r_bits(&b);
    check(same(format!("{:b}", U16(b)).as_bytes(), &w), 1);
    check(same(format!("{:b}", LU16(b)).as_bytes(), &w), 2);
    check(same(binary_str(&b).as_bytes(), &w), 3);
    check(same(binary_str(&[]).as_bytes(), b"0b"), 4);
    let u = U8(b[0]);
    for e in [u.abe_bits(), u.to_abe()] {
        let l = eval(&BASIC_SCOPE, &e).ok();
        eq(l.and_then(|l| U8::try_from(l).ok()).map(|u| vec![u.0]).as_deref(), &Some(vec![b[0]]), 5)
    }
    let l: ABList = u.into();
    check(l.as_exact_bytes().map(|e| e.len() == 1 && e[0] == b[0]).unwrap_or(false), 7);
    let z = LU16(b);
    let l = eval(&BASIC_SCOPE, &z.lu_abe()).ok();
    eq(l.and_then(|l| LU16::try_from(l).ok()).as_ref().map(|a| &a.0[..]), &Some(b.to_vec()), 8)
}
/// decimal text of any kind is read exactly like the plain number, slices only in the right size
pub fn p21_parse() {
    let t = vec_upto(3);
    let v = r_dec(&t, u16::MAX as u128);
    if let Ok(s) = std::str::from_utf8(&t) {
        check(U16::from_str(s).ok().map(|u| u.get() as u128) == v, 1);
        check(LU16::from_str(s).ok().map(|u| u.get() as u128) == v, 2);
        check(U64::from_str(s).ok().map(|u| u.get() as u128) == v, 3);
        check(LU128::from_str(s).ok().map(|u| u.get()) == v, 4);
    }
    eq(U16::try_from(&t[..]).ok().as_ref().map(|a| &a.0[..]), &Some(t.clone()).filter(|t| t.len() == 2), 5);
    eq(LU16::try_from(&t[..]).ok().as_ref().map(|a| &a.0[..]), &Some(t.clone()).filter(|t| t.len() == 2), 7);
    let fr = |n: usize| Some(t.clone()).filter(|t| t.len() <= n).map(|mut t| { t.resize(n, 0); t });
    eq(LU16::try_fit_slice(&t).ok().as_ref().map(|a| &a.0[..]), &fr(2), 9);
    eq(LU64::try_fit_slice(&t).ok().as_ref().map(|a| &a.0[..]), &fr(8), 11)
}

// ---------------------------------------------------------------- P12
fn typed<V: ABEValidator>(t: &[u8], shape: &dyn Fn(&[ABE]) -> bool, conv: &dyn Fn(ABList) -> Option<Vec<u8>>, dflt: V, bytes: &dyn Fn(&V) -> Vec<u8>) {
    let p = TypedABE::<V>::try_from(t);
    let e = parse_abe_strict_b(t);
    let e = match (p, e) {
        (Err(ABEError::Parse(_)), Err(_)) => return reach(1),
        (Err(ABEError::MatchError(_)), Ok(e)) => {
            check(!shape(&e), 1);
            check(V::check(&e).is_err() && TypedABE::<V>::from(e).is_err(), 2);
            return reach(2);
        }
        (Ok(p), Ok(e)) => {
            check(shape(&e), 3);
            check(p.0 == e, 4);
            check(same(p.to_string().as_bytes(), print_abe(&e).as_bytes()), 5);
            (p, e)
        }
        _ => return check(false, 6),
    };
    let (p, e) = e;
    let d = p.eval_default(dflt, &BASIC_SCOPE);
    match (p.eval(&BASIC_SCOPE), eval(&BASIC_SCOPE, &e)) {
        (Err(ABEError::Eval(_)), Err(_)) => {
            check(matches!(d, Err(ABEError::Eval(_))), 7);
            reach(3)
        }
        (r, Ok(l)) => {
            let w = conv(l.clone());
            let empty = match l.as_slice() { [] => true, [(None, b)] => b.is_empty(), _ => false };
            match r {
                Ok(v) => {
                    eq(Some(&bytes(&v)), &w, 8);
                    reach(4)
                }
                Err(ABEError::TryFrom(_)) | Err(ABEError::MatchError(_)) => {
                    check(w.is_none(), 10);
                    reach(5)
                }
                _ => check(false, 11),
            }
            if empty {
                check(d.is_ok(), 12)
            } else {
                eq(d.ok().map(|v| bytes(&v)).as_deref(), &w, 13)
            }
        }
        _ => check(false, 15),
    }
}
fn r_plain(l: &ABList) -> Option<Vec<u8>> {
    match l.as_slice() {
        [] => Some(vec![]),
        [(None, b)] => Some(b.clone()),
        _ => None,
    }
}
fn flat(l: &ABList) -> Vec<u8> {
    let mut r = vec![];
    for (c, b) in l.as_slice() {
        match c {
            Some(Ctr::Colon) => r.push(b':'),
            Some(Ctr::FSlash) => r.push(b'/'),
            None => {}
        }
        r.extend_from_slice(b)
    }
    r
}
fn noctr(e: &[ABE]) -> bool { e.iter().all(|e| matches!(e, ABE::Expr(_))) }
fn typeds(t: &[u8]) {
    match choice(7) {
        0 => typed::<Vec<u8>>(t, &|_| true, &|l| Some(flat(&l)), vec![9], &|v| v.clone()),
        1 => typed::<String>(t, &|e| e.len() == 1, &|l| r_plain(&l).and_then(|v| String::from_utf8(v).ok()).map(|s| s.into_bytes()), "x".into(), &|v| v.as_bytes().to_vec()),
        2 => typed::<U8>(t, &noctr, &|l| r_plain(&l).filter(|v| v.len() == 1), U8(1), &|v| vec![v.0]),
        3 => typed::<U16>(t, &noctr, &|l| r_plain(&l).filter(|v| v.len() == 2), U16([1, 2]), &|v| v.0.to_vec()),
        4 => typed::<LU16>(t, &noctr, &|l| r_plain(&l).filter(|v| v.len() <= 2).map(|mut v| { v.resize(2, 0); v }), LU16([1, 2]), &|v| v.0.to_vec()),
        5 => typed::<AB<[u8; 2]>>(t, &noctr, &|l| r_plain(&l).and_then(|v| r_fit(&v, 2, 0)), AB([1, 2]), &|v| v.0.to_vec()),
        _ => typed::<B64<[u8; 1]>>(t, &noctr, &|l| r_plain(&l).and_then(|v| r_unb64(&v).filter(|x| x.len() == 1).or(if v.len() == 1 { Some(v) } else { None })), B64([1]), &|v| v.0.to_vec()),
    }
}
pub fn p12_typed3() { typeds(&vec_upto(3)) }
pub fn p12_typed4() { typeds(&vec(4)) }
pub fn p12_typedcall() {
    // a bracket with a real function in front
    let mut t = b"[b2:".to_vec();
    let a: [u8; 2] = bytes();
    t.extend_from_slice(&a);
    t.push(b']');
    if bool() {
        t.extend_from_slice(b"[]")
    }
    typeds(&t)
}
symrt::export!(
    p20_fit, p20_fitlong, p20_text1, p20_text3, p20_text16, p20_utf8, p20_parse4, p20_parse5, p20_abe1, p20_abe2, p20_abe3, p20_abe16, p20_u128, p20_list,
    p22_text0, p22_text1, p22_text2, p22_text3, p22_text4, p22_text32, p22_any, p22_any4, p22_list, p22_abe1, p22_abe2, p22_abe3, p22_abe32, p22_num,
    p21_be16, p21_be32, p21_be64, p21_be128, p21_le16, p21_le32, p21_le64, p21_le128, p21_text_be, p21_text_le, p21_text16, p21_bits, p21_parse,
    p12_typed3, p12_typed4, p12_typedcall
);
