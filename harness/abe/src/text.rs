//! abe text layer: escape/decode, expression parse/print, splitting.
use abe::abtxt::*;
use abe::ast::*;
use symrt::*;

// ---------------------------------------------------------------- reference model of the text format
/// one escaped byte, as documented: printable ascii as is, named escapes, else \xHH
pub fn ref_escape(b: u8, out: &mut Vec<u8>) {
    match b {
        0 => out.extend_from_slice(b"\\0"),
        0xff => out.extend_from_slice(b"\\f"),
        b'\n' => out.extend_from_slice(b"\\n"),
        b'\t' => out.extend_from_slice(b"\\t"),
        b'\r' => out.extend_from_slice(b"\\r"),
        b':' | b'/' | b'\\' | b'[' | b']' => {
            out.push(b'\\');
            out.push(b)
        }
        0x20..=0x7e => out.push(b),
        _ => {
            const H: &[u8; 16] = b"0123456789abcdef";
            out.extend_from_slice(b"\\x");
            out.push(H[(b >> 4) as usize]);
            out.push(H[(b & 15) as usize])
        }
    }
}
fn hexval(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Tok {
    End,
    Ctr(u8),
    Byte(u8),
    Bad,
}
/// the reference tokenizer: what the next token of the text is and how many bytes it takes
pub fn ref_next(s: &[u8]) -> (Tok, usize) {
    let Some(&b) = s.first() else { return (Tok::End, 0) };
    match b {
        b':' | b'/' | b'[' | b']' | b'\n' => (Tok::Ctr(b), 1),
        b'\\' => {
            let Some(&c) = s.get(1) else { return (Tok::Bad, 1) };
            let v = match c {
                b'x' => {
                    if s.len() < 4 {
                        return (Tok::Bad, 1);
                    }
                    match (hexval(s[2]), hexval(s[3])) {
                        (Some(h), Some(l)) => return (Tok::Byte(h * 16 + l), 4),
                        _ => return (Tok::Bad, 1),
                    }
                }
                b'0' => 0,
                b'f' => 0xff,
                b'n' => b'\n',
                b't' => b'\t',
                b'r' => b'\r',
                b':' | b'/' | b'\\' | b'[' | b']' => c,
                _ => return (Tok::Bad, 1),
            };
            (Tok::Byte(v), 2)
        }
        0x20..=0x7e => (Tok::Byte(b), 1),
        _ => (Tok::Bad, 1),
    }
}
/// decoded bytes of a delimiter-free text of at most max bytes, None if it is not one
pub fn ref_decode(mut s: &[u8], max: usize) -> Option<Vec<u8>> {
    let mut r = vec![];
    loop {
        match ref_next(s) {
            (Tok::End, _) => return Some(r),
            (Tok::Byte(b), n) => {
                if r.len() == max {
                    return None;
                }
                r.push(b);
                s = &s[n..];
            }
            _ => return None,
        }
    }
}
/// canonical text of an expression, None if the text is not a valid expression
pub fn ref_canon(mut s: &[u8]) -> Option<Vec<u8>> {
    let mut r = vec![];
    let mut depth = 0usize;
    loop {
        let (t, n) = ref_next(s);
        match t {
            Tok::End => return if depth == 0 { Some(r) } else { None },
            Tok::Byte(b) => ref_escape(b, &mut r),
            Tok::Bad | Tok::Ctr(b'\n') => return None,
            Tok::Ctr(c) => {
                if c == b'[' {
                    depth += 1
                }
                if c == b']' {
                    if depth == 0 {
                        return None;
                    }
                    depth -= 1
                }
                r.push(c)
            }
        }
        s = &s[n..];
    }
}

// ---------------------------------------------------------------- P01
fn esc<const N: usize>() {
    let b = bytes::<N>();
    let t = as_abtxt(&b);
    let s = t.as_bytes();
    observe(s);
    let mut clean = true;
    for c in s {
        clean &= *c >= 0x20 && *c <= 0x7e;
    }
    check(clean, 1);
    let mut r = vec![];
    for x in &b {
        ref_escape(*x, &mut r)
    }
    check(same(&r, s), 2);
    match parse_abtxt_upto_max(s, N) {
        Ok(v) => check(same(&v, &b), 3),
        Err(_) => check(false, 4),
    }
    if N > 0 {
        check(parse_abtxt_upto_max(s, N - 1).is_err(), 5);
        let mut small = vec![0u8; N - 1];
        check(parse_abtxt_into(s, &mut small).is_err(), 6);
    }
    let mut d = [0xa5u8; 8];
    match parse_abtxt_into(s, &mut d[..N + 1]) {
        Ok(n) => {
            check(n == N, 7);
            check(same(&d[..N], &b), 8);
            check(d[N] == 0xa5, 9)
        }
        Err(_) => check(false, 10),
    }
    reach(1);
}
/// the text of a byte string stays one literal wherever it is placed in an expression
fn esc_embed<const N: usize>() {
    let b = bytes::<N>();
    let t = as_abtxt(&b);
    let mut e = b"[a:".to_vec();
    e.extend_from_slice(t.as_bytes());
    e.extend_from_slice(b"/b]:");
    e.extend_from_slice(t.as_bytes());
    observe(&e);
    let lit = || ABE::Expr(Expr::Bytes(b.to_vec()));
    let col = || ABE::Ctr(Ctr::Colon);
    let a = |s: &[u8]| ABE::Expr(Expr::Bytes(s.to_vec()));
    let want = vec![ABE::Expr(Expr::Lst(vec![a(b"a"), col(), lit(), ABE::Ctr(Ctr::FSlash), a(b"b")])), col(), lit()];
    match parse_abe_strict_b(&e) {
        Ok(v) => {
            check(v == want, 1);
            reach(1)
        }
        Err(_) => check(false, 2),
    }
    match abe::abconf::parse_ablist_b(t.as_bytes()) {
        Ok(l) => match l.into_exact_bytes() {
            Ok(v) => check(same(&v, &b), 3),
            Err(_) => check(false, 4),
        },
        Err(_) => check(false, 5),
    }
}
pub fn p01_esc1() { esc::<1>() }
pub fn p01_esc3() { esc::<3>() }
pub fn p01_esc4() { esc::<4>() }
pub fn p01_embed1() { esc_embed::<1>() }
pub fn p01_embed2() { esc_embed::<2>() }
pub fn p01_embed3() { esc_embed::<3>() }

// ---------------------------------------------------------------- P02
fn dec<const N: usize>() {
    let n = choice(N + 1);
    let s = vec(n);
    let max = choice(N + 1);
    let want = ref_decode(&s, max);
    match (parse_abtxt_upto_max(&s, max), &want) {
        (Ok(v), Some(w)) => {
            check(same(&v, w), 1);
            observe(&v);
            reach(1)
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => check(false, 2),
        (Err(_), Some(_)) => check(false, 3),
    }
    let mut d = [0u8; 16];
    match (parse_abtxt_into(&s, &mut d[..max]), &want) {
        (Ok(k), Some(w)) => check(k == w.len() && same(&d[..k], w), 4),
        (Err(_), None) => {}
        _ => check(false, 5),
    }
}
pub fn p02_dec3() { dec::<3>() }
pub fn p02_dec5() { dec::<5>() }
pub fn p02_dec6() { dec::<6>() }

// ---------------------------------------------------------------- P03
fn parse<const N: usize>() {
    let n = choice(N + 1);
    let s = vec(n);
    let want = ref_canon(&s);
    match (parse_abe_strict_b(&s), &want) {
        (Ok(v), Some(w)) => {
            let p = print_abe(&v);
            check(same(p.as_bytes(), w), 1);
            observe(p.as_bytes());
            reach(1);
            // normal form: no empty or adjacent literals
            fn normal(v: &[ABE]) -> bool {
                let mut prev = false;
                for e in v {
                    let lit = matches!(e, ABE::Expr(Expr::Bytes(_)));
                    if lit && prev {
                        return false;
                    }
                    prev = lit;
                    match e {
                        ABE::Expr(Expr::Bytes(b)) if b.is_empty() => return false,
                        ABE::Expr(Expr::Lst(l)) if !normal(l) => return false,
                        _ => {}
                    }
                }
                true
            }
            check(normal(&v), 2);
            match parse_abe_strict_b(p.as_bytes()) {
                Ok(v2) => check(v2 == v, 3),
                Err(_) => check(false, 4),
            }
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => check(false, 5),
        (Err(_), Some(_)) => check(false, 6),
    }
}
pub fn p03_parse4() { parse::<4>() }
pub fn p03_parse6() { parse::<6>() }

/// long strings: every byte symbolic but plain, except an arbitrary one at an arbitrary position
pub fn plain(b: u8) -> bool {
    // one condition (no fork) for: not escaped
    let mut e = false;
    for d in [b':', b'/', b'[', b']', b'\\'] {
        e |= b == d
    }
    (b >= 0x20) & (b <= 0x7e) & !e
}
fn esc_long<const N: usize>() {
    let b = vec(N);
    let p = choice(N);
    for i in 0..N {
        if i != p {
            assume(plain(b[i]))
        }
    }
    let t = as_abtxt(&b);
    let mut r = vec![];
    for (i, x) in b.iter().enumerate() {
        if i == p {
            ref_escape(*x, &mut r)
        } else {
            r.push(*x)
        }
    }
    check(same(t.as_bytes(), &r), 1);
    observe(t.as_bytes());
    match parse_abtxt_upto_max(&r, N) {
        Ok(v) => check(same(&v, &b), 2),
        Err(_) => check(false, 3),
    }
    check(parse_abtxt_upto_max(&r, N - 1).is_err(), 4);
    match parse_abe_strict_b(&r) {
        Ok(v) => {
            let [ABE::Expr(Expr::Bytes(x))] = &v[..] else { return check(false, 6) };
            check(same(x, &b), 7);
            check(same(print_abe(&v).as_bytes(), &r), 8)
        }
        Err(_) => check(false, 5),
    }
    reach(1)
}
pub fn p01_long40() { esc_long::<40>() }
pub fn p01_long130() { esc_long::<130>() }

// ---------------------------------------------------------------- P04
/// an arbitrary expression tree in normal form with at most `budget` nodes
pub fn gen(budget: &mut usize, depth: usize, lit: usize) -> Vec<ABE> {
    let mut v: Vec<ABE> = vec![];
    while *budget > 0 {
        let after_lit = matches!(v.last(), Some(ABE::Expr(Expr::Bytes(_))));
        // 0 stop 1 colon 2 slash 3 list 4 literal
        let k = choice(if after_lit { 4 } else { 5 });
        if k == 0 {
            break;
        }
        if k == 3 && depth == 0 {
            end()
        }
        *budget -= 1;
        v.push(match k {
            1 => ABE::Ctr(Ctr::Colon),
            2 => ABE::Ctr(Ctr::FSlash),
            3 => ABE::Expr(Expr::Lst(gen(budget, depth - 1, lit))),
            _ => {
                let n = 1 + choice(lit);
                ABE::Expr(Expr::Bytes(vec(n)))
            }
        });
    }
    v
}
fn print_rt<const NODES: usize, const LIT: usize>() {
    let mut b = NODES;
    let v = gen(&mut b, NODES, LIT);
    let t = print_abe(&v);
    observe(t.as_bytes());
    match parse_abe_strict_b(t.as_bytes()) {
        Ok(r) => {
            check(r == v, 1);
            reach(1);
            if b == 0 {
                reach(2)
            }
        }
        Err(_) => check(false, 2),
    }
    match parse_abe_b(t.as_bytes(), true) {
        Ok(r) => check(r == v, 3),
        Err(_) => check(false, 4),
    }
    // Display of one item is what print_abe concatenates
    let mut cat = String::new();
    for x in &v {
        cat.push_str(&x.to_string())
    }
    check(cat == t, 5)
}
pub fn p04_print3() { print_rt::<3, 2>() }
pub fn p04_print4() { print_rt::<4, 1>() }
pub fn p04_print5() { print_rt::<5, 1>() }

/// the lenient parser agrees with the strict one and takes bytes outside the printable range as they are
fn loose<const N: usize>() {
    let n = choice(N + 1);
    let s = vec(n);
    let l = parse_abe_with_unencoded_b(&s);
    if let Ok(v) = parse_abe_strict_b(&s) {
        match &l {
            Ok(w) => {
                check(*w == v, 1);
                reach(1)
            }
            Err(_) => check(false, 2),
        }
        return;
    }
    // reference: newline and non printable bytes stand for themselves
    let mut canon = vec![];
    let mut depth = 0usize;
    let mut t = &s[..];
    let ok = loop {
        let (k, n) = ref_next(t);
        match k {
            Tok::End => break depth == 0,
            Tok::Byte(b) => ref_escape(b, &mut canon),
            Tok::Ctr(b'\n') => ref_escape(b'\n', &mut canon),
            Tok::Bad if t[0] == b'\\' => return, // malformed escapes: only totality is claimed
            Tok::Bad => ref_escape(t[0], &mut canon),
            Tok::Ctr(b'[') => {
                depth += 1;
                canon.push(b'[')
            }
            Tok::Ctr(b']') => {
                if depth == 0 {
                    break false;
                }
                depth -= 1;
                canon.push(b']')
            }
            Tok::Ctr(c) => canon.push(c),
        }
        t = &t[n..];
    };
    match l {
        Ok(v) => {
            check(ok, 3);
            check(same(print_abe(&v).as_bytes(), &canon), 4);
            reach(2)
        }
        Err(_) => {
            check(!ok, 5);
            reach(3)
        }
    }
}
pub fn p03_loose3() { loose::<3>() }
pub fn p03_loose4() { loose::<4>() }
pub fn p03_loose5() { loose::<5>() }

// ---------------------------------------------------------------- P05
const CSETS: [u32; 5] = [CtrChar::ForwardSlash as u32, CtrChar::Colon as u32, CtrChar::Newline as u32, CtrChar::OpenBracket as u32, CtrChar::CloseBracket as u32];
const CCHARS: [u8; 5] = [b'/', b':', b'\n', b'[', b']'];
fn tokenize<const N: usize>(csets: bool) {
    let n = choice(N + 1);
    let s = vec(n);
    let (mut plain, mut err) = (0, 0);
    let (mut plainc, mut errc) = (vec![], vec![]);
    if csets {
        // any one delimiter class plain, any one an error
        let a = choice(6);
        let b = choice(6);
        if a < 5 {
            plain |= CSETS[a];
            plainc.push(CCHARS[a])
        }
        if b < 5 {
            err |= CSETS[b];
            errc.push(CCHARS[b])
        }
    }
    // reference: split at delimiters outside brackets
    let mut want: Vec<(u8, bool, Vec<u8>)> = vec![];
    let mut cur = (0u8, false, vec![]);
    let mut depth = 0usize;
    let mut t = &s[..];
    let ok = loop {
        let (k, n) = ref_next(t);
        match k {
            Tok::Bad => break false,
            Tok::End => break depth == 0,
            Tok::Ctr(c) if errc.contains(&c) => break false,
            Tok::Byte(_) => {}
            Tok::Ctr(c) if plainc.contains(&c) => {}
            Tok::Ctr(c) => {
                if c == b'[' {
                    depth += 1;
                    cur.1 = true
                } else if c == b']' {
                    if depth == 0 {
                        break false;
                    }
                    depth -= 1;
                    cur.1 = true
                } else if depth == 0 {
                    want.push(std::mem::replace(&mut cur, (c, false, vec![])));
                    t = &t[n..];
                    continue;
                } else {
                    cur.1 = true
                }
            }
        }
        cur.2.extend_from_slice(&t[..n]);
        t = &t[n..];
    };
    // an empty last component is not reported
    if !cur.2.is_empty() {
        want.push(cur)
    }
    let mut got = vec![];
    let mut failed = false;
    for r in tokenize_abe_b(&s, plain, err) {
        match r {
            Ok(x) => got.push(x),
            Err(_) => {
                failed = true;
                break;
            }
        }
    }
    check(failed == !ok, 1);
    if ok {
        check(got.len() == want.len(), 2);
        for ((c, i, b), (wc, wi, wb)) in got.iter().zip(want.iter()) {
            check(*c == *wc, 3);
            check(*i == *wi, 4);
            check(same(b, wb), 5);
        }
        reach(1);
        if got.len() > 1 {
            reach(2)
        }
        // nothing is lost: delimiters and components give back the text
        let mut cat = vec![];
        for (c, _, b) in &got {
            if *c != 0 {
                cat.push(*c)
            }
            cat.extend_from_slice(b)
        }
        check(cat.len() == s.len() || cat.len() + 1 == s.len(), 6);
        check(same(&cat, &s[..cat.len()]), 7);
        observe(&cat)
    }
}
pub fn p05_tok4() { tokenize::<4>(false) }
pub fn p05_tok5() { tokenize::<5>(false) }
pub fn p05_tok6() { tokenize::<6>(false) }
pub fn p05_cset3() { tokenize::<3>(true) }
pub fn p05_cset4() { tokenize::<4>(true) }

symrt::export!(p01_esc1, p01_esc3, p01_esc4, p01_embed1, p01_embed2, p01_embed3, p01_long40, p01_long130, p02_dec3, p02_dec5, p02_dec6, p03_parse4, p03_parse6,
    p03_loose3, p03_loose4, p03_loose5, p04_print3, p04_print4, p04_print5, p05_tok4, p05_tok5, p05_tok6, p05_cset3, p05_cset4);
