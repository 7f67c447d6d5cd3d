#![cfg_attr(not(feature = "native"), no_main)]
#![allow(unused)]
//! hashing, signatures and password-protected identities.
//! Bitcode is built against the models in /verif/models, the replay binary against the real
//! crates; every input is drawn before the first call into them.
use linkspace_argon2_identity as id;
use linkspace_argon2_identity::{Costs, KeyError};
use linkspace_cryptography as cr;
use symrt::*;

/// the digest of a list of segments is the digest of their concatenation
fn segs(lens: &[usize], data: &[u8]) {
    let mut l: Vec<&[u8]> = vec![];
    let mut p = 0;
    for n in lens {
        l.push(&data[p..p + n]);
        p += n;
    }
    let whole = &data[..p];
    let h = cr::hash_segments(&l);
    check(same(&h, cr::blake3_hash(whole).as_bytes()), 3001);
    check(same(&h, &cr::hash_segments(&[whole])), 3002);
    reach(30);
}
fn p30_segments() {
    let k = choice(6);
    let lens: Vec<usize> = (0..k).map(|_| choice(3)).collect();
    let data = bytes::<10>();
    segs(&lens, &data)
}
fn p30_many() {
    let k = choice(18);
    let first = choice(2) * 65;
    let mut lens = vec![1; k];
    lens.push(first);
    lens.insert(0, 1);
    let data = bytes::<90>();
    segs(&lens, &data)
}
fn p30_differ() {
    let a = vec_upto(4);
    let b = vec_upto(4);
    let (i, j) = (choice(5), choice(5));
    let (i, j) = (i.min(a.len()), j.min(b.len()));
    let ha = cr::hash_segments(&[&a[..i], &a[i..]]);
    let hb = cr::hash_segments(&[&b[..j], &b[j..]]);
    let eq = a.len() == b.len() && same(&a, &b);
    check(same(&ha, &hb) == eq, 3003);
    if eq {
        reach(31)
    } else {
        reach(32)
    }
}

/// a secret with one free byte
fn secret() -> [u8; 32] {
    secret_at([0, 9, 31][choice(3)])
}
fn secret_at(at: usize) -> [u8; 32] {
    let mut s = [0u8; 32];
    for i in 0..32 {
        s[i] = 3 * i as u8 + 1
    }
    let b = u8();
    assume(b != 0xff);
    s[at] = b;
    s
}
fn key(s: [u8; 32]) -> cr::SigningKey {
    match cr::SigningKey::try_from(s) {
        Ok(k) => k,
        Err(_) => {
            check(false, 3100);
            end()
        }
    }
}
fn p31_sign() {
    let mut s = bytes::<32>();
    assume(s[0] != 0xff);
    assume(s[31] != 0);
    let h = bytes::<32>();
    let k = key(s);
    check(same(&k.0.to_bytes(), &s), 3101);
    let p = k.pubkey_bytes();
    let g = cr::sign_hash(&k, &h);
    check(cr::validate_signature(&p, &g, &h).is_ok(), 3102);
    check(same(&key(s).pubkey_bytes(), &p), 3103);
    check(same(&cr::sign_hash(&k.clone(), &h), &g), 3104);
    reach(33);
}
/// another digest, another signature
fn p31_forge() {
    let s = secret();
    let h = bytes::<32>();
    let h2 = bytes::<32>();
    let own = bool();
    let g2 = bytes::<64>();
    let k = key(s);
    let p = k.pubkey_bytes();
    let g = cr::sign_hash(&k, &h);
    let g3 = if own { g } else { g2 };
    let ok = cr::validate_signature(&p, &g3, &h2).is_ok();
    if own {
        check(ok == same(&h, &h2), 3105);
        if concretize(ok as u64) == 1 { reach(35) } else { reach(34) }
    } else {
        check(!ok || same(&g2, &cr::sign_hash(&k, &h2)), 3106);
        reach(36);
    }
}
/// another key
fn p31_key() {
    let s = secret();
    let s2 = secret();
    let h = bytes::<32>();
    let k = key(s);
    let p = k.pubkey_bytes();
    let k2 = key(s2);
    let p2 = k2.pubkey_bytes();
    let eq = same(&s, &s2);
    check(same(&p, &p2) == eq, 3107);
    let g = cr::sign_hash(&k, &h);
    check(cr::validate_signature(&p2, &g, &h).is_ok() == eq, 3108);
    if concretize(eq as u64) == 1 { reach(38) } else { reach(37) }
}
fn p31_anykey() {
    let s = secret();
    let h = bytes::<32>();
    let p2 = bytes::<32>();
    let k = key(s);
    let p = k.pubkey_bytes();
    let g = cr::sign_hash(&k, &h);
    let ok = cr::validate_signature(&p2, &g, &h).is_ok();
    check(ok == same(&p, &p2), 3109);
    reach(39);
}

fn costs() -> Costs {
    let (mem, times, parallelism) = [(8, 2, 1), (16, 1, 2), (100, 10, 1), (1000, 1, 11), (99, 12, 3), (32, 1, 1)][choice(6)];
    Costs { mem, times, parallelism }
}
fn pw(n: usize) -> Vec<u8> {
    vec_upto(n)
}
/// what encryption gives decryption takes back
fn p40_roundtrip() {
    let s = secret();
    let w = pw(2);
    roundtrip(s, w, id::INSECURE_COST)
}
fn p40_costs() {
    let s = secret_at(5);
    let w = vec![u8()];
    let c = costs();
    roundtrip(s, w, c)
}
fn roundtrip(s: [u8; 32], w: Vec<u8>, c: Costs) {
    let k = key(s);
    let t = id::encrypt(&k, &w, Some(c));
    match id::pubkey(&t) {
        Ok(p) => check(same(&p, &k.pubkey_bytes()), 4001),
        Err(_) => check(false, 4002),
    }
    match id::decrypt(&t, &w) {
        Ok(k2) => {
            check(same(&k2.0.to_bytes(), &s), 4003);
            check(same(&k2.pubkey_bytes(), &k.pubkey_bytes()), 4004);
        }
        Err(_) => check(false, 4005),
    }
    // the stated costs are the ones used and written down
    let head = format!("$argon2d$v=19$m={},t={},p={}$", c.mem, c.times, c.parallelism);
    check(t.starts_with(&head), 4006);
    check(t.len() == head.len() + 43 + 1 + 43, 4007);
    reach(40);
}
fn p40_otherpw() {
    let s = secret_at(9);
    let w = pw(2);
    let w2 = pw(2);
    let tail = choice(3);
    assume(!(w.len() == w2.len() && same(&w, &w2)));
    let k = key(s);
    let (mut w, mut w2) = (w, w2);
    // long common tail or head
    if tail == 1 {
        w.extend_from_slice(&[7; 70]);
        w2.extend_from_slice(&[7; 70]);
    }
    if tail == 2 {
        for v in [&mut w, &mut w2] {
            let mut n = vec![7; 70];
            n.extend_from_slice(v);
            *v = n;
        }
    }
    let t = id::encrypt(&k, &w, Some(id::INSECURE_COST));
    let r = id::decrypt(&t, &w2);
    check(concretize(matches!(r, Err(KeyError::WrongPassword)) as u64) == 1, 4010);
    reach(41);
}
/// the secret does not show in the text: the same password protects two keys differently, and
/// the stored field is never the bare secret
fn p40_hidden() {
    let s = secret();
    let w = pw(2);
    let k = key(s);
    use base64::prelude::*;
    let t = id::encrypt(&k, &w, Some(id::INSECURE_COST));
    let last = t.rsplit('$').next().unwrap();
    let mut raw = [0u8; 33];
    match BASE64_STANDARD_NO_PAD.decode_slice(last, &mut raw) {
        Ok(n) => {
            check(n == 32, 4020);
            check(!same(&raw[..32], &s), 4021);
        }
        Err(_) => check(false, 4022),
    }
    reach(42);
}
/// any text near a valid identity: refused, or the key it unlocks is the one it names
fn edited(t: &str, at: usize, how: usize, b: u8) -> Option<String> {
    let mut v = t.as_bytes().to_vec();
    if at > v.len() || (at == v.len() && how != 1) {
        return None;
    }
    match how {
        0 => v[at] = b,
        1 => v.insert(at, b),
        2 => {
            v.remove(at);
        }
        3 => v.truncate(at),
        _ => {
            // cut a whole field out
            let e = v[at..].iter().position(|c| *c == b'$')?;
            v.drain(at..at + e);
        }
    }
    Some(String::from_utf8(v).ok()?)
}
fn judge(t: &str, w: &[u8]) {
    use base64::prelude::*;
    let p = id::pubkey(t);
    let d = id::decrypt(t, w);
    match (&p, &d) {
        (Err(_), Ok(_)) => check(false, 4030),
        (Err(KeyError::WrongPassword), _) => check(false, 4031),
        (Ok(p), Ok(k)) => {
            check(same(p, &k.pubkey_bytes()), 4032);
            reach(43);
        }
        (Ok(_), Err(_)) => reach(44),
        (Err(_), Err(_)) => reach(45),
    }
    if let Ok(p) = p {
        // the named key is the text's fifth field
        let f: Vec<&str> = t.split('$').collect();
        check(f.len() >= 6 && f[0].is_empty() && f[1] == "argon2d" && f[2] == "v=19", 4033);
        let mut raw = [0u8; 40];
        match BASE64_STANDARD_NO_PAD.decode_slice(f[4], &mut raw) {
            Ok(32) => check(same(&raw[..32], &p), 4034),
            _ => check(false, 4035),
        }
    }
}
fn p41_edited() {
    use base64::prelude::*;
    let at = choice(116);
    let how = choice(5);
    let b = u8();
    assume(b < 0x80);
    // the key names of the model all follow this pattern
    let salt: [u8; 32] = std::array::from_fn(|i| 62u8.wrapping_add(7 * i as u8) | 1);
    let field: [u8; 32] = std::array::from_fn(|i| 0xa5 ^ (5 * i as u8));
    let t = format!("$argon2d$v=19$m=8,t=1,p=1${}${}", BASE64_STANDARD_NO_PAD.encode(salt), BASE64_STANDARD_NO_PAD.encode(field));
    let Some(t) = edited(&t, at, how, b) else { return };
    judge(&t, b"pw")
}
/// short text after the fixed head
fn p41_short() {
    let form = choice(4);
    let v = vec_upto(5);
    for b in &v {
        assume(*b < 0x80);
    }
    let x = String::from_utf8(v).unwrap();
    let t = match form {
        0 => x,
        1 => format!("$argon2d$v=19${x}"),
        2 => format!("$argon2d$v=19$m=8,t=1,p=1${x}"),
        _ => format!("$argon2d$v=19$m=8,t=1,p=1$tb0anwpH0rSbYe6JLd1Bgtf00QQUAYuhOcBqeSjAgW4${x}"),
    };
    judge(&t, b"")
}
/// cost fields
fn p41_costs() {
    let v = vec_upto(4);
    let which = choice(3);
    for b in &v {
        assume(*b < 0x80);
    }
    let x = String::from_utf8(v).unwrap();
    let (m, t, p) = match which {
        0 => (&*x, "1", "1"),
        1 => ("8", &*x, "1"),
        _ => ("8", "1", &*x),
    };
    let t = format!("$argon2d$v=19$m={m},t={t},p={p}$tb0anwpH0rSbYe6JLd1Bgtf00QQUAYuhOcBqeSjAgW4$kYAtGyF78cfPjRqcm4Y/s1hgQTRysELK/L910P2u27c");
    judge(&t, b"")
}
symrt::export!(p30_segments, p30_many, p30_differ, p31_sign, p31_forge, p31_key, p31_anykey, p40_roundtrip, p40_costs, p40_otherpw, p40_hidden, p41_edited, p41_short, p41_costs);
#[cfg(feature = "native")]
fn main() {
    symrt::native::main(TABLE);
}
