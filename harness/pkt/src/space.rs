//! spaces: any bytes, every operation against the list of components
use super::{comps, rooted};
use linkspace_pkt::*;
use symrt::*;

fn is(s: &Space, c: &[&[u8]]) {
    let v: Vec<&[u8]> = s.iter().collect();
    check(v.len() == c.len() && v.iter().zip(c).all(|(a, b)| same(a, b)), 6301);
    let mut n = 0;
    let mut b = vec![];
    for x in c {
        b.push(x.len() as u8);
        b.extend_from_slice(x);
        n += 1;
    }
    check(same(s.space_bytes(), &b), 6302);
    check(s.check_components() == Ok(n), 6303);
    check(s.size() == b.len() && s.is_empty() == c.is_empty(), 6304);
}
/// which bytes are a space
fn any(b: &[u8]) {
    let c = comps(b);
    match Space::from_slice(b) {
        Ok(s) => {
            check(c.is_some(), 6305);
            is(s, &c.unwrap());
            reach(72)
        }
        Err(_) => {
            check(c.is_none(), 6306);
            reach(73)
        }
    }
    // the iterator with checks: the components up to the first bad one
    let mut rest = b;
    for x in Space::from_unchecked(b).checked_iter().unwrap() {
        match x {
            Ok(x) => {
                check(x.len() + 1 <= rest.len() && rest[0] as usize == x.len() && same(x, &rest[1..=x.len()]), 6307);
                rest = &rest[x.len() + 1..];
            }
            Err(_) => {
                check(comps(rest).is_none() && rest.len() <= rest[0] as usize || rest[0] == 0 || rest[0] > 200, 6308);
                rest = &[];
            }
        }
    }
    check(rest.is_empty(), 6309);
}
pub fn p63_any() { any(&vec_upto(5)) }
/// every number of components
pub fn p63_depth() {
    let n = choice(12);
    let d = bytes::<12>();
    let c: Vec<&[u8]> = d[..n].iter().map(std::slice::from_ref).collect();
    let mut raw = vec![];
    for x in &c {
        raw.extend([1, x[0]])
    }
    match choice(4) {
        0 => {
            // building checks the depth
            let s = SpaceBuf::try_from_iter(&c);
            check(s.is_ok() == (n <= 8), 6310);
            if let Ok(s) = s {
                is(&s, &c);
                check(s.to_array().len() == n && s.calc_depth() == n, 6311);
            }
        }
        1 => {
            // rooting keeps every component or fails
            match Space::from_unchecked(&raw).try_into_rooted() {
                Ok(r) => {
                    check(n <= 8, 6312);
                    let w = rooted(r.rooted_bytes());
                    check(w.is_some() && w.unwrap().len() == n, 6313);
                    check(same(r.space().space_bytes(), &raw), 6314);
                    check(r.check_components().is_ok(), 6315);
                }
                Err(e) => check(n > 8, 6316),
            }
        }
        2 => {
            let r = RootedSpaceBuf::try_from_iter(&c);
            check(r.is_ok() == (n <= 8), 6317);
            if let Ok(r) = r {
                check(same(r.space().space_bytes(), &raw), 6318);
                check(r.check_components().is_ok() && rooted(r.rooted_bytes()).is_some(), 6319);
            }
        }
        _ => {
            let k = choice(n + 1);
            let a = SpaceBuf::from_vec_unchecked(raw[..2 * k].to_vec());
            let b = Space::from_unchecked(&raw[2 * k..]);
            assume(k <= 8 && n - k <= 8);
            let j = a.try_join(b);
            check(j.is_ok() == (n <= 8), 6320);
            if let Ok(j) = j {
                is(&j, &c)
            }
            let t = a.rooted().try_join(b);
            check(t.is_ok() == (n <= 8), 6321);
            if let Ok(t) = t {
                is(t.space(), &c)
            }
        }
    }
    reach(74)
}
fn some(n: usize) -> Vec<Vec<u8>> { (0..n).map(|_| vec(1 + choice(2))).collect() }
fn refs(v: &[Vec<u8>]) -> Vec<&[u8]> { v.iter().map(|x| &x[..]).collect() }
/// building operations
pub fn p63_ops() {
    let own = some(choice(3));
    let c = refs(&own);
    let s = space_buf(&c);
    is(&s, &c);
    let more = some(choice(3));
    let m = refs(&more);
    let o = space_buf(&m);
    let both: Vec<&[u8]> = c.iter().chain(&m).copied().collect();
    let pre: Vec<&[u8]> = m.iter().chain(&c).copied().collect();
    match choice(9) {
        0 => is(&s.try_append(&o).unwrap(), &both),
        1 => is(&s.try_prepend(&o).unwrap(), &pre),
        2 => is(&s.join(&o), &both),
        3 => is(&s.rooted().join(&o), &both),
        4 => {
            let x = vec(choice(3));
            match s.try_push(&x) {
                Ok(p) => {
                    check(!x.is_empty(), 6322);
                    let mut w = c.clone();
                    w.push(&x);
                    is(&p, &w)
                }
                Err(e) => check(x.is_empty() && e == SpaceError::ZeroComponent, 6323),
            }
        }
        5 => {
            let x = vec(choice(3));
            match s.try_push_front(&x) {
                Ok(p) => {
                    check(!x.is_empty(), 6324);
                    let mut w: Vec<&[u8]> = vec![&x];
                    w.extend(&c);
                    is(&p, &w)
                }
                Err(e) => check(x.is_empty() && e == SpaceError::ZeroComponent, 6325),
            }
        }
        6 => {
            let mut t = s.clone();
            t.truncate_last();
            is(&t, &c[..c.len().saturating_sub(1)])
        }
        7 => {
            let v = s.components();
            check(v.is_ok(), 6326);
            let v = v.unwrap();
            check(v.len() == c.len() && v.iter().zip(&c).all(|(a, b)| same(a, b)), 6327);
        }
        _ => {
            // prefixes are prefixes of the list
            let p = c.len() >= m.len() && m.iter().zip(&c).all(|(a, b)| *a == *b);
            check(s.starts_with(&o) == p, 6328);
            match s.strip_prefix(&o) {
                Some(r) => {
                    check(p, 6329);
                    is(r, &c[m.len()..])
                }
                None => check(!p, 6330),
            }
        }
    }
    reach(75)
}
/// taking apart
pub fn p63_split() {
    let own = some(choice(4));
    let c = refs(&own);
    let n = c.len();
    let s = space_buf(&c);
    match choice(6) {
        0 => {
            check(s.head().map(|h| same(h, c[0])).unwrap_or(n == 0), 6331);
            check(same(s.first(), c.first().copied().unwrap_or(&[])), 6332);
            is(s.tail(), &c[n.min(1)..]);
            match s.split_first() {
                Some((h, t)) => {
                    check(same(h, c[0]), 6333);
                    is(t, &c[1..])
                }
                None => check(n == 0, 6334),
            }
        }
        1 => {
            let (a, b) = s.split_last();
            is(a, &c[..n.saturating_sub(1)]);
            match b {
                Some(b) => is(b, &c[n - 1..]),
                None => check(n == 0, 6335),
            }
            match s.parent() {
                Some(p) => is(p, &c[..n - 1]),
                None => check(n == 0, 6336),
            }
            let (p, l) = s.pop();
            is(p, &c[..n.saturating_sub(1)]);
            check(l.map(|l| same(l, c[n - 1])).unwrap_or(n == 0), 6337);
        }
        2 => {
            let k = choice(6);
            let (a, b) = s.split_at(k);
            is(a, &c[..k.min(n)]);
            is(b, &c[k.min(n)..]);
        }
        3 => {
            let mut k = 0;
            for p in s.scan_space() {
                k += 1;
                is(p, &c[..k]);
            }
            check(k == n, 6338);
        }
        4 => {
            let mut t = s.track();
            for k in 0..=n {
                is(t.upto(), &c[..k]);
                is(t.rest(), &c[k..]);
                is(t.full(), &c);
                check(t.component().map(|x| same(x, c[k])).unwrap_or(k == n), 6339);
                match t.next() {
                    Some(x) => t = x,
                    None => check(k == n, 6340),
                }
            }
        }
        _ => {
            let a = s.to_array();
            check(a.len() == n && a.iter().zip(&c).all(|(a, b)| same(a, b)), 6341);
            check(s.calc_depth() == n, 6342);
        }
    }
    reach(76)
}
/// the limits on a component and on the whole
pub fn p63_limits() {
    let big = [7u8; 256];
    let l = [1, 20, 40, 41, 42, 199, 200, 201, 240, 241, 242, 243, 255];
    let mut size = 0;
    let mut s = SpaceBuf::new();
    let mut r = RootedSpaceBuf::new();
    for _ in 0..3 {
        let n = l[choice(13)];
        let ok = n <= 200 && size + n + 1 <= 242;
        let before = s.clone();
        let t = if bool() { s.clone().try_push(&big[..n]) } else { s.clone().try_push_front(&big[..n]) };
        check(t.is_ok() == ok, 6343);
        check(r.try_append_component(&big[..n]).is_ok() == ok, 6344);
        check(s.clone().try_prepend(Space::from_unchecked(&big[..n])).is_ok() == (size + n <= 242), 6345);
        if let Ok(t) = t {
            s = t;
            size += n + 1;
        }
        check(s.size() == size && r.space().size() == size, 6346);
        check(s.check_components().is_ok() && r.check_components().is_ok(), 6347);
        let q = s.try_into_rooted();
        check(q.is_ok() && q.unwrap().rooted_bytes().len() == if size == 0 { 0 } else { size + 8 }, 6348);
    }
    reach(77)
}

fn rany(b: &[u8]) {
    let w = rooted(b);
    match RootedSpace::from(b) {
        Ok(r) => {
            check(w.is_some(), 6401);
            let c = w.unwrap();
            let n = c.len();
            check(r.depth() == n && *r.space_depth() as usize == n && r.is_empty() == (n == 0), 6402);
            let v: Vec<&[u8]> = r.iter().collect();
            check(v.len() == n && v.iter().zip(&c).all(|(a, b)| same(a, b)), 6403);
            let all = r.comps_bytes();
            let sp = r.components();
            for i in 0..8 {
                let e: &[u8] = c.get(i).copied().unwrap_or(&[]);
                check(same(r.comp(i), e) && same(all[i], e), 6404);
                check(if b.is_empty() { true } else { sp[i].size() == if i < n { e.len() + 1 } else { 0 } }, 6405);
            }
            check(same(r.last(), c.last().copied().unwrap_or(&[])), 6406);
            is(r.space(), &c);
            check(same(r.into_buf().rooted_bytes(), b), 6407);
            reach(78)
        }
        Err(_) => {
            check(w.is_none(), 6408);
            reach(79)
        }
    }
}
/// any bytes as a rooted space
pub fn p64_any() {
    let n = choice(13);
    rany(&vec(n))
}
/// around the largest number of components, any index
pub fn p64_eight() {
    let k = 7 + choice(3);
    let mut b = bytes::<8>().to_vec();
    let d = bytes::<9>();
    for i in 0..k {
        b.extend([1, d[i]])
    }
    rany(&b)
}
/// adding components one by one is rooting the whole
pub fn p64_append() {
    let own = some(choice(5));
    let c = refs(&own);
    let mut r = RootedSpaceBuf::new();
    for (i, x) in c.iter().enumerate() {
        check(r.try_append_component(x).is_ok(), 6410);
        let before = r.clone();
        check(r.try_append_component(&[]).is_err() && r.clone() == before, 6411);
        is(r.space(), &c[..=i]);
        check(r.check_components().is_ok(), 6412);
        check(same(r.rooted_bytes(), space_buf(&c[..=i]).rooted().rooted_bytes()), 6413);
    }
    rany(r.rooted_bytes());
    reach(80)
}
/// depth up to 8 with a total near the largest size
pub fn p64_limits() {
    let x = [9u8; 200];
    let mut r = RootedSpaceBuf::new();
    let mut raw: Vec<&[u8]> = vec![];
    let mut size = 0;
    for i in 0..10 {
        let n = [1, 29, 30][choice(if i > 5 { 3 } else { 2 })];
        let n = if i < 6 { 29 } else { n };
        let ok = i < 8 && size + n + 1 <= 242 && raw.len() == i;
        let before = r.clone();
        check(r.try_append_component(&x[..n]).is_ok() == ok, 6415);
        if ok {
            raw.push(&x[..n]);
            size += n + 1;
        } else {
            check(r == before, 6416);
        }
        rany(r.rooted_bytes());
    }
    reach(81)
}
pub fn p64_deep() {
    let n = 5 + choice(4);
    let d = bytes::<8>();
    let c: Vec<&[u8]> = d[..n].iter().map(std::slice::from_ref).collect();
    let r = rspace_buf(&c);
    rany(r.rooted_bytes());
    for k in 0..=n {
        let p = rspace_buf(&c[..k]);
        check(p.space().starts_with(Space::empty()) && r.space().starts_with(p.space()), 6417);
    }
    reach(82)
}
/// ranges of components
pub fn p64_range() {
    let own = some(choice(4));
    let c = refs(&own);
    let r = rspace_buf(&c);
    let a = choice(9);
    let b = a + choice(9 - a);
    let n = c.len();
    is(r.range(a..b), &c[a.min(n)..b.min(n)]);
    reach(83)
}

/// what is printed reads back as the same space
fn text(s: &SpaceBuf) {
    let t = s.to_string();
    match t.parse::<SpaceBuf>() {
        Ok(x) => check(same(x.space_bytes(), s.space_bytes()), 6350),
        Err(_) => check(false, 6351),
    }
    use linkspace_pkt::abe::ToABE;
    let l = s.ablist();
    match SpaceBuf::try_from(l) {
        Ok(x) => check(same(x.space_bytes(), s.space_bytes()), 6352),
        Err(_) => check(false, 6353),
    }
    let t = s.to_abe_str();
    match t.parse::<SpaceBuf>() {
        Ok(x) => check(same(x.space_bytes(), s.space_bytes()), 6354),
        Err(_) => check(false, 6355),
    }
    reach(84)
}
pub fn p63_text() {
    let own = some(choice(3));
    text(&space_buf(&refs(&own)))
}
/// lengths that are printed in another form
pub fn p63_text16() {
    let n = [15, 16, 17, 31, 32, 33][choice(6)];
    let z = [0u8, b'a', 255][choice(3)];
    let mut x = vec![z; n];
    let at = [0, n / 2, n - 1][choice(3)];
    x[at] = u8();
    text(&space_buf(&[&x]))
}
/// [si] picks components
pub fn p63_si() {
    use linkspace_pkt::abe::{eval::*, scope::basic_scope};
    let own = some(choice(4));
    let c = refs(&own);
    let s = space_buf(&c);
    let a = choice(10);
    let b = choice(11);
    let two = bool();
    let (sa, sb) = (a.to_string(), b.to_string());
    let fs = EScope(SpaceFE);
    let f = EvalScopeImpl::list_funcs(&fs.0).iter().find(|f| f.info.id == "si").unwrap();
    let mut args: Vec<&[u8]> = vec![s.space_bytes(), sa.as_bytes()];
    if two {
        args.push(sb.as_bytes())
    }
    let n = c.len();
    let end = if two { b } else { a + 1 };
    let legal = a <= end && a <= 8;
    match (f.apply)(&&fs.0, &args, true, &basic_scope()) {
        ApplyResult::Value(v) => {
            check(legal, 6356);
            is(Space::from_slice(&v).unwrap(), &c[a.min(n)..end.min(n)]);
            reach(85)
        }
        _ => {
            check(!legal || end > 8, 6357);
            reach(86)
        }
    }
}
