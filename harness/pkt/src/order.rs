//! the order of packets, free space, fields, stamps
use super::{be, input, rooted, secret, wire, In, Wire};
use linkspace_pkt::abe::eval::*;
use linkspace_pkt::abe::parse_abe;
use linkspace_pkt::field_ids::*;
use linkspace_pkt::netpkt::cmp::PktCmp;
use linkspace_pkt::tree_order::*;
use linkspace_pkt::*;
use std::cmp::Ordering;
use std::time::{Duration, UNIX_EPOCH};
use symrt::*;

/// (packet bytes, layout) of one of the four kinds
fn build(i: &In, kind: u8) -> NetPktBox {
    let h = NetPktHeader::cfrom(i.head);
    match kind {
        0 => datapoint(&i.data, h).as_netbox(),
        1 => linkpoint(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, h).as_netbox(),
        2 => keypoint(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, &secret(), h).as_netbox(),
        _ => errorpoint(&i.data, h).as_netbox(),
    }
}
fn small(comps: usize, clen: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut raw = vec![];
    let mut c = vec![];
    for _ in 0..choice(comps + 1) {
        let x = vec(1 + choice(clen));
        raw.push(x.len() as u8);
        raw.extend_from_slice(&x);
        c.push(x);
    }
    (raw, c)
}

// ------------------------------------------------------------------ tree keys and entries
/// the fields of a key are those it was made of
pub fn p65_key() {
    let g: [u8; 32] = bytes();
    let d: [u8; 16] = bytes();
    let k: [u8; 32] = bytes();
    let (raw, c) = small(3, 2);
    let sp = Space::from_unchecked(&raw);
    let with = bool();
    let kk = B64(k);
    let t = TreeKey::from_fields(B64(g), AB(d), c.len() as u8, sp, if with { Some(&kk) } else { None });
    let want = if with { k } else { [0; 32] };
    let all = |t: &TreeKey<&[u8]>| {
        let (g2, d2, n, s, k2) = t.fields();
        check(same(&g2.0, &g) && same(&d2.0, &d) && n as usize == c.len(), 6501);
        check(same(s.space_bytes(), &raw) && same(&k2.0, &want), 6502);
        check(same(&t.group().0, &g) && same(&t.domain().0, &d) && t.space_segments() as usize == c.len(), 6503);
        check(same(t.space().space_bytes(), &raw) && same(&t.pubkey().0, &want), 6504);
    };
    all(&t.as_ref());
    all(&TreeKey::new(t.as_bytes()));
    let b = t.as_bytes().to_vec();
    match TreeKey::from(&b) {
        Some(t) => all(&t.as_ref()),
        None => check(false, 6505),
    }
    reach(90)
}
/// any bytes: no key, or one whose fields can be read
pub fn p65_raw() {
    let n = [0, 17, 48, 49, 50, 79, 80, 81, 82, 84][choice(10)];
    // what is too short is printed
    let b = if n < 81 { vec![1; n] } else { vec(n) };
    match TreeKey::from(&b) {
        Some(t) => {
            check(n >= 81, 6506);
            let (g, d, s, sp, k) = t.fields();
            check(same(&g.0, &b[..32]) && same(&d.0, &b[32..48]) && s == b[48], 6507);
            check(same(sp.space_bytes(), &b[49..n - 32]) && same(&k.0, &b[n - 32..]), 6508);
            reach(91)
        }
        None => check(n < 81, 6509),
    }
}
fn key_of(i: &In, key: &[u8]) -> (Vec<u8>, Vec<u8>, usize, Vec<u8>, Vec<u8>) {
    (i.group.0.to_vec(), i.domain.0.to_vec(), i.comps.len(), i.space.space_bytes().to_vec(), key.to_vec())
}
/// (group, domain, depth, space, pubkey, create, hash)
fn tuple(a: &NetPktBox) -> Option<(Vec<u8>, Vec<u8>, usize, Vec<u8>, Vec<u8>, u64, Vec<u8>)> {
    let flat = a.byte_segments().to_bytes();
    let w = wire(&flat).unwrap();
    if w.kind & 2 == 0 {
        return None;
    }
    let p = &flat[64..];
    let r = &p[w.rs..w.ds];
    let key = if w.kind == 7 { p[w.total - 64 - 96..w.total - 64 - 64].to_vec() } else { vec![0; 32] };
    let sp = if r.is_empty() { &r[..] } else { &r[8..] };
    Some((p[16..48].to_vec(), p[48..64].to_vec(), rooted(r).unwrap().len(), sp.to_vec(), key, u64::from_be_bytes(p[8..16].try_into().unwrap()), flat[32..64].to_vec()))
}
fn ord3(a: &[u8], b: &[u8]) -> Ordering { a.cmp(b) }
/// all the fields that decide the order; one byte of each long one varies
fn shape(at: usize) -> In {
    let mut g = [0u8; 32];
    g[at * 31] = u8();
    let mut d = [0u8; 16];
    d[at * 15] = u8();
    let mut c = vec![];
    let mut space = RootedSpaceBuf::new();
    for _ in 0..choice(2) {
        let x = vec(1 + choice(2));
        space.try_append_component(&x).unwrap();
        c.push(x);
    }
    let mut st = [0u8; 8];
    st[at * 7] = u8();
    In { group: B64(g), domain: AB(d), space, comps: c, links: vec![], data: vec![], stamp: Stamp::new(u64::from_be_bytes(st)), head: [0; 32] }
}
/// what the index keeps of a packet, and its order
pub fn p65_order() {
    let at = choice(2);
    let (ka, kb) = (1 + choice(2) as u8, 1 + choice(2) as u8);
    let (a, b) = (build(&shape(at), ka), build(&shape(at), kb));
    let (ta, tb) = (tuple(&a).unwrap(), tuple(&b).unwrap());
    let ea = TreeEntry::from_pkt(Stamp::new(0), &a).unwrap();
    let eb = TreeEntry::from_pkt(Stamp::new(0), &b).unwrap();
    // keys in order of (group, domain, depth, space, pubkey): as bytes
    let kc = ea.btree_key.as_bytes().cmp(eb.btree_key.as_bytes());
    let want = ta.0.cmp(&tb.0).then_with(|| ta.1.cmp(&tb.1)).then_with(|| ta.2.cmp(&tb.2)).then_with(|| ta.3.cmp(&tb.3)).then_with(|| ta.4.cmp(&tb.4));
    check(kc == want, 6510);
    // values of equal keys in order of (create, hash): as bytes
    let vc = ea.val.cmp(&eb.val);
    check(vc == ta.5.cmp(&tb.5).then_with(|| ta.6.cmp(&tb.6)) || ta.6 == tb.6, 6511);
    reach(92);
    if kc == Ordering::Less {
        reach(93)
    }
}
pub fn p65_value() {
    let i = input(2, 1, 2, 3);
    let kind = choice(4) as u8;
    let a = build(&i, kind);
    let log: [u8; 8] = bytes();
    let log = Stamp::new(u64::from_be_bytes(log));
    match TreeEntry::from_pkt(log, &a) {
        Some(e) => {
            check(kind == 1 || kind == 2, 6512);
            let t = tuple(&a).unwrap();
            let f = e.btree_key.fields();
            check(same(&f.0 .0, &t.0) && same(&f.1 .0, &t.1) && f.2 as usize == t.2, 6513);
            check(same(f.3.space_bytes(), &t.3) && same(&f.4 .0, &t.4), 6514);
            let all = |lp: Stamp, c: Stamp, h: LkHash, l: U16, d: U16| {
                check(lp == log && c.get() == t.5 && same(&h.0, &t.6), 6515);
                check(l.get() as usize == i.links.len() && d.get() as usize == i.data.len(), 6516);
            };
            all(e.local_log_ptr(), e.create(), e.hash(), e.links_len(), e.data_size());
            let key = e.btree_key.as_bytes().to_vec();
            let r = TreeEntryRef::from_db((&key, &e.val));
            all(r.local_log_ptr(), r.create(), r.hash(), r.links_len(), r.data_size());
            let o = r.to_owned();
            check(same(o.btree_key.as_bytes(), &key) && same(&o.val, &e.val), 6517);
            reach(94)
        }
        None => {
            check(kind == 0 || kind == 3, 6518);
            reach(95)
        }
    }
}
/// PktCmp: equal when the hashes are, a total order, points without a place in the tree last
pub fn p65_cmp() {
    let ka = choice(3) as u8;
    let kb = choice(3) as u8;
    let at = choice(2);
    let (x, y) = (shape(at), shape(at));
    let (a, b) = (PktCmp(build(&x, ka)), PktCmp(build(&y, kb)));
    let (ta, tb) = (tuple(&a.0), tuple(&b.0));
    let c = a.cmp(&b);
    check((a == b) == (a.0.hash() == b.0.hash()), 6519);
    check((c == Ordering::Equal) == (a == b), 6520);
    check(b.cmp(&a) == c.reverse() && a.partial_cmp(&b) == Some(c), 6521);
    let want = match (ta, tb) {
        (Some(ta), Some(tb)) => ta.cmp(&tb),
        (None, None) => a.0.hash().0.cmp(&b.0.hash().0),
        (None, _) => Ordering::Greater,
        (_, None) => Ordering::Less,
    };
    check(c == want, 6522);
    reach(96);
    if c == Ordering::Equal {
        reach(97)
    }
}

// ------------------------------------------------------------------ sizes
static ZEROS: [u8; 66000] = [0; 66000];
/// calc_free_space is what is left of the largest packet
pub fn p67_space() {
    let i = input(2, 2, 2, 9);
    let signed = bool();
    let h = NetPktHeader::cfrom(i.head);
    let s = secret();
    let k = try_point(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, if signed { Some(&s) } else { None }, h).unwrap();
    let used = wire(&k.byte_segments().to_bytes()).unwrap().uset;
    let free = calc_free_space(&i.space, &i.links, &i.data, signed);
    check(free == 65024 - used as isize, 6701);
    reach(98)
}
/// and what is over it is refused
pub fn p67_over() {
    let mut space = RootedSpaceBuf::new();
    for _ in 0..choice(3) {
        space.try_append_component(&[u8()]).unwrap();
    }
    let links: Vec<Link> = (0..choice(2)).map(|_| Link { tag: AB(bytes()), ptr: B64(bytes()) }).collect();
    let signed = bool();
    let s = secret();
    let free = calc_free_space(&space, &links, &[], signed) as usize;
    let n = free + [0, 1, 2, 97, 700][choice(5)];
    let data = &ZEROS[..n];
    check(calc_free_space(&space, &links, data, signed) == free as isize - n as isize, 6702);
    match try_point(PRIVATE, AB([0; 16]), &space, &links, data, Stamp::new(1), if signed { Some(&s) } else { None }, ()) {
        Ok(k) => {
            check(n == free, 6703);
            check(k.as_point().data().len() == n, 6704);
            let h = k.as_point().point_header();
            check(h.check().is_ok(), 6705);
            reach(99)
        }
        Err(_) => {
            check(n > free, 6706);
            reach(100)
        }
    }
}
/// any number of links
pub fn p67_links() {
    let n = [1352, 1353, 1354, 1365, 1366, 4000][choice(6)];
    let l = Link { tag: AB(bytes()), ptr: B64(bytes()) };
    let links = vec![l; n];
    let sp = RootedSpace::empty();
    let free = calc_free_space(sp, &links, &[], false);
    match try_point(PRIVATE, AB([0; 16]), sp, &links, &[], Stamp::new(1), None, ()) {
        Ok(k) => {
            check(free >= 0 && k.as_point().get_links().len() == n, 6707);
            reach(101)
        }
        Err(_) => {
            check(free < 0, 6708);
            reach(102)
        }
    }
}

// ------------------------------------------------------------------ fields
fn field(f: FieldEnum, b: &[u8], w: Wire) -> Vec<u8> {
    let p = &b[64..];
    let link = w.kind & 2 != 0;
    let or = |r: std::ops::Range<usize>| if link { p[r].to_vec() } else { vec![0; r.len()] };
    let r: &[u8] = if link { &p[w.rs..w.ds] } else { &[] };
    let comps = rooted(r).unwrap();
    let comp = |n: usize| comps.get(n).map(|c| c.to_vec()).unwrap_or_default();
    let q = w.total - 64;
    let u16b = |n: usize| vec![(n >> 8) as u8, n as u8];
    match f {
        FieldEnum::VarNetFlagsF => b[3..4].to_vec(),
        FieldEnum::VarHopF => b[4..8].to_vec(),
        FieldEnum::VarStampF => b[8..16].to_vec(),
        FieldEnum::VarUBits0F => b[16..20].to_vec(),
        FieldEnum::VarUBits1F => b[20..24].to_vec(),
        FieldEnum::VarUBits2F => b[24..28].to_vec(),
        FieldEnum::VarUBits3F => b[28..32].to_vec(),
        FieldEnum::PktHashF => b[32..64].to_vec(),
        FieldEnum::PktTypeF => vec![w.kind],
        FieldEnum::SizeF => u16b(w.total),
        FieldEnum::PubKeyF => if w.kind == 7 { p[q - 96..q - 64].to_vec() } else { vec![0; 32] },
        FieldEnum::SignatureF => if w.kind == 7 { p[q - 64..q].to_vec() } else { vec![0; 64] },
        FieldEnum::GroupIDF => or(16..48),
        FieldEnum::DomainF => or(48..64),
        FieldEnum::CreateF => or(8..16),
        FieldEnum::DepthF => vec![comps.len() as u8],
        FieldEnum::LinksLenF => u16b(if link { (w.rs - 64) / 48 } else { 0 }),
        FieldEnum::DataSizeF => u16b(w.end - w.ds),
        FieldEnum::SpaceNameF => if r.is_empty() { vec![] } else { r[8..].to_vec() },
        FieldEnum::RSpaceNameF => r.to_vec(),
        FieldEnum::SpaceComp0F => comp(0),
        FieldEnum::SpaceComp1F => comp(1),
        FieldEnum::SpaceComp2F => comp(2),
        FieldEnum::SpaceComp3F => comp(3),
        FieldEnum::SpaceComp4F => comp(4),
        FieldEnum::SpaceComp5F => comp(5),
        FieldEnum::SpaceComp6F => comp(6),
        FieldEnum::SpaceComp7F => comp(7),
        FieldEnum::DataF => p[w.ds..w.end].to_vec(),
    }
}
fn bytes_of(f: FieldEnum, k: &dyn NetPkt) -> Vec<u8> {
    let mut v = vec![];
    f.bytes(k, &mut v).unwrap();
    v
}
fn big(b: &[u8]) -> u128 { b.iter().fold(0, |a, x| a << 8 | *x as u128) }
/// every field is where the layout has it, as bytes, as a number, with the size that is announced
pub fn p68_fields() {
    let i = input(2, 1, 1, 2);
    let kind = choice(4) as u8;
    let k = build(&i, kind);
    let flat = k.byte_segments().to_bytes();
    let w = wire(&flat).unwrap();
    for f in FieldEnum::LIST {
        let v = bytes_of(f, &k);
        let e = field(f, &flat, w);
        check(same(&v, &e), 6801);
        if let Some(n) = f.fixed_size() {
            check(v.len() == n, 6802);
        }
    }
    let e = |f| field(f, &flat, w);
    macro_rules! num { ($($f:ident),*) => { $( check($f::get_val(&k) as u128 == big(&e(FieldEnum::$f)), 6803); )* } }
    num!(VarNetFlagsF, VarHopF, VarStampF, VarUBits0F, VarUBits1F, VarUBits2F, VarUBits3F, PktTypeF, SizeF, DataSizeF, LinksLenF, CreateF, DomainF, DepthF);
    macro_rules! wide { ($($f:ident $n:expr),*) => { $( { let x: [u8; $n] = $f::get_val(&k).to_be_bytes(); check(same(&x, &e(FieldEnum::$f)), 6804); } )* } }
    wide!(PktHashF 32, GroupIDF 32, PubKeyF 32, SignatureF 64);
    // in every form of the packet
    for f in FieldEnum::LIST {
        check(same(&bytes_of(f, &k.as_netparts()), &e(f)), 6805);
    }
    reach(103)
}
/// tokens and names: one field each
pub fn p68_ids() {
    let id = vec_upto(11);
    let r = FieldEnum::try_from_id(&id);
    let mut n = 0;
    for f in FieldEnum::LIST {
        let i = f.info();
        check(FieldEnum::try_from_name(i.name) == Some(f) && FieldEnum::try_from_id(i.name.as_bytes()) == Some(f) && FieldEnum::try_from_id(&[i.token]) == Some(f), 6806);
        if same(&id, i.name.as_bytes()) || same(&id, &[i.token]) {
            check(r == Some(f), 6807);
            n += 1;
            reach(104);
        }
    }
    check(n == r.is_some() as u32, 6808);
}
/// the variable fields can be written, nothing else changes
pub fn p68_route() {
    let head: [u8; 32] = bytes();
    let mut k = datapoint(b"x", NetPktHeader::cfrom(head)).as_netbox();
    let f = FieldEnum::LIST[choice(29)];
    let before: Vec<Vec<u8>> = FieldEnum::LIST.iter().map(|f| bytes_of(*f, &k)).collect();
    let new = bytes::<8>();
    match f.mut_route(k.net_header_mut().unwrap()) {
        Some(b) => {
            let n = b.len();
            check(VAR_FIELDS.contains(&f) && Some(n) == f.fixed_size(), 6809);
            b.copy_from_slice(&new[..n]);
            for (i, g) in FieldEnum::LIST.iter().enumerate() {
                check(same(&bytes_of(*g, &k), if *g == f { &new[..n] } else { &before[i] }), 6810);
            }
            check(same(&k.byte_segments().to_bytes()[..3], &head[..3]), 6811);
            reach(105)
        }
        None => check(!VAR_FIELDS.contains(&f), 6812),
    }
}
fn run(k: &dyn NetPkt, s: &str) -> Vec<u8> {
    let e = parse_abe(s, false).unwrap();
    eval(&(EScope(SpaceFE), pkt_scope(k)), &e).unwrap().concat()
}
/// expressions see the same fields
pub fn p68_scope() {
    let mut i = input(2, 1, 1, 2);
    i.head[4..].fill(0);
    let kind = choice(3) as u8;
    let k = build(&i, kind);
    let flat = k.byte_segments().to_bytes();
    let w = wire(&flat).unwrap();
    let f = FieldEnum::LIST[choice(29)];
    let mut s = String::from("[");
    s += f.info().name;
    let t = ["]", ":bytes]", ":]"][choice(3)];
    s += t;
    check(same(&run(&k, &s), &field(f, &flat, w)), 6813);
    reach(106)
}
/// the written form of a field evaluates to the field
pub fn p68_abe() {
    let mut i = input(1, 1, 0, 2);
    i.head[4..].fill(0);
    let kind = 1 + choice(2) as u8;
    let k = build(&i, kind);
    let flat = k.byte_segments().to_bytes();
    let w = wire(&flat).unwrap();
    use FieldEnum::*;
    let f = [VarNetFlagsF, PktTypeF, DepthF, LinksLenF, DataSizeF, SizeF, SpaceNameF, SpaceComp0F, SpaceComp1F, DataF][choice(10)];
    let s = f.into_abe(&k);
    let e = parse_abe(&s, false).unwrap();
    let l = eval(&(linkspace_pkt::abe::scope::basic_scope(), EScope(SpaceFE)), &e).unwrap();
    let v = if f == SpaceNameF { SpaceBuf::try_from(l).unwrap().unwrap() } else { l.concat() };
    check(same(&v, &field(f, &flat, w)), 6814);
    reach(107)
}
/// links by tag
pub fn p68_links() {
    let n = choice(3);
    let links: Vec<Link> = (0..n).map(|_| Link { tag: AB(bytes()), ptr: B64(bytes()) }).collect();
    let k = linkpoint(PRIVATE, AB([1; 16]), RootedSpace::empty(), &links, b"", Stamp::new(5), NetPktHeader::EMPTY);
    let sel = k.select();
    let t: [u8; 16] = bytes();
    let first = links.iter().position(|l| l.tag.0 == t);
    match (sel.first_eq(AB(t)), first) {
        (Some(l), Some(p)) => {
            check(same(&l.ptr.0, &links[p].ptr.0) && same(&l.tag.0, &t), 6815);
            reach(108)
        }
        (None, None) => reach(109),
        _ => check(false, 6816),
    }
    let m = [0, 1, 2, 16, 17][choice(5)];
    let tail = vec(m);
    let first = links.iter().position(|l| m <= 16 && l.tag.0[16 - m..] == tail[..]);
    match (sel.first_tailmask(&tail), first) {
        (Some(l), Some(p)) => {
            check(same(&l.ptr.0, &links[p].ptr.0), 6817);
            reach(110)
        }
        (None, None) => (),
        _ => check(false, 6818),
    }
    // and the expression
    let arg: [&[u8]; 1] = [&tail];
    let fs = sel.list_funcs();
    let link = fs.iter().find(|f| f.info.id == "link").unwrap();
    match (link.apply)(&sel, &arg, true, &()) {
        ApplyResult::Value(v) => check(same(&v, &links[first.unwrap()].ptr.0), 6819),
        _ => check(first.is_none(), 6820),
    }
}

// ------------------------------------------------------------------ stamps
pub fn p69_stamps() {
    let s = u64();
    let secs = [0, u64::MAX / 1_000_000 - 120, u64::MAX / 1_000_000 * 2, 1 << 62][choice(4)] + u8() as u64;
    let nanos = [0, 551_000, 999_999_000][choice(3)] + (u8() as u32);
    let d = Duration::new(secs, nanos);
    let mic = d.as_micros();
    let t = Stamp::new(s);
    let max = u64::MAX as u128;
    let sum = s as u128 + mic;
    check(linkspace_pkt::stamp_add(t, d).get() as u128 == sum.min(max), 6901);
    match linkspace_pkt::checked_stamp_add(t, d) {
        Some(v) => check(sum <= max && v.get() as u128 == sum, 6902),
        None => check(sum > max, 6903),
    }
    let sub = if s as u128 > mic { s as u128 - mic } else { 0 };
    check(linkspace_pkt::stamp_sub(t, d).get() as u128 == sub, 6904);
    match linkspace_pkt::checked_stamp_sub(t, d) {
        Some(v) => check(s as u128 >= mic && v.get() as u128 == sub, 6905),
        None => check((s as u128) < mic, 6906),
    }
    reach(111)
}
pub fn p69_delta() {
    let (a, b) = (u64(), u64());
    match linkspace_pkt::stamp_sub_stamp(Stamp::new(a), Stamp::new(b)) {
        Ok(d) => check(a > b && d.get() == a - b, 6907),
        Err(d) => check(a <= b && d.get() == b - a, 6908),
    }
    // big endian bytes are in the order of the numbers
    let (x, y) = (Stamp::new(a), Stamp::new(b));
    check(x.0.cmp(&y.0) == a.cmp(&b) && x.cmp(&y) == a.cmp(&b), 6909);
    reach(112)
}
/// microseconds since the epoch, both ways
pub fn p69_time() {
    let a = [0, 999_999, 1_700_000_000_000_000, 1 << 60, u64::MAX - 255][choice(5)] + u8() as u64;
    let t = linkspace_pkt::as_systime(Stamp::new(a));
    check(linkspace_pkt::from_systime(t).get() == a, 6910);
    reach(113)
}
