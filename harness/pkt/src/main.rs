#![cfg_attr(not(feature = "native"), no_main)]
#![allow(unused, static_mut_refs)]
#![feature(allocator_api)]
//! packets: wire format, building, hashes and signatures, spaces, tree order, fields.
//! blake3/k256/triomphe are the models of /verif/models in both builds.
mod order;
mod space;
use linkspace_pkt::reroute::*;
use linkspace_pkt::*;
use std::borrow::Cow;
use symrt::*;

// ------------------------------------------------------------------ the wire format
/// what the documented layout says about `b`: where the parts of the packet are, or nothing
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Wire {
    pub kind: u8,
    pub uset: usize,
    pub total: usize,
    pub rs: usize,
    pub ds: usize,
    pub end: usize,
}
pub fn be(b: &[u8]) -> usize { (b[0] as usize) << 8 | b[1] as usize }
pub fn comps(mut s: &[u8]) -> Option<Vec<&[u8]>> {
    let mut v = vec![];
    while !s.is_empty() {
        let n = s[0] as usize;
        if n == 0 || n > 200 || s.len() < n + 1 {
            return None;
        }
        v.push(&s[1..=n]);
        s = &s[n + 1..];
    }
    Some(v)
}
/// the documented rooted form: depth, the 7 ends, then the components
pub fn rooted(s: &[u8]) -> Option<Vec<&[u8]>> {
    if s.is_empty() {
        return Some(vec![]);
    }
    if s.len() < 8 || s.len() > 250 {
        return None;
    }
    let c = comps(&s[8..])?;
    if c.len() > 8 || s[0] as usize != c.len() {
        return None;
    }
    let mut at = 0;
    for i in 0..7 {
        if i < c.len() {
            at += c[i].len() + 1
        }
        if s[i + 1] as usize != at {
            return None;
        }
    }
    Some(c)
}
pub fn wire(b: &[u8]) -> Option<Wire> {
    if b.len() < 68 {
        return None;
    }
    let p = &b[64..];
    if p[0] != 0 {
        return None;
    }
    let kind = p[1];
    let fixed = match kind {
        1 | 0x80 => 4,
        3 => 64,
        7 => 160,
        _ => return None,
    };
    let uset = be(&p[2..]);
    if uset < fixed || uset > 65024 {
        return None;
    }
    let padded = (uset + 7) / 8 * 8;
    if b.len() < 64 + padded {
        return None;
    }
    let sig = if kind == 7 { 96 } else { 0 };
    let end = uset - sig;
    for i in 0..padded - uset {
        if p[end + i] != 255 {
            return None;
        }
    }
    let (mut rs, mut ds) = (4, 4);
    if kind & 2 != 0 {
        rs = be(&p[4..]);
        ds = be(&p[6..]);
        if rs < 64 || rs > ds || ds > end || (rs - 64) % 48 != 0 {
            return None;
        }
        rooted(&p[rs..ds])?;
    }
    Some(Wire { kind, uset, total: 64 + padded, rs, ds, end })
}
/// the accessors agree with the layout
fn agrees(b: &[u8], w: Wire, k: &dyn NetPkt) {
    let p = &b[64..];
    check(k.size() as usize == w.total, 6001);
    check(same(&k.net_header_ref().as_bytes()[..], &b[..32]), 6002);
    check(same(&k.hash_ref().0, &b[32..64]), 6003);
    let t = k.as_point();
    check(t.point_header_ref().point_type.bits() == w.kind, 6004);
    check(same(t.data(), &p[w.ds..w.end]), 6005);
    check(same(t.padding(), &p[w.end..w.end + w.total - 64 - w.uset]), 6006);
    let out = k.byte_segments().to_bytes();
    check(same(&out, &b[..w.total]), 6007);
    check(k.byte_segments().len() == w.total, 6008);
    if w.kind & 2 != 0 {
        let l = t.tail().unwrap();
        check(l.links.len() == (w.rs - 64) / 48, 6009);
        check(same(l.links_as_bytes(), &p[64..w.rs]), 6010);
        for (i, x) in l.links.iter().enumerate() {
            check(same(&x.tag.0, &p[64 + 48 * i..80 + 48 * i]), 6011);
            check(same(&x.ptr.0, &p[80 + 48 * i..112 + 48 * i]), 6012);
        }
        check(same(l.rspace.rooted_bytes(), &p[w.rs..w.ds]), 6013);
        check(same(l.data, &p[w.ds..w.end]), 6014);
        let h = t.linkpoint_header().unwrap();
        check(same(&h.create_stamp.0, &p[8..16]), 6015);
        check(same(&h.group.0, &p[16..48]), 6016);
        check(same(&h.domain.0, &p[48..64]), 6017);
        // the components of the space
        let c = rooted(&p[w.rs..w.ds]).unwrap();
        check(*l.rspace.space_depth() as usize == c.len(), 6018);
        check(l.rspace.iter().count() == c.len(), 6019);
        for (i, x) in l.rspace.iter().enumerate() {
            check(same(x, c[i]), 6020);
        }
        if let Some(x) = c.last() {
            check(same(l.rspace.last(), x), 6021);
        }
    } else {
        check(t.tail().is_none() && t.linkpoint_header().is_none(), 6022);
    }
    match t.signed() {
        Some(s) => {
            check(w.kind == 7, 6023);
            let q = &p[w.total - 64 - 96..w.total - 64];
            check(same(&s.pubkey.0, &q[..32]), 6024);
            check(same(&s.signature.0, &q[32..]), 6025);
        }
        None => check(w.kind != 7, 6026),
    }
}
/// the bytes in an allocation of exactly their size, `off` after a multiple of 8
fn place(b: &[u8], off: usize) -> &'static mut [u8] {
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align(b.len() + off + (b.len() + off == 0) as usize, 8).unwrap());
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(off), b.len());
        std::slice::from_raw_parts_mut(p.add(off), b.len())
    }
}
/// any bytes: accepted exactly when the layout says so; what is accepted reads back as laid out
fn any(buf: &[u8]) {
    let w = wire(buf);
    match read::read_pkt(buf, true) {
        Ok(k) => {
            check(w.is_some(), 6030);
            agrees(buf, w.unwrap(), &*k);
            reach(60);
        }
        Err(e) => {
            check(w.is_none(), 6031);
            if let Some(n) = e.requires_more() {
                check(n > buf.len(), 6032);
            }
            reach(61);
        }
    }
}
fn p60_head() {
    // everything from nothing to a few bytes of content
    let n = [0, 1, 63, 64, 66, 67, 68, 69, 71, 72, 73, 79, 80][choice(13)];
    let off = choice(2);
    any(place(&vec(n), off))
}
fn point_of<const N: usize>(kind: u8, off: usize, min: usize) {
    let b = bytes::<N>();
    assume(b[64] == 0 && b[65] == kind);
    let u = be(&b[66..]);
    assume(u >= min && u <= N - 64 + 9);
    any(place(&b, off))
}
fn p60_link() { point_of::<144>(3, 0, 0) }
fn p60_link_off() { point_of::<136>(3, 4, 60) }
/// room for one link and a space of at most one component
fn p60_links() {
    let b = bytes::<188>();
    assume(b[64] == 0 && b[65] == 3);
    let u = be(&b[66..]);
    assume(u >= 110 && u <= 124);
    let rs = be(&b[68..]);
    assume(rs >= 111 && rs <= 113 || rs == 0 || rs > 123);
    any(place(&b, 4))
}
fn p60_key() { point_of::<240>(7, 0, 150) }
fn p60_data() { point_of::<88>(if bool() { 1 } else { 0x80 }, choice(2), 0) }
/// sizes near the limits of the 16 bit length
fn p60_size() {
    let mut h = [0u8; 68];
    h[65] = [1, 3, 7, 0x80][choice(4)];
    let b = bytes::<2>();
    h[66] = b[0];
    h[67] = b[1];
    let u = be(&b);
    match read::read_pkt(&h, true) {
        Err(e) => {
            let ok = u >= [4, 64, 160, 4][[1, 3, 7, 0x80].iter().position(|k| *k == h[65]).unwrap()] && u <= 65024;
            match e {
                Error::MissingBytes { netpkt_size } => {
                    check(ok, 6033);
                    check(netpkt_size as usize == 64 + (u + 7) / 8 * 8, 6034);
                    reach(62);
                }
                _ => {
                    check(!ok || u <= 4, 6035);
                    reach(63);
                }
            }
        }
        Ok(_) => check(u == 4, 6036),
    }
}

// ------------------------------------------------------------------ building
pub struct In {
    pub group: GroupID,
    pub domain: Domain,
    pub space: RootedSpaceBuf,
    pub comps: Vec<Vec<u8>>,
    pub links: Vec<Link>,
    pub data: Vec<u8>,
    pub stamp: Stamp,
    pub head: [u8; 32],
}
pub fn input(ncomp: usize, clen: usize, nlink: usize, dlen: usize) -> In {
    let group = B64(bytes());
    let domain = AB(bytes());
    let stamp = Stamp::new(u64());
    let mut c = vec![];
    let mut space = RootedSpaceBuf::new();
    for _ in 0..choice(ncomp + 1) {
        let x = vec(1 + choice(clen));
        space.try_append_component(&x).unwrap();
        c.push(x);
    }
    let links = (0..choice(nlink + 1)).map(|_| Link { tag: AB(bytes()), ptr: B64(bytes()) }).collect();
    let n = choice(dlen + 1);
    In { group, domain, space, comps: c, links, data: vec(n), stamp, head: bytes() }
}
pub fn secret() -> SigningKey {
    let mut s = [7u8; 32];
    s[31] = u8();
    SigningKey::try_from(s).unwrap()
}
/// what was put in is what can be read, from every representation, and all have the same bytes
fn round(i: &In, k: &dyn NetPkt, kind: u8, key: Option<&SigningKey>, deep: bool) {
    let flat = k.byte_segments().to_bytes();
    let w = wire(&flat);
    check(w.is_some(), 6101);
    let w = w.unwrap();
    check(w.total == flat.len() && w.kind == kind, 6102);
    check(same(&flat[..32], &i.head), 6103);
    agrees(&flat, w, k);
    let p = &flat[64..];
    check(same(&p[w.ds..w.end], &i.data), 6104);
    if kind & 2 != 0 {
        check(same(&p[8..16], &i.stamp.0) && same(&p[16..48], &i.group.0) && same(&p[48..64], &i.domain.0), 6105);
        check(w.rs == 64 + 48 * i.links.len(), 6106);
        for (n, l) in i.links.iter().enumerate() {
            check(same(&p[64 + 48 * n..80 + 48 * n], &l.tag.0) && same(&p[80 + 48 * n..112 + 48 * n], &l.ptr.0), 6107);
        }
        let c = rooted(&p[w.rs..w.ds]).unwrap();
        check(c.len() == i.comps.len() && c.iter().zip(&i.comps).all(|(a, b)| same(a, b)), 6108);
    }
    // the hash is the digest of the point
    check(same(&k.hash_ref().0, &linkspace_cryptography::blake3_hash(p).as_bytes()[..]), 6109);
    if let Some(key) = key {
        let s = k.as_point().signed().unwrap();
        check(same(&s.pubkey.0, &key.pubkey_bytes()), 6110);
    }
    if !deep {
        return reach(64);
    }
    // every representation
    let b = k.as_netbox();
    check(same(&b.byte_segments().to_bytes(), &flat), 6111);
    agrees(&flat, w, &b);
    let a = k.as_netarc();
    check(same(&a.byte_segments().to_bytes(), &flat), 6112);
    agrees(&flat, w, &a);
    let a2 = b.as_netarc();
    check(same(&a2.as_netbox().as_netpkt_bytes(), &flat), 6113);
    let ps = a2.as_netparts();
    check(same(&ps.byte_segments().to_bytes(), &flat), 6114);
    let raw = a.into_raw_arc();
    let a = unsafe { NetPktArc::from_raw_arc(raw) };
    check(a.refcount() == 1, 6115);
    let c = a.as_netarc();
    check(a.refcount() == 2 && same(&c.byte_segments().to_bytes(), &flat), 6116);
    let raw = NetPktFatPtr::into_raw_box(b);
    let b = unsafe { NetPktFatPtr::from_raw_box(raw) };
    check(same(&b.clone().byte_segments().to_bytes(), &flat), 6117);
    // and it parses, hash and signature included, wherever the bytes lie
    let off = choice(2) * 3;
    match read::read_pkt(place(&flat, off), false) {
        Ok(k) => {
            agrees(&flat, w, &*k);
            check(matches!(k, Cow::Borrowed(_)) == (off == 0), 6118);
        }
        Err(_) => check(false, 6119),
    }
    reach(64);
}
fn p61_data() {
    let n = choice(18);
    let i = In { group: PRIVATE, domain: AB([0; 16]), space: RootedSpaceBuf::new(), comps: vec![], links: vec![], data: vec(n), stamp: Stamp::new(0), head: bytes() };
    let h = NetPktHeader::cfrom(i.head);
    let k = datapoint(&i.data, h);
    round(&i, &k, 1, None, true)
}
fn p61_error() {
    let n = choice(9);
    let i = In { group: PRIVATE, domain: AB([0; 16]), space: RootedSpaceBuf::new(), comps: vec![], links: vec![], data: vec(n), stamp: Stamp::new(0), head: bytes() };
    let k = errorpoint(&i.data, NetPktHeader::cfrom(i.head));
    round(&i, &k, 0x80, None, true)
}
fn link(i: &In, deep: bool) {
    let k = linkpoint(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, NetPktHeader::cfrom(i.head));
    round(i, &k, 3, None, deep)
}
fn keyp(i: &In, deep: bool) {
    let s = secret();
    let k = keypoint(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, &s, NetPktHeader::cfrom(i.head));
    round(i, &k, 7, Some(&s), deep)
}
fn p61_link() { link(&input(1, 1, 2, 8), true) }
fn p61_space() { link(&input(8, 1, 0, 0), false) }
fn p61_key() { keyp(&input(1, 1, 1, 8), true) }

// ------------------------------------------------------------------ replaced headers, wrappers
fn p61_wrap() {
    let i = input(1, 1, 1, 1);
    let s = secret();
    let signed = bool();
    let h = NetPktHeader::cfrom(i.head);
    let k = try_point(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, if signed { Some(&s) } else { None }, h).unwrap();
    let flat = k.byte_segments().to_bytes();
    let nh = bytes::<32>();
    let h2 = NetPktHeader::cfrom(nh);
    let mut want = flat.to_vec();
    want[..32].copy_from_slice(&nh);
    fn all(k: &dyn NetPkt, want: &[u8]) {
        check(same(&k.byte_segments().to_bytes(), want), 6120);
        check(same(&k.as_netbox().byte_segments().to_bytes(), want), 6121);
        check(same(&k.as_netarc().byte_segments().to_bytes(), want), 6122);
        agrees(want, wire(want).unwrap(), k);
    }
    let mut r = ReroutePkt::new(k);
    match choice(6) {
        0 => {
            r.net_header = h2;
            all(&r, &want);
        }
        1 => {
            *r.net_header_mut().unwrap() = h2;
            let r = ReroutePkt { net_header: r.net_header, pkt: ReroutePkt { net_header: NetPktHeader::EMPTY, pkt: r } };
            all(&r, &want);
        }
        2 => {
            let mut b = k.as_netbox();
            *b.net_header_mut().unwrap() = h2;
            all(&b, &want);
            all(&b.thin_netpkt().reroute(h), &flat);
        }
        3 => all(&RecvPkt { recv: Stamp::new(3), pkt: k }, &flat),
        4 => {
            let a = ShareArcPkt::new(k);
            all(&a, &flat);
            check(same(&a.borrow_arc().byte_segments().to_bytes(), &flat), 6123);
        }
        _ => {
            let r = RecvPkt { recv: Stamp::new(3), pkt: ReroutePkt { net_header: h2, pkt: ShareArcPkt::new(k.as_netarc()) } };
            check(r.get_recv() == Stamp::new(3), 6124);
            all(&r, &want);
        }
    }
    reach(65)
}

// ------------------------------------------------------------------ integrity
/// a packet with any byte of the point changed (or another hash) is not accepted
fn p62_tamper() {
    let i = input(1, 1, 0, 1);
    let s = secret();
    let signed = choice(2) == 1;
    let h = NetPktHeader::cfrom(i.head);
    let k = try_point(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, if signed { Some(&s) } else { None }, h).unwrap();
    let flat = k.byte_segments().to_bytes();
    let n = flat.len();
    let buf = place(&flat, 0);
    let at = 32 + choice(n - 32);
    let x = u8();
    assume(x != flat[at]);
    buf[at] = x;
    check(read::read_pkt(buf, false).is_err(), 6201);
    reach(66)
}
/// the net header is not covered
fn p62_header() {
    let i = input(1, 1, 0, 1);
    let k = linkpoint(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, NetPktHeader::cfrom(i.head));
    let mut flat = k.byte_segments().to_bytes();
    let h = k.hash();
    flat[..32].copy_from_slice(&bytes::<32>());
    match read::read_pkt(&flat, false) {
        Ok(k) => check(same(&k.hash_ref().0, &h.0), 6202),
        Err(_) => check(false, 6203),
    }
    reach(67)
}
/// rewritten contents with a recomputed hash: the old signature does not carry over
fn p62_resign() {
    let i = input(0, 1, 0, 1);
    let s = secret();
    let k = keypoint(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, &s, NetPktHeader::cfrom(i.head));
    let flat = k.byte_segments().to_bytes();
    let n = flat.len();
    let buf = place(&flat, 0);
    let at = 64 + choice(n - 64);
    let x = u8();
    assume(x != flat[at]);
    buf[at] = x;
    let h = linkspace_cryptography::blake3_hash(&buf[64..]);
    buf[32..64].copy_from_slice(h.as_bytes());
    match read::read_pkt(buf, false) {
        Ok(k) => check(k.as_point().signed().is_none(), 6204),
        Err(_) => reach(68),
    }
}
/// acceptance with checks on means: the hash is the digest and the signature verifies
fn p62_accept() {
    let b = place(&bytes::<232>(), 0);
    let kind = [1u8, 3, 7][choice(3)];
    assume(b[64] == 0 && b[65] == kind);
    let u = be(&b[66..]);
    assume(u <= [9, 0, 0, 66, 0, 0, 0, 163][kind as usize]);
    let kind = concretize(kind as u64);
    assume(kind == 1 || (be(&b[68..]) == 64 && be(&b[70..]) == 64));
    if let Ok(k) = read::read_pkt(&b[..], false) {
        let w = wire(&b[..]).unwrap();
        check(same(&b[32..64], linkspace_cryptography::blake3_hash(&b[64..w.total]).as_bytes()), 6205);
        if w.kind == 7 {
            let q = w.total - 96;
            let d = linkspace_cryptography::blake3_hash(&b[64..q]);
            check(linkspace_cryptography::validate_signature(&b[q..q + 32].try_into().unwrap(), &b[q + 32..q + 96].try_into().unwrap(), d.as_bytes()).is_ok(), 6206);
            reach(69);
        } else {
            reach(70);
        }
    }
}

// ------------------------------------------------------------------ memory discipline of the allocations
struct Tracking;
const NT: usize = 64;
static mut LIVE: [(usize, usize, usize); NT] = [(0, 0, 0); NT];
static mut TRACK: bool = false;
static mut BAD: bool = false;
unsafe impl std::alloc::GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if TRACK {
            for e in LIVE.iter_mut() {
                if e.0 == 0 {
                    *e = (p as usize, l.size(), l.align());
                    break;
                }
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if TRACK {
            for e in LIVE.iter_mut() {
                if e.0 == p as usize {
                    BAD |= (e.1, e.2) != (l.size(), l.align());
                    e.0 = 0;
                    break;
                }
            }
        }
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static GA: Tracking = Tracking;
/// a packet is released with the size and alignment it was allocated with
fn p61_layout() {
    let i = input(1, 1, 1, 8);
    let s = secret();
    let kind = choice(3);
    let h = NetPktHeader::cfrom(i.head);
    let k = match kind {
        0 => datapoint(&i.data, h),
        1 => linkpoint(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, h),
        _ => keypoint(i.group, i.domain, &i.space, &i.links, &i.data, i.stamp, &s, h),
    };
    unsafe {
        BAD = false;
        LIVE = [(0, 0, 0); NT];
        TRACK = true
    }
    {
        let b = k.as_netbox();
        let c = b.clone();
        let a = b.as_netarc();
        let a2 = a.clone();
        drop(a);
        let raw = NetPktFatPtr::into_raw_box(c);
        let c = unsafe { NetPktFatPtr::from_raw_box(raw) };
        let flat = c.byte_segments().to_bytes();
        let r = read::read_pkt(place(&flat, 4), true).unwrap().into_owned();
        check(r.size() == k.size(), 6130);
    }
    unsafe { TRACK = false }
    check(unsafe { !BAD }, 6131);
    reach(71)
}

use order::*;
use space::*;
export!(p60_head, p60_data, p60_link, p60_link_off, p60_links, p60_key, p60_size, p61_data, p61_error, p61_link, p61_space, p61_key, p61_wrap, p61_layout, p62_tamper, p62_header, p62_resign, p62_accept,
    p63_any, p63_depth, p63_ops, p63_split, p63_limits, p64_any, p64_eight, p64_append, p64_limits, p64_range, p64_deep, p63_text, p63_text16, p63_si, p65_key, p65_raw, p65_order, p65_value, p65_cmp, p67_space, p67_over, p67_links, p68_fields, p68_ids, p68_route, p68_scope, p68_abe, p68_links, p69_stamps, p69_delta, p69_time);
#[cfg(feature = "native")]
fn main() {
    symrt::native::main(TABLE);
}
