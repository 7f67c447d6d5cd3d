#![cfg_attr(not(feature = "native"), no_main)]
#![allow(unused)]
//! the notification bus between processes: value, waiters, datagrams, port assignment.
//! Sockets and the lock file are models (in both builds); files live in memory (sys.rs).
mod sys;
use ipcbus::{get_port, ProcBus};
use socket2::{In, STATE};
use std::future::Future;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::path::Path;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use symrt::*;

// ---------------------------------------------------------------- other threads
/// what another thread does, as one step, at the given scheduling point
#[derive(Clone, Copy)]
enum Op {
    Emit(u64),
    Poll,
    Look,
}
#[derive(Default)]
struct World {
    bus: Option<&'static ProcBus>,
    on: bool,
    points: usize,
    plan: Vec<(usize, Op)>,
    weak: usize,
    max: u64,
    seen: u64,
    wait: Option<Pin<Box<dyn Future<Output = u64>>>>,
    last: u64,
    woken: u32,
}
static mut W: Option<World> = None;
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}
#[no_mangle]
fn linkspace_verif_point() {
    let Some(x) = (unsafe { W.as_mut() }) else { return };
    if !x.on {
        return;
    }
    x.points += 1;
    let n = x.points;
    for (at, op) in x.plan.clone() {
        if at == n {
            x.on = false;
            run(op);
            w().on = true;
        }
    }
}
#[no_mangle]
fn linkspace_verif_weak() -> bool {
    let Some(x) = (unsafe { W.as_mut() }) else { return false };
    if x.on && x.weak > 0 {
        x.weak -= 1;
        return true;
    }
    false
}
fn run(op: Op) {
    let x = w();
    match op {
        Op::Emit(v) => {
            x.max = x.max.max(v);
            let r = x.bus.unwrap().emit(v);
            check(r >= v, 5001);
        }
        Op::Look => {
            let v = x.bus.unwrap().val();
            check(v >= x.seen, 5002);
            x.seen = v;
        }
        Op::Poll => poll(),
    }
}
fn waker() -> Waker {
    fn c(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &V)
    }
    fn n(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    unsafe { Waker::from_raw(c(std::ptr::null())) }
}
/// one look of a task that waits for the next notification, again and again
fn poll() {
    let x = w();
    let wk = waker();
    let mut cx = Context::from_waker(&wk);
    for _ in 0..2 {
        if x.wait.is_none() {
            x.wait = Some(Box::pin(x.bus.unwrap().next_async()));
        }
        match x.wait.as_mut().unwrap().as_mut().poll(&mut cx) {
            Poll::Ready(v) => {
                x.wait = None;
                x.last = v;
                x.woken += 1;
            }
            Poll::Pending => return,
        }
    }
}
fn file(name: &str) -> Option<&'static mut sys::VFile> {
    unsafe { sys::FILES.iter_mut().find(|f| f.path == name.as_bytes()) }
}
fn put(name: &str, data: &[u8]) {
    unsafe { sys::FILES.push(sys::VFile { path: name.as_bytes().to_vec(), data: data.to_vec() }) }
}
fn start() {
    unsafe {
        sys::reset();
        if let Some(x) = W.as_mut() {
            // a waiter of an earlier run may hold a bus that is gone
            std::mem::forget(x.wait.take());
        }
        W = Some(World::default());
    }
}
const MAP: &str = "/tmp/procbus.map";
fn bus(id: u64, dir: &str) -> &'static ProcBus {
    put(&format!("{dir}/id"), &id.to_be_bytes());
    match ProcBus::new(Path::new(dir)) {
        Ok(b) => Box::leak(Box::new(b)),
        Err(_) => {
            check(false, 5000);
            end()
        }
    }
}
const ID: u64 = 0x1122334455667788;

// ---------------------------------------------------------------- P50
fn p50_seq() {
    start();
    let (a, b, c) = (u64(), u64(), u64());
    let fail = bool();
    let x = bus(ID, "/procbus1");
    check(x.val() == 0, 5003);
    STATE.lock().unwrap().fail_send = fail;
    let mut m = 0;
    for v in [a, b, c] {
        m = m.max(v);
        check(x.emit(v) == m, 5004);
        check(x.val() == m, 5005);
    }
    reach(50);
}
/// one emission with others (and readers) at any of its scheduling points
fn race(ops: &[Op], weak: usize, a: u64, v0: u64, at: &[usize]) {
    w().bus = Some(bus(ID, "/procbus1"));
    let x = w();
    let b = x.bus.unwrap();
    b.emit(v0);
    x.max = v0;
    x.seen = b.val();
    x.weak = weak;
    x.plan = at.iter().cloned().zip(ops.iter().cloned()).collect();
    x.points = 0;
    x.on = true;
    x.max = x.max.max(a);
    let r = b.emit(a);
    w().on = false;
    let x = w();
    let v = b.val();
    check(r >= a, 5006);
    check(r <= x.max, 5007);
    check(v == x.max, 5008);
    check(v >= x.seen, 5009);
    reach(51);
    if x.points > 2 {
        reach(52)
    }
}
fn p50_race() {
    start();
    let (v0, a, b, c) = (u64(), u64(), u64(), u64());
    let weak = choice(3);
    let at = [1 + choice(6), 1 + choice(6)];
    race(&[Op::Emit(b), Op::Emit(c)], weak, a, v0, &at)
}
fn p50_look() {
    start();
    let (v0, a, b) = (u64(), u64(), u64());
    let weak = choice(2);
    let at = [1 + choice(5), 1 + choice(5), 1 + choice(5)];
    race(&[Op::Look, Op::Emit(b), Op::Look], weak, a, v0, &at)
}
/// every emission in some thread reaches the waiter
fn p50_wait() {
    start();
    let (v0, a, b) = (u64(), u64(), u64());
    let second = bool();
    let at = [1 + choice(5), 1 + choice(5)];
    w().bus = Some(bus(ID, "/procbus1"));
    let x = w();
    x.bus.unwrap().emit(v0);
    assume(a > v0);
    assume(b > v0);
    poll();
    check(w().woken == 0, 5010);
    x.max = a;
    x.plan = vec![(at[0], Op::Poll)];
    if second {
        x.plan.push((at[1], Op::Emit(b)))
    }
    x.on = true;
    let r = x.bus.unwrap().emit(a);
    w().on = false;
    poll();
    check(w().woken > 0, 5011);
    check(w().last >= w().max, 5012);
    check(w().last == w().bus.unwrap().val(), 5013);
    reach(53);
    // two waiters, both woken
}
fn p50_waiters() {
    start();
    let (v0, a) = (u64(), u64());
    let n = 1 + choice(3);
    let dropped = choice(2) == 1;
    let x = bus(ID, "/procbus1");
    x.emit(v0);
    assume(a > v0);
    let wk = waker();
    let mut cx = Context::from_waker(&wk);
    let mut f: Vec<_> = (0..n).map(|_| Box::pin(x.next_async())).collect();
    for g in f.iter_mut() {
        check(g.as_mut().poll(&mut cx).is_pending(), 5014);
    }
    if dropped {
        drop(f.remove(0));
    }
    x.emit(a);
    for g in f.iter_mut() {
        match g.as_mut().poll(&mut cx) {
            Poll::Ready(v) => {
                check(v == a, 5015);
                reach(54)
            }
            Poll::Pending => check(false, 5016),
        }
    }
}

/// a wait with a deadline that has passed reports so and leaves the bus as it was
fn p50_deadline() {
    start();
    let (v0, a) = (u64(), u64());
    let x = bus(ID, "/procbus1");
    x.emit(v0);
    let t = std::time::Instant::now();
    check(x.next_deadline(Some(t)).is_none(), 5020);
    check(x.val() == v0, 5021);
    w().bus = Some(x);
    poll();
    assume(a > v0);
    x.emit(a);
    check(x.next_deadline(Some(t)).is_none(), 5022);
    poll();
    check(w().woken > 0 && w().last == a, 5023);
    reach(55);
}

// ---------------------------------------------------------------- P51
fn deliver(l: Vec<In>) {
    STATE.lock().unwrap().inbox.extend(l);
}
fn sent() -> Vec<Vec<u8>> {
    STATE.lock().unwrap().sent.drain(..).map(|s| s.data).collect()
}
const PEER: SocketAddrV4 = SocketAddrV4::new(Ipv4Addr::LOCALHOST, 4000);
/// what a process with another pid sends when it emits these values
fn peer(id: u64, pid: i32, vals: &[u64]) -> Vec<Vec<u8>> {
    unsafe {
        let own = sys::PID;
        sys::PID = pid;
        let b = bus(id, &format!("/procbus-peer{pid}-{id}"));
        sent();
        for v in vals {
            b.emit(*v);
        }
        sys::PID = own;
    }
    sent()
}
/// any datagram from anywhere, then a proper one
fn any_datagram(lens: &[usize], fixed: bool) {
    start();
    let n = lens[choice(lens.len())];
    let mut d = vec(n);
    let ip = u32();
    let port = u16();
    let intr = choice(3);
    let (v0, v2) = (u64(), u64());
    if fixed {
        // the own bus id in front
        for i in 0..n.min(8) {
            d[i] = ID.to_ne_bytes()[i]
        }
    }
    let good = peer(ID, 99, &[v2]);
    check(good.len() == 1, 5100);
    let b = bus(ID, "/procbus1");
    b.emit(v0);
    let sent0 = sent().len();
    let src = SocketAddrV4::new(Ipv4Addr::from(ip), port);
    let mut l = vec![In::Data(d.clone(), src)];
    if intr == 1 {
        l.insert(0, In::Interrupted)
    }
    if intr == 2 {
        l.push(In::Interrupted)
    }
    let idle = l.len();
    deliver(l);
    deliver(vec![In::Data(good[0].clone(), PEER)]);
    // the value between the two
    unsafe { MARK = idle; COUNT = 0; SEEN = 0; }
    *socket2::IN_THREAD.lock().unwrap() = Some(mark);
    w().bus = Some(b);
    b.init();
    sys::settle();
    let mid = unsafe { SEEN };
    check(b.val() == mid.max(v2), 5101);
    let own = n == 20 && d[8..12] == 77u32.to_ne_bytes();
    let local = ip >> 24 == 127;
    let mut x = v0;
    if n == 20 && local && same(&d[..8], &ID.to_ne_bytes()) {
        let v = u64::from_ne_bytes(d[12..20].try_into().unwrap());
        if own {
            check(mid == v0 || mid == v0.max(v), 5102);
            x = mid;
            reach(56)
        } else {
            x = v0.max(v);
            reach(57)
        }
    } else {
        reach(58)
    }
    check(mid == x, 5103);
    check(sent().is_empty(), 5104); // nothing received is ever sent on
}
static mut MARK: usize = 0;
static mut COUNT: usize = 0;
static mut SEEN: u64 = 0;
fn mark() {
    unsafe {
        if COUNT == MARK {
            SEEN = w().bus.unwrap().val()
        }
        COUNT += 1
    }
}
fn p51_any() {
    any_datagram(&[0, 1, 7, 8, 9, 11, 12, 13, 19, 20, 21, 24, 28, 40], false)
}
fn p51_own() {
    any_datagram(&[8, 9, 11, 12, 13, 16, 19, 20, 21, 24, 40], true)
}
/// several processes, any order, duplicates, losses of nothing
fn p51_order() {
    start();
    let (a, b, c, v0) = (u64(), u64(), u64(), u64());
    let order: Vec<usize> = (0..4).map(|_| choice(3)).collect();
    let mut p = peer(ID, 99, &[a]);
    p.extend(peer(ID, 100, &[b]));
    p.extend(peer(ID + 1, 101, &[c])); // a different bus
    check(p.len() == 3, 5105);
    let x = bus(ID, "/procbus1");
    x.emit(v0);
    w().bus = Some(x);
    poll();
    deliver(order.iter().map(|i| In::Data(p[*i].clone(), PEER)).collect());
    x.init();
    sys::settle();
    let mut m = v0;
    for i in &order {
        m = match i {
            0 => m.max(a),
            1 => m.max(b),
            _ => m,
        }
    }
    check(x.val() == m, 5106);
    // a waiting task hears of it
    poll();
    check(m == v0 || (w().woken > 0 && w().last == m), 5107);
    reach(59);
}
/// a datagram while this process emits: the listener's steps at any point of the emission and the
/// emission at any point of the listener's
fn p51_both() {
    start();
    let (a, b, v0) = (u64(), u64(), u64());
    let at = 1 + choice(6);
    let weak = choice(2);
    let p = peer(ID, 99, &[b]);
    let x = bus(ID, "/procbus1");
    x.emit(v0);
    w().bus = Some(x);
    w().seen = x.val();
    deliver(vec![In::Data(p[0].clone(), PEER)]);
    w().plan = vec![(at, Op::Emit(a)), (at + 1, Op::Look)];
    w().weak = weak;
    w().points = 0;
    w().max = v0.max(b);
    w().on = true;
    x.init();
    sys::settle();
    w().on = false;
    check(x.val() == w().max, 5108);
    check(x.val() >= w().seen, 5109);
    reach(60);
}

// ---------------------------------------------------------------- P53
fn p53_local() {
    start();
    let (a, b) = (u64(), u64());
    let id = u64();
    let n = choice(3);
    // some other buses before
    for i in 0..n {
        put(&format!("/procbus-{i}/id"), &[i as u8; 8]);
        let _ = get_port(i as u64);
    }
    assume(id > 5);
    let x = bus(id, "/procbus1");
    x.emit(a);
    x.emit(b);
    x.init();
    sys::settle();
    let s = STATE.lock().unwrap();
    for m in &s.sent {
        check(m.conf.ttl == Some(0), 5300);
        check(m.conf.mif == Some(Ipv4Addr::LOCALHOST), 5301);
        check(m.to.ip().is_multicast() || m.to.ip().is_loopback(), 5302);
        check(m.conf.looped != Some(false), 5303);
        reach(61);
    }
    let Some(c) = s.recv_conf else {
        check(false, 5304);
        return;
    };
    check(matches!(c.joined, Some((g, i)) if i == Ipv4Addr::LOCALHOST && Some(SocketAddr::from((g, c.bound.unwrap().port()))) == s.sent.first().map(|m| m.to)), 5305);
    check(c.reuse, 5306);
    drop(s);
    // the listener has the port its id was given
    check(get_port(id).ok() == c.bound.map(|b| b.port()), 5307);
    reach(62);
}

// ---------------------------------------------------------------- P52
fn port(id: u64) -> u16 {
    match get_port(id) {
        Ok(p) => p,
        Err(_) => {
            check(false, 5200);
            end()
        }
    }
}
fn settled() {
    unsafe { check(!sys::UNLOCKED_EFFECT, 5201) }
    check(!fslock::HELD.load(std::sync::atomic::Ordering::SeqCst), 5202);
}
/// sequences of requests
fn p52_seq() {
    start();
    let ids = [u64(), u64(), u64()];
    let again = choice(3);
    let p: Vec<u16> = ids.iter().map(|i| port(*i)).collect();
    for i in 0..3 {
        for j in 0..i {
            check((p[i] == p[j]) == (ids[i] == ids[j]), 5203);
        }
        check(p[i] > 1024, 5204);
    }
    check(port(ids[again]) == p[again], 5205);
    settled();
    reach(63);
}
/// another process asks while this one waits for the lock
static mut OTHER: (u64, u16) = (0, 0);
fn other() {
    unsafe { OTHER.1 = port(OTHER.0) }
}
fn p52_two() {
    start();
    let (a, b, c) = (u64(), u64(), u64());
    let p = port(c);
    unsafe { OTHER = (b, 0) };
    *fslock::BEFORE.lock().unwrap() = Some(other);
    let pa = port(a);
    let pb = unsafe { OTHER.1 };
    for (x, px) in [(a, pa), (b, pb), (c, p)] {
        check(port(x) == px, 5206);
        for (y, py) in [(a, pa), (b, pb), (c, p)] {
            check((x == y) == (px == py), 5207);
        }
    }
    settled();
    reach(64);
}
/// a process dies at any point of its request
fn crash(before: usize, partial: usize) {
    start();
    let ids = [u64(), u64()];
    let dying = u64();
    let next = u64();
    let at = choice(5);
    let part = choice(partial);
    // an earlier death may have left part of an entry
    let torn = choice(3);
    let mut p = vec![];
    for i in 0..before {
        p.push((ids[i], port(ids[i])));
    }
    if torn > 0 {
        if file(MAP).is_none() {
            put(MAP, &[])
        }
        for _ in 0..4 * torn {
            file(MAP).unwrap().data.push(1)
        }
    }
    unsafe {
        sys::CRASH_AT = sys::EFFECTS + at;
        sys::PARTIAL = part;
        let _ = get_port(dying);
        if sys::crashed() {
            reach(65)
        } else {
            reach(66)
        }
        sys::CRASH_AT = usize::MAX;
        // its lock went with it
        fslock::HELD.store(false, std::sync::atomic::Ordering::SeqCst);
    }
    for (i, x) in &p {
        check(port(*i) == *x, 5208);
    }
    let n = port(next);
    p.push((next, n));
    let d = port(dying);
    p.push((dying, d));
    for (i, x) in &p {
        check(port(*i) == *x, 5209);
        for (j, y) in &p {
            check((i == j) == (x == y), 5210);
        }
    }
    settled();
}
fn p52_crash0() {
    crash(0, 12)
}
fn p52_crash() {
    crash(1, 12)
}
fn p52_crash2() {
    crash(2, 32)
}
/// whatever the file holds
fn p52_anyfile() {
    start();
    let n = choice(23);
    let d = vec(n);
    let (a, b) = (u64(), u64());
    put(MAP, &d);
    let pa = port(a);
    let pb = port(b);
    check(port(a) == pa, 5211);
    check(port(b) == pb, 5212);
    settled();
    reach(67);
}
symrt::export!(p50_seq, p50_race, p50_look, p50_wait, p50_waiters, p50_deadline, p51_any, p51_own, p51_order, p51_both, p53_local, p52_seq, p52_two, p52_crash0, p52_crash, p52_crash2, p52_anyfile);
#[cfg(feature = "native")]
fn main() {
    symrt::native::main(TABLE);
}
