//! The node's own author taking its turns, next to an importer that follows it.
use crate::chain::{facts, mode, off_of, Sim, ALL};
use crate::gossip::{addr_of, until, whole};
use crate::world::*;
use fr_block::types::block::Block;
use fr_common::ByteEncodable;
use fr_common::Hash32;
use fr_crypto::{traits::VrfSignature, types::Ed25519PubKey};
use fr_network::{
    endpoint::QuicEndpoint,
    manager::{LocalNodeInfo, NetworkManager},
    peers::ValidatorPeer,
};
use fr_node::{
    jam_node::JamNode,
    roles::{author::BlockAuthor, manager::RoleManager},
    scheduler::chain_extension::extend_chain,
};
use fr_state::types::{SlotSealers, Timeslot};
use rand::Rng;
use serde_json::{json, Map, Value};
use std::{
    net::{Ipv6Addr, SocketAddrV6},
    sync::atomic::{AtomicI64, Ordering::SeqCst},
    sync::{Arc, Mutex},
};
use tokio::sync::mpsc;

/// The wall clock this process sees, in milliseconds since 1970; 0 for the true one.
static NOW: AtomicI64 = AtomicI64::new(0);
/// By how much it goes on with every reading.
static STEP: AtomicI64 = AtomicI64::new(0);
const ERA: i64 = 1_735_732_800_000;
#[repr(C)]
pub struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// Takes the place of the C library's, so that the author can be given any slot to work in.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
    if id == 0 && NOW.load(SeqCst) != 0 {
        let now = NOW.fetch_add(STEP.load(SeqCst), SeqCst);
        (*t).s = now / 1000;
        (*t).n = now % 1000 * 1_000_000;
        return 0;
    }
    syscall(228, id as i64, t) as i32
}
fn set_slot(slot: u32, off: i64) {
    NOW.store(ERA + 6000 * slot as i64 + off, SeqCst);
}

fn info(sim: &Sim, who: usize) -> LocalNodeInfo {
    LocalNodeInfo::new(SocketAddrV6::new(Ipv6Addr::LOCALHOST, 0, 0, 0), sim.k.vals[who].key.clone())
}

/// The header of `b`, registered as what `who` should have signed.
fn expect(sim: &Sim, b: &Block, who: usize, ctx: &[u8]) {
    use fr_codec::prelude::*;
    let out = sim.k.vrf(who, ctx, &[]).output_hash().unwrap();
    sim.k.vrf(who, &[b"jam_entropy".as_slice(), out.as_slice()].concat(), &[]);
    sim.k.vrf(who, ctx, &b.header.data.encode().unwrap());
}

/// A node that hears of what others author, and asks for it.
struct Ear {
    addr: SocketAddrV6,
    key: Ed25519PubKey,
    node: Arc<JamNode>,
    _chain: Chain,
    tx: mpsc::Sender<Block>,
    got: Arc<Mutex<Vec<Block>>>,
    job: tokio::task::JoinHandle<()>,
}

impl Ear {
    async fn new() -> Ear {
        let ep = QuicEndpoint::new(SocketAddrV6::new(Ipv6Addr::LOCALHOST, 0, 0, 0));
        let addr = addr_of(&ep);
        let k = Keys::new(6);
        let chain = Chain::new(base_states(&k, &mut rng(1), 100), genesis_header(100, b"g"), |_| async {}).await;
        let i = LocalNodeInfo::new(addr, k.vals[0].key.clone());
        let net = NetworkManager::new(i.clone(), ep).await.unwrap();
        let node = Arc::new(JamNode::new(i, chain.storage.clone(), Arc::new(net)));
        let (tx, mut rx) = mpsc::channel::<Block>(10);
        let got: Arc<Mutex<Vec<Block>>> = Default::default();
        let (n, t, g) = (node.clone(), tx.clone(), got.clone());
        tokio::spawn(async move {
            while let Some(b) = rx.recv().await {
                g.lock().unwrap().push(b);
            }
        });
        let job = tokio::spawn(async move {
            let _ = n.run_acceptor(t).await;
        });
        Ear { addr, key: Ed25519PubKey::from_slice(&[0xff; 32]).unwrap(), node, _chain: chain, tx, got, job }
    }

    /// `net` connects to this node.
    async fn join(&self, net: &NetworkManager, st: Arc<fr_storage::node_storage::NodeStorage>) {
        let from = addr_of(&net.endpoint);
        let peers = &self.node.network_manager().all_validator_peers;
        peers.insert(from, ValidatorPeer::new(Ed25519PubKey::from_slice(&[0xfe; 32]).unwrap(), from, None));
        net.all_validator_peers.insert(self.addr, ValidatorPeer::new(self.key.clone(), self.addr, None));
        let _ = net.connect_to_all_peers(self.tx.clone(), st).await;
        until(|| peers.get(&from).is_some_and(|p| p.conn.as_ref().is_some_and(|c| !c.up_stream_handles.is_empty()))).await;
    }
}

impl Drop for Ear {
    fn drop(&mut self) {
        self.job.abort();
        for p in self.node.network_manager().all_validator_peers.iter() {
            if let Some(c) = &p.conn {
                c.conn.close(0u32.into(), b"");
            }
        }
    }
}

/// Offers `block` to the node `b` (and, unless it is already there, to `a`) and records what became of it.
/// `by`: who authored it on `a` (99: nobody); `told`: the state root `a` filed for it; `last`: `a` has nothing after it.
#[allow(clippy::too_many_arguments)]
async fn offer(
    sim: &mut Sim,
    out: &mut Out,
    st: &mut Value,
    a: &Chain,
    b: &Chain,
    w: &crate::chain::World,
    block: &Block,
    s: &Snap,
    (by, turn, ctx): (usize, u32, &[u8]),
    heard: Option<&str>,
    label: Value,
    (told, last): (String, bool),
) -> bool {
    let parent = b.head().hash().unwrap();
    let root = b.root().await;
    let bslot = block.header.data.timeslot_index;
    if by < sim.k.vals.len() && !ctx.is_empty() {
        expect(sim, block, by, ctx);
    }
    let changed = bslot / E > s.slot / E;
    let mut ring = String::new();
    if changed {
        let pend = derive(s, bslot, &off_of(&block.extrinsics)).pending;
        ring = sim.ring(&pend);
    }
    let mut m = facts(&sim.k, block, &parent, &root, &mut || ring.clone(), changed);
    if let Some(h) = heard {
        m.insert("heard".into(), json!(h));
    }
    if by < 99 {
        m.insert("turn".into(), json!(turn));
    }
    m.insert("ev".into(), json!(if by < 99 { "authored" } else { "block" }));
    m.insert("mut".into(), label);
    m.insert("anc".into(), json!([]));
    let res = b.import(block).await;
    if by == 99 && told.is_empty() && res.is_ok() {
        a.import(block).await;
    }
    m.insert("res".into(), json!(res.res()));
    let s2 = b.snap().await;
    let mut now = proj(&s2, ALL);
    let o = now.as_object_mut().unwrap();
    o.insert("want".into(), Sim::p_want(&b.sm(), w).await);
    let mut post = Map::new();
    for (kk, v) in o.iter() {
        if st[kk] != *v {
            post.insert(kk.clone(), v.clone());
            st[kk] = v.clone();
        }
    }
    let nroot: Hash32 = b.root().await;
    m.insert("post".into(), Value::Object(post));
    m.insert("root".into(), json!(hx(&nroot.0)));
    m.insert("best".into(), json!(hx(&b.head().hash().unwrap().0)));
    m.insert("told".into(), json!(match &res { Import::Ok(r) if told.is_empty() => hx(&r.0), Import::Ok(_) => told, _ => String::new() }));
    m.insert("twin".into(), json!(if last { hx(&a.root().await.0) } else { hx(&nroot.0) }));
    out.ev(Value::Object(m));
    res.is_ok()
}

/// The node's author takes its turn while its importer is given a block of another: whatever comes first, both act as if
/// one had waited for the other. False: nothing more can be learnt from this run.
async fn race(sim: &mut Sim, out: &mut Out, st: &mut Value, (a, b, w): (&Chain, &Chain, &crate::chain::World), node: &Arc<JamNode>, (who, slot): (usize, u32)) -> bool {
    let s = b.snap().await;
    let Some((rival, label)) = sim.next_block(b, w, st, s.slot, &[]).await else { return true };
    let before = slot > s.slot && matches!(eligible(&sim.k, &derive(&s, slot, &[]), slot), Some((_, o, _)) if o == who);
    let old = a.head().hash().unwrap();
    let rhash = rival.header.hash().unwrap();
    let mut wait = || if sim.r.gen_bool(0.4) { 0 } else { sim.r.gen_range(0..250) };
    let (d1, d2) = (wait(), wait());
    let nap = |d: u64| tokio::time::sleep(std::time::Duration::from_millis(d));
    let (n, sto, rv) = (node.clone(), a.storage.clone(), rival.clone());
    let j1 = tokio::spawn(async move {
        nap(d1).await;
        extend_chain(n, &Timeslot::new(slot)).await.is_ok()
    });
    let j2 = tokio::spawn(async move {
        nap(d2).await;
        let (tx, rx) = mpsc::channel(2);
        tx.send(rv).await.unwrap();
        drop(tx);
        fr_node::roles::importer::BlockImporter::run_block_importer(sto, rx).await
    });
    if sim.r.gen_bool(0.4) {
        // the clock goes on meanwhile
        if sim.r.gen_bool(0.5) {
            nap(sim.r.gen_range(0..300)).await;
        }
        set_slot(slot + 1, 0);
    }
    let (r1, r2) = (j1.await, j2.await);
    let well = matches!(r1, Ok(true)) && r2.is_ok();
    // the blocks in the order they were taken in
    let mut path = vec![];
    let mut at = a.head();
    while at.hash().unwrap() != old && path.len() < 3 {
        let up = at.data.parent_hash.clone();
        path.insert(0, at);
        match a.storage.header_db().get_header(&up).await {
            Ok(Some(h)) => at = h,
            _ => break,
        }
    }
    let mine: Vec<_> = path.iter().filter(|h| h.hash().unwrap() != rhash).cloned().collect();
    let taken = mine.len() < path.len();
    let told = |h: Hash32| async move {
        match a.storage.post_state_root_db().get_post_state_root(&h).await {
            Ok(Some(r)) => hx(&r.0),
            _ => "none".into(),
        }
    };
    let did = !mine.is_empty();
    let mut turns = vec![];
    if taken {
        let t = told(rhash.clone()).await;
        if !offer(sim, out, st, a, b, w, &rival, &s, (99, 0, &[]), None, json!(label), (t, false)).await {
            return false;
        }
    }
    let s = b.snap().await;
    // a turn that came first, when the slot was not yet the node's, cannot be told from one that came second
    let moot = taken && !did && !before && slot > s.slot && matches!(eligible(&sim.k, &derive(&s, slot, &[]), slot), Some((_, o, _)) if o == who);
    let mut ctx = vec![];
    let mut outp = String::new();
    if slot > s.slot {
        let d = derive(&s, slot, &[]);
        if matches!(d.sealers, SlotSealers::Tickets(_)) {
            // the rival began an epoch of tickets; nodes do not claim those
            turns.push(());
        }
        if let Some((_, o, c)) = eligible(&sim.k, &d, slot) {
            if o == who {
                outp = hx(&sim.k.vrf(who, &c, &[]).output_hash().unwrap().0);
                ctx = c;
            }
        }
    }
    if turns.is_empty() && !moot {
        let mut e = json!({"ev": "turn", "slot": slot, "by": hx(sim.k.vals[who].key.bandersnatch.as_slice()), "claims": [], "did": did, "well": well,
            "out": outp, "root": ""});
        if !did {
            e["root"] = json!(hx(&a.root().await.0));
        }
        e["race"] = json!(label);
        out.ev(e);
    }
    for (i, h) in mine.iter().enumerate() {
        let hash = h.hash().unwrap();
        let xt = a.storage.xt_db().get_xt(&h.data.extrinsic_hash).await.ok().flatten();
        let block = Block { header: h.clone(), extrinsics: xt.unwrap_or_default() };
        let t = told(hash).await;
        let s = b.snap().await;
        if !offer(sim, out, st, a, b, w, &block, &s, (who, slot, &ctx), None, json!("authored"), (t, i + 1 == mine.len())).await {
            return false;
        }
    }
    if !taken {
        let s = b.snap().await;
        let r = offer(sim, out, st, a, b, w, &rival, &s, (99, 0, &[]), None, json!(label), ("none".into(), true)).await;
        return !r || a.head() == rival.header;
    }
    true
}

/// What the clock says, read while it goes on.
pub fn clock(args: &crate::Args) {
    let mut out = Out::new(&args.out);
    let mut r = rng(args.seed);
    for _ in 0..args.n {
        let slot = match r.gen_range(0..6) {
            0 => 0i64,
            1 => 1,
            2 => r.gen_range(0..600),
            3 => u32::MAX as i64 - 4,
            _ => r.gen_range(0..u32::MAX as i64 - 4),
        };
        let off = match r.gen_range(0..5) {
            0 => 0i64,
            1 | 2 => 6000 - r.gen_range(1..4),
            3 => 1000 * r.gen_range(0..6),
            _ => r.gen_range(0..6000),
        };
        let step = [0, 0, 1, 1, 2, 5][r.gen_range(0..6)];
        let read = |f: &dyn Fn() -> Option<u64>| {
            STEP.store(step, SeqCst);
            set_slot(slot as u32, off);
            let v = f();
            let t = NOW.swap(0, SeqCst) - ERA - 6000 * slot - off;
            STEP.store(0, SeqCst);
            json!({"v": v.map(|x| json!(x.to_string())).unwrap_or(json!("none")), "n": if step == 0 { 1 } else { t / step }})
        };
        use fr_clock::JamClock as J;
        let mut e = json!({"ev": "clock", "slot": slot.to_string(), "off": off, "step": step,
            "at": read(&|| J::now_jam_timeslot().map(|x| x as u64)), "left": read(&J::millis_until_next_timeslot_boundary)});
        // what a node makes of a slot that may lie ahead
        let ahead = slot + r.gen_range(-3..4).max(-slot);
        STEP.store(0, SeqCst);
        set_slot(slot as u32, off);
        e["ask"] = json!(ahead - slot);
        e["next"] = json!((slot + 1).to_string());
        e["future"] = json!(Timeslot::new(ahead as u32).is_in_future());
        NOW.store(0, SeqCst);
        out.ev(e);
    }
    println!("{}", json!({"events": out.n}));
}

/// Lets everything that can go on without the passing of time do so.
async fn settle(ms: u64) {
    let t = std::time::Instant::now();
    while t.elapsed().as_millis() < ms as u128 {
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}

/// Nodes left to themselves while time passes, now evenly, now in leaps.
/// To be run on a runtime whose clock stands still.
pub async fn sched(args: &crate::Args) {
    let (hold, held) = std::sync::mpsc::channel::<()>();
    let _holder = tokio::task::spawn_blocking(move || held.recv());
    let mut sim = Sim::new(args.seed, mode("author"));
    let mut out = Out::new(&args.out);
    for _ in 0..args.n {
        let (a, w, b, st0) = sim.world().await;
        let b = b.unwrap();
        out.ev(json!({"ev": "init", "st": st0}));
        let mut st = st0;
        let mut at = 6000 * (a.snap().await.slot as i64 + sim.r.gen_range(0..3)) + sim.r.gen_range(0..6000);
        let mut jobs = vec![];
        let mut here = vec![];
        NOW.store(ERA + at, SeqCst);
        for who in 0..6 {
            if sim.r.gen_bool(0.1) {
                continue;
            }
            let i = info(&sim, who);
            let net = NetworkManager::new(i.clone(), QuicEndpoint::new(SocketAddrV6::new(Ipv6Addr::LOCALHOST, 0, 0, 0))).await.unwrap();
            let n = Arc::new(JamNode::new(i, a.storage.clone(), Arc::new(net)));
            here.push(who);
            jobs.push(tokio::spawn(fr_node::scheduler::timeslot_scheduler::TimeslotScheduler::spawn_scheduled_tasks(n)));
        }
        settle(20).await;
        'run: for _ in 0..sim.m.steps * 2 {
            let old = a.head().hash().unwrap();
            let into = at % 6000;
            // how far: not to the very moment a slot begins, when a timer may be a little late
            let dt = match sim.r.gen_range(0..10) {
                0 => sim.r.gen_range(1..6000),
                1 => sim.r.gen_range(6000..30_000),
                2 => sim.r.gen_range(6000..130_000),
                3 => (5999 - into).max(1),
                4 | 5 => 6000,
                _ => 6000 - into + sim.r.gen_range(2..6000),
            };
            let dt = if (at + dt) % 6000 < 2 { dt + 2 } else { dt };
            let crossed = (at + dt) / 6000 > at / 6000;
            at += dt;
            let slot = (at / 6000) as u32;
            NOW.store(ERA + at, SeqCst);
            let s = b.snap().await;
            let mut due = None;
            if crossed && slot > s.slot {
                let d = derive(&s, slot, &[]);
                if let (Some((_, who, c)), SlotSealers::BandersnatchPubKeys(_)) = (eligible(&sim.k, &d, slot), &d.sealers) {
                    due = here.contains(&who).then_some((who, c));
                }
            }
            tokio::time::advance(std::time::Duration::from_millis(dt as u64)).await;
            settle(40).await;
            for _ in 0..100 {
                let h = a.head().hash().unwrap();
                let done = matches!(a.storage.post_state_root_db().get_post_state_root(&h).await, Ok(Some(_)));
                if done && (due.is_none() || h != old) {
                    break;
                }
                settle(100).await;
            }
            settle(40).await;
            let mut path = vec![];
            let mut up = a.head();
            while up.hash().unwrap() != old && path.len() < 9 {
                let p = up.data.parent_hash.clone();
                path.insert(0, up);
                match a.storage.header_db().get_header(&p).await {
                    Ok(Some(h)) => up = h,
                    _ => break,
                }
            }
            let n = path.len();
            let mut did = vec![];
            for (i, h) in path.into_iter().enumerate() {
                let s = b.snap().await;
                let d = derive(&s, h.data.timeslot_index.max(s.slot), &[]);
                let key = d.active.get(h.data.author_index as usize).map(|v| v.bandersnatch.clone());
                let who = key.as_ref().and_then(|k| sim.k.who_b(k)).unwrap_or(99);
                did.push(who);
                out.ev(json!({"ev": "turn", "slot": if crossed { slot } else { 0 }, "by": key.map(|k| hx(k.as_slice())).unwrap_or_default(), "claims": [], "did": true, "well": true, "out": "", "root": ""}));
                let told = match a.storage.post_state_root_db().get_post_state_root(&h.hash().unwrap()).await {
                    Ok(Some(r)) => hx(&r.0),
                    _ => "none".into(),
                };
                let xt = a.storage.xt_db().get_xt(&h.data.extrinsic_hash).await.ok().flatten();
                let block = Block { header: h, extrinsics: xt.unwrap_or_default() };
                let ctx = due.clone().map(|d| d.1).unwrap_or_default();
                if !offer(&mut sim, &mut out, &mut st, &a, &b, &w, &block, &s, (who.min(98), slot, &ctx), None, json!("authored"), (told, i + 1 == n)).await {
                    break 'run;
                }
            }
            if crossed {
                for who in here.iter().filter(|w| !did.contains(w)) {
                    out.ev(json!({"ev": "turn", "slot": slot, "by": hx(sim.k.vals[*who].key.bandersnatch.as_slice()), "claims": [], "did": false, "well": true, "out": "", "root": hx(&a.root().await.0)}));
                }
            }
            // a block of another now and then
            if sim.r.gen_bool(0.15) {
                let s = b.snap().await;
                if let Some((x, label)) = sim.next_block(&b, &w, &st, s.slot, &[]).await {
                    if x.header.data.timeslot_index <= slot + 12 {
                        offer(&mut sim, &mut out, &mut st, &a, &b, &w, &x, &s, (99, 0, &[]), None, json!(label), (String::new(), true)).await;
                    }
                }
            }
        }
        for j in jobs {
            j.abort();
        }
        NOW.store(0, SeqCst);
    }
    drop(hold);
    println!("{}", json!({"events": out.n}));
}

pub async fn run(args: &crate::Args) {
    let mut sim = Sim::new(args.seed, mode("author"));
    let mut out = Out::new(&args.out);
    for _ in 0..args.n {
        let (a, w, b, st0) = sim.world().await;
        let b = b.unwrap();
        out.ev(json!({"ev": "init", "st": st0}));
        let mut st = st0;
        // one node per account, all over the same storage; another that they are connected to
        let ear = Ear::new().await;
        let mut nodes = vec![];
        for who in 0..6 {
            let i = info(&sim, who);
            let net = NetworkManager::new(i.clone(), QuicEndpoint::new(SocketAddrV6::new(Ipv6Addr::LOCALHOST, 0, 0, 0))).await.unwrap();
            ear.join(&net, a.storage.clone()).await;
            let mut n = JamNode::new(i.clone(), a.storage.clone(), Arc::new(net));
            let ix = a.sm().get_active_set_clean().await.unwrap().get_validator_index(i.bandersnatch_key());
            n.set_curr_epoch_validator_index(ix);
            nodes.push(Arc::new(n));
        }
        for _ in 0..sim.m.steps {
            let s = a.snap().await;
            let mut ev = json!({});
            let block;
            let mut by = 99;
            let mut turn = 0;
            let mut ctx = vec![];
            let mut told = String::new();
            let mut heard = None;
            if sim.r.gen_bool(if args.mode == "race" { 0.25 } else { 0.4 }) {
                let Some((x, label)) = sim.next_block(&b, &w, &st, s.slot, &[]).await else { continue };
                ev["mut"] = json!(label);
                block = x;
            } else {
                // a slot, usually one owned by a known account
                let mut pick = None;
                for _ in 0..12 {
                    let slot = match sim.r.gen_range(0..8) {
                        0 => s.slot.saturating_sub(sim.r.gen_range(0..3)),
                        1 => (s.slot / E + 1) * E,
                        2 => (s.slot / E + 1) * E + sim.r.gen_range(0..30),
                        3 => (s.slot / E) * E + 10 + sim.r.gen_range(0..2),
                        _ => s.slot + sim.r.gen_range(1..8),
                    };
                    let d = derive(&s, slot.max(s.slot), &[]);
                    let el = eligible(&sim.k, &d, slot);
                    let tick = matches!(d.sealers, SlotSealers::Tickets(_));
                    match el {
                        Some((ix, who, c)) if who < 6 => {
                            pick = Some((slot, tick, ix, who, c));
                            break;
                        }
                        _ if sim.r.gen_bool(0.1) && !tick => {
                            pick = Some((slot, tick, 0, sim.r.gen_range(0..6), vec![]));
                            break;
                        }
                        _ => {}
                    }
                }
                let Some((slot, tick, ix, owner, c)) = pick else { continue };
                set_slot(slot, sim.r.gen_range(0..6000));
                let who = if args.mode == "race" || sim.r.gen_bool(0.8) || (tick && slot > s.slot) { owner } else { sim.r.gen_range(0..6) };
                let mut claims = vec![];
                if !tick {
                    for n in &nodes {
                        let own = RoleManager::is_author_of_slot(a.sm(), n.local_node_info().clone(), &Timeslot::new(slot)).await.unwrap();
                        claims.push(json!({"k": hx(n.local_node_info().bandersnatch_key().as_slice()), "own": own}));
                    }
                }
                let before = a.head().hash().unwrap();
                ear.got.lock().unwrap().clear();
                let mut worked = true;
                if tick {
                    // the node does not know which tickets are its own: the author is told directly
                    if slot <= s.slot {
                        continue;
                    }
                    let mut au = BlockAuthor::new(ix, info(&sim, who)).unwrap();
                    let st = a.storage.clone();
                    worked = tokio::spawn(async move {
                        let Ok(h) = au.author_block_commit_header(st.clone(), slot).await else { return false };
                        st.header_db().set_best_header(h.clone());
                        au.author_block_commit_state(st, h.hash().unwrap()).await.is_ok()
                    })
                    .await
                    .unwrap_or(false);
                } else if args.mode == "race" && slot > s.slot {
                    if !race(&mut sim, &mut out, &mut st, (&a, &b, &w), &nodes[who], (who, slot)).await {
                        break;
                    }
                    NOW.store(0, SeqCst);
                    continue;
                } else {
                    let n = nodes[who].clone();
                    worked &= tokio::spawn(async move { extend_chain(n, &Timeslot::new(slot)).await.is_ok() }).await.unwrap_or(false);
                }
                let after = a.head();
                let hash = after.hash().unwrap();
                let did = hash != before;
                by = who;
                turn = slot;
                ctx = c;
                out.ev(json!({"ev": "turn", "slot": slot, "by": hx(sim.k.vals[who].key.bandersnatch.as_slice()), "claims": claims, "did": did, "well": worked,
                    "out": if ctx.is_empty() { String::new() } else { hx(&sim.k.vrf(who, &ctx, &[]).output_hash().unwrap().0) },
                    "root": if did { String::new() } else { hx(&a.root().await.0) }}));
                if !did {
                    NOW.store(0, SeqCst);
                    continue;
                }
                told = match a.storage.post_state_root_db().get_post_state_root(&hash).await {
                    Ok(Some(r)) => hx(&r.0),
                    _ => "none".into(),
                };
                let xt = a.storage.xt_db().get_xt(&after.data.extrinsic_hash).await.ok().flatten();
                block = Block { header: after, extrinsics: xt.unwrap_or_default() };
                if !tick {
                    until(|| !ear.got.lock().unwrap().is_empty()).await;
                    let g: Vec<String> = ear.got.lock().unwrap().iter().map(whole).collect();
                    heard = Some(if g.is_empty() { "nothing" } else if g == [whole(&block)] { "the block" } else { "something else" });
                }
                ev["mut"] = json!("authored");
            }
            NOW.store(0, SeqCst);
            let res = offer(&mut sim, &mut out, &mut st, &a, &b, &w, &block, &s, (by, turn, &ctx), heard, ev["mut"].clone(), (told, true)).await;
            if by < 99 && !res {
                break;
            }
        }
        NOW.store(0, SeqCst);
    }
    println!("{}", json!({"events": out.n}));
}
