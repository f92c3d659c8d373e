//! Nodes that announce blocks to each other and ask each other for them over real connections, next to a peer that is only this driver.
use crate::world::*;
use fr_block::{
    header_db::BlockHeaderDBError,
    types::{
        block::{Block, BlockHeader, EpochMarker},
        extrinsics::{preimages::PreimagesXtEntry, Extrinsics},
    },
};
use fr_codec::prelude::*;
use fr_common::{ByteEncodable, Hash32, Octets};
use fr_crypto::types::*;
use fr_network::{
    endpoint::QuicEndpoint,
    manager::{LocalNodeInfo, NetworkManager},
    streams::ce_streams::{
        block_request::{BlockRequest, BlockRequestInitArgs},
        CeStream,
    },
    types::BlockAnnouncement,
};
use fr_node::jam_node::JamNode;
use fr_state::types::{ActiveSet, PastSet, StagingSet};
use rand::{seq::SliceRandom, Rng};
use serde_json::json;
use std::{
    collections::HashMap,
    net::{Ipv6Addr, SocketAddr, SocketAddrV6},
    sync::{Arc, Mutex},
    time::Duration,
};
use tokio::{sync::mpsc, time::Instant};

const WAIT: Duration = Duration::from_secs(12);
type Parts = Vec<(Vec<u8>, u64)>;

/// `b` in pieces, with pauses in between.
fn cut(r: &mut Rg, b: &[u8]) -> Parts {
    let mut at: Vec<usize> = match r.gen_range(0..4) {
        0 => vec![],
        1 => vec![*[1usize, 2, 32, 33, 1023, 1024, 1025, 4096].choose(r).unwrap()],
        _ => (0..r.gen_range(1..5)).map(|_| r.gen_range(0..=b.len())).collect(),
    };
    at.retain(|x| *x < b.len());
    at.sort();
    at.push(b.len());
    let mut v = vec![];
    let mut last = 0;
    for x in at {
        v.push((b[last..x].to_vec(), r.gen_range(0..6)));
        last = x;
    }
    v
}

struct Node {
    node: Arc<JamNode>,
    chain: Chain,
    addr: SocketAddrV6,
    got: Arc<Mutex<Vec<String>>>,
    tx: mpsc::Sender<Block>,
}

/// What a block amounts to on the wire.
pub fn whole(b: &Block) -> String {
    hx(&b2(&[b.header.encode().unwrap(), b.extrinsics.encode().unwrap()].concat()).0)
}

/// The peer played by this driver.
#[derive(Default)]
struct Raw {
    conns: Mutex<HashMap<usize, quinn::Connection>>,
    heard: Mutex<HashMap<usize, Vec<(Hash32, u32)>>>,
    ups: Mutex<HashMap<usize, mpsc::Sender<Parts>>>,
    replies: Mutex<HashMap<Hash32, Parts>>,
}

impl Raw {
    /// Both directions of a stream of announcements.
    fn talk(self: &Arc<Raw>, name: usize, mut send: quinn::SendStream, mut recv: quinn::RecvStream) {
        let (tx, mut rx) = mpsc::channel::<Parts>(64);
        self.ups.lock().unwrap().insert(name, tx);
        tokio::spawn(async move {
            while let Some(parts) = rx.recv().await {
                for (p, ms) in parts {
                    if send.write_all(&p).await.is_err() {
                        return;
                    }
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                }
            }
        });
        let raw = self.clone();
        tokio::spawn(async move {
            let mut buf = vec![];
            while let Ok(Some(c)) = recv.read_chunk(1 << 16, true).await {
                buf.extend_from_slice(&c.bytes);
                loop {
                    let mut s = buf.as_slice();
                    let Ok(a) = BlockAnnouncement::decode(&mut s) else { break };
                    let n = buf.len() - s.len();
                    buf.drain(..n);
                    raw.heard.lock().unwrap().entry(name).or_default().push((a.header_hash, a.timeslot));
                }
            }
        });
    }

    /// Serves whatever the other side of `conn` opens.
    fn serve(self: &Arc<Raw>, name: usize, conn: quinn::Connection) {
        self.conns.lock().unwrap().insert(name, conn.clone());
        let raw = self.clone();
        tokio::spawn(async move {
            while let Ok((mut send, mut recv)) = conn.accept_bi().await {
                let raw = raw.clone();
                tokio::spawn(async move {
                    let mut kind = [0u8; 1];
                    if recv.read_exact(&mut kind).await.is_err() {
                        return;
                    }
                    if kind[0] == 0 {
                        raw.talk(name, send, recv);
                    } else if kind[0] == 128 {
                        let Ok(b) = recv.read_to_end(4096).await else { return };
                        let Ok(a) = BlockRequestInitArgs::decode(&mut b.as_slice()) else { return };
                        let reply = raw.replies.lock().unwrap().get(&a.header_hash).cloned();
                        for (p, ms) in reply.unwrap_or_default() {
                            if send.write_all(&p).await.is_err() {
                                return;
                            }
                            tokio::time::sleep(Duration::from_millis(ms)).await;
                        }
                        let _ = send.finish();
                        let _ = send.stopped().await;
                    }
                });
            }
        });
    }

    /// Sends `parts` on a stream of its own and collects the answer.
    async fn call(&self, name: usize, parts: Parts) -> Option<Vec<u8>> {
        let conn = self.conns.lock().unwrap().get(&name).cloned()?;
        let go = async {
            let (mut send, mut recv) = conn.open_bi().await.ok()?;
            for (p, ms) in parts {
                send.write_all(&p).await.ok()?;
                tokio::time::sleep(Duration::from_millis(ms)).await;
            }
            send.finish().ok()?;
            recv.read_to_end(1 << 26).await.ok()
        };
        tokio::time::timeout(WAIT, go).await.ok().flatten()
    }
}

fn blob(r: &mut Rg, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.gen()).collect()
}

fn block(r: &mut Rg) -> Block {
    let mut h = BlockHeader::default();
    h.data.parent_hash = h32(r);
    h.data.prior_state_root = h32(r);
    h.data.timeslot_index = *[0u32, 1, 127, 128, 16383, 16384, 1 << 21, u32::MAX].choose(r).unwrap();
    h.data.author_index = r.gen_range(0..6);
    if r.gen_bool(0.3) {
        h.data.epoch_marker = Some(EpochMarker { entropy: h32(r), tickets_entropy: h32(r), validators: Default::default() });
    }
    let offs = if r.gen_bool(0.2) { r.gen_range(10..60) } else { r.gen_range(0..4) };
    h.data.offenders_marker = (0..offs).map(|_| Ed25519PubKey::from_slice(&blob(r, 32)).unwrap()).collect();
    let mut x = Extrinsics::default();
    for i in 0..r.gen_range(0..4u32) {
        let n = *[0usize, 1, 300, 600, 700, 1024, 3000, 60_000].choose(r).unwrap();
        x.preimages.items.push(PreimagesXtEntry { service_id: i, preimage_data: Octets::from_vec(blob(r, n)) });
    }
    h.data.extrinsic_hash = h32(r);
    Block { header: h, extrinsics: x }
}

pub async fn until(f: impl Fn() -> bool) {
    let end = Instant::now() + WAIT;
    while !f() && Instant::now() < end {
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
}

fn key(r: &mut Rg, port: u16) -> ValidatorKey {
    let mut md = vec![0u8; 128];
    md[..16].copy_from_slice(&Ipv6Addr::LOCALHOST.octets());
    md[16..18].copy_from_slice(&port.to_le_bytes());
    ValidatorKey {
        bandersnatch: BandersnatchPubKey::default(),
        ed25519: Ed25519PubKey::from_slice(&blob(r, 32)).unwrap(),
        bls: BlsPubKey::from_slice(&[1; 144]).unwrap(),
        metadata: ValidatorMetadata(fr_common::ByteArray::from_slice(&md).unwrap()),
    }
}

pub fn addr_of(e: &QuicEndpoint) -> SocketAddrV6 {
    match e.local_addr().unwrap() {
        SocketAddr::V6(a) => SocketAddrV6::new(Ipv6Addr::LOCALHOST, a.port(), 0, 0),
        _ => unreachable!(),
    }
}

async fn put(n: &Node, b: &Block, head: bool, xts: bool) -> Result<(), BlockHeaderDBError> {
    if head {
        n.chain.storage.header_db().commit_header(b.header.clone()).await?;
    }
    if xts {
        n.chain.storage.xt_db().set_xt(&b.header.data.extrinsic_hash, b.extrinsics.clone()).await.unwrap();
    }
    Ok(())
}

/// Whether both ends of a connection between `n` and the peer at `to` are ready.
fn linked(n: &Node, to: &SocketAddrV6) -> bool {
    n.node.network_manager().all_validator_peers.get(to).is_some_and(|p| p.conn.as_ref().is_some_and(|c| c.conn.close_reason().is_none() && !c.up_stream_handles.is_empty()))
}

/// The driver's peer connects to `n`.
async fn dial(raw: &Arc<Raw>, ep: &QuicEndpoint, i: usize, n: &Node, k: &ValidatorKey, own: &SocketAddrV6) {
    let conn = ep.connect(n.addr, &k.ed25519).await.unwrap();
    let (mut send, recv) = conn.open_bi().await.unwrap();
    send.write_all(&[0]).await.unwrap();
    raw.talk(i, send, recv);
    raw.serve(i, conn);
    until(|| linked(n, own)).await;
}

async fn case(r: &mut Rg, k: &Keys, out: &mut Out) {
    let eps: Vec<QuicEndpoint> = (0..3).map(|_| QuicEndpoint::new(SocketAddrV6::new(Ipv6Addr::LOCALHOST, 0, 0, 0))).collect();
    let addrs: Vec<SocketAddrV6> = eps.iter().map(addr_of).collect();
    let keys: Vec<ValidatorKey> = addrs.iter().map(|a| key(r, a.port())).collect();
    let mut set = ValidatorKeySet::default();
    for (i, x) in keys.iter().enumerate() {
        set[i + 1] = x.clone();
    }
    let blocks: Vec<Block> = (0..r.gen_range(3..9)).map(|_| block(r)).collect();
    let hash: Vec<Hash32> = blocks.iter().map(|b| b.header.hash().unwrap()).collect();
    let mut nodes: Vec<Node> = vec![];
    let mut have = vec![];
    for i in 0..2 {
        let mut ss = base_states(k, r, 100);
        ss.past_set = PastSet(set.clone());
        ss.active_set = ActiveSet(set.clone());
        ss.staging_set = StagingSet(set.clone());
        ss.safrole.pending_set = set.clone();
        let chain = Chain::new(ss, genesis_header(100, b"g"), |_| async {}).await;
        let info = LocalNodeInfo::new(addrs[i], keys[i].clone());
        let nm = NetworkManager::new(info.clone(), eps[i].clone()).await.unwrap();
        nm.load_validator_peers(chain.storage.clone(), addrs[i]).await.unwrap();
        let node = Arc::new(JamNode::new(info, chain.storage.clone(), Arc::new(nm)));
        let (tx, mut rx) = mpsc::channel::<Block>(10);
        let got: Arc<Mutex<Vec<String>>> = Default::default();
        let g = got.clone();
        tokio::spawn(async move {
            while let Some(b) = rx.recv().await {
                g.lock().unwrap().push(whole(&b));
            }
        });
        let (n2, t2) = (node.clone(), tx.clone());
        tokio::spawn(async move {
            let _ = n2.run_acceptor(t2).await;
        });
        let n = Node { node, chain, addr: addrs[i], got, tx };
        let mut h = vec![];
        for (b, x) in blocks.iter().zip(&hash) {
            let (head, xts) = match r.gen_range(0..10) {
                0..=5 => (true, true),
                6 => (true, false),
                7 => (false, true),
                _ => (false, false),
            };
            put(&n, b, head, xts).await.unwrap();
            h.push(json!([hx(&x.0), [head, xts]]));
        }
        have.push(h);
        nodes.push(n);
    }
    out.ev(json!({"ev": "new", "blocks": blocks.iter().zip(&hash).map(|(b, h)| json!([hx(&h.0), whole(b), b.header.data.timeslot_index.to_string()])).collect::<Vec<_>>(), "have": have}));
    // connections, opened from either side
    let raw: Arc<Raw> = Default::default();
    {
        let (ep, raw) = (eps[2].clone(), raw.clone());
        let names: HashMap<u16, usize> = (0..2).map(|i| (addrs[i].port(), i)).collect();
        tokio::spawn(async move {
            while let Some(inc) = ep.accept().await {
                let Ok(conn) = inc.await else { continue };
                let name = names[&conn.remote_address().port()];
                raw.serve(name, conn);
            }
        });
    }
    let mut order = vec![0usize, 1, 2];
    order.shuffle(r);
    for who in order {
        if who < 2 {
            let n = &nodes[who];
            let nm = n.node.network_manager();
            if r.gen_bool(0.5) {
                let _ = nm.connect_to_peers(n.tx.clone(), n.chain.storage.clone()).await;
                // connections the others still have to learn of
                until(|| addrs.iter().all(|a| *a == n.addr || !nm.all_validator_peers.get(a).is_some_and(|p| p.conn.is_some()) || linked(n, a))).await;
            }
            let _ = nm.connect_to_all_peers(n.tx.clone(), n.chain.storage.clone()).await;
            until(|| addrs.iter().all(|a| *a == n.addr || linked(n, a))).await;
            until(|| linked(&nodes[1 - who], &n.addr) && raw.ups.lock().unwrap().contains_key(&who)).await;
        } else {
            for i in 0..2 {
                if raw.ups.lock().unwrap().contains_key(&i) {
                    continue;
                }
                dial(&raw, &eps[2], i, &nodes[i], &keys[i], &addrs[2]).await;
            }
        }
    }
    let name = |i: usize| ["A", "B", "R"][i];
    let ask = |r: &mut Rg| BlockRequestInitArgs { header_hash: if r.gen_bool(0.9) { hash.choose(r).unwrap().clone() } else { h32(r) }, ascending_excl: false, max_blocks: 1 };
    let drain = |i: usize| std::mem::take(&mut *nodes[i].got.lock().unwrap());
    let mut held: Vec<Vec<(bool, bool)>> = have.iter().map(|h| h.iter().map(|x| (x[1][0].as_bool().unwrap(), x[1][1].as_bool().unwrap())).collect()).collect();
    let mut gone = [false, false];
    for _ in 0..r.gen_range(6..16) {
        let i = r.gen_range(0..2);
        match r.gen_range(0..22) {
            20..=21 => {
                if gone[i] {
                    dial(&raw, &eps[2], i, &nodes[i], &keys[i], &addrs[2]).await;
                } else {
                    let conn = raw.conns.lock().unwrap().remove(&i);
                    if let Some(c) = conn {
                        c.close(0u32.into(), b"");
                    }
                    raw.ups.lock().unwrap().remove(&i);
                    until(|| !linked(&nodes[i], &addrs[2])).await;
                }
                gone[i] = !gone[i];
                out.ev(json!({"ev": if gone[i] { "drop" } else { "join" }, "to": name(i)}));
            }
            // one asks for a block
            0..=4 => {
                let a = ask(r);
                let (by, got) = if r.gen_bool(0.5) && !gone[i] {
                    let mut b = vec![128];
                    b.extend(a.encode().unwrap());
                    (2, raw.call(i, cut(r, &b)).await.map(|b| if b.is_empty() { "none".into() } else { hx(&b2(&b).0) }))
                } else {
                    let j = 1 - i;
                    let conn = nodes[j].node.network_manager().all_validator_peers.get(&nodes[i].addr).and_then(|p| p.conn.as_ref().map(|c| c.conn.clone()));
                    let got = match conn {
                        Some(c) => tokio::time::timeout(WAIT, BlockRequest::request(c, a.clone())).await.ok().map(|x| match x {
                            Ok(v) if v.is_empty() => "none".to_string(),
                            Ok(v) => v.iter().map(whole).collect::<Vec<_>>().join("+"),
                            Err(_) => "none".into(),
                        }),
                        None => Some("unconnected".into()),
                    };
                    (j, got)
                };
                out.ev(json!({"ev": "ask", "by": name(by), "to": name(i), "h": hx(&a.header_hash.0), "got": got.unwrap_or("silence".into())}));
            }
            // a node announces to everyone
            5..=9 => {
                let list: Vec<usize> = (0..r.gen_range(1..5)).map(|_| r.gen_range(0..blocks.len())).collect();
                for x in &list {
                    if nodes[i].node.network_manager().announce_block_to_all_peers(&blocks[*x].header).await.is_err() {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(r.gen_range(0..6))).await;
                }
                let (j, hope) = (1 - i, list.iter().filter(|x| held[i][**x] == (true, true)).count());
                until(|| nodes[j].got.lock().unwrap().len() >= hope && raw.heard.lock().unwrap().get(&i).map_or(0, |h| h.len()) >= if gone[i] { 0 } else { list.len() }).await;
                tokio::time::sleep(Duration::from_millis(60)).await;
                let heard = raw.heard.lock().unwrap().remove(&i).unwrap_or_default();
                out.ev(json!({"ev": "tell", "by": name(i), "list": list.iter().map(|x| hx(&hash[*x].0)).collect::<Vec<_>>(), "to": name(j), "got": drain(j),
                    "heard": heard.iter().map(|(h, t)| json!([hx(&h.0), t.to_string()])).collect::<Vec<_>>()}));
            }
            // the driver's peer announces, in pieces, and answers requests, in pieces
            10..=15 if !gone[i] => {
                let list: Vec<usize> = (0..r.gen_range(1..6)).map(|_| r.gen_range(0..blocks.len())).collect();
                let mut modes: Vec<&str> = vec![];
                for (x, h) in blocks.iter().zip(&hash) {
                    let b = x.encode().unwrap();
                    let m = *["full", "full", "full", "none", "cut"].choose(r).unwrap();
                    let parts = match m {
                        "full" => cut(r, &b),
                        "none" => vec![],
                        _ => {
                            let n = r.gen_range(0..b.len());
                            cut(r, &b[..n])
                        }
                    };
                    raw.replies.lock().unwrap().insert(h.clone(), parts);
                    modes.push(m);
                }
                let mut b = vec![];
                for x in &list {
                    b.extend(blocks[*x].header.block_announcement_blob().unwrap());
                }
                let parts = cut(r, &b);
                let up = raw.ups.lock().unwrap().get(&i).cloned();
                if let Some(up) = up {
                    let _ = up.send(parts).await;
                }
                let hope = list.iter().filter(|x| modes[**x] == "full").count();
                until(|| nodes[i].got.lock().unwrap().len() >= hope).await;
                tokio::time::sleep(Duration::from_millis(100)).await;
                out.ev(json!({"ev": "hear", "to": name(i), "list": list.iter().map(|x| json!([hx(&hash[*x].0), modes[*x]])).collect::<Vec<_>>(), "got": drain(i)}));
            }
            // something a node cannot make sense of
            10..=17 => {
                if gone[i] {
                    continue;
                }
                let b: Vec<u8> = match r.gen_range(0..6) {
                    0 => vec![],
                    1 => vec![*[1u8, 3, 64, 127, 130, 146, 200, 255].choose(r).unwrap()],
                    2 => {
                        let mut v = vec![r.gen_range(129..=145u8)];
                        v.extend(blob(r, 40));
                        v
                    }
                    3 => vec![128],
                    4 => {
                        let mut v = vec![128];
                        let n = r.gen_range(1..33);
                        v.extend(blob(r, n));
                        v
                    }
                    _ => {
                        let mut v = vec![128];
                        v.extend(BlockRequestInitArgs { header_hash: hash[0].clone(), ascending_excl: r.gen(), max_blocks: 7 }.encode().unwrap());
                        v
                    }
                };
                let what = hx(&b);
                let parts = cut(r, &b);
                raw.call(i, parts).await;
                out.ev(json!({"ev": "odd", "to": name(i), "what": what}));
            }
            // a node comes to hold a block
            _ => {
                let x = r.gen_range(0..blocks.len());
                put(&nodes[i], &blocks[x], true, true).await.unwrap();
                held[i][x] = (true, true);
                out.ev(json!({"ev": "keep", "to": name(i), "h": hx(&hash[x].0)}));
            }
        }
    }
    for c in raw.conns.lock().unwrap().values() {
        c.close(0u32.into(), b"");
    }
}

pub async fn run(args: &crate::Args) {
    let mut r = rng(args.seed);
    let k = Keys::new(6);
    let mut out = Out::new(&args.out);
    for _ in 0..args.n {
        case(&mut r, &k, &mut out).await;
    }
    println!("{}", json!({"events": out.n}));
}
