//! Function-level observations: Merkle trees, ranges, erasure code, shuffling and assignment, peer selection.
use crate::world::*;
use crate::Args;
use fr_common::{ByteEncodable, Hash32};
use fr_crypto::hash::{Blake2b256, Keccak256};
use fr_crypto::types::*;
use fr_extrinsics::utils::{guarantor_rotation::GuarantorAssignment, shuffle::shuffle_with_hash};
use fr_merkle::{constant_depth_tree::ConstantDepthMerkleTree, mmr::MerkleMountainRange, well_balanced_tree::WellBalancedMerkleTree};
use fr_state::types::*;
use rand::{seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::net::{Ipv6Addr, SocketAddrV6};
use std::sync::Arc;

fn blob(r: &mut Rg, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.gen()).collect()
}
fn hs(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|x| hx(x)).collect()
}
fn hh(v: &[Hash32]) -> Vec<String> {
    v.iter().map(|x| hx(&x.0)).collect()
}

pub async fn run(a: &Args) {
    let mut r = rng(a.seed);
    let mut out = Out::new(&a.out);
    match a.mode.as_str() {
        "merkle" => merkle(a.n, &mut r, &mut out),
        "erasure" => erasure(a.n, &mut r, &mut out),
        "shuffle" => shuffle(a.n, &mut r, &mut out).await,
        "net" => net(a.n, &mut r, &mut out).await,
        "lookup" => lookup(a.n, &mut r, &mut out).await,
        "anc" => ancestors(a.n, &mut r, &mut out),
        m => panic!("unknown mode {m}"),
    }
    println!("{} events", out.n);
}

fn leaves(r: &mut Rg) -> Vec<Vec<u8>> {
    let n = match r.gen_range(0..6) {
        0 => r.gen_range(0..4),
        1 => 1usize << r.gen_range(0..6),
        2 => (1usize << r.gen_range(1..6)) + 1,
        3 => (1usize << r.gen_range(2..6)) - 1,
        _ => r.gen_range(1..48),
    };
    let fixed = r.gen_bool(0.6);
    let dup = r.gen_bool(0.2);
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let l = if fixed { 32 } else { r.gen_range(0..70) };
        let x = if dup && !v.is_empty() && r.gen_bool(0.5) { v[r.gen_range(0..v.len())].clone() } else { blob(r, l) };
        v.push(x);
    }
    v
}

fn merkle(n: usize, r: &mut Rg, out: &mut Out) {
    type WB = WellBalancedMerkleTree<Blake2b256>;
    type WK = WellBalancedMerkleTree<Keccak256>;
    type CD = ConstantDepthMerkleTree<Blake2b256>;
    type CK = ConstantDepthMerkleTree<Keccak256>;
    for i in 0..n {
        let v = leaves(r);
        out.ev(json!({"ev": "wb", "h": "b", "v": hs(&v), "out": hx(&WB::compute_root(&v).unwrap().0)}));
        out.ev(json!({"ev": "wb", "h": "k", "v": hs(&v), "out": hx(&WK::compute_root(&v).unwrap().0)}));
        out.ev(json!({"ev": "cd", "h": "b", "v": hs(&v), "out": hx(&CD::compute_root(&v).unwrap().0)}));
        out.ev(json!({"ev": "cd", "h": "k", "v": hs(&v), "out": hx(&CK::compute_root(&v).unwrap().0)}));
        if !v.is_empty() {
            for _ in 0..2 {
                let x = r.gen_range(0..7usize);
                let pages = v.len().div_ceil(1 << x);
                let p = if r.gen_bool(0.4) { pages - 1 } else { r.gen_range(0..pages) };
                let proof = CD::single_page_justification(&v, p, x).unwrap();
                let lv = CD::subtree_page_leaf_hashes(&v, p, x).unwrap();
                out.ev(json!({"ev": "page", "h": "b", "v": hs(&v), "x": x, "p": p, "proof": hh(&proof), "leaves": hh(&lv)}));
            }
        }
        if i % 4 == 0 {
            let mut m = MerkleMountainRange::<Keccak256>::new();
            let mut m2 = MerkleMountainRange::<Keccak256>::new();
            let mut all = vec![];
            let len = r.gen_range(1..24);
            for _ in 0..len {
                let pk = |m: &MerkleMountainRange<Keccak256>| m.peaks.iter().map(|p| p.as_ref().map(|h| hx(&h.0)).unwrap_or_default()).collect::<Vec<_>>();
                let pre = pk(&m);
                let leaf = if r.gen_bool(0.2) && !all.is_empty() { all[all.len() - 1] } else { h32(r).0 };
                all.push(leaf);
                m.append(Hash32::new(leaf)).unwrap();
                m2.append_recursive(Hash32::new(leaf), 0).unwrap();
                for m in [&m, &m2] {
                    out.ev(json!({"ev": "range", "pre": pre, "leaf": hx(&leaf), "post": pk(m), "super": hx(&m.super_peak().unwrap().0),
                                  "all": all.iter().map(|x| hx(x)).collect::<Vec<_>>()}));
                }
            }
        }
    }
}

fn erasure(n: usize, r: &mut Rg, out: &mut Out) {
    use fr_erasure_coding::ErasureCodec;
    for i in 0..n {
        let full = i % 40 == 39;
        let c = if full { ErasureCodec::new_full() } else if i % 2 == 0 { ErasureCodec::new_tiny() } else { ErasureCodec::new_from_chain_spec() };
        let (k, t) = (c.msg_chunks(), c.total_chunks());
        let len = if full { *[0usize, 1, 683, 684, 685].choose(r).unwrap() + 3 * r.gen_range(0..2usize) } else { match r.gen_range(0..6) { 0 => r.gen_range(0..6), 1 => 4 * r.gen_range(0..30), 2 => 684, _ => r.gen_range(1..200) } };
        let mut data = blob(r, len);
        if r.gen_bool(0.1) {
            data.iter_mut().for_each(|x| *x = 0)
        }
        let sh = c.erasure_encode(&data).unwrap();
        assert_eq!(c.recovery_chunks() + k, t);
        let at: Vec<usize> = if full { let mut a: Vec<usize> = vec![0, k - 1]; a.push(r.gen_range(k..t)); a } else { (0..t).collect() };
        out.ev(json!({"ev": "encode", "k": k, "n": t, "data": hx(&data), "count": sh.len(), "at": at,
                      "shards": at.iter().map(|i| hx(&sh[*i])).collect::<Vec<_>>()}));
        for _ in 0..(if full { 2 } else { 4 }) {
            let have = match r.gen_range(0..8) { 0 => k - 1, 1 => r.gen_range(0..k), 2 => t, 3 => r.gen_range(k..=t), _ => k };
            let mut ix: Vec<usize> = (0..t).collect();
            ix.shuffle(r);
            let mut ix = ix[..have].to_vec();
            ix.sort();
            let res = c.erasure_recover((0..t).map(|i| ix.contains(&i).then(|| sh[i].clone())).collect());
            out.ev(json!({"ev": "recover", "k": k, "n": t, "data": hx(&data), "have": ix, "ok": res.is_ok(), "out": res.map(|d| hx(&d)).unwrap_or_default()}));
        }
    }
}

async fn shuffle(n: usize, r: &mut Rg, out: &mut Out) {
    let k = Keys::new(24);
    for _ in 0..n {
        let len = *[0usize, 1, 2, 3, 6, 7, 8, 9, 16, 17, 31, 64, 100, 341].choose(r).unwrap();
        let v: Vec<u16> = if r.gen_bool(0.5) { (0..len as u16).collect() } else { (0..len).map(|_| r.gen_range(0..9)).collect() };
        let h = h32(r);
        let o = shuffle_with_hash(v.clone(), &h).unwrap();
        out.ev(json!({"ev": "shuffle", "v": v, "hash": hx(&h.0), "out": o}));
    }
    for _ in 0..n.div_ceil(4) {
        let ss = base_states(&k, r, 100);
        let ch = Chain::new(ss, genesis_header(100, b"s"), |_| async {}).await;
        let sm = ch.sm();
        for _ in 0..6 {
            let slot = match r.gen_range(0..4) { 0 => 12 * r.gen_range(1..1000) + r.gen_range(0..5), 1 => r.gen_range(0..13), 2 => r.gen_range(0..u32::MAX), _ => r.gen_range(0..5000) };
            let eta: Vec<Hash32> = (0..4).map(|_| h32(r)).collect();
            let mut pick = |m: usize| { let mut ix: Vec<usize> = (0..24).collect(); ix.shuffle(r); ix.truncate(m); ix };
            let (act, past) = (k.set(&pick(6)), k.set(&pick(6)));
            let off: Vec<Ed25519PubKey> = pick(8).iter().take(5).map(|i| k.ed(*i)).collect();
            let (e2, a2, p2, o2) = (eta.clone(), act.clone(), past.clone(), off.clone());
            sm.with_mut_timeslot(fr_state::cache::StateMut::Update, move |t: &mut Timeslot| -> Result<(), fr_state::error::StateManagerError> { *t = Timeslot::new(slot); Ok(()) }).await.unwrap();
            sm.with_mut_epoch_entropy(fr_state::cache::StateMut::Update, move |e: &mut EpochEntropy| -> Result<(), fr_state::error::StateManagerError> { for (i, h) in e2.into_iter().enumerate() { e.0[i] = h } Ok(()) }).await.unwrap();
            sm.with_mut_active_set(fr_state::cache::StateMut::Update, move |s: &mut ActiveSet| -> Result<(), fr_state::error::StateManagerError> { s.0 = a2; Ok(()) }).await.unwrap();
            sm.with_mut_past_set(fr_state::cache::StateMut::Update, move |s: &mut PastSet| -> Result<(), fr_state::error::StateManagerError> { s.0 = p2; Ok(()) }).await.unwrap();
            sm.with_mut_disputes(fr_state::cache::StateMut::Update, move |d: &mut DisputesState| -> Result<(), fr_state::error::StateManagerError> { d.punish_set = o2; Ok(()) }).await.unwrap();
            let g = |a: GuarantorAssignment| json!({"cores": a.core_indices.iter().copied().collect::<Vec<u16>>(), "keys": p_set(&a.validator_keys)});
            let now = GuarantorAssignment::current_guarantor_assignments(&sm).await.unwrap();
            let prev = GuarantorAssignment::previous_guarantor_assignments(&sm).await.unwrap();
            if slot < i32::MAX as u32 {
                out.ev(json!({"ev": "assign", "slot": slot, "eta": p_hs(&eta), "active": p_set(&act), "past": p_set(&past),
                    "off": off.iter().map(|x| hx(x.as_slice())).collect::<Vec<_>>(), "now": g(now), "prev": g(prev)}));
            }
            let fb = fr_state::types::generate_fallback_keys(&act, &eta[2]).unwrap();
            out.ev(json!({"ev": "fallback", "eta": hx(&eta[2].0), "set": p_set(&act), "out": fb.iter().map(|x| hx(x.as_slice())).collect::<Vec<_>>()}));
        }
    }
}

fn addr_str(a: &SocketAddrV6) -> String {
    if a.port() == 0 { String::new() } else { a.port().to_string() }
}

async fn net(n: usize, r: &mut Rg, out: &mut Out) {
    use fr_network::{endpoint::QuicEndpoint, manager::{LocalNodeInfo, NetworkManager}};
    let k = Keys::new(6);
    for run in 0..n {
        // identities: a key and a listening socket each; the last is the local node's, outside the system's range of automatic ports
        let m = 12;
        let mut socks = vec![];
        let mut ids: Vec<ValidatorKey> = vec![];
        for i in 0..m {
            let mut want = if i < m - 1 { 0 } else { 20000 + (std::process::id() as usize % 1200) * 10 + run % 10 };
            let s = loop {
                match tokio::net::UdpSocket::bind(format!("[::1]:{want}")).await {
                    Ok(s) => break s,
                    Err(_) if want != 0 => want = 10000 + r.gen_range(0..8000),
                    Err(e) => panic!("no socket: {e}"),
                }
            };
            let port = s.local_addr().unwrap().port();
            let mut key = blob(r, 32);
            match r.gen_range(0..4) { 0 => key[31] = 127, 1 => key[31] = 128, _ => {} }
            if !ids.is_empty() && r.gen_bool(0.3) {
                // shares a prefix with another key
                let o = ids[r.gen_range(0..ids.len())].ed25519.as_slice().to_vec();
                let cut = r.gen_range(1..32);
                key[..cut].copy_from_slice(&o[..cut]);
            }
            let mut md = vec![0u8; 128];
            md[..16].copy_from_slice(&Ipv6Addr::LOCALHOST.octets());
            md[16..18].copy_from_slice(&port.to_le_bytes());
            ids.push(ValidatorKey {
                bandersnatch: BandersnatchPubKey::default(),
                ed25519: Ed25519PubKey::from_slice(&key).unwrap(),
                bls: BlsPubKey::from_slice(&[1; 144]).unwrap(),
                metadata: ValidatorMetadata(fr_common::ByteArray::from_slice(&md).unwrap()),
            });
            socks.push(s);
        }
        // one validator changed its key but kept its address; one published no address
        let mut moved = ids[3].clone();
        moved.ed25519 = Ed25519PubKey::from_slice(&blob(r, 32)).unwrap();
        let mut pick = |ids: &[ValidatorKey], extra: &[ValidatorKey]| {
            let mut v: Vec<ValidatorKey> = ids.to_vec();
            v.shuffle(r);
            let mut v: Vec<ValidatorKey> = v.into_iter().take(6).collect();
            for e in extra {
                if r.gen_bool(0.5) { 
                    let i = r.gen_range(0..6);
                    v[i] = e.clone()
                }
            }
            let mut s = ValidatorKeySet::default();
            for (i, x) in v.into_iter().enumerate() {
                s[i] = x
            }
            s
        };
        let nul = ValidatorKey::default();
        let (past, active, pending, staging) = (pick(&ids, &[nul.clone()]), pick(&ids, &[moved.clone(), nul.clone()]), pick(&ids, &[moved.clone(), nul.clone()]), pick(&ids, &[]));
        let mut ss = base_states(&k, r, 100);
        ss.past_set = PastSet(past.clone());
        ss.active_set = ActiveSet(active.clone());
        ss.staging_set = StagingSet(staging.clone());
        ss.safrole.pending_set = pending.clone();
        let ch = Chain::new(ss, genesis_header(100, b"n"), |_| async {}).await;
        // the local node is one of them, on that one's socket
        let me = m - 1;
        let myaddr = ids[me].metadata.socket_address().unwrap();
        drop(socks.remove(me));
        let ports: Vec<u16> = socks.iter().map(|s| s.local_addr().unwrap().port()).collect();
        let ep = QuicEndpoint::new(myaddr);
        let nm = NetworkManager::new(LocalNodeInfo::new(myaddr, ids[me].clone()), ep).await.unwrap();
        nm.load_validator_peers(ch.storage.clone(), myaddr).await.unwrap();
        let known: Vec<Value> = nm.all_validator_peers.iter().map(|e| json!([addr_str(e.key()), hx(e.value().ed25519_key.as_slice())])).collect();
        let (tx, _rx) = tokio::sync::mpsc::channel(4);
        let storage = ch.storage.clone();
        let nm = Arc::new(nm);
        let nm2 = nm.clone();
        let job = tokio::spawn(async move { nm2.connect_to_peers(tx, storage).await.is_ok() });
        let mut contacted = std::collections::BTreeSet::new();
        let end = tokio::time::Instant::now() + std::time::Duration::from_millis(1500);
        let mut buf = [0u8; 2048];
        while tokio::time::Instant::now() < end {
            for (s, p) in socks.iter().zip(&ports) {
                // datagrams of other nodes (a port may have been someone else's before) do not count
                while let Ok((_, from)) = s.try_recv_from(&mut buf) {
                    if from.port() == myaddr.port() {
                        contacted.insert(p.to_string());
                    }
                }
            }
            tokio::time::sleep(std::time::Duration::from_millis(20)).await;
        }
        job.abort();
        let pv = |s: &ValidatorKeySet| s.iter().map(|v| json!({"key": hx(v.ed25519.as_slice()), "addr": addr_str(&v.metadata.socket_address().unwrap())})).collect::<Vec<_>>();
        out.ev(json!({"ev": "net", "n": {"self": {"key": hx(ids[me].ed25519.as_slice()), "addr": addr_str(&myaddr)}, "past": pv(&past), "active": pv(&active), "next": pv(&pending)},
                      "known": known, "contacted": contacted}));
    }
}

/// Historical lookups over every shape of request, at and around the recorded slots.
async fn lookup(n: usize, r: &mut Rg, out: &mut Out) {
    let k = Keys::new(12);
    let ss = base_states(&k, r, 100);
    let ch = Chain::new(ss, genesis_header(100, b"l"), |_| async {}).await;
    let sm = ch.sm();
    for i in 0..n as u32 {
        let svc = 70000 + i;
        let size = *[0usize, 1, 31, 32, 33, 200].choose(r).unwrap();
        let code = r.gen_bool(0.5);
        let mut data = blob(r, size);
        if code && !data.is_empty() {
            data[0] = r.gen_range(0..40); // a length prefix that may or may not fit
        }
        let h = fr_crypto::hash::hash::<Blake2b256>(&data).unwrap();
        let (kept, asked) = (r.gen_bool(0.9), r.gen_bool(0.9));
        let base = if r.gen_bool(0.2) { 0 } else { r.gen_range(0..1_000_000_000u32) };
        let mut at = vec![];
        let mut t = base;
        for _ in 0..r.gen_range(0..4) {
            at.push(t);
            t += *[0u32, 1, 2, 50].choose(r).unwrap();
        }
        if kept {
            sm.add_account_preimages_entry(svc, &h, AccountPreimagesEntry::new(fr_common::Octets::from_vec(data.clone()))).await.unwrap();
        }
        // sometimes the record is of another length under the same hash
        let len = if asked { data.len() as u32 } else { data.len() as u32 + 1 };
        let slots = at.iter().map(|x| Timeslot::new(*x)).collect::<Vec<_>>();
        sm.add_account_lookups_entry(svc, (h.clone(), len), AccountLookupsEntry::new(AccountLookupsEntryTimeslots::try_from(slots).unwrap())).await.unwrap();
        let mut ask: Vec<u32> = vec![0, i32::MAX as u32];
        for x in at.iter().chain([&base]) {
            ask.extend([x.saturating_sub(1), *x, x + 1]);
        }
        let mut got = vec![];
        for x in &ask {
            let g = sm.lookup_historical_preimage(svc, &Timeslot::new(*x), &h).await.unwrap();
            // the same through the code lookup: present or not, whatever the octets are
            let _ = sm.get_account_code_by_lookup(svc, *x, &h).await.unwrap();
            got.push(g.map(|d| vec![hx(&d)]).unwrap_or_default());
        }
        out.ev(json!({"ev": "lookup", "at": at, "kept": kept, "asked": asked, "data": hx(&data), "ask": ask, "got": got}));
    }
}

/// The set of known ancestors under additions in any order, repeats and removals.
fn ancestors(n: usize, r: &mut Rg, out: &mut Out) {
    use fr_block::ancestors::{AncestorEntry, AncestorSet};
    for _ in 0..n {
        let mut set = AncestorSet::new();
        out.ev(json!({"ev": "anc", "op": "new", "x": [], "was": false, "ask": [], "held": [], "len": set.len()}));
        let spread = *[6u32, 30, 60, 1000].choose(r).unwrap();
        let mut head = 0u32;
        let mut seen: Vec<AncestorEntry> = vec![];
        let e = |x: &AncestorEntry| json!([x.0, hx(&x.1 .0)]);
        for _ in 0..40 {
            let mut was = false;
            let fresh = |r: &mut Rg, head: &mut u32, seen: &Vec<AncestorEntry>| match r.gen_range(0..6) {
                0 if !seen.is_empty() => seen.choose(r).unwrap().clone(),
                1 | 2 => (r.gen_range(0..spread), h32(r)),
                _ => { *head += r.gen_range(1..3); (*head, h32(r)) }
            };
            let (op, x) = match r.gen_range(0..8) {
                0 => {
                    let x = if seen.is_empty() || r.gen_bool(0.2) { (3, h32(r)) } else { seen.choose(r).unwrap().clone() };
                    was = set.remove(&x);
                    ("remove", vec![x])
                }
                1 => {
                    let m = *[0usize, 3, 24, 30].choose(r).unwrap();
                    let x: Vec<AncestorEntry> = (0..m).map(|_| fresh(r, &mut head, &seen)).collect();
                    set.add_multiple(x.clone());
                    ("add", x)
                }
                _ => {
                    let x = fresh(r, &mut head, &seen);
                    set.add(x.clone());
                    ("add", vec![x])
                }
            };
            seen.extend(x.clone());
            if seen.len() > 60 { let d = seen.len() - 60; seen.drain(..d); }
            let mut ask = seen.clone();
            ask.push((head, h32(r)));
            ask.push((seen.last().map(|y| y.0 + 1).unwrap_or(1), seen.last().map(|y| y.1.clone()).unwrap_or_default()));
            let held: Vec<Value> = ask.iter().filter(|y| set.contains(y)).map(e).collect();
            out.ev(json!({"ev": "anc", "op": op, "x": x.iter().map(e).collect::<Vec<_>>(), "was": was,
                "ask": ask.iter().map(e).collect::<Vec<_>>(), "held": held, "len": set.len()}));
        }
    }
}
