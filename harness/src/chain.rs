//! Driver "chain": random and mutated blocks offered to the node's importer, recorded for ChainTrace.tla.
use crate::asm::*;
use crate::world::*;
use bitvec::prelude::*;
use fr_block::types::{
    block::{Block, BlockHeader},
    extrinsics::{
        assurances::{AssurancesXt, AssurancesXtEntry},
        disputes::*,
        guarantees::{GuaranteesCredential, GuaranteesXt, GuaranteesXtEntry},
        preimages::{PreimagesXt, PreimagesXtEntry},
        tickets::{TicketsXt, TicketsXtEntry},
        Extrinsics,
    },
};
use fr_codec::prelude::*;
use fr_common::{ticket::Ticket, workloads::*, ByteArray, ByteEncodable, ByteSequence, Hash32, Octets, ServiceId};
use fr_crypto::{
    traits::VrfSignature,
    types::*,
    vrf::bandersnatch_vrf::RingVrfProver,
};
use fr_limited_vec::LimitedVec;
use fr_merkle::mmr::MerkleMountainRange;
use fr_state::{manager::StateManager, state_utils::SimpleStates, types::*};
use rand::{seq::SliceRandom, Rng};
use serde_json::{json, Map, Value};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::Arc,
};

/// What a run exercises. Probabilities per block of carrying each kind of content, and the mutation families.
pub struct Mode {
    pub tickets: f64,
    pub disputes: f64,
    pub assur: f64,
    pub guar: f64,
    pub pre: f64,
    pub epoch: f64,
    pub mutate: f64,
    pub fams: &'static [&'static str],
    pub steps: usize,
    pub twin: bool,
    pub anc: bool,
}

pub fn mode(name: &str) -> Mode {
    let m = Mode { tickets: 0.0, disputes: 0.0, assur: 0.0, guar: 0.0, pre: 0.0, epoch: 0.12, mutate: 0.4, fams: &[], steps: 10, twin: false, anc: false };
    match name {
        "header" => Mode { disputes: 0.2, epoch: 0.25, mutate: 0.6, fams: &["header"], ..m },
        "tickets" => Mode { tickets: 0.7, epoch: 0.15, fams: &["tickets"], steps: 9, ..m },
        "rotate" => Mode { disputes: 0.35, epoch: 0.4, mutate: 0.15, fams: &["header"], ..m },
        "disputes" => Mode { disputes: 0.9, epoch: 0.2, mutate: 0.55, fams: &["disputes"], ..m },
        "assur" => Mode { assur: 0.9, guar: 0.6, epoch: 0.1, mutate: 0.4, disputes: 0.15, fams: &["assur"], steps: 12, ..m },
        "guar" => Mode { assur: 0.5, guar: 0.95, epoch: 0.12, mutate: 0.6, disputes: 0.15, fams: &["guar"], steps: 12, ..m },
        "acc" => Mode { assur: 0.95, guar: 0.9, epoch: 0.06, mutate: 0.05, fams: &["assur"], steps: 14, ..m },
        "pool" => Mode { assur: 0.8, guar: 0.9, epoch: 0.1, mutate: 0.1, fams: &["guar"], steps: 14, ..m },
        "history" => Mode { assur: 0.9, guar: 0.8, epoch: 0.06, mutate: 0.1, fams: &["header"], steps: 14, ..m },
        "stats" => Mode { tickets: 0.15, assur: 0.8, guar: 0.8, pre: 0.6, epoch: 0.2, mutate: 0.1, disputes: 0.1, fams: &["header"], steps: 12, ..m },
        "pre" => Mode { pre: 0.9, epoch: 0.05, mutate: 0.5, fams: &["pre"], ..m },
        "atomic" => Mode {
            tickets: 0.25, disputes: 0.3, assur: 0.6, guar: 0.6, pre: 0.4, epoch: 0.25, mutate: 0.75,
            fams: &["header", "tickets", "disputes", "assur", "guar", "pre"], steps: 14, twin: true, anc: false,
        },
        "turns" => Mode {
            tickets: 0.35, disputes: 0.35, assur: 0.85, guar: 0.85, pre: 0.5, epoch: 0.3, mutate: 0.15,
            fams: &["header", "tickets", "disputes", "assur", "guar", "pre"], steps: 14, twin: true, anc: false,
        },
        "author" => Mode { tickets: 0.3, disputes: 0.2, assur: 0.3, guar: 0.3, epoch: 0.3, mutate: 0.1, fams: &["header"], steps: 14, twin: true, ..m },
        "anc" => Mode { assur: 0.5, guar: 0.9, epoch: 0.1, mutate: 0.4, fams: &["anc"], steps: 16, anc: true, ..m },
        x => panic!("unknown mode {x}"),
    }
}

pub struct Service {
    pub id: ServiceId,
    pub code_hash: Hash32,
    pub blob: Option<Vec<u8>>,
    pub min_gas: u64,
    pub cost: u64,
    pub out: Option<Hash32>,
}

/// A service whose program burns a fixed amount of gas and then yields, halts empty-handed or panics.
pub fn make_service(r: &mut Rg, id: ServiceId) -> Service {
    let kind = r.gen_range(0..4);
    let out = h32(r);
    let pad = [0usize, 1, 7, 60][r.gen_range(0..4)];
    let mut a = Asm::new();
    for _ in 0..5 {
        a.trap();
    }
    for _ in 0..pad {
        a.addi(9, 1);
    }
    let (cost, yields) = match kind {
        0 | 1 => {
            a.halt_with(RO, 32);
            (pad as u64 + 3, true)
        }
        2 => {
            a.halt_with(RO, 5);
            (pad as u64 + 3, false)
        }
        _ => {
            a.trap();
            (pad as u64 + 1, false)
        }
    };
    let prog = Prog { ro: out.0.to_vec(), rw: vec![], heap_pages: 0, stack: 4096, code: a.blob() }.blob();
    let code = account_code(format!("svc{id}").as_bytes(), &prog);
    let code_hash = b2(&code);
    let missing = r.gen_bool(0.12);
    Service {
        id,
        code_hash,
        blob: (!missing).then_some(code),
        min_gas: [0u64, 5, 1000][r.gen_range(0..3)],
        cost: if missing { 0 } else { cost },
        out: (yields && !missing).then_some(out),
    }
}

/// A preimage request known to the harness.
pub struct Want {
    pub svc: ServiceId,
    pub data: Vec<u8>,
    pub at: Vec<u32>,
}

pub struct World {
    pub services: Vec<Service>,
    pub wants: Vec<Want>,
}

pub fn limited<T: Clone, const N: usize>(v: Vec<T>) -> LimitedVec<T, N> {
    LimitedVec::try_from(v).unwrap_or_else(|_| panic!("too many"))
}

pub fn octets(b: Vec<u8>) -> Octets {
    ByteSequence(b)
}

#[derive(Default, Clone)]
pub struct ReportSpec {
    pub core: u16,
    pub auth: Hash32,
    pub anchor: Option<(Hash32, Hash32, Hash32)>,
    pub lookup_slot: u32,
    pub lookup_hash: Hash32,
    pub pre: Vec<Hash32>,
    pub segs: Vec<(Hash32, Hash32)>,
}

pub fn make_report(r: &mut Rg, w: &World, sp: &ReportSpec) -> WorkReport {
    let mut rep = WorkReport::default();
    rep.specs.work_package_hash = h32(r);
    rep.specs.work_bundle_length = r.gen_range(0..20000);
    rep.specs.erasure_root = h32(r);
    rep.specs.segment_root = h32(r);
    rep.specs.segment_count = [0, 1, 63, 64, 65, 200][r.gen_range(0..6)];
    if let Some((h, s, b)) = &sp.anchor {
        rep.refinement_context.anchor_header_hash = h.clone();
        rep.refinement_context.anchor_state_root = s.clone();
        rep.refinement_context.anchor_beefy_root = b.clone();
    }
    rep.refinement_context.lookup_anchor_header_hash = sp.lookup_hash.clone();
    rep.refinement_context.lookup_anchor_timeslot = sp.lookup_slot;
    rep.refinement_context.prerequisite_work_packages = sp.pre.iter().cloned().collect();
    rep.segment_roots_lookup = SegmentRootLookupTable::new(sp.segs.iter().cloned().collect());
    rep.core_index = sp.core;
    rep.authorizer_hash = sp.auth.clone();
    rep.auth_gas_used = r.gen_range(0..500);
    let tl = [0usize, 1, 40][r.gen_range(0..3)];
    rep.auth_trace = octets(vec![7; tl]);
    let nd = r.gen_range(1..=3);
    let ds: Vec<WorkDigest> = (0..nd)
        .map(|_| {
            let s = &w.services[r.gen_range(0..w.services.len())];
            let gas = match r.gen_range(0..4) {
                0 => s.min_gas,
                1 => s.min_gas + s.cost,
                2 => s.min_gas + 100 + r.gen_range(0..1000),
                _ => 3_000_000 / nd as u64 + r.gen_range(0..1000),
            };
            let res = match r.gen_range(0..3) {
                0 => WorkExecutionResult::Error(WorkExecutionError::Panic),
                _ => WorkExecutionResult::Output(octets(vec![9; r.gen_range(0..60)])),
            };
            WorkDigest {
                service_id: s.id,
                service_code_hash: s.code_hash.clone(),
                payload_hash: h32(r),
                accumulate_gas_limit: gas,
                refine_result: res,
                refine_stats: RefineStats {
                    refine_gas_used: r.gen_range(0..100000),
                    imports_count: r.gen_range(0..50),
                    extrinsics_count: r.gen_range(0..50),
                    extrinsics_octets: r.gen_range(0..5000),
                    exports_count: r.gen_range(0..50),
                },
            }
        })
        .collect();
    rep.digests = limited(ds);
    rep
}

pub struct Sim {
    pub last_anc: Vec<(u32, Hash32)>,
    pub k: Keys,
    pub r: Rg,
    pub m: Mode,
    /// (ring, eta2, who, attempt) -> proof
    proofs: HashMap<(String, Hash32, usize, u8), BandersnatchRingVrfSig>,
    rings: HashMap<String, String>,
}

const XT: &[u8] = b"jam_ticket_seal";

fn ed_of(set: &ValidatorKeySet, i: usize) -> Ed25519PubKey {
    set[i].ed25519.clone()
}

impl Sim {
    pub fn new(seed: u64, m: Mode) -> Sim {
        Sim { k: Keys::new(14), r: rng(seed), m, proofs: HashMap::new(), rings: HashMap::new(), last_anc: vec![] }
    }

    pub fn set_id(set: &ValidatorKeySet) -> String {
        let mut all = vec![];
        for v in set.iter() {
            all.extend_from_slice(v.bandersnatch.as_slice());
        }
        hx(&b2(&all).0)
    }

    /// Logged identity of the ring commitment of a validator set.
    pub fn ring(&mut self, set: &ValidatorKeySet) -> String {
        let id = Self::set_id(set);
        if let Some(x) = self.rings.get(&id) {
            return x.clone();
        }
        let v = hx(&b2(&ring_root(set).0).0[..8]);
        self.rings.insert(id, v.clone());
        v
    }

    pub fn ticket_id(&self, who: usize, eta2: &Hash32, at: u8) -> Hash32 {
        self.k.vrf(who, &[XT, eta2.as_slice(), &[at]].concat(), &[]).output_hash().unwrap()
    }

    /// A ring proof by `who` over the ring of `set` in context (eta, attempt); registers what it proves.
    pub fn ticket_proof(&mut self, who: usize, set: &ValidatorKeySet, eta: &Hash32, at: u8) -> BandersnatchRingVrfSig {
        let key = (Self::set_id(set), eta.clone(), who, at);
        if let Some(p) = self.proofs.get(&key) {
            return p.clone();
        }
        let ix = set.iter().position(|v| v.bandersnatch == self.k.vals[who].key.bandersnatch).unwrap_or(0);
        let ctx = [XT, eta.as_slice(), &[at]].concat();
        let p = RingVrfProver::from_secret_key(ix as u16, set.clone(), &self.k.vals[who].sk).unwrap().sign_ring_vrf(&ctx, &[]).unwrap();
        let member = set.iter().any(|v| v.bandersnatch == self.k.vals[who].key.bandersnatch);
        let ring = if member { self.ring(set) } else { "bad".into() };
        self.k.reg.lock().unwrap().ring.insert(p.as_slice().to_vec(), (ring, hx(&ctx)));
        self.proofs.insert(key, p.clone());
        p
    }

    // ------------------------------------------------------------ base world
    pub async fn world(&mut self) -> (Chain, World, Option<Chain>, Value) {
        let r = &mut self.r;
        let slot0 = 60 + E * r.gen_range(0u32..4) + [0, 3, 6, 8, 9, 10, 11][r.gen_range(0..7)];
        let mut ss = base_states(&self.k, r, slot0);
        let head = genesis_header(slot0, &h32(r).0);
        // services and requests
        let mut services = vec![];
        for id in [7u32, 256, 70000, 4_000_000_001] {
            services.push(make_service(r, id));
        }
        let mut wants = vec![];
        for i in 0..6u32 {
            let s = services[r.gen_range(0..services.len())].id;
            let n = r.gen_range(0..30);
            let mut data: Vec<u8> = (0..n).map(|_| r.gen()).collect();
            data.push(i as u8);
            let at = match r.gen_range(0..4) {
                0 => vec![slot0 - 5],
                1 if r.gen_bool(0.3) => vec![slot0 - 9, slot0 - 4],
                _ => vec![],
            };
            wants.push(Want { svc: s, data, at });
        }
        let w = World { services, wants };
        // tickets accumulated so far, and possibly a ticket-sealed epoch
        let e2 = ss.entropy.0[2].clone();
        let e3 = ss.entropy.0[3].clone();
        let pend = ss.safrole.pending_set.clone();
        let act = ss.active_set.0.clone();
        let ids = |set: &ValidatorKeySet, eta: &Hash32| {
            let mut v: Vec<Ticket> = vec![];
            for x in set.iter() {
                let who = self.k.who_b(&x.bandersnatch).unwrap();
                for at in 0..3u8 {
                    let ctx = [XT, eta.as_slice(), &[at]].concat();
                    v.push(Ticket { id: self.k.vrf(who, &ctx, &[]).output_hash().unwrap(), attempt: at });
                }
            }
            v.sort_by(|a, b| a.id.cmp(&b.id));
            v
        };
        if r.gen_bool(0.35) {
            let mut t = ids(&act, &e3);
            t.truncate(E as usize);
            ss.safrole.slot_sealers = SlotSealers::Tickets(outside_in(&t).try_into().unwrap());
        }
        let mut acc: Vec<Ticket> = match r.gen_range(0..if self.m.tickets > 0.3 { 9 } else { 6 }) {
            0 => vec![],
            1 => {
                let mut t = ids(&pend, &e2);
                let n = r.gen_range(1..12);
                t.shuffle(r);
                t.truncate(n);
                t
            }
            2 | 3 => {
                let mut t = ids(&pend, &e2);
                t.truncate(E as usize);
                t
            }
            6..=8 => {
                // full, or nearly so, of tickets on both sides of the ones still to come
                let mut t = ids(&pend, &e2);
                t.shuffle(r);
                t.truncate(r.gen_range(11..=12));
                t
            }
            4 => {
                let hi = r.gen_bool(0.7);
                let n = r.gen_range(9..=12);
                (0..n)
                    .map(|_| {
                        let mut h = h32(r);
                        h.0[0] = if hi { 0xf0 | (h.0[0] & 15) } else { h.0[0] };
                        Ticket { id: h, attempt: r.gen_range(0..3) }
                    })
                    .collect()
            }
            _ => (0..r.gen_range(1..12)).map(|_| Ticket { id: h32(r), attempt: r.gen_range(0..3) }).collect(),
        };
        acc.sort_by(|a, b| a.id.cmp(&b.id));
        for t in acc {
            ss.safrole.ticket_accumulator.add(t);
        }
        // disputes known so far
        let mut judged: Vec<Hash32> = (0..r.gen_range(0..6)).map(|_| h32(r)).collect();
        let mut d = DisputesState::default();
        for h in judged.drain(..) {
            match r.gen_range(0..3) {
                0 => d.good_set.push(h),
                1 => d.bad_set.push(h),
                _ => d.wonky_set.push(h),
            }
        }
        d.good_set.sort();
        d.bad_set.sort();
        d.wonky_set.sort();
        if r.gen_bool(0.4) {
            for _ in 0..r.gen_range(1..3) {
                let i = r.gen_range(0..self.k.vals.len());
                d.punish_set.push(self.k.ed(i));
            }
            d.punish_set.sort();
            d.punish_set.dedup();
        }
        ss.disputes = d;
        // history
        let nh = r.gen_range(0..=8);
        let mut hist = BlockHistory::default();
        let peaks = (0..r.gen_range(0..4)).map(|_| if r.gen_bool(0.6) { Some(h32(r)) } else { None }).collect::<Vec<_>>();
        // a range never ends in an empty peak
        let mut peaks: Vec<Option<Hash32>> = peaks;
        while matches!(peaks.last(), Some(None)) {
            peaks.pop();
        }
        hist.beefy_belt = MerkleMountainRange::new_from_peaks(peaks);
        for i in 0..nh {
            let last = i + 1 == nh;
            let mut pk: Vec<ReportedWorkPackage> =
                (0..r.gen_range(0..=2)).map(|_| ReportedWorkPackage { work_package_hash: h32(r), segment_root: h32(r) }).collect();
            pk.sort();
            hist.append(BlockHistoryEntry {
                header_hash: if last { head.hash().unwrap() } else { h32(r) },
                accumulation_result_mmr_root: h32(r),
                state_root: if last { Hash32::default() } else { h32(r) },
                reported_packages: pk,
            });
        }
        let known: Vec<(Hash32, Hash32)> =
            hist.get_reported_packages_flattened().into_iter().map(|p| (p.work_package_hash, p.segment_root)).collect();
        ss.block_history = hist;
        // pipeline: pending reports, ready queue, accumulated packages
        let mut pool_pk: Vec<Hash32> = known.iter().map(|x| x.0.clone()).collect();
        for c in 0..C {
            if r.gen_bool(0.5) {
                let sp = ReportSpec { core: c as u16, auth: auth_id(c, r.gen_range(0..5)), lookup_slot: slot0 - 1, ..Default::default() };
                let mut sp = sp;
                if r.gen_bool(0.4) {
                    if let Some(p) = pool_pk.choose(r) {
                        sp.pre.push(p.clone());
                    }
                }
                let rep = make_report(r, &w, &sp);
                pool_pk.push(rep.specs.work_package_hash.clone());
                ss.reports.0[c] = Some(PendingReport { work_report: rep, reported_timeslot: Timeslot::new(slot0 - r.gen_range(0..6)) });
            }
        }
        let mut acch: Vec<BTreeSet<Hash32>> = vec![];
        for _ in 0..E {
            let mut s = BTreeSet::new();
            for _ in 0..r.gen_range(0..3) {
                let h = h32(r);
                s.insert(h.clone());
            }
            acch.push(s);
        }
        // some history packages have been accumulated
        for p in &known {
            if r.gen_bool(0.3) {
                acch[11].insert(p.0.clone());
            }
        }
        let done: BTreeSet<Hash32> = acch.iter().flatten().cloned().collect();
        ss.accumulate_history.items = acch.try_into().unwrap();
        for p in 0..E as usize {
            if r.gen_bool(0.3) {
                let mut items = vec![];
                for _ in 0..r.gen_range(1..3) {
                    let mut deps = BTreeSet::new();
                    for _ in 0..r.gen_range(1..3) {
                        if let Some(x) = pool_pk.choose(r) {
                            if !done.contains(x) {
                                deps.insert(x.clone());
                            }
                        }
                    }
                    if deps.is_empty() {
                        deps.insert(h32(r));
                    }
                    let sp = ReportSpec { core: r.gen_range(0..C) as u16, lookup_slot: slot0 - 2, pre: deps.iter().cloned().collect(), ..Default::default() };
                    let rep = make_report(r, &w, &sp);
                    pool_pk.push(rep.specs.work_package_hash.clone());
                    items.push((rep, deps));
                }
                ss.accumulate_queue.items[p] = items;
            }
        }
        for v in 0..V as u16 {
            for s in [&mut ss.onchain_statistics.validator_stats.curr, &mut ss.onchain_statistics.validator_stats.prev] {
                let e = s.validator_stats_mut(v);
                e.blocks_produced_count = r.gen_range(0..9);
                e.tickets_count = r.gen_range(0..9);
                e.preimages_count = r.gen_range(0..9);
                e.preimage_data_octets_count = r.gen_range(0..900);
                e.guarantees_count = r.gen_range(0..9);
                e.assurances_count = r.gen_range(0..9);
            }
        }
        let ancestors: Vec<(u32, Hash32)> = if self.m.anc {
            let mut v = vec![];
            let mut s = slot0.saturating_sub(30);
            while s < slot0 {
                v.push((s, h32(r)));
                s += r.gen_range(1..4);
            }
            v.push((slot0, head.hash().unwrap()));
            v
        } else {
            vec![]
        };
        self.last_anc = ancestors.clone();
        let chain = Self::make_chain(&ss, &head, &w, slot0, &ancestors).await;
        let twin = if self.m.twin { Some(Self::make_chain(&ss, &head, &w, slot0, &ancestors).await) } else { None };
        let s = chain.snap().await;
        let mut st = proj(&s, ALL);
        let m = st.as_object_mut().unwrap();
        m.insert("svcs".into(), w.services.iter().map(|s| {
            json!({"id": s.id.to_string(), "se": hx(&s.id.to_le_bytes()), "be": hx(&s.id.to_be_bytes()), "code": hx(&s.code_hash.0),
                "mingas": s.min_gas, "cost": s.cost, "out": s.out.as_ref().map(|h| hx(&h.0)).unwrap_or_default()})
        }).collect());
        m.insert("want".into(), Self::p_want(&chain.sm(), &w).await);
        m.insert("root".into(), json!(hx(&chain.root().await.0)));
        m.insert("best".into(), json!(hx(&head.hash().unwrap().0)));
        m.insert("anc".into(), ancestors.iter().map(|(s, h)| json!({"s": s, "h": hx(&h.0)})).collect());
        (chain, w, twin, st)
    }

    async fn make_chain(ss: &SimpleStates, head: &BlockHeader, w: &World, slot0: u32, anc: &[(u32, Hash32)]) -> Chain {
        let svcs: Vec<(u32, Hash32, Option<Vec<u8>>, u64)> = w.services.iter().map(|s| (s.id, s.code_hash.clone(), s.blob.clone(), s.min_gas)).collect();
        let wants: Vec<(u32, Vec<u8>, Vec<u32>)> = w.wants.iter().map(|x| (x.svc, x.data.clone(), x.at.clone())).collect();
        let c = Chain::new(clone_ss(ss), head.clone(), |sm| async move {
            for (id, h, blob, mg) in svcs {
                let md = AccountMetadata { code_hash: h.clone(), balance: 1_000_000_000, gas_limit_accumulate: mg, created_at: 1, ..Default::default() };
                sm.add_account_metadata(id, md).await.unwrap();
                if let Some(b) = blob {
                    let len = b.len() as u32;
                    sm.add_account_preimages_entry(id, &h, AccountPreimagesEntry::new(octets(b))).await.unwrap();
                    add_lookup(&sm, id, &h, len, &[1]).await;
                }
            }
            for (id, data, at) in wants {
                let h = b2(&data);
                add_lookup(&sm, id, &h, data.len() as u32, &at).await;
                if !at.is_empty() {
                    sm.add_account_preimages_entry(id, &h, AccountPreimagesEntry::new(octets(data))).await.unwrap();
                }
            }
        })
        .await;
        let _ = slot0;
        c.storage.header_db().batch_insert_to_ancestor_set(anc.to_vec()).unwrap();
        c
    }

    /// Availability of every known request, with a marker when the stored blob does not agree with it.
    pub async fn p_want(sm: &Arc<StateManager>, w: &World) -> Value {
        let mut v = vec![];
        for x in &w.wants {
            let h = b2(&x.data);
            let e = sm.get_account_lookups_entry(x.svc, &(h.clone(), x.data.len() as u32)).await.unwrap();
            let p = sm.get_account_preimages_entry(x.svc, &h).await.unwrap();
            let at: Vec<i64> = match &e {
                Some(e) => e.value.iter().map(|t| t.slot() as i64).collect(),
                None => vec![-1],
            };
            let stored = p.map(|p| p.value.as_slice() == x.data.as_slice());
            let at = if stored == Some(!at.is_empty()) || (stored.is_none() && at.is_empty()) { at } else { vec![-2] };
            v.push(json!({"svc": x.svc.to_string(), "h": hx(&h.0), "len": x.data.len(), "at": at}));
        }
        json!(v)
    }

    /// The next block offered on top of `chain`: random contents, possibly one deliberate fault (whose name is returned).
    pub async fn next_block(&mut self, chain: &Chain, w: &World, st: &Value, slot: u32, anc: &[(u32, Hash32)]) -> Option<(Block, String)> {
        let s = chain.snap().await;
        let (head, root) = (chain.head(), chain.root().await);
        let parent = head.hash().unwrap();
        let mut next = slot + [1, 1, 1, 1, 2, 3][self.r.gen_range(0..6)];
        if self.r.gen_bool(self.m.epoch) {
            next = match self.r.gen_range(0..6) {
                0 => slot + self.r.gen_range(12..40),
                1 => (slot / E + 2) * E + self.r.gen_range(0..3),
                2 | 3 => (slot / E + 1) * E,
                4 => (slot / E) * E + 10,
                _ => (slot / E + 1) * E + self.r.gen_range(0..12),
            }
            .max(slot + 1);
        }
        // contents
        let p = |sim: &mut Sim, q: f64| q > 0.0 && sim.r.gen_bool(q);
        let mut x = Extrinsics::default();
        let pd = self.m.disputes;
        if p(self, pd) {
            x.disputes = self.gen_disputes(&s);
        }
        let noff = off_of(&x);
        let mut alloff = s.disputes.punish_set.clone();
        alloff.extend_from_slice(&noff);
        let mut d = derive(&s, next, &noff);
        // someone must be able to author: look a little further for a slot with a known author
        let mut tries = 0;
        while eligible(&self.k, &d, next).is_none() && tries < 14 {
            next += 1;
            tries += 1;
            d = derive(&s, next, &noff);
        }
        let (pt, pa, pg, pp) = (self.m.tickets, self.m.assur, self.m.guar, self.m.pre);
        if p(self, pt) {
            x.tickets = TicketsXt { items: self.gen_tickets(&d, &s, next) };
        }
        if p(self, pa) {
            x.assurances = AssurancesXt { items: limited(self.gen_assur(&s, &parent, &x.disputes.clone())) };
        }
        if p(self, pg) {
            let g = self.gen_guar(&w, &d, &s, &root, next, &x, &alloff, &anc);
            x.guarantees = GuaranteesXt { items: limited(g) };
        }
        if p(self, pp) {
            x.preimages = PreimagesXt { items: self.gen_pre(&w, &st) };
        }
        let mut muts = vec![];
        let mut label = "none".to_string();
        let pm = self.m.mutate;
        if p(self, pm) {
            for _ in 0..4 {
                let fam = *self.m.fams.choose(&mut self.r).unwrap();
                let mut y = x.clone();
                let mut hm = vec![];
                if let Some(l) = self.mutate(fam, &mut y, &d, &s, &w, &st, next, &root, &parent, &alloff, &mut hm, &anc) {
                    label = l;
                    x = y;
                    muts = hm;
                    break;
                }
            }
        }
        let b = build(&self.k, &head, &root, &s, next, x, &muts)?;
        Some((b.block, label))
    }

    // ------------------------------------------------------------ contents
    /// Guarantor core assignment and key set applicable to a guarantee made at `gt` in a block at `slot`.
    fn assignment(d: &Derived, prior: &Snap, slot: u32, gt: u32, off: &[Ed25519PubKey]) -> (Vec<u16>, ValidatorKeySet) {
        let past = if slot / E > prior.slot / E { prior.active.0.clone() } else { prior.past.0.clone() };
        let (eta, t, set) = if gt / 4 == slot / 4 {
            (d.eta[2].clone(), slot, d.active.clone())
        } else {
            let p = slot.saturating_sub(4);
            if p / E == slot / E {
                (d.eta[2].clone(), p, d.active.clone())
            } else {
                (d.eta[3].clone(), p, past)
            }
        };
        let mut s: Vec<u16> = (0..V).map(|i| ((C * i) / V) as u16).collect();
        let mut out = vec![];
        for i in 0..V {
            let h = b2(&[eta.as_slice(), &((i / 8) as u32).to_le_bytes()].concat());
            let o = (4 * i) % 32;
            let n = u32::from_le_bytes(h.0[o..o + 4].try_into().unwrap());
            let l = s.len();
            let ix = n as usize % l;
            out.push(s[ix]);
            s[ix] = s[l - 1];
            s.pop();
        }
        let rot = (t % E) / 4;
        (out.iter().map(|c| ((*c as u32 + rot) % C as u32) as u16).collect(), nullify(&set, off))
    }

    fn sign(&self, key: &Ed25519PubKey, msg: &[u8]) -> Ed25519Sig {
        match self.k.who_e(key) {
            Some(w) => self.k.ed_sign(w, msg),
            None => self.k.ed_sign(0, msg),
        }
    }

    fn gen_tickets(&mut self, d: &Derived, s: &Snap, slot: u32) -> Vec<TicketsXtEntry> {
        if slot % E >= Y {
            return vec![];
        }
        let acc: Vec<Ticket> = if slot / E > s.slot / E { vec![] } else { s.safrole.ticket_accumulator.clone().into_sorted_vec() };
        let mut cand = vec![];
        for v in d.pending.iter() {
            if let Some(who) = self.k.who_b(&v.bandersnatch) {
                for at in 0..3u8 {
                    let id = self.ticket_id(who, &d.eta[2], at);
                    if !acc.iter().any(|t| t.id == id) {
                        cand.push((id, who, at));
                    }
                }
            }
        }
        cand.shuffle(&mut self.r);
        cand.truncate(self.r.gen_range(1..=3));
        cand.sort();
        // keep only those that survive
        let mut all: Vec<Hash32> = acc.iter().map(|t| t.id.clone()).chain(cand.iter().map(|c| c.0.clone())).collect();
        all.sort();
        all.truncate(E as usize);
        cand.retain(|c| all.contains(&c.0));
        let pend = d.pending.clone();
        cand.into_iter().map(|(_, who, at)| TicketsXtEntry { entry_index: at, ticket_proof: self.ticket_proof(who, &pend, &d.eta[2], at) }).collect()
    }

    fn gen_disputes(&mut self, s: &Snap) -> DisputesXt {
        let mut x = DisputesXt::default();
        let ep = s.slot / E;
        let mut used: BTreeSet<Vec<u8>> = s.disputes.punish_set.iter().map(|k| k.as_slice().to_vec()).collect();
        let mut free: Vec<Ed25519PubKey> = s
            .active
            .0
            .iter()
            .chain(s.past.0.iter())
            .map(|v| v.ed25519.clone())
            .filter(|k| self.k.who_e(k).is_some() && used.insert(k.as_slice().to_vec()))
            .collect();
        free.shuffle(&mut self.r);
        let pend: Vec<Hash32> = s.reports.0.iter().flatten().map(|p| report_hash(&p.work_report)).collect();
        let alike = [0, 0, 0, 1, 2, 2][self.r.gen_range(0..6)];
        for i in 0..self.r.gen_range(1..=3) {
            let rh = if i == 0 && self.r.gen_bool(0.5) { pend.choose(&mut self.r).cloned().unwrap_or_default() } else { h32(&mut self.r) };
            let rh = if rh == Hash32::default() || x.verdicts.iter().any(|v| v.report_hash == rh) { h32(&mut self.r) } else { rh };
            let prev = self.r.gen_bool(0.4);
            let set = if prev { s.past.0.clone() } else { s.active.0.clone() };
            let kind = if alike > 0 { alike - 1 } else { self.r.gen_range(0..3) };
            let npos = [5usize, 0, 2][kind];
            if kind == 0 && free.is_empty() || kind == 1 && free.len() < 2 {
                continue;
            }
            let mut voters: Vec<usize> = (0..V).collect();
            voters.remove(self.r.gen_range(0..V));
            if voters.iter().any(|v| self.k.who_e(&set[*v].ed25519).is_none()) {
                continue;
            }
            let mut pos = voters.clone();
            pos.shuffle(&mut self.r);
            pos.truncate(npos);
            let j: Vec<Judgment> = voters
                .iter()
                .map(|v| {
                    let ok = pos.contains(v);
                    let msg = [if ok { b"jam_valid".as_slice() } else { b"jam_invalid".as_slice() }, rh.as_slice()].concat();
                    Judgment { is_report_valid: ok, voter: *v as u16, voter_signature: self.sign(&ed_of(&set, *v), &msg) }
                })
                .collect();
            x.verdicts.push(Verdict { report_hash: rh.clone(), epoch_index: if prev { ep - 1 } else { ep }, judgments: j.try_into().unwrap_or_else(|_| panic!()) });
            match kind {
                0 => {
                    for _ in 0..self.r.gen_range(1..=free.len().min(2)) {
                        let key = free.pop().unwrap();
                        let sig = self.sign(&key, &[b"jam_invalid".as_slice(), rh.as_slice()].concat());
                        x.faults.push(Fault { report_hash: rh.clone(), is_report_valid: false, validator_key: key, signature: sig });
                    }
                }
                1 => {
                    for n in 0..3 {
                        let Some(key) = free.pop() else { break };
                        if n < 2 {
                            let sig = self.sign(&key, &[b"jam_guarantee".as_slice(), rh.as_slice()].concat());
                            x.culprits.push(Culprit { report_hash: rh.clone(), validator_key: key, signature: sig });
                        } else {
                            let sig = self.sign(&key, &[b"jam_valid".as_slice(), rh.as_slice()].concat());
                            x.faults.push(Fault { report_hash: rh.clone(), is_report_valid: true, validator_key: key, signature: sig });
                            break;
                        }
                    }
                }
                _ => {}
            }
        }
        x.verdicts.sort();
        x.culprits.sort_by(|a, b| a.validator_key.as_slice().cmp(b.validator_key.as_slice()));
        x.faults.sort_by(|a, b| a.validator_key.as_slice().cmp(b.validator_key.as_slice()));
        x
    }

    fn assurance(&self, s: &Snap, parent: &Hash32, v: usize, bits: &[bool]) -> AssurancesXtEntry {
        let mut bv: BitVec<u8, Lsb0> = BitVec::new();
        for b in bits {
            bv.push(*b);
        }
        let mut e = AssurancesXtEntry { anchor_parent_hash: parent.clone(), assuring_cores_bitvec: bv, validator_index: v as u16, signature: Ed25519Sig::default() };
        self.sign_assurance(&mut e, &ed_of(&s.active.0, v));
        e
    }
    fn sign_assurance(&self, e: &mut AssurancesXtEntry, key: &Ed25519PubKey) {
        let mut byte = 0u8;
        for (i, b) in e.assuring_cores_bitvec.iter().enumerate() {
            byte |= (*b as u8) << i;
        }
        let m = b2(&[e.anchor_parent_hash.as_slice(), &[byte]].concat());
        e.signature = self.sign(key, &[b"jam_available".as_slice(), m.as_slice()].concat());
    }

    fn gen_assur(&mut self, s: &Snap, parent: &Hash32, dx: &DisputesXt) -> Vec<AssurancesXtEntry> {
        let gone: Vec<Hash32> = dx.verdicts.iter().filter(|v| v.judgments.iter().filter(|j| j.is_report_valid).count() < 5).map(|v| v.report_hash.clone()).collect();
        let pend: Vec<bool> = s.reports.0.iter().map(|p| p.as_ref().is_some_and(|p| !gone.contains(&report_hash(&p.work_report)))).collect();
        let keen: Vec<f64> = (0..C).map(|_| [0.0, 0.6, 0.8, 1.0, 1.0][self.r.gen_range(0..5)]).collect();
        let mut out = vec![];
        for v in 0..V {
            if self.k.who_e(&s.active.0[v].ed25519).is_none() || self.r.gen_bool(0.08) {
                continue;
            }
            let bits: Vec<bool> = (0..C).map(|c| pend[c] && self.r.gen_bool(keen[c])).collect();
            out.push(self.assurance(s, parent, v, &bits));
        }
        out
    }

    #[allow(clippy::too_many_arguments)]
    fn gen_guar(&mut self, w: &World, d: &Derived, s: &Snap, root: &Hash32, slot: u32, x: &Extrinsics, off: &[Ed25519PubKey], anc: &[(u32, Hash32)]) -> Vec<GuaranteesXtEntry> {
        let gone: Vec<Hash32> =
            x.disputes.verdicts.iter().filter(|v| v.judgments.iter().filter(|j| j.is_report_valid).count() < 5).map(|v| v.report_hash.clone()).collect();
        let mut hist = s.history.history.iter().cloned().collect::<Vec<_>>();
        if let Some(l) = hist.last_mut() {
            l.state_root = root.clone();
        }
        if hist.is_empty() {
            return vec![];
        }
        let known: Vec<(Hash32, Hash32)> = hist.iter().flat_map(|e| e.reported_packages.iter().map(|p| (p.work_package_hash.clone(), p.segment_root.clone()))).collect();
        let mut out: Vec<GuaranteesXtEntry> = vec![];
        for c in 0..C {
            let n = x.assurances.iter().filter(|a| a.assuring_cores_bitvec[c]).count();
            let free = match &s.reports.0[c] {
                None => true,
                Some(p) => gone.contains(&report_hash(&p.work_report)) || n >= 5 || slot >= p.reported_timeslot.slot() + 5,
            };
            if !free || self.r.gen_bool(0.25) {
                continue;
            }
            // now, or in the previous rotation
            let gt = if self.r.gen_bool(0.55) { self.r.gen_range((slot / 4) * 4..=slot) } else { ((slot / 4) * 4).saturating_sub(self.r.gen_range(1..=4)) };
            let (cores, keys) = Self::assignment(d, s, slot, gt, off);
            let who: Vec<usize> = (0..V).filter(|v| cores[*v] == c as u16 && self.k.who_e(&keys[*v].ed25519).is_some()).collect();
            if who.len() < 2 {
                continue;
            }
            let a = hist.choose(&mut self.r).unwrap();
            let pool = s.auth_pool.0[c].as_slice();
            if pool.is_empty() {
                continue;
            }
            let mut sp = ReportSpec {
                core: c as u16,
                auth: pool.choose(&mut self.r).unwrap().clone(),
                anchor: Some((a.header_hash.clone(), a.state_root.clone(), a.accumulation_result_mmr_root.clone())),
                lookup_slot: slot.saturating_sub([0, 1, 5, 20, 24][self.r.gen_range(0..5)]),
                lookup_hash: h32(&mut self.r),
                ..Default::default()
            };
            if self.m.anc {
                let ok: Vec<&(u32, Hash32)> = anc.iter().filter(|(t, _)| *t + 24 >= slot).collect();
                let Some(l) = ok.choose(&mut self.r) else { continue };
                sp.lookup_slot = l.0;
                sp.lookup_hash = l.1.clone();
            }
            if self.r.gen_bool(0.4) {
                for _ in 0..self.r.gen_range(1..=4) {
                    if let Some(p) = known.choose(&mut self.r) {
                        if self.r.gen_bool(0.5) {
                            sp.pre.push(p.0.clone());
                        } else {
                            sp.segs.push(p.clone());
                        }
                    }
                }
            }
            if let Some(prev) = out.first() {
                if self.r.gen_bool(0.4) {
                    let p = &prev.work_report.specs;
                    if self.r.gen_bool(0.5) {
                        sp.pre.push(p.work_package_hash.clone());
                    } else {
                        sp.segs.push((p.work_package_hash.clone(), p.segment_root.clone()));
                    }
                }
            }
            let rep = make_report(&mut self.r, w, &sp);
            let mut who = who;
            if who.len() == 3 && self.r.gen_bool(0.5) {
                who.remove(self.r.gen_range(0..3));
            }
            let mut g = GuaranteesXtEntry { work_report: rep, timeslot_index: gt, credentials: vec![] };
            for v in who {
                g.credentials.push(GuaranteesCredential { validator_index: v as u16, signature: Ed25519Sig::default() });
            }
            self.sign_guarantee(&mut g, &keys);
            out.push(g);
        }
        // the other core's report may also depend on a later one of the same block
        if out.len() == 2 && self.r.gen_bool(0.25) {
            let p = out[1].work_report.specs.work_package_hash.clone();
            if !out[1].work_report.refinement_context.prerequisite_work_packages.contains(&out[0].work_report.specs.work_package_hash) {
                out[0].work_report.refinement_context.prerequisite_work_packages.insert(p);
                let (_, keys) = Self::assignment(d, s, slot, out[0].timeslot_index, off);
                let mut g = out[0].clone();
                self.sign_guarantee(&mut g, &keys);
                out[0] = g;
            }
        }
        out
    }

    fn sign_guarantee(&self, g: &mut GuaranteesXtEntry, keys: &ValidatorKeySet) {
        let m = [b"jam_guarantee".as_slice(), report_hash(&g.work_report).as_slice()].concat();
        for c in g.credentials.iter_mut() {
            let key = if (c.validator_index as usize) < V { ed_of(keys, c.validator_index as usize) } else { self.k.ed(0) };
            c.signature = self.sign(&key, &m);
        }
    }

    fn gen_pre(&mut self, w: &World, st: &Value) -> Vec<PreimagesXtEntry> {
        let wants = st["want"].as_array().unwrap();
        let mut v: Vec<PreimagesXtEntry> = w
            .wants
            .iter()
            .enumerate()
            .filter(|(i, _)| wants[*i]["at"].as_array().unwrap().is_empty())
            .map(|(_, x)| PreimagesXtEntry { service_id: x.svc, preimage_data: octets(x.data.clone()) })
            .collect();
        v.shuffle(&mut self.r);
        v.truncate(self.r.gen_range(1..=3));
        v.sort_by(|a, b| (a.service_id, a.preimage_data.as_slice()).cmp(&(b.service_id, b.preimage_data.as_slice())));
        v
    }

    // ------------------------------------------------------------ mutations
    /// Changes the extrinsics in one way; returns the name of the change or None when it does not apply.
    #[allow(clippy::too_many_arguments)]
    fn mutate(&mut self, fam: &str, x: &mut Extrinsics, d: &Derived, s: &Snap, w: &World, st: &Value, slot: u32, root: &Hash32, parent: &Hash32, off: &[Ed25519PubKey], hm: &mut Vec<HMut>, anc: &[(u32, Hash32)]) -> Option<String> {
        let n = self.r.gen_range(0..if fam == "disputes" { 32 } else { 24 });
        let name = match fam {
            "header" => {
                let other = |sim: &mut Sim| sim.r.gen_range(0..sim.k.vals.len());
                let (nm, m) = match n {
                    0 => ("parent", HMut::Parent(h32(&mut self.r))),
                    1 => ("zero-parent", HMut::Parent(Hash32::default())),
                    2 => ("prior-root", HMut::PriorRoot(h32(&mut self.r))),
                    3 => ("xt-hash", HMut::XtHash(h32(&mut self.r))),
                    4 => ("author", HMut::Author(self.r.gen_range(0..V as u16))),
                    5 => ("author-range", HMut::Author(self.r.gen_range(6..20))),
                    6 => ("no-epoch-marker", HMut::NoEpochMarker),
                    7 | 8 | 9 => {
                        // a marker that is slightly wrong, or present where none belongs
                        let d0 = derive(s, (s.slot / E + 1) * E, off);
                        let mut em = d.epoch_marker.clone().unwrap_or_else(|| d0.epoch_marker.clone().unwrap());
                        if d.epoch_marker.is_some() {
                            match n {
                                7 => em.entropy = h32(&mut self.r),
                                8 => em.tickets_entropy = h32(&mut self.r),
                                _ => {
                                    let mut v: Vec<_> = em.validators.iter().cloned().collect();
                                    let (i, j) = (self.r.gen_range(0..V), self.r.gen_range(0..V));
                                    if self.r.gen_bool(0.5) {
                                        v.swap(i, j);
                                    } else {
                                        v[i].ed25519 = self.k.ed(j);
                                    }
                                    em.validators = v.try_into().unwrap_or_else(|_| panic!());
                                }
                            }
                        }
                        ("epoch-marker", HMut::EpochMarker(em))
                    }
                    10 => ("no-tickets-marker", HMut::NoTicketsMarker),
                    11 | 12 => {
                        let acc = s.safrole.ticket_accumulator.clone().into_sorted_vec();
                        if acc.len() != E as usize {
                            return None;
                        }
                        let mut t = outside_in(&acc);
                        if d.tickets_marker.is_some() {
                            if n == 11 {
                                t.swap(0, 5);
                            } else {
                                t[3].attempt ^= 1;
                            }
                        }
                        ("tickets-marker", HMut::TicketsMarker(t.try_into().unwrap_or_else(|_| panic!())))
                    }
                    13 | 14 => {
                        let mut o: Vec<Ed25519PubKey> = off_of(x);
                        match self.r.gen_range(0..3) {
                            0 => o.push(self.k.ed(self.r.gen_range(0..self.k.vals.len()))),
                            1 if o.len() > 1 => o.reverse(),
                            _ => {
                                if o.pop().is_none() {
                                    o.push(self.k.ed(self.r.gen_range(0..self.k.vals.len())))
                                }
                            }
                        }
                        ("offenders", HMut::Offenders(o))
                    }
                    15 => ("vrf-input", HMut::VrfInput([b"jam_entropy".as_slice(), h32(&mut self.r).as_slice()].concat())),
                    16 => {
                        let o = other(self);
                        ("vrf-key", HMut::VrfKey(o))
                    }
                    17 => ("vrf-bytes", HMut::VrfBytes(self.r.gen_range(32..96), 1 << self.r.gen_range(0..8))),
                    18 => {
                        let o = other(self);
                        ("seal-key", HMut::SealKey(o))
                    }
                    19 => {
                        let c = match self.r.gen_range(0..4) {
                            0 => [b"jam_fallback_seal".as_slice(), d.eta[2].as_slice()].concat(),
                            1 => [b"jam_fallback_seal".as_slice(), d.eta[3].as_slice()].concat(),
                            2 => [XT, d.eta[3].as_slice(), &[self.r.gen_range(0..3)]].concat(),
                            _ => [b"jam_fallback_seal".as_slice(), d.eta[1].as_slice()].concat(),
                        };
                        ("seal-ctx", HMut::SealCtx(c))
                    }
                    20 => ("seal-msg", HMut::SealMsg),
                    21 => ("seal-bytes", HMut::SealBytes(self.r.gen_range(32..96), 1 << self.r.gen_range(0..8))),
                    22 => ("slot-after-seal", HMut::Slot(slot + self.r.gen_range(1..5))),
                    _ => ("slot-not-later", HMut::Slot(s.slot - self.r.gen_range(0..2))),
                };
                hm.push(m);
                format!("header.{nm}")
            }
            "tickets" => {
                let pend = d.pending.clone();
                let many = self.r.gen_bool(0.35);
                if !many && (n == 0 || n == 1 || x.tickets.items.is_empty()) {
                    // after the contest, or just some more
                    let cand: Vec<usize> = pend.iter().filter_map(|v| self.k.who_b(&v.bandersnatch)).collect();
                    let who = *cand.choose(&mut self.r)?;
                    let at = self.r.gen_range(0..3);
                    let p = self.ticket_proof(who, &pend, &d.eta[2], at);
                    x.tickets.items.push(TicketsXtEntry { entry_index: at, ticket_proof: p });
                    self.sort_tickets(&mut x.tickets.items);
                    return Some("tickets.extra".into());
                }
                let i = if many { 0 } else { self.r.gen_range(0..x.tickets.items.len()) };
                let n = if many { 99 } else { n };
                let who_at = |sim: &Sim, set: &ValidatorKeySet, r: usize| sim.k.who_b(&set[r % V].bandersnatch);
                match n {
                    2 | 3 => {
                        x.tickets.items[i].entry_index = [3, 4, 255][self.r.gen_range(0..3)];
                        "tickets.attempt-range".into()
                    }
                    4 | 5 => {
                        x.tickets.items[i].entry_index = (x.tickets.items[i].entry_index + 1) % 3;
                        "tickets.attempt-mismatch".into()
                    }
                    6 | 7 => {
                        let b = self.r.gen_range(0..784);
                        x.tickets.items[i].ticket_proof.0 .0[b] ^= 1 << self.r.gen_range(0..8);
                        self.sort_tickets(&mut x.tickets.items);
                        "tickets.proof-bytes".into()
                    }
                    8 | 9 | 10 => {
                        let set = [d.active.clone(), s.staging.0.clone(), s.past.0.clone(), s.safrole.pending_set.clone()][self.r.gen_range(0..4)].clone();
                        let who = who_at(self, &set, n)?;
                        let at = self.r.gen_range(0..3);
                        x.tickets.items[i] = TicketsXtEntry { entry_index: at, ticket_proof: self.ticket_proof(who, &set, &d.eta[2], at) };
                        self.sort_tickets(&mut x.tickets.items);
                        "tickets.wrong-ring".into()
                    }
                    11 | 12 | 13 => {
                        let eta = d.eta[[0, 1, 3][self.r.gen_range(0..3)]].clone();
                        let who = who_at(self, &pend, n)?;
                        let at = self.r.gen_range(0..3);
                        x.tickets.items[i] = TicketsXtEntry { entry_index: at, ticket_proof: self.ticket_proof(who, &pend, &eta, at) };
                        self.sort_tickets(&mut x.tickets.items);
                        "tickets.wrong-entropy".into()
                    }
                    14 | 15 if x.tickets.items.len() > 1 => {
                        x.tickets.items.reverse();
                        "tickets.order".into()
                    }
                    14 | 15 | 16 => {
                        let e = x.tickets.items[i].clone();
                        x.tickets.items.insert(i, e);
                        "tickets.twice".into()
                    }
                    17 | 18 => {
                        // one that is already in the accumulator
                        let acc = s.safrole.ticket_accumulator.clone().into_sorted_vec();
                        for v in pend.iter() {
                            let Some(who) = self.k.who_b(&v.bandersnatch) else { continue };
                            for at in 0..3 {
                                let id = self.ticket_id(who, &d.eta[2], at);
                                if acc.iter().any(|t| t.id == id) {
                                    let p = self.ticket_proof(who, &pend, &d.eta[2], at);
                                    x.tickets.items = vec![TicketsXtEntry { entry_index: at, ticket_proof: p }];
                                    return Some("tickets.known".into());
                                }
                            }
                        }
                        return None;
                    }
                    19 => {
                        // a stranger to the ring
                        let members: Vec<usize> = pend.iter().filter_map(|v| self.k.who_b(&v.bandersnatch)).collect();
                        let who = (0..self.k.vals.len()).find(|i| !members.contains(i))?;
                        let p = self.ticket_proof(who, &pend, &d.eta[2], 0);
                        x.tickets.items[i] = TicketsXtEntry { entry_index: 0, ticket_proof: p };
                        self.sort_tickets(&mut x.tickets.items);
                        "tickets.stranger".into()
                    }
                    _ => {
                        // as many as it takes to exceed the limit, or to include one that will not survive
                        let want = [2, 2, 3, 3, 3, 4][self.r.gen_range(0..6)];
                        let acc: Vec<Ticket> = if slot / E > s.slot / E { vec![] } else { s.safrole.ticket_accumulator.clone().into_sorted_vec() };
                        let mut cand = vec![];
                        for v in pend.iter() {
                            let Some(who) = self.k.who_b(&v.bandersnatch) else { continue };
                            for at in 0..3 {
                                let id = self.ticket_id(who, &d.eta[2], at);
                                if !acc.iter().any(|t| t.id == id) {
                                    cand.push((id, who, at));
                                }
                            }
                        }
                        cand.shuffle(&mut self.r);
                        cand.truncate(want);
                        cand.sort();
                        x.tickets.items =
                            cand.into_iter().map(|(_, who, at)| TicketsXtEntry { entry_index: at, ticket_proof: self.ticket_proof(who, &pend, &d.eta[2], at) }).collect();
                        "tickets.many".into()
                    }
                }
            }
            "disputes" => return self.mutate_disputes(n, x, s, parent),
            "assur" => {
                let a = &mut x.assurances.items;
                if a.is_empty() {
                    return None;
                }
                let mut v: Vec<AssurancesXtEntry> = a.iter().cloned().collect();
                let i = self.r.gen_range(0..v.len());
                let key = ed_of(&s.active.0, v[i].validator_index as usize);
                let nm = match n {
                    0 | 1 if v.len() > 1 => {
                        let j = (i + 1) % v.len();
                        v.swap(i, j);
                        "order"
                    }
                    0..=3 => {
                        if v.len() == V {
                            v.pop();
                        }
                        let i = i.min(v.len() - 1);
                        let e = v[i].clone();
                        v.insert(i, e);
                        "twice"
                    }
                    4 | 5 => {
                        v[i].anchor_parent_hash = h32(&mut self.r);
                        self.sign_assurance(&mut v[i], &key);
                        "anchor"
                    }
                    6 | 7 => {
                        v[i].anchor_parent_hash = s.history.history.iter().next()?.header_hash.clone();
                        self.sign_assurance(&mut v[i], &key);
                        "old-anchor"
                    }
                    8 | 9 => {
                        v[i].signature.0 .0[self.r.gen_range(0..64)] ^= 1;
                        "sig-bytes"
                    }
                    10 | 11 => {
                        let o = self.r.gen_range(0..self.k.vals.len());
                        let ko = self.k.ed(o);
                        self.sign_assurance(&mut v[i], &ko);
                        "sig-key"
                    }
                    12 | 13 => {
                        let c = self.r.gen_range(0..C);
                        let b = v[i].assuring_cores_bitvec[c];
                        v[i].assuring_cores_bitvec.set(c, !b);
                        "bits-after-sign"
                    }
                    14 | 15 | 16 | 17 => {
                        // claim a core that holds nothing
                        let c = self.r.gen_range(0..C);
                        v[i].assuring_cores_bitvec.set(c, true);
                        self.sign_assurance(&mut v[i], &key);
                        "set-bit"
                    }
                    18 => {
                        v[i].validator_index = self.r.gen_range(6..9);
                        v.sort_by_key(|e| e.validator_index);
                        "index-range"
                    }
                    19 | 20 => {
                        // signed by the other sets' validator of the same index
                        let set = [&s.past.0, &s.safrole.pending_set][self.r.gen_range(0..2)];
                        let ko = ed_of(set, v[i].validator_index as usize);
                        self.k.who_e(&ko)?;
                        self.sign_assurance(&mut v[i], &ko);
                        "wrong-set"
                    }
                    _ => {
                        // exactly one voter short of, or at, the threshold
                        let c = (0..C).find(|c| s.reports.0[*c].is_some())?;
                        let n = self.r.gen_range(4..=5).min(v.len());
                        for (k, e) in v.iter_mut().enumerate() {
                            e.assuring_cores_bitvec.set(c, k < n);
                            let key = ed_of(&s.active.0, e.validator_index as usize);
                            self.sign_assurance(e, &key);
                        }
                        "threshold"
                    }
                };
                x.assurances.items = LimitedVec::try_from(v).ok()?;
                format!("assur.{nm}")
            }
            "guar" => return self.mutate_guar(x, d, s, w, slot, root, off),
            "anc" => {
                let g = x.guarantees.items.iter().next()?.clone();
                let mut g = g;
                let c = &mut g.work_report.refinement_context;
                match n % 5 {
                    0 => c.lookup_anchor_header_hash = h32(&mut self.r),
                    1 => c.lookup_anchor_timeslot += 1,
                    2 => {
                        let old: Vec<&(u32, Hash32)> = anc.iter().filter(|(t, _)| *t + 24 < slot).collect();
                        let o = old.choose(&mut self.r)?;
                        c.lookup_anchor_timeslot = o.0;
                        c.lookup_anchor_header_hash = o.1.clone();
                    }
                    3 => {
                        let o = anc.choose(&mut self.r)?;
                        c.lookup_anchor_header_hash = o.1.clone();
                    }
                    _ => {
                        let o = anc.choose(&mut self.r)?;
                        c.lookup_anchor_timeslot = o.0;
                        c.lookup_anchor_header_hash = o.1.clone();
                    }
                }
                let (_, keys) = Self::assignment(d, s, slot, g.timeslot_index, off);
                self.sign_guarantee(&mut g, &keys);
                let mut v: Vec<_> = x.guarantees.items.iter().cloned().collect();
                v[0] = g;
                x.guarantees.items = limited(v);
                "anc.lookup".into()
            }
            "pre" => {
                let v = &mut x.preimages.items;
                let sortv = |v: &mut Vec<PreimagesXtEntry>| v.sort_by(|a, b| (a.service_id, a.preimage_data.as_slice()).cmp(&(b.service_id, b.preimage_data.as_slice())));
                let nm = match n {
                    0..=3 => {
                        // nobody asked for it
                        let svc = if self.r.gen_bool(0.7) { w.services[self.r.gen_range(0..w.services.len())].id } else { 99 };
                        v.push(PreimagesXtEntry { service_id: svc, preimage_data: octets(h32(&mut self.r).0.to_vec()) });
                        sortv(v);
                        "unsolicited"
                    }
                    4..=7 => {
                        let wants = st["want"].as_array().unwrap();
                        let c: Vec<usize> = (0..w.wants.len()).filter(|i| !wants[*i]["at"].as_array().unwrap().is_empty()).collect();
                        let i = *c.choose(&mut self.r)?;
                        v.push(PreimagesXtEntry { service_id: w.wants[i].svc, preimage_data: octets(w.wants[i].data.clone()) });
                        sortv(v);
                        "provided"
                    }
                    8..=11 => {
                        let e = v.first()?.clone();
                        v.insert(0, e);
                        "twice"
                    }
                    12..=15 if v.len() > 1 => {
                        v.reverse();
                        "order"
                    }
                    16..=18 => {
                        // right data, wrong service
                        let e = v.first_mut()?;
                        e.service_id = w.services.iter().map(|s| s.id).find(|i| *i != e.service_id)?;
                        sortv(v);
                        "other-service"
                    }
                    _ => {
                        let e = v.first_mut()?;
                        let mut b = e.preimage_data.as_slice().to_vec();
                        let at = self.r.gen_range(0..b.len());
                        b[at] ^= 1;
                        e.preimage_data = octets(b);
                        sortv(v);
                        "data"
                    }
                };
                format!("pre.{nm}")
            }
            f => panic!("unknown family {f}"),
        };
        Some(name)
    }

    fn sort_tickets(&self, v: &mut [TicketsXtEntry]) {
        v.sort_by_key(|e| e.ticket_proof.output_hash().unwrap_or_default());
    }

    fn mutate_disputes(&mut self, n: usize, x: &mut Extrinsics, s: &Snap, _parent: &Hash32) -> Option<String> {
        let dx = &mut x.disputes;
        if dx.verdicts.is_empty() {
            return None;
        }
        let vi = self.r.gen_range(0..dx.verdicts.len());
        let ji = self.r.gen_range(0..5);
        let resort = |dx: &mut DisputesXt| {
            dx.verdicts.sort();
            dx.culprits.sort_by(|a, b| a.validator_key.as_slice().cmp(b.validator_key.as_slice()));
            dx.faults.sort_by(|a, b| a.validator_key.as_slice().cmp(b.validator_key.as_slice()));
        };
        let nm = match n {
            0 => {
                dx.verdicts.reverse();
                dx.culprits.reverse();
                dx.faults.reverse();
                "order"
            }
            1 => {
                let mut e = dx.verdicts[vi].clone();
                if self.r.gen_bool(0.5) {
                    let ep = s.slot / E;
                    e.epoch_index = if e.epoch_index == ep { ep - 1 } else { ep };
                }
                dx.verdicts.insert(vi, e);
                "verdict-twice"
            }
            2 => {
                let ep = s.slot / E;
                dx.verdicts[vi].epoch_index = [ep + 1, ep - 2, 0, ep + 7][self.r.gen_range(0..4)];
                "epoch"
            }
            3 => {
                let e = &mut dx.verdicts[vi];
                e.epoch_index = if e.epoch_index == s.slot / E { e.epoch_index - 1 } else { e.epoch_index + 1 };
                "epoch-swap"
            }
            4 => {
                let j = &mut dx.verdicts[vi].judgments[ji];
                j.is_report_valid = !j.is_report_valid;
                "vote-after-sign"
            }
            5 => {
                // a correctly signed vote that spoils the count
                let set = if dx.verdicts[vi].epoch_index == s.slot / E { s.active.0.clone() } else { s.past.0.clone() };
                let rh = dx.verdicts[vi].report_hash.clone();
                let j = dx.verdicts[vi].judgments[ji].clone();
                let ok = !j.is_report_valid;
                let msg = [if ok { b"jam_valid".as_slice() } else { b"jam_invalid".as_slice() }, rh.as_slice()].concat();
                let sig = self.sign(&ed_of(&set, j.voter as usize), &msg);
                dx.verdicts[vi].judgments[ji] = Judgment { is_report_valid: ok, voter: j.voter, voter_signature: sig };
                "vote-count"
            }
            6 => {
                dx.verdicts[vi].judgments[ji].voter_signature.0 .0[self.r.gen_range(0..64)] ^= 4;
                "vote-sig"
            }
            7 | 28 | 29 => {
                // one validator voting twice: the same vote again, or (keeping the count) the other vote too
                let set = if dx.verdicts[vi].epoch_index == s.slot / E { s.active.0.clone() } else { s.past.0.clone() };
                let rh = dx.verdicts[vi].report_hash.clone();
                let mut j: Vec<Judgment> = dx.verdicts[vi].judgments.iter().cloned().collect();
                let apart = (0..4).find(|n| j[*n].is_report_valid != j[n + 1].is_report_valid).filter(|_| self.r.gen_bool(0.8));
                let (a, b) = apart.map(|n| (n, n + 1)).unwrap_or((ji, (ji + 1) % 5));
                let ok = j[if apart.is_some() { b } else { a }].is_report_valid;
                let msg = [if ok { b"jam_valid".as_slice() } else { b"jam_invalid".as_slice() }, rh.as_slice()].concat();
                j[b] = Judgment { is_report_valid: ok, voter: j[a].voter, voter_signature: self.sign(&ed_of(&set, j[a].voter as usize), &msg) };
                j.sort_by_key(|x| x.voter);
                dx.verdicts[vi].judgments = j.try_into().unwrap_or_else(|_| panic!());
                "voter-twice"
            }
            8 => {
                let mut j: Vec<Judgment> = dx.verdicts[vi].judgments.iter().cloned().collect();
                j.swap(ji, (ji + 1) % 5);
                dx.verdicts[vi].judgments = j.try_into().unwrap_or_else(|_| panic!());
                "voter-order"
            }
            9 => {
                dx.verdicts[vi].judgments[4].voter = self.r.gen_range(6..9);
                "voter-range"
            }
            10 | 11 => {
                // already judged
                let all: Vec<Hash32> = s.disputes.good_set.iter().chain(&s.disputes.bad_set).chain(&s.disputes.wonky_set).cloned().collect();
                let rh = all.choose(&mut self.r)?.clone();
                let set = if dx.verdicts[vi].epoch_index == s.slot / E { s.active.0.clone() } else { s.past.0.clone() };
                let old = dx.verdicts[vi].report_hash.clone();
                let js: Vec<Judgment> = dx.verdicts[vi]
                    .judgments
                    .iter()
                    .map(|j| {
                        let msg = [if j.is_report_valid { b"jam_valid".as_slice() } else { b"jam_invalid".as_slice() }, rh.as_slice()].concat();
                        Judgment { is_report_valid: j.is_report_valid, voter: j.voter, voter_signature: self.sign(&ed_of(&set, j.voter as usize), &msg) }
                    })
                    .collect();
                dx.verdicts[vi].report_hash = rh.clone();
                dx.verdicts[vi].judgments = js.try_into().unwrap_or_else(|_| panic!());
                for c in dx.culprits.iter_mut().filter(|c| c.report_hash == old) {
                    c.report_hash = rh.clone();
                    c.signature = self.sign(&c.validator_key, &[b"jam_guarantee".as_slice(), rh.as_slice()].concat());
                }
                for f in dx.faults.iter_mut().filter(|c| c.report_hash == old) {
                    f.report_hash = rh.clone();
                    f.signature = self.sign(&f.validator_key, &[if f.is_report_valid { b"jam_valid".as_slice() } else { b"jam_invalid".as_slice() }, rh.as_slice()].concat());
                }
                resort(dx);
                "judged-before"
            }
            30 | 31 => {
                // an offender of the block accused once more, about another report judged the same way
                if self.r.gen_bool(0.6) && !dx.culprits.is_empty() {
                    let c = dx.culprits.choose(&mut self.r)?.clone();
                    let rh = dx.culprits.iter().find(|o| o.report_hash != c.report_hash)?.report_hash.clone();
                    let sig = self.sign(&c.validator_key, &[b"jam_guarantee".as_slice(), rh.as_slice()].concat());
                    dx.culprits.push(Culprit { report_hash: rh, validator_key: c.validator_key, signature: sig });
                } else {
                    let c = dx.faults.choose(&mut self.r)?.clone();
                    let o = dx.faults.iter().find(|o| o.report_hash != c.report_hash)?.clone();
                    let sig = self.sign(&c.validator_key, &[if o.is_report_valid { b"jam_valid".as_slice() } else { b"jam_invalid".as_slice() }, o.report_hash.as_slice()].concat());
                    dx.faults.push(Fault { validator_key: c.validator_key, signature: sig, ..o });
                }
                resort(dx);
                "accused-again"
            }
            12 => {
                dx.culprits.pop()?;
                "culprit-missing"
            }
            13 => {
                let rh = dx.faults.first()?.report_hash.clone();
                dx.faults.retain(|f| f.report_hash != rh);
                "fault-missing"
            }
            14 | 15 => {
                // someone already punished, or unknown, or a validator of another set
                let key = match self.r.gen_range(0..3) {
                    0 => s.disputes.punish_set.choose(&mut self.r)?.clone(),
                    1 => s.safrole.pending_set[self.r.gen_range(0..V)].ed25519.clone(),
                    _ => self.k.ed(self.r.gen_range(0..self.k.vals.len())),
                };
                self.k.who_e(&key)?;
                if self.r.gen_bool(0.5) && !dx.culprits.is_empty() {
                    let rh = dx.culprits[0].report_hash.clone();
                    let sig = self.sign(&key, &[b"jam_guarantee".as_slice(), rh.as_slice()].concat());
                    dx.culprits.push(Culprit { report_hash: rh, validator_key: key, signature: sig });
                } else {
                    let f = dx.faults.first()?.clone();
                    let sig = self.sign(&key, &[if f.is_report_valid { b"jam_valid".as_slice() } else { b"jam_invalid".as_slice() }, f.report_hash.as_slice()].concat());
                    dx.faults.push(Fault { validator_key: key, signature: sig, ..f });
                }
                resort(dx);
                "offender-key"
            }
            16 => {
                let c = dx.culprits.first_mut()?;
                c.signature.0 .0[5] ^= 1;
                "culprit-sig"
            }
            17 => {
                let c = dx.faults.first_mut()?;
                c.signature.0 .0[5] ^= 1;
                "fault-sig"
            }
            18 => {
                let f = dx.faults.first_mut()?;
                f.is_report_valid = !f.is_report_valid;
                let msg = [if f.is_report_valid { b"jam_valid".as_slice() } else { b"jam_invalid".as_slice() }, f.report_hash.as_slice()].concat();
                let key = f.validator_key.clone();
                let sig = match self.k.who_e(&key) {
                    Some(w) => self.k.ed_sign(w, &msg),
                    None => return None,
                };
                dx.faults[0].signature = sig;
                "fault-agrees"
            }
            19 | 24..=27 => {
                // another offence, of any kind, laid against any verdict of the block
                let v = dx.verdicts[vi].clone();
                let mut ks: Vec<Ed25519PubKey> = s.active.0.iter().map(|v| v.ed25519.clone()).filter(|k| self.k.who_e(k).is_some()).collect();
                if self.r.gen_bool(0.5) {
                    ks.retain(|k| !s.disputes.punish_set.contains(k) && !dx.culprits.iter().any(|c| &c.validator_key == k) && !dx.faults.iter().any(|c| &c.validator_key == k));
                } else {
                    // someone accused in this block already
                    ks = dx.culprits.iter().map(|c| c.validator_key.clone()).chain(dx.faults.iter().map(|c| c.validator_key.clone())).collect();
                }
                let key = ks.choose(&mut self.r)?.clone();
                let tag: &[u8] = [b"jam_guarantee".as_slice(), b"jam_valid".as_slice(), b"jam_invalid".as_slice()][self.r.gen_range(0..3)];
                let sig = self.sign(&key, &[tag, v.report_hash.as_slice()].concat());
                if tag == b"jam_guarantee" {
                    dx.culprits.push(Culprit { report_hash: v.report_hash, validator_key: key, signature: sig });
                } else {
                    dx.faults.push(Fault { report_hash: v.report_hash, is_report_valid: tag == b"jam_valid", validator_key: key, signature: sig });
                }
                resort(dx);
                "another-offence"
            }
            20 => {
                dx.verdicts.remove(vi);
                "verdict-missing"
            }
            21 => {
                let c = dx.culprits.first()?.clone();
                dx.culprits.insert(0, c);
                "culprit-twice"
            }
            22 => {
                let c = dx.faults.first()?.clone();
                dx.faults.insert(0, c);
                "fault-twice"
            }
            _ => {
                // the same validator as culprit and as fault
                let c = dx.culprits.first()?.clone();
                let v = dx.verdicts.iter().find(|v| v.report_hash == c.report_hash)?;
                let _ = v;
                let sig = self.sign(&c.validator_key, &[b"jam_valid".as_slice(), c.report_hash.as_slice()].concat());
                dx.faults.push(Fault { report_hash: c.report_hash.clone(), is_report_valid: true, validator_key: c.validator_key.clone(), signature: sig });
                resort(dx);
                "culprit-and-fault"
            }
        };
        Some(format!("disputes.{nm}"))
    }

    #[allow(clippy::too_many_arguments)]
    fn mutate_guar(&mut self, x: &mut Extrinsics, d: &Derived, s: &Snap, w: &World, slot: u32, root: &Hash32, off: &[Ed25519PubKey]) -> Option<String> {
        let mut v: Vec<GuaranteesXtEntry> = x.guarantees.items.iter().cloned().collect();
        if v.is_empty() {
            return None;
        }
        let i = self.r.gen_range(0..v.len());
        let n = self.r.gen_range(0..36);
        let mut resign = true;
        let mut g = v[i].clone();
        let rp = &mut g.work_report;
        let nm = match n {
            0 => {
                let c = self.r.gen_range(0..2);
                rp.core_index = c;
                "core"
            }
            1 => {
                rp.core_index = self.r.gen_range(2..5);
                "core-range"
            }
            2 => {
                rp.authorizer_hash = if self.r.gen_bool(0.5) { h32(&mut self.r) } else { auth_id(1 - (rp.core_index as usize % 2), self.r.gen_range(0..5)) };
                "authorizer"
            }
            3 => {
                rp.refinement_context.anchor_header_hash = h32(&mut self.r);
                "anchor"
            }
            4 => {
                rp.refinement_context.anchor_state_root = if self.r.gen_bool(0.5) { h32(&mut self.r) } else { root.clone() };
                "anchor-state-root"
            }
            5 => {
                rp.refinement_context.anchor_beefy_root = h32(&mut self.r);
                "anchor-beefy"
            }
            6 | 7 => {
                rp.refinement_context.lookup_anchor_timeslot = slot.saturating_sub(24 + self.r.gen_range(0..3));
                "lookup-age"
            }
            8 => {
                // a package already reported, queued, accumulated or pending
                let mut all: Vec<Hash32> = s.history.get_reported_packages_flattened().into_iter().map(|p| p.work_package_hash).collect();
                let pick = self.r.gen_range(0..4);
                let alt: Vec<Hash32> = match pick {
                    0 => s.acc_history.items.iter().flatten().cloned().collect(),
                    1 => s.acc_queue.items.iter().flatten().map(|q| q.0.specs.work_package_hash.clone()).collect(),
                    2 => s.reports.0.iter().flatten().map(|p| p.work_report.specs.work_package_hash.clone()).collect(),
                    _ => vec![],
                };
                if !alt.is_empty() {
                    all = alt;
                }
                rp.specs.work_package_hash = all.choose(&mut self.r)?.clone();
                "package-known"
            }
            9 => {
                if v.len() < 2 {
                    return None;
                }
                rp.specs.work_package_hash = v[1 - i].work_report.specs.work_package_hash.clone();
                "package-twice"
            }
            10 | 11 => {
                let known = s.history.get_reported_packages_flattened();
                let want = self.r.gen_range(7..=9);
                let mut m: BTreeMap<Hash32, Hash32> = BTreeMap::new();
                let mut pre = BTreeSet::new();
                for p in known.iter() {
                    if m.len() + pre.len() >= want {
                        break;
                    }
                    if self.r.gen_bool(0.5) {
                        m.insert(p.work_package_hash.clone(), p.segment_root.clone());
                    } else {
                        pre.insert(p.work_package_hash.clone());
                    }
                    if m.len() + pre.len() < want && self.r.gen_bool(0.7) {
                        m.insert(p.work_package_hash.clone(), p.segment_root.clone());
                        pre.insert(p.work_package_hash.clone());
                    }
                }
                rp.refinement_context.prerequisite_work_packages = pre;
                rp.segment_roots_lookup = SegmentRootLookupTable::new(m);
                "dependencies"
            }
            12 => {
                rp.refinement_context.prerequisite_work_packages.insert(h32(&mut self.r));
                "prerequisite-unknown"
            }
            13 => {
                rp.segment_roots_lookup = SegmentRootLookupTable::new([(h32(&mut self.r), h32(&mut self.r))].into_iter().collect());
                "lookup-unknown"
            }
            14 => {
                let k = s.history.get_reported_packages_flattened();
                let p = k.choose(&mut self.r)?;
                rp.segment_roots_lookup = SegmentRootLookupTable::new([(p.work_package_hash.clone(), h32(&mut self.r))].into_iter().collect());
                "lookup-root"
            }
            15 => {
                rp.digests[0].service_id = 12345;
                "no-service"
            }
            16 => {
                rp.digests[0].service_code_hash = h32(&mut self.r);
                "code-hash"
            }
            17 | 18 => {
                let id = rp.digests[0].service_id;
                let mg = w.services.iter().find(|x| x.id == id)?.min_gas;
                rp.digests[0].accumulate_gas_limit = mg.saturating_sub(1);
                "min-gas"
            }
            19 | 20 => {
                let rest: u64 = rp.digests.iter().skip(1).map(|d| d.accumulate_gas_limit).sum();
                rp.digests[0].accumulate_gas_limit = 10_000_000 - rest + self.r.gen_range(0..2);
                "gas-limit"
            }
            21 => {
                let d0 = rp.digests[0].clone();
                let mut ds: Vec<WorkDigest> = vec![d0.clone(), d0];
                ds[0].accumulate_gas_limit = u64::MAX;
                ds[1].accumulate_gas_limit = [2, 1 << 63, u64::MAX][self.r.gen_range(0..3)].max(w.services.iter().find(|x| x.id == ds[1].service_id)?.min_gas);
                rp.digests = limited(ds);
                "gas-overflow"
            }
            22 | 23 => {
                let rest: usize = rp.digests.iter().skip(1).map(|d| if let WorkExecutionResult::Output(o) = &d.refine_result { o.len() } else { 0 }).sum();
                let t = rp.auth_trace.len();
                let n = 48 * 1024 - rest - t + self.r.gen_range(0..2);
                rp.digests[0].refine_result = WorkExecutionResult::Output(octets(vec![1; n]));
                "output-size"
            }
            24 => {
                g.timeslot_index = ((slot / 4) * 4).saturating_sub(5 + self.r.gen_range(0..8));
                "old-slot"
            }
            25 => {
                g.timeslot_index = slot + 1 + self.r.gen_range(0..3);
                "future-slot"
            }
            26 => {
                g.timeslot_index = if g.timeslot_index / 4 == slot / 4 { ((slot / 4) * 4).saturating_sub(1) } else { slot };
                "rotation"
            }
            27 => {
                g.credentials.pop();
                if self.r.gen_bool(0.5) {
                    g.credentials.pop();
                }
                "few-credentials"
            }
            28 => {
                g.credentials.reverse();
                "credential-order"
            }
            29 => {
                let c = g.credentials[0].clone();
                g.credentials.insert(0, c);
                "credential-twice"
            }
            30 => {
                let mut have: Vec<u16> = g.credentials.iter().map(|c| c.validator_index).collect();
                let o = (0..V as u16).find(|x| !have.contains(x))?;
                have[0] = o;
                have.sort();
                g.credentials = have.iter().map(|h| GuaranteesCredential { validator_index: *h, signature: Ed25519Sig::default() }).collect();
                "not-assigned"
            }
            31 => {
                g.credentials[0].signature.0 .0[9] ^= 1;
                resign = false;
                "sig-bytes"
            }
            32 => {
                rp.auth_gas_used += 1;
                resign = false;
                "report-after-sign"
            }
            33 => {
                let l = g.credentials.len();
                g.credentials[l - 1].validator_index = self.r.gen_range(6..9);
                "credential-range"
            }
            34 => {
                v.reverse();
                x.guarantees.items = limited(v);
                return Some("guar.order".into());
            }
            _ => {
                // all four guarantors of the world
                g.credentials = (0..4).map(|h| GuaranteesCredential { validator_index: h, signature: Ed25519Sig::default() }).collect();
                "four-credentials"
            }
        };
        if resign {
            let (_, keys) = Self::assignment(d, s, slot, g.timeslot_index, off);
            self.sign_guarantee(&mut g, &keys);
        }
        v[i] = g;
        x.guarantees.items = limited(v);
        Some(format!("guar.{nm}"))
    }
}

pub fn off_of(x: &Extrinsics) -> Vec<Ed25519PubKey> {
    x.disputes.culprits.iter().map(|c| c.validator_key.clone()).chain(x.disputes.faults.iter().map(|f| f.validator_key.clone())).collect()
}

pub const ALL: &[&str] = &[
    "slot", "pool", "queue", "history", "safrole", "disputes", "eta", "staging", "active", "past", "reports", "priv", "stats", "accq", "acch", "outputs",
];

// ------------------------------------------------------------ facts of a block
pub fn facts(k: &Keys, b: &Block, parent: &Hash32, root: &Hash32, ring_of: &mut dyn FnMut() -> String, changed: bool) -> Map<String, Value> {
    let reg = k.reg.lock().unwrap();
    let sig = |s: &Ed25519Sig| match reg.ed.get(s.as_slice()) {
        Some((k, m)) => json!({"k": k, "m": m}),
        None => json!({"k": "bad", "m": ""}),
    };
    let h = &b.header;
    let x = &b.extrinsics;
    let vrf = |s: &BandersnatchSig, msg: &[u8]| {
        let out = s.output_hash().map(|h| hx(&h.0)).unwrap_or_default();
        match reg.vrf.get(s.as_slice()) {
            Some((k, ctx, m)) => json!({"k": k, "ctx": ctx, "intact": *m == hx(&b2(msg).0), "out": out}),
            None => json!({"k": "bad", "ctx": "", "intact": false, "out": out}),
        }
    };
    let unsigned = h.data.encode().unwrap();
    let em = match &h.data.epoch_marker {
        None => json!([]),
        Some(e) => json!([{"e0": hx(&e.entropy.0), "e1": hx(&e.tickets_entropy.0),
            "vals": e.validators.iter().map(|v| json!({"b": hx(v.bandersnatch.as_slice()), "e": hx(v.ed25519.as_slice())})).collect::<Vec<_>>()}]),
    };
    let tm = match &h.data.winning_tickets_marker {
        None => json!([]),
        Some(t) => json!([p_tickets(t.as_slice())]),
    };
    let mut m = Map::new();
    m.insert("slot".into(), json!(h.data.timeslot_index));
    m.insert("parent".into(), json!(hx(&parent.0)));
    m.insert("rootval".into(), json!(hx(&root.0)));
    m.insert("vrfout".into(), json!(h.data.vrf_signature.output_hash().map(|h| hx(&h.0)).unwrap_or_default()));
    m.insert("hdr".into(), json!({
        "parent": h.data.parent_hash == *parent, "root": h.data.prior_state_root == *root, "xt": h.data.extrinsic_hash == xt_hash(x),
        "author": h.data.author_index, "seal": vrf(&h.block_seal, &unsigned), "vrf": vrf(&h.data.vrf_signature, &[]),
        "em": em, "tm": tm, "off": h.data.offenders_marker.iter().map(|k| json!(hx(k.as_slice()))).collect::<Vec<_>>(), "hash": hx(&h.hash().unwrap().0)}));
    m.insert("tickets".into(), x.tickets.items.iter().map(|t| {
        let id = t.ticket_proof.output_hash().map(|h| hx(&h.0)).unwrap_or_default();
        let (ring, ctx) = reg.ring.get(t.ticket_proof.as_slice()).cloned().unwrap_or(("bad".into(), "".into()));
        json!({"id": id, "at": t.entry_index, "ring": ring, "ctx": ctx})
    }).collect());
    m.insert("disputes".into(), json!({
        "v": x.disputes.verdicts.iter().map(|v| json!({"r": hx(&v.report_hash.0), "ep": (v.epoch_index as u64).min(1 << 30),
            "j": v.judgments.iter().map(|j| json!({"vote": j.is_report_valid, "i": j.voter, "sig": sig(&j.voter_signature)})).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "c": x.disputes.culprits.iter().map(|c| json!({"r": hx(&c.report_hash.0), "k": hx(c.validator_key.as_slice()), "sig": sig(&c.signature)})).collect::<Vec<_>>(),
        "f": x.disputes.faults.iter().map(|c| json!({"r": hx(&c.report_hash.0), "vote": c.is_report_valid, "k": hx(c.validator_key.as_slice()), "sig": sig(&c.signature)})).collect::<Vec<_>>()}));
    m.insert("assur".into(), x.assurances.iter().map(|a| json!({"anchor": hx(&a.anchor_parent_hash.0),
        "bits": a.assuring_cores_bitvec.iter().map(|b| *b as u8).collect::<Vec<_>>(), "v": a.validator_index, "sig": sig(&a.signature)})).collect());
    m.insert("guar".into(), x.guarantees.items.iter().map(|g| json!({"rep": p_report(&g.work_report), "t": g.timeslot_index,
        "cred": g.credentials.iter().map(|c| json!({"v": c.validator_index, "sig": sig(&c.signature)})).collect::<Vec<_>>()})).collect());
    m.insert("pre".into(), x.preimages.items.iter().map(|p| json!({"svc": p.service_id.to_string(), "se": hx(&p.service_id.to_be_bytes()),
        "data": hx(p.preimage_data.as_slice()), "h": hx(&b2(p.preimage_data.as_slice()).0), "len": p.preimage_data.len()})).collect());
    drop(reg);
    m.insert("ringx".into(), json!(if changed { ring_of() } else { String::new() }));
    m
}

pub async fn run(args: &crate::Args) {
    let md = mode(&args.mode);
    let mut sim = Sim::new(args.seed, md);
    let mut out = Out::new(&args.out);
    let mut counts: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for _ in 0..args.n {
        let (chain, w, twin, st0) = sim.world().await;
        out.ev(json!({"ev": "init", "st": st0}));
        let mut st = st0;
        let mut slot = chain.snap().await.slot;
        let mut anc: Vec<(u32, Hash32)> = if sim.m.anc {
            st["anc"].as_array().unwrap().iter().map(|a| {
                let b: Vec<u8> = hex::decode(a["h"].as_str().unwrap()).unwrap();
                (a["s"].as_u64().unwrap() as u32, ByteArray(b.try_into().unwrap()))
            }).collect()
        } else { vec![] };
        for _ in 0..sim.m.steps {
            let s = chain.snap().await;
            let (head, root) = (chain.head(), chain.root().await);
            let parent = head.hash().unwrap();
            let Some((block, label)) = sim.next_block(&chain, &w, &st, slot, &anc).await else { continue };
            // facts
            let bslot = block.header.data.timeslot_index;
            let changed = bslot / E > s.slot / E;
            let mut ring_cache = String::new();
            if changed {
                let pend = derive(&s, bslot, &off_of(&block.extrinsics)).pending;
                ring_cache = sim.ring(&pend);
            }
            let mut m = facts(&sim.k, &block, &parent, &root, &mut || ring_cache.clone(), changed);
            m.insert("ev".into(), json!("block"));
            m.insert("mut".into(), json!(label));
            m.insert("anc".into(), if sim.m.anc { json!([[]]) } else { json!([]) });
            if sim.m.anc {
                m.insert("anc".into(), json!([anc.iter().map(|(s, h)| json!({"s": s, "h": hx(&h.0)})).collect::<Vec<_>>()]));
            }
            let res = if sim.m.anc { chain.import_anc(&block).await } else { chain.import(&block).await };
            let c = counts.entry(label.clone()).or_default();
            if res.is_ok() {
                c.0 += 1;
                slot = bslot;
                anc.push((bslot, block.header.hash().unwrap()));
                if anc.len() > 24 {
                    anc.remove(0);
                }
            } else {
                c.1 += 1;
            }
            m.insert("res".into(), json!(res.res()));
            // posterior state, as a difference
            let s2 = chain.snap().await;
            let mut now = proj(&s2, ALL);
            let o = now.as_object_mut().unwrap();
            o.insert("want".into(), Sim::p_want(&chain.sm(), &w).await);
            let mut post = Map::new();
            for (kk, v) in o.iter() {
                if st[kk] != *v {
                    post.insert(kk.clone(), v.clone());
                    st[kk] = v.clone();
                }
            }
            let nroot = chain.root().await;
            m.insert("post".into(), Value::Object(post));
            m.insert("root".into(), json!(hx(&nroot.0)));
            m.insert("best".into(), json!(hx(&chain.head().hash().unwrap().0)));
            m.insert("told".into(), json!(match &res { Import::Ok(r) => hx(&r.0), _ => String::new() }));
            let twin_root = match &twin {
                Some(t) => {
                    if res.is_ok() {
                        t.import(&block).await;
                    }
                    hx(&t.root().await.0)
                }
                None => hx(&nroot.0),
            };
            m.insert("twin".into(), json!(twin_root));
            out.ev(Value::Object(m));
        }
    }
    println!("{}", json!({"events": out.n, "mutations": counts.iter().map(|(k, v)| json!([k, v.0, v.1])).collect::<Vec<_>>()}));
}

pub async fn add_lookup(sm: &Arc<StateManager>, id: ServiceId, h: &Hash32, len: u32, at: &[u32]) {
    let e = AccountLookupsEntry { value: at.iter().map(|t| Timeslot::new(*t)).collect::<Vec<_>>().try_into().unwrap_or_else(|_| panic!()) };
    sm.add_account_lookups_entry(id, (h.clone(), len), e).await.unwrap();
}
