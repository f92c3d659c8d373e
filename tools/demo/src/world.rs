//! Keys, chain under test, block production and state projection shared by all drivers.
use fr_block::types::{
    block::{Block, BlockHeader, EpochMarker, EpochMarkerValidatorKey, EpochValidators, WinningTicketsMarker},
    extrinsics::{disputes::OffendersHeaderMarker, Extrinsics},
};
use fr_codec::prelude::*;
use fr_common::{ticket::Ticket, workloads::WorkReport, ByteArray, ByteEncodable, Hash32, ServiceId};
use fr_config::StorageConfig;
use fr_crypto::{
    hash::{hash, Blake2b256},
    traits::{SecretKey, VrfSignature},
    types::*,
    vrf::bandersnatch_vrf::VrfProver,
};
use fr_node::roles::importer::BlockImporter;
use fr_state::{
    manager::StateManager,
    state_utils::{add_all_simple_state_entries, SimpleStates},
    types::*,
};
use fr_storage::node_storage::NodeStorage;
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{collections::HashMap, sync::Arc};

pub const V: usize = 6;
pub const C: usize = 2;
pub const E: u32 = 12;
pub const Y: u32 = 10;

pub type Rg = StdRng;

pub fn rng(seed: u64) -> Rg {
    StdRng::seed_from_u64(seed)
}

pub fn h32(r: &mut Rg) -> Hash32 {
    let mut b = [0u8; 32];
    r.fill(&mut b);
    ByteArray(b)
}

pub fn b2(data: &[u8]) -> Hash32 {
    hash::<Blake2b256>(data).unwrap()
}

pub fn hx(b: &[u8]) -> String {
    hex::encode(b)
}

pub struct Val {
    pub sk: BandersnatchSecretKey,
    pub ed: ed25519_consensus::SigningKey,
    pub key: ValidatorKey,
}

/// A fixed population of validators with known secrets; the first six are the node's dev accounts.
pub struct Keys {
    pub vals: Vec<Val>,
    pub by_b: HashMap<String, usize>,
    pub by_e: HashMap<String, usize>,
    pub reg: std::sync::Mutex<Reg>,
}

/// What every signature made here was made with and over; anything else counts as forged.
#[derive(Default)]
pub struct Reg {
    pub ed: HashMap<Vec<u8>, (String, String)>,
    pub vrf: HashMap<Vec<u8>, (String, String, String)>,
    pub ring: HashMap<Vec<u8>, (String, String)>,
}

impl Keys {
    pub fn new(n: usize) -> Self {
        let mut vals = vec![];
        let dev = serde_json::to_value(fr_node::keystore::load_dev_accounts()).unwrap();
        let strip = |s: &str| hex::decode(s.trim_start_matches("0x")).unwrap();
        for name in ["alice", "bob", "carol", "david", "eve", "fergie"] {
            let a = &dev[name];
            let g = |f: &str| strip(a[f].as_str().unwrap());
            let sk = BandersnatchSecretKey(ByteArray::from_slice(&g("bandersnatch_private")).unwrap());
            let edp: [u8; 32] = g("ed25519_private").try_into().unwrap();
            vals.push((sk, ed25519_consensus::SigningKey::from(edp), g("metadata")));
        }
        for i in 6..n {
            let seed = b2(format!("validator-{i}").as_bytes());
            let sk = BandersnatchSecretKey::from_seed(seed.as_slice()).unwrap();
            let edp: [u8; 32] = seed.0;
            vals.push((sk, ed25519_consensus::SigningKey::from(edp), vec![i as u8; 128]));
        }
        let mut by_b = HashMap::new();
        let mut by_e = HashMap::new();
        let vals: Vec<Val> = vals
            .into_iter()
            .enumerate()
            .map(|(i, (sk, ed, md))| {
                let key = ValidatorKey {
                    bandersnatch: sk.public_key().unwrap(),
                    ed25519: Ed25519PubKey::from_slice(ed.verification_key().as_bytes()).unwrap(),
                    bls: BlsPubKey::from_slice(&[i as u8 + 1; 144]).unwrap(),
                    metadata: ValidatorMetadata(ByteArray::from_slice(&md).unwrap()),
                };
                by_b.insert(key.bandersnatch.to_hex(), i);
                by_e.insert(key.ed25519.to_hex(), i);
                Val { sk, ed, key }
            })
            .collect();
        Self { vals, by_b, by_e, reg: Default::default() }
    }

    pub fn set(&self, ix: &[usize]) -> ValidatorKeySet {
        ValidatorKeySet(
            ix.iter().map(|i| self.vals[*i].key.clone()).collect::<Vec<_>>().try_into().unwrap(),
        )
    }

    pub fn ed_sign(&self, who: usize, msg: &[u8]) -> Ed25519Sig {
        let s = Ed25519Sig::from_slice(&self.vals[who].ed.sign(msg).to_bytes()).unwrap();
        self.reg.lock().unwrap().ed.insert(s.as_slice().to_vec(), (hx(self.ed(who).as_slice()), hx(msg)));
        s
    }

    pub fn ed(&self, who: usize) -> Ed25519PubKey {
        self.vals[who].key.ed25519.clone()
    }

    pub fn vrf(&self, who: usize, ctx: &[u8], msg: &[u8]) -> BandersnatchSig {
        let s = VrfProver::from_secret_key(&self.vals[who].sk).unwrap().sign_vrf(ctx, msg).unwrap();
        let pk = hx(self.vals[who].key.bandersnatch.as_slice());
        self.reg.lock().unwrap().vrf.insert(s.as_slice().to_vec(), (pk, hx(ctx), hx(&b2(msg).0)));
        s
    }

    /// Who (population index) holds this bandersnatch public key.
    pub fn who_b(&self, k: &BandersnatchPubKey) -> Option<usize> {
        self.by_b.get(&k.to_hex()).copied()
    }
    pub fn who_e(&self, k: &Ed25519PubKey) -> Option<usize> {
        self.by_e.get(&k.to_hex()).copied()
    }
}

/// All state components except service data.
#[derive(Clone)]
pub struct Snap {
    pub auth_pool: AuthPool,
    pub auth_queue: AuthQueue,
    pub history: BlockHistory,
    pub safrole: SafroleState,
    pub disputes: DisputesState,
    pub entropy: EpochEntropy,
    pub staging: StagingSet,
    pub active: ActiveSet,
    pub past: PastSet,
    pub reports: PendingReports,
    pub slot: u32,
    pub privileges: PrivilegedServices,
    pub stats: OnChainStatistics,
    pub acc_queue: AccumulateQueue,
    pub acc_history: AccumulateHistory,
    pub outputs: LastAccumulateOutputs,
}

pub async fn snap(sm: &StateManager) -> Snap {
    Snap {
        auth_pool: sm.get_auth_pool().await.unwrap(),
        auth_queue: sm.get_auth_queue().await.unwrap(),
        history: sm.get_block_history().await.unwrap(),
        safrole: sm.get_safrole().await.unwrap(),
        disputes: sm.get_disputes().await.unwrap(),
        entropy: sm.get_epoch_entropy().await.unwrap(),
        staging: sm.get_staging_set().await.unwrap(),
        active: sm.get_active_set().await.unwrap(),
        past: sm.get_past_set().await.unwrap(),
        reports: sm.get_pending_reports().await.unwrap(),
        slot: sm.get_timeslot().await.unwrap().slot(),
        privileges: sm.get_privileged_services().await.unwrap(),
        stats: sm.get_onchain_statistics().await.unwrap(),
        acc_queue: sm.get_accumulate_queue().await.unwrap(),
        acc_history: sm.get_accumulate_history().await.unwrap(),
        outputs: sm.get_last_accumulate_outputs().await.unwrap(),
    }
}

/// Header-relevant posterior values computed independently of the node's transition code.
#[derive(Clone)]
pub struct Derived {
    pub eta: [Hash32; 4],
    pub active: ValidatorKeySet,
    pub pending: ValidatorKeySet,
    pub sealers: SlotSealers,
    pub epoch_marker: Option<EpochMarker>,
    pub tickets_marker: Option<WinningTicketsMarker>,
}

pub fn nullify(set: &ValidatorKeySet, off: &[Ed25519PubKey]) -> ValidatorKeySet {
    ValidatorKeySet(
        set.iter()
            .map(|k| if off.contains(&k.ed25519) { ValidatorKey::default() } else { k.clone() })
            .collect::<Vec<_>>()
            .try_into()
            .unwrap(),
    )
}

pub fn fallback(eta2: &Hash32, set: &ValidatorKeySet) -> SlotSealers {
    let keys: Vec<BandersnatchPubKey> = (0..E)
        .map(|i| {
            let d = b2(&[eta2.as_slice(), &i.to_le_bytes()].concat());
            let ix = u32::from_le_bytes(d.0[..4].try_into().unwrap()) % V as u32;
            set[ix as usize].bandersnatch.clone()
        })
        .collect();
    SlotSealers::BandersnatchPubKeys(keys.try_into().unwrap())
}

pub fn outside_in(t: &[Ticket]) -> Vec<Ticket> {
    let n = t.len();
    (0..n).map(|i| if i % 2 == 0 { t[i / 2].clone() } else { t[n - 1 - i / 2].clone() }).collect()
}

pub fn derive(s: &Snap, slot: u32, new_offenders: &[Ed25519PubKey]) -> Derived {
    let (e0, e1) = (s.slot / E, slot / E);
    let (m0, m1) = (s.slot % E, slot % E);
    let mut off = s.disputes.punish_set.clone();
    off.extend_from_slice(new_offenders);
    let acc = s.safrole.ticket_accumulator.clone().into_sorted_vec();
    if e1 > e0 {
        let eta = [s.entropy.0[0].clone(), s.entropy.0[0].clone(), s.entropy.0[1].clone(), s.entropy.0[2].clone()];
        let active = s.safrole.pending_set.clone();
        let pending = nullify(&s.staging.0, &off);
        let sealers = if e1 == e0 + 1 && m0 >= Y && acc.len() == E as usize {
            SlotSealers::Tickets(outside_in(&acc).try_into().unwrap())
        } else {
            fallback(&eta[2], &active)
        };
        let vals: Vec<EpochMarkerValidatorKey> = pending
            .iter()
            .map(|k| EpochMarkerValidatorKey { bandersnatch: k.bandersnatch.clone(), ed25519: k.ed25519.clone() })
            .collect();
        let em = EpochMarker {
            entropy: s.entropy.0[0].clone(),
            tickets_entropy: s.entropy.0[1].clone(),
            validators: EpochValidators::try_from(vals).unwrap(),
        };
        Derived { eta, active, pending, sealers, epoch_marker: Some(em), tickets_marker: None }
    } else {
        let tm = if m0 < Y && Y <= m1 && acc.len() == E as usize {
            Some(WinningTicketsMarker::try_from(outside_in(&acc)).unwrap())
        } else {
            None
        };
        Derived {
            eta: s.entropy.0.clone(),
            active: s.active.0.clone(),
            pending: s.safrole.pending_set.clone(),
            sealers: s.safrole.slot_sealers.clone(),
            epoch_marker: None,
            tickets_marker: tm,
        }
    }
}

pub enum Import {
    Ok(Hash32),
    Rejected,
    Panicked,
}

impl Import {
    pub fn res(&self) -> &'static str {
        match self {
            Import::Ok(_) => "ok",
            Import::Rejected => "rej",
            Import::Panicked => "panic",
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Import::Ok(_))
    }
}

pub struct Chain {
    pub storage: Arc<NodeStorage>,
    pub dir: tempfile::TempDir,
}

pub fn genesis_header(slot: u32, salt: &[u8]) -> BlockHeader {
    let mut h = BlockHeader::default();
    h.data.timeslot_index = slot;
    h.data.extrinsic_hash = b2(salt);
    h
}

impl Chain {
    /// A node whose committed state is exactly `ss` plus whatever `more` adds, with `head` as best header.
    pub async fn new<F, Fut>(ss: SimpleStates, head: BlockHeader, more: F) -> Chain
    where
        F: FnOnce(Arc<StateManager>) -> Fut,
        Fut: std::future::Future<Output = ()>,
    {
        let dir = tempfile::Builder::new().prefix("vh-").tempdir().unwrap();
        let storage = Arc::new(NodeStorage::new(StorageConfig::from_path(dir.path().join("db"))).unwrap());
        let sm = storage.state_manager();
        add_all_simple_state_entries(&sm, Some(ss)).await.unwrap();
        more(sm.clone()).await;
        sm.commit_dirty_cache().await.unwrap();
        let root = sm.merkle_root().await.unwrap();
        storage.header_db().set_best_header(head.clone());
        storage.header_db().insert_header(head.hash().unwrap(), head.clone()).await.unwrap();
        storage.post_state_root_db().set_post_state_root(&head.hash().unwrap(), root).await.unwrap();
        Chain { storage, dir }
    }

    pub fn sm(&self) -> Arc<StateManager> {
        self.storage.state_manager()
    }
    pub fn head(&self) -> BlockHeader {
        self.storage.header_db().get_best_header()
    }
    pub async fn root(&self) -> Hash32 {
        self.sm().merkle_root().await.unwrap()
    }
    pub async fn snap(&self) -> Snap {
        snap(&self.sm()).await
    }

    /// Offers a block to the node's own importer loop and reports what became of it.
    pub async fn import(&self, block: &Block) -> Import {
        let hash = block.header.hash().unwrap();
        let (tx, rx) = tokio::sync::mpsc::channel(2);
        tx.send(block.clone()).await.unwrap();
        drop(tx);
        let st = self.storage.clone();
        let jh = tokio::spawn(async move { BlockImporter::run_block_importer(st, rx).await });
        if jh.await.is_err() {
            self.sm().rollback_dirty_cache();
            return Import::Panicked;
        }
        match self.storage.post_state_root_db().get_post_state_root(&hash).await {
            Ok(Some(r)) => Import::Ok(r),
            _ => Import::Rejected,
        }
    }

    /// Import through the library entry point, with the ancestry check switched on.
    pub async fn import_anc(&self, block: &Block) -> Import {
        let st = self.storage.clone();
        let b = block.clone();
        let hash = block.header.hash().unwrap();
        let jh = tokio::spawn(async move {
            BlockImporter::import_block(st, b, true, fr_node::roles::importer::BlockCommitMode::Immediate).await
        });
        match jh.await {
            Err(_) => {
                self.sm().rollback_dirty_cache();
                Import::Panicked
            }
            Ok(Ok(o)) => {
                self.storage.post_state_root_db().set_post_state_root(&hash, o.post_state_root.clone()).await.unwrap();
                Import::Ok(o.post_state_root)
            }
            Ok(Err(_)) => {
                self.sm().rollback_dirty_cache();
                Import::Rejected
            }
        }
    }
}

/// A change applied to an otherwise correct header.
#[derive(Clone, Debug, PartialEq)]
pub enum HMut {
    Parent(Hash32),
    PriorRoot(Hash32),
    XtHash(Hash32),
    Author(u16),
    NoEpochMarker,
    EpochMarker(EpochMarker),
    NoTicketsMarker,
    TicketsMarker(WinningTicketsMarker),
    Offenders(Vec<Ed25519PubKey>),
    /// Entropy signature over another input or by another key.
    VrfInput(Vec<u8>),
    VrfKey(usize),
    VrfBytes(usize, u8),
    /// Seal by another key / over another context / over another message.
    SealKey(usize),
    SealCtx(Vec<u8>),
    SealMsg,
    SealBytes(usize, u8),
    /// Field altered after sealing.
    Slot(u32),
}

pub struct Built {
    pub block: Block,
    pub author: u16,
    pub seal_ctx: Vec<u8>,
}

/// Builds a correctly sealed block on top of `snap`, or None when no known key may author `slot`.
/// `pick` chooses among eligible authors when there are several.
pub fn build(k: &Keys, head: &BlockHeader, root: &Hash32, s: &Snap, slot: u32, xts: Extrinsics, muts: &[HMut]) -> Option<Built> {
    let off: Vec<Ed25519PubKey> = xts
        .disputes
        .culprits
        .iter()
        .map(|c| c.validator_key.clone())
        .chain(xts.disputes.faults.iter().map(|f| f.validator_key.clone()))
        .collect();
    let d = derive(s, slot, &off);
    let (author, who, seal_ctx) = eligible(k, &d, slot)?;
    let mut h = BlockHeader::default();
    h.data.parent_hash = head.hash().unwrap();
    h.data.prior_state_root = root.clone();
    h.data.extrinsic_hash = xt_hash(&xts);
    h.data.timeslot_index = slot;
    h.data.author_index = author;
    h.set_offenders_marker(OffendersHeaderMarker { items: off });
    h.data.epoch_marker = d.epoch_marker.clone();
    h.data.winning_tickets_marker = d.tickets_marker.clone();
    let seal_out = k.vrf(who, &seal_ctx, &[]).output_hash().unwrap();
    let mut vrf_in = [b"jam_entropy".as_slice(), seal_out.as_slice()].concat();
    let mut vrf_who = who;
    let mut seal_who = who;
    let mut sctx = seal_ctx.clone();
    for m in muts {
        match m {
            HMut::Parent(x) => h.data.parent_hash = x.clone(),
            HMut::PriorRoot(x) => h.data.prior_state_root = x.clone(),
            HMut::XtHash(x) => h.data.extrinsic_hash = x.clone(),
            HMut::Author(x) => h.data.author_index = *x,
            HMut::NoEpochMarker => h.data.epoch_marker = None,
            HMut::EpochMarker(x) => h.data.epoch_marker = Some(x.clone()),
            HMut::NoTicketsMarker => h.data.winning_tickets_marker = None,
            HMut::TicketsMarker(x) => h.data.winning_tickets_marker = Some(x.clone()),
            HMut::Offenders(x) => h.data.offenders_marker = x.clone(),
            HMut::VrfInput(x) => vrf_in = x.clone(),
            HMut::VrfKey(w) => vrf_who = *w,
            HMut::SealKey(w) => {
                seal_who = *w;
            }
            HMut::SealCtx(c) => sctx = c.clone(),
            _ => {}
        }
    }
    h.data.vrf_signature = k.vrf(vrf_who, &vrf_in, &[]);
    for m in muts {
        if let HMut::VrfBytes(i, x) = m {
            h.data.vrf_signature.0 .0[*i % 96] ^= *x;
        }
    }
    let mut msg = h.data.encode().unwrap();
    if muts.contains(&HMut::SealMsg) {
        msg.push(0);
    }
    h.block_seal = k.vrf(seal_who, &sctx, &msg);
    for m in muts {
        match m {
            HMut::SealBytes(i, x) => h.block_seal.0 .0[*i % 96] ^= *x,
            HMut::Slot(t) => h.data.timeslot_index = *t,
            _ => {}
        }
    }
    Some(Built { block: Block { header: h, extrinsics: xts }, author, seal_ctx })
}

/// (validator index, population index, seal context) of an author who owns `slot`.
pub fn eligible(k: &Keys, d: &Derived, slot: u32) -> Option<(u16, usize, Vec<u8>)> {
    let m = (slot % E) as usize;
    match &d.sealers {
        SlotSealers::BandersnatchPubKeys(keys) => {
            let kk = &keys[m];
            let who = k.who_b(kk)?;
            let ix = d.active.iter().position(|v| &v.bandersnatch == kk)?;
            Some((ix as u16, who, [b"jam_fallback_seal".as_slice(), d.eta[3].as_slice()].concat()))
        }
        SlotSealers::Tickets(ts) => {
            let t = &ts[m];
            let ctx = [b"jam_ticket_seal".as_slice(), d.eta[3].as_slice(), &[t.attempt]].concat();
            for (ix, v) in d.active.iter().enumerate() {
                if let Some(who) = k.who_b(&v.bandersnatch) {
                    if k.vrf(who, &ctx, &[]).output_hash().unwrap() == t.id {
                        return Some((ix as u16, who, ctx));
                    }
                }
            }
            None
        }
    }
}

/// The extrinsic commitment, composed here from the per-list encodings (independent of Extrinsics::hash).
pub fn xt_hash(x: &Extrinsics) -> Hash32 {
    let mut g = vec![];
    x.guarantees.items.len().encode_to(&mut g).unwrap();
    for e in x.guarantees.items.iter() {
        g.extend_from_slice(b2(&e.work_report.encode().unwrap()).as_slice());
        g.extend_from_slice(&e.timeslot_index.to_le_bytes());
        e.credentials.encode_to(&mut g).unwrap();
    }
    let parts = [
        b2(&x.tickets.encode().unwrap()),
        b2(&x.preimages.encode().unwrap()),
        b2(&g),
        b2(&x.assurances.encode().unwrap()),
        b2(&x.disputes.encode().unwrap()),
    ];
    b2(&parts.iter().flat_map(|p| p.0.to_vec()).collect::<Vec<u8>>())
}

/// Random base world: active/pending/staging/past sets from the population, fallback sealers, random entropy.
pub fn base_states(k: &Keys, r: &mut Rg, slot: u32) -> SimpleStates {
    let n = k.vals.len();
    let mut pick = || {
        use rand::seq::SliceRandom;
        let mut v: Vec<usize> = (0..n).collect();
        v.shuffle(r);
        v.truncate(V);
        v
    };
    let (a, p, st, l) = (pick(), pick(), pick(), pick());
    let eta = EpochEntropy([h32(r), h32(r), h32(r), h32(r)]);
    let active = k.set(&a);
    let mut safrole = SafroleState { pending_set: k.set(&p), ..Default::default() };
    safrole.ring_root = ring_root(&safrole.pending_set);
    safrole.slot_sealers = fallback(&eta.0[2], &active);
    let pool: Vec<CoreAuthPool> = (0..C)
        .map(|c| {
            let n = r.gen_range(1..=8);
            CoreAuthPool::try_from((0..n).map(|_| auth_id(c, r.gen_range(0..5))).collect::<Vec<_>>()).unwrap()
        })
        .collect();
    let queue: Vec<CoreAuthQueue> = (0..C)
        .map(|c| CoreAuthQueue::try_from((0..80).map(|i| if r.gen_bool(0.4) { auth_id(c, r.gen_range(0..5)) } else { auth_id(c, 100 + i) }).collect::<Vec<_>>()).unwrap())
        .collect();
    SimpleStates {
        auth_pool: AuthPool(pool.try_into().unwrap()),
        auth_queue: AuthQueue(queue.try_into().unwrap()),
        safrole,
        entropy: eta,
        staging_set: StagingSet(k.set(&st)),
        active_set: ActiveSet(active),
        past_set: PastSet(k.set(&l)),
        timeslot: Timeslot::new(slot),
        ..Default::default()
    }
}

pub fn auth_id(core: usize, i: usize) -> Hash32 {
    b2(format!("auth-{core}-{i}").as_bytes())
}

pub fn ring_root(set: &ValidatorKeySet) -> BandersnatchRingRoot {
    fr_crypto::vrf::bandersnatch_vrf::RingVrfVerifier::new(set).unwrap().compute_ring_root().unwrap()
}

// ---------------------------------------------------------------- projection

pub fn p_val(v: &ValidatorKey) -> Value {
    let h = b2(&v.clone().to_byte_array().0);
    json!({"b": hx(v.bandersnatch.as_slice()), "e": hx(v.ed25519.as_slice()), "h": hx(&h.0[..8])})
}
pub fn p_set(s: &ValidatorKeySet) -> Value {
    s.iter().map(p_val).collect()
}
pub fn p_hs(v: &[Hash32]) -> Value {
    v.iter().map(|x| json!(hx(&x.0))).collect()
}
pub fn p_tickets(t: &[Ticket]) -> Value {
    t.iter().map(|t| json!({"id": hx(&t.id.0), "at": t.attempt})).collect()
}
pub fn p_sealers(s: &SlotSealers) -> Value {
    match s {
        SlotSealers::Tickets(t) => json!({"kind": "t", "t": p_tickets(t.as_slice()), "k": []}),
        SlotSealers::BandersnatchPubKeys(k) => {
            json!({"kind": "k", "t": [], "k": k.iter().map(|k| json!(hx(k.as_slice()))).collect::<Vec<_>>()})
        }
    }
}
pub fn p_safrole(s: &SafroleState) -> Value {
    json!({"pending": p_set(&s.pending_set), "ring": hx(&b2(&s.ring_root.0).0[..8]), "sealers": p_sealers(&s.slot_sealers),
           "acc": p_tickets(&s.ticket_accumulator.clone().into_sorted_vec())})
}
pub fn p_disputes(d: &DisputesState) -> Value {
    json!({"good": p_hs(&d.good_set), "bad": p_hs(&d.bad_set), "wonky": p_hs(&d.wonky_set),
           "off": d.punish_set.iter().map(|k| json!(hx(k.as_slice()))).collect::<Vec<_>>()})
}
pub fn report_hash(r: &WorkReport) -> Hash32 {
    b2(&r.encode().unwrap())
}
pub fn p_report(r: &WorkReport) -> Value {
    let c = &r.refinement_context;
    json!({"h": hx(&report_hash(r).0), "pkg": hx(&r.specs.work_package_hash.0), "core": r.core_index,
        "auth": hx(&r.authorizer_hash.0), "seg": hx(&r.specs.segment_root.0), "len": r.specs.work_bundle_length, "nseg": r.specs.segment_count,
        "anchor": hx(&c.anchor_header_hash.0), "asr": hx(&c.anchor_state_root.0), "abr": hx(&c.anchor_beefy_root.0),
        "lanchor": hx(&c.lookup_anchor_header_hash.0), "lslot": c.lookup_anchor_timeslot,
        "pre": c.prerequisite_work_packages.iter().map(|x| json!(hx(&x.0))).collect::<Vec<_>>(),
        "lookup": r.segment_roots_lookup.iter().map(|(a,b)| json!([hx(&a.0), hx(&b.0)])).collect::<Vec<_>>(),
        "tracelen": r.auth_trace.len(),
        "digests": r.digests.iter().map(|d| json!({"svc": d.service_id.to_string(), "code": hx(&d.service_code_hash.0), "gas": d.accumulate_gas_limit.min(100_000_000),
            "outlen": match &d.refine_result { fr_common::workloads::WorkExecutionResult::Output(o) => o.len(), _ => 0 },
            "u": small(d.refine_stats.refine_gas_used), "i": d.refine_stats.imports_count, "x": d.refine_stats.extrinsics_count,
            "z": d.refine_stats.extrinsics_octets, "e": d.refine_stats.exports_count})).collect::<Vec<_>>()})
}
pub fn small(x: u64) -> Value {
    if x < (1 << 31) {
        json!(x)
    } else {
        json!(-1)
    }
}
pub fn p_reports(p: &PendingReports) -> Value {
    p.0.iter()
        .map(|o| match o {
            Some(x) => json!([{"r": p_report(&x.work_report), "t": x.reported_timeslot.slot()}]),
            None => json!([]),
        })
        .collect()
}
pub fn p_history(h: &BlockHistory) -> Value {
    json!({"h": h.history.iter().map(|e| json!({"hash": hx(&e.header_hash.0), "beefy": hx(&e.accumulation_result_mmr_root.0),
        "sr": hx(&e.state_root.0), "pkgs": e.reported_packages.iter().map(|p| json!([hx(&p.work_package_hash.0), hx(&p.segment_root.0)])).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "belt": h.beefy_belt.peaks.iter().map(|p| match p { Some(x) => json!([hx(&x.0)]), None => json!([]) }).collect::<Vec<_>>()})
}
pub fn p_pool(p: &AuthPool) -> Value {
    p.0.iter().map(|c| p_hs(c.as_slice())).collect()
}
pub fn p_queue(p: &AuthQueue) -> Value {
    p.0.iter().map(|c| p_hs(c.as_slice())).collect()
}
pub fn p_vstats(s: &EpochValidatorStats) -> Value {
    (0..V)
        .map(|i| {
            let e = s.validator_stats(i as u16);
            json!({"b": e.blocks_produced_count, "t": e.tickets_count, "p": e.preimages_count, "d": e.preimage_data_octets_count, "g": e.guarantees_count, "a": e.assurances_count})
        })
        .collect()
}
pub fn p_stats(s: &OnChainStatistics) -> Value {
    json!({"cur": p_vstats(&s.validator_stats.curr), "prev": p_vstats(&s.validator_stats.prev),
        "cores": s.core_stats.0.iter().map(|c| json!({"d": c.da_items_size, "p": c.assurers_count, "i": c.imports_count, "x": c.extrinsics_count,
            "z": c.extrinsics_octets, "e": c.exports_count, "l": c.work_bundle_length, "u": small(c.refine_gas_used)})).collect::<Vec<_>>(),
        "svcs": s.service_stats.0.iter().map(|(id, c)| json!({"id": id.to_string(), "pc": c.preimage_xts_count, "ps": c.preimage_blob_size,
            "rc": c.work_digests_count, "u": small(c.refine_gas_used), "i": c.imports_count, "x": c.extrinsics_count, "z": c.extrinsics_octets,
            "e": c.exports_count, "ac": c.accumulate_digests_count, "ag": small(c.accumulate_gas_used)})).collect::<Vec<_>>()})
}
pub fn p_accq(q: &AccumulateQueue) -> Value {
    q.items
        .iter()
        .map(|slot| {
            slot.iter()
                .map(|(r, deps)| json!({"pkg": hx(&r.specs.work_package_hash.0), "h": hx(&report_hash(r).0), "dg": r.digests.iter().map(|d| json!([d.service_id.to_string(), d.accumulate_gas_limit.min(100_000_000)])).collect::<Vec<_>>(), "deps": deps.iter().map(|d| json!(hx(&d.0))).collect::<Vec<_>>()}))
                .collect::<Value>()
        })
        .collect()
}
pub fn p_acch(q: &AccumulateHistory) -> Value {
    q.items.iter().map(|s| s.iter().map(|h| json!(hx(&h.0))).collect::<Value>()).collect()
}
pub fn p_priv(p: &PrivilegedServices) -> Value {
    json!({"m": p.manager_service.to_string(), "a": p.assign_services.iter().map(|s| json!(s.to_string())).collect::<Vec<_>>(),
        "v": p.designate_service.to_string(), "r": p.registrar_service.to_string(),
        "z": p.always_accumulate_services.iter().map(|(s,g)| json!([s.to_string(), small(*g)])).collect::<Vec<_>>()})
}
pub fn p_outputs(o: &LastAccumulateOutputs) -> Value {
    o.0.iter().map(|p| json!({"s": p.service.to_string(), "h": hx(&p.output_hash.0), "se": hx(&p.service.to_le_bytes())})).collect()
}

/// Projection of the requested components ("safrole", "sets", ...).
pub fn proj(s: &Snap, sel: &[&str]) -> Value {
    let mut m = serde_json::Map::new();
    for c in sel {
        let v = match *c {
            "slot" => json!(s.slot),
            "pool" => p_pool(&s.auth_pool),
            "queue" => p_queue(&s.auth_queue),
            "queueh" => json!(hx(&b2(&s.auth_queue.encode().unwrap()).0[..8])),
            "history" => p_history(&s.history),
            "safrole" => p_safrole(&s.safrole),
            "disputes" => p_disputes(&s.disputes),
            "eta" => p_hs(&s.entropy.0),
            "staging" => p_set(&s.staging.0),
            "active" => p_set(&s.active.0),
            "past" => p_set(&s.past.0),
            "reports" => p_reports(&s.reports),
            "priv" => p_priv(&s.privileges),
            "stats" => p_stats(&s.stats),
            "accq" => p_accq(&s.acc_queue),
            "acch" => p_acch(&s.acc_history),
            "outputs" => p_outputs(&s.outputs),
            x => panic!("unknown component {x}"),
        };
        m.insert(c.to_string(), v);
    }
    Value::Object(m)
}

pub fn svc(s: ServiceId) -> String {
    s.to_string()
}

// ---------------------------------------------------------------- trace output
pub struct Out {
    f: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}
impl Out {
    pub fn new(p: &str) -> Out {
        Out { f: std::io::BufWriter::new(std::fs::File::create(p).unwrap()), n: 0 }
    }
    pub fn ev(&mut self, v: Value) {
        use std::io::Write;
        writeln!(self.f, "{v}").unwrap();
        self.n += 1;
    }
}

pub fn clone_ss(s: &SimpleStates) -> SimpleStates {
    SimpleStates {
        auth_pool: s.auth_pool.clone(),
        auth_queue: s.auth_queue.clone(),
        block_history: s.block_history.clone(),
        safrole: s.safrole.clone(),
        disputes: s.disputes.clone(),
        entropy: s.entropy.clone(),
        staging_set: s.staging_set.clone(),
        active_set: s.active_set.clone(),
        past_set: s.past_set.clone(),
        reports: s.reports.clone(),
        timeslot: s.timeslot,
        privileges: s.privileges.clone(),
        onchain_statistics: s.onchain_statistics.clone(),
        accumulate_queue: s.accumulate_queue.clone(),
        accumulate_history: s.accumulate_history.clone(),
        last_accumulate_outputs: s.last_accumulate_outputs.clone(),
    }
}
