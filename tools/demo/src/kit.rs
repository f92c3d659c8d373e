//! Helpers of the demonstrations: guarantees, assurances, disputes and a default world.
#![allow(dead_code)]
pub use crate::world::*;
pub use bitvec::prelude::*;
pub use fr_block::types::{
    block::Block,
    extrinsics::{
        assurances::{AssurancesXt, AssurancesXtEntry},
        disputes::*,
        guarantees::{GuaranteesCredential, GuaranteesXt, GuaranteesXtEntry},
        preimages::{PreimagesXt, PreimagesXtEntry},
        tickets::{TicketsXt, TicketsXtEntry},
        Extrinsics,
    },
};
pub use fr_codec::prelude::*;
pub use fr_common::{ticket::Ticket, workloads::*, ByteArray, ByteEncodable, ByteSequence, Hash32, Octets, ServiceId};
pub use fr_crypto::types::*;
pub use fr_limited_vec::LimitedVec;
pub use fr_state::{manager::StateManager, state_utils::SimpleStates, types::*};
pub use rand::Rng;
pub use std::sync::Arc;

pub fn limited<T: Clone, const N: usize>(v: Vec<T>) -> LimitedVec<T, N> {
    LimitedVec::try_from(v).unwrap_or_else(|_| panic!("too many"))
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}

/// Offers a block built on the chain's head and tells whether it was accepted.
pub async fn offer(k: &Keys, c: &Chain, slot: u32, x: Extrinsics) -> (bool, Block) {
    let s = c.snap().await;
    let b = build(k, &c.head(), &c.root().await, &s, slot, x, &[]).expect("no author");
    (c.import(&b.block).await.is_ok(), b.block)
}

/// Guarantor cores and keys for a guarantee made at slot `gt` in a block at `slot` of the same epoch and rotation or the previous one.
pub fn assignment(d: &Derived, prior: &Snap, slot: u32, gt: u32) -> (Vec<u16>, ValidatorKeySet) {
    let past = if slot / E > prior.slot / E { prior.active.0.clone() } else { prior.past.0.clone() };
    let (eta, t, set) = if gt / 4 == slot / 4 {
        (d.eta[2].clone(), slot, d.active.clone())
    } else if (slot - 4) / E == slot / E {
        (d.eta[2].clone(), slot - 4, d.active.clone())
    } else {
        (d.eta[3].clone(), slot - 4, past)
    };
    let mut s: Vec<u16> = (0..V).map(|i| ((C * i) / V) as u16).collect();
    let mut out = vec![];
    for i in 0..V {
        let h = b2(&[eta.as_slice(), &((i / 8) as u32).to_le_bytes()].concat());
        let o = (4 * i) % 32;
        let n = u32::from_le_bytes(h.0[o..o + 4].try_into().unwrap());
        let l = s.len();
        let ix = n as usize % l;
        out.push(s[ix]);
        s[ix] = s[l - 1];
        s.pop();
    }
    let rot = (t % E) / 4;
    (out.iter().map(|c| ((*c as u32 + rot) % C as u32) as u16).collect(), set)
}

/// A report for a core, anchored at the last block of the history, with one digest of the given service.
pub fn report(k: &Snap, root: &Hash32, core: u16, slot: u32, svc: ServiceId, code: &Hash32, tag: u8) -> WorkReport {
    let mut rep = WorkReport::default();
    let a = k.history.history.iter().last().unwrap().clone();
    rep.specs.work_package_hash = b2(&[b'p', tag]);
    rep.specs.segment_root = b2(&[b's', tag]);
    rep.specs.erasure_root = b2(&[b'e', tag]);
    rep.specs.work_bundle_length = 100;
    rep.refinement_context.anchor_header_hash = a.header_hash.clone();
    rep.refinement_context.anchor_state_root = root.clone();
    rep.refinement_context.anchor_beefy_root = a.accumulation_result_mmr_root.clone();
    rep.refinement_context.lookup_anchor_timeslot = slot - 1;
    rep.core_index = core;
    rep.authorizer_hash = k.auth_pool.0[core as usize].as_slice()[0].clone();
    rep.digests = limited(vec![digest(svc, code, 1000)]);
    rep
}

pub fn digest(svc: ServiceId, code: &Hash32, gas: u64) -> WorkDigest {
    WorkDigest {
        service_id: svc,
        service_code_hash: code.clone(),
        payload_hash: b2(b"payload"),
        accumulate_gas_limit: gas,
        refine_result: WorkExecutionResult::Output(ByteSequence(vec![1, 2, 3])),
        refine_stats: RefineStats { refine_gas_used: 5, imports_count: 1, extrinsics_count: 2, extrinsics_octets: 3, exports_count: 4 },
    }
}

/// A guarantee for `rep` made at `gt` by (up to) `n` validators assigned to its core.
pub fn guarantee(k: &Keys, d: &Derived, s: &Snap, slot: u32, gt: u32, rep: WorkReport, n: usize) -> GuaranteesXtEntry {
    let (cores, keys) = assignment(d, s, slot, gt);
    let m = [b"jam_guarantee".as_slice(), b2(&rep.encode().unwrap()).as_slice()].concat();
    let credentials = (0..V)
        .filter(|v| cores[*v] == rep.core_index)
        .take(n)
        .map(|v| GuaranteesCredential { validator_index: v as u16, signature: k.ed_sign(k.who_e(&keys[v].ed25519).unwrap(), &m) })
        .collect();
    GuaranteesXtEntry { work_report: rep, timeslot_index: gt, credentials }
}

/// An assurance of validator `v` of the active set.
pub fn assurance(k: &Keys, s: &Snap, parent: &Hash32, v: usize, bits: &[bool]) -> AssurancesXtEntry {
    let mut bv: BitVec<u8, Lsb0> = BitVec::new();
    let mut byte = 0u8;
    for (i, b) in bits.iter().enumerate() {
        bv.push(*b);
        byte |= (*b as u8) << i;
    }
    let m = b2(&[parent.as_slice(), &[byte]].concat());
    let sig = k.ed_sign(k.who_e(&s.active.0[v].ed25519).unwrap(), &[b"jam_available".as_slice(), m.as_slice()].concat());
    AssurancesXtEntry { anchor_parent_hash: parent.clone(), assuring_cores_bitvec: bv, validator_index: v as u16, signature: sig }
}

/// A verdict with `npos` of five votes for the report, signed by validators of the active set.
pub fn verdict(k: &Keys, s: &Snap, rh: &Hash32, npos: usize) -> Verdict {
    let j: Vec<Judgment> = (0..5)
        .map(|v| {
            let ok = v < npos;
            let msg = [if ok { b"jam_valid".as_slice() } else { b"jam_invalid".as_slice() }, rh.as_slice()].concat();
            Judgment { is_report_valid: ok, voter: v as u16, voter_signature: k.ed_sign(k.who_e(&s.active.0[v].ed25519).unwrap(), &msg) }
        })
        .collect();
    Verdict { report_hash: rh.clone(), epoch_index: s.slot / E, judgments: j.try_into().unwrap_or_else(|_| panic!()) }
}

/// Base states with a one-entry history that names the head.
pub fn states(k: &Keys, seed: u64, slot: u32) -> (SimpleStates, fr_block::types::block::BlockHeader) {
    let mut r = rng(seed);
    let mut ss = base_states(k, &mut r, slot);
    let head = genesis_header(slot, &h32(&mut r).0);
    let mut hist = BlockHistory::default();
    hist.append(BlockHistoryEntry {
        header_hash: head.hash().unwrap(),
        accumulation_result_mmr_root: h32(&mut r),
        state_root: Hash32::default(),
        reported_packages: vec![],
    });
    ss.block_history = hist;
    (ss, head)
}

/// Adds a service without code to the chain being built.
pub async fn add_service(sm: Arc<StateManager>, id: ServiceId, code: Hash32) {
    let md = AccountMetadata { code_hash: code, balance: 1_000_000_000, gas_limit_accumulate: 10, created_at: 1, ..Default::default() };
    sm.add_account_metadata(id, md).await.unwrap();
}
