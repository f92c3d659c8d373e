//! Octets made from the layouts by the model, read and written again by the real code.
use crate::world::{Keys, Out};
use crate::Args;
use bitvec::prelude::*;
use fr_block::types::block::*;
use fr_block::types::extrinsics::{assurances::*, disputes::*, guarantees::*, preimages::*, tickets::*, Extrinsics};
use fr_codec::prelude::*;
use fr_common::ticket::Ticket;
use fr_common::workloads::common::RefinementContext;
use fr_common::workloads::work_package::*;
use fr_common::workloads::work_report::*;
use fr_common::{ByteArray, ByteSequence};
use fr_crypto::types::*;
use fr_fuzz::types as fz;
use fr_limited_vec::{FixedVec, LimitedVec};
use fr_merkle::mmr::MerkleMountainRange;
use fr_network::streams::ce_streams::block_request::{BlockRequestInitArgs, BlockRequestRespArgs};
use fr_network::types::BlockAnnouncement;
use fr_pvm_types::invoke_results::AccumulationOutputPair;
use fr_state::types::*;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[path = "/repo/pvm/pvm-invocation/src/refine/auditable_bundle.rs"]
#[allow(dead_code)]
mod auditable_bundle;
use auditable_bundle::AuditableBundle;

/// counts what is asked for while something is being decoded
pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
fn add(n: usize) {
    let now = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    PEAK.fetch_max(now, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}

/// a value written out as text, from its fields
trait Show {
    fn show(&self) -> String;
}
macro_rules! plain {
    ($($t:ty),*) => { $(impl Show for $t { fn show(&self) -> String { self.to_string() } })* };
}
plain!(u8, u16, u32, u64, usize);
impl Show for bool {
    fn show(&self) -> String {
        (*self as u8).to_string()
    }
}
impl<const N: usize> Show for ByteArray<N> {
    fn show(&self) -> String {
        hex::encode(self.0)
    }
}
impl Show for ByteSequence {
    fn show(&self) -> String {
        hex::encode(&self.0)
    }
}
fn list<'a, T: Show + 'a>(i: impl Iterator<Item = &'a T>) -> String {
    format!("[{}]", i.map(|x| x.show()).collect::<Vec<_>>().join(","))
}
impl<T: Show> Show for Vec<T> {
    fn show(&self) -> String {
        list(self.iter())
    }
}
impl<T: Show, const N: usize> Show for LimitedVec<T, N> {
    fn show(&self) -> String {
        list(self.iter())
    }
}
impl<T: Show + Default + Clone, const N: usize> Show for FixedVec<T, N> {
    fn show(&self) -> String {
        list(self.iter())
    }
}
impl<T: Show, const N: usize> Show for [T; N] {
    fn show(&self) -> String {
        list(self.iter())
    }
}
impl<T: Show> Show for Option<T> {
    fn show(&self) -> String {
        list(self.iter())
    }
}
impl<T: Show> Show for Box<T> {
    fn show(&self) -> String {
        self.as_ref().show()
    }
}
impl<T: Show> Show for BTreeSet<T> {
    fn show(&self) -> String {
        list(self.iter())
    }
}
impl<K: Show, V: Show> Show for BTreeMap<K, V> {
    fn show(&self) -> String {
        format!("[{}]", self.iter().map(|(k, v)| format!("[{},{}]", k.show(), v.show())).collect::<Vec<_>>().join(","))
    }
}
impl<A: Show, B: Show> Show for (A, B) {
    fn show(&self) -> String {
        format!("[{},{}]", self.0.show(), self.1.show())
    }
}
impl<A: Show, B: Show, C: Show> Show for (A, B, C) {
    fn show(&self) -> String {
        format!("[{},{},{}]", self.0.show(), self.1.show(), self.2.show())
    }
}
impl Show for BitVec<u8, Lsb0> {
    fn show(&self) -> String {
        self.iter().map(|b| if *b { '1' } else { '0' }).collect()
    }
}
macro_rules! rec {
    ($($t:ty { $($f:tt),* })*) => { $(impl Show for $t {
        fn show(&self) -> String { let v: Vec<String> = vec![$(self.$f.show()),*]; format!("[{}]", v.join(",")) }
    })* };
}
macro_rules! as_is {
    ($($t:ty => $f:tt),* $(,)?) => { $(impl Show for $t { fn show(&self) -> String { self.$f.show() } })* };
}
as_is!(BandersnatchPubKey => 0, Ed25519PubKey => 0, BlsPubKey => 0, BandersnatchSig => 0, BandersnatchRingVrfSig => 0, Ed25519Sig => 0, ValidatorMetadata => 0,
    TicketsXt => items, PreimagesXt => items, GuaranteesXt => items, AssurancesXt => items, ValidatorKeySet => 0, AuthPool => 0, AuthQueue => 0, EpochEntropy => 0,
    StagingSet => 0, ActiveSet => 0, PastSet => 0, PendingReports => 0, Timeslot => 0, CoreStats => 0, ServiceStats => 0, AccumulateQueue => items,
    AccumulateHistory => items, LastAccumulateOutputs => 0, AccountLookupsEntry => value, AccountStorageEntry => value, fz::State => 0, fz::StateRoot => 0,
    fz::GetState => 0, fz::ImportBlock => 0, BlockRequestRespArgs => blocks);
rec! {
    EpochMarkerValidatorKey { bandersnatch, ed25519 }
    EpochMarker { entropy, tickets_entropy, validators }
    Ticket { id, attempt }
    Extrinsics { tickets, preimages, guarantees, assurances, disputes }
    Block { header, extrinsics }
    TicketsXtEntry { entry_index, ticket_proof }
    PreimagesXtEntry { service_id, preimage_data }
    GuaranteesXtEntry { work_report, timeslot_index, credentials }
    GuaranteesCredential { validator_index, signature }
    AssurancesXtEntry { anchor_parent_hash, assuring_cores_bitvec, validator_index, signature }
    DisputesXt { verdicts, culprits, faults }
    Verdict { report_hash, epoch_index, judgments }
    Judgment { is_report_valid, voter, voter_signature }
    Culprit { report_hash, validator_key, signature }
    Fault { report_hash, is_report_valid, validator_key, signature }
    AvailSpecs { work_package_hash, work_bundle_length, erasure_root, segment_root, segment_count }
    RefinementContext { anchor_header_hash, anchor_state_root, anchor_beefy_root, lookup_anchor_header_hash, lookup_anchor_timeslot, prerequisite_work_packages }
    RefineStats { refine_gas_used, imports_count, extrinsics_count, extrinsics_octets, exports_count }
    WorkDigest { service_id, service_code_hash, payload_hash, accumulate_gas_limit, refine_result, refine_stats }
    WorkReport { specs, refinement_context, core_index, authorizer_hash, auth_gas_used, auth_trace, segment_roots_lookup, digests }
    ExtrinsicInfo { blob_hash, blob_length }
    WorkItem { service_id, service_code_hash, refine_gas_limit, accumulate_gas_limit, export_segment_count, payload_blob, import_segment_ids, extrinsic_data_info }
    WorkPackage { authorizer_service_id, auth_code_hash, context, auth_token, config_blob, work_items }
    ReportedWorkPackage { work_package_hash, segment_root }
    ValidatorKey { bandersnatch, ed25519, bls, metadata }
    BlockHistory { history, beefy_belt }
    BlockHistoryEntry { header_hash, accumulation_result_mmr_root, state_root, reported_packages }
    DisputesState { good_set, bad_set, wonky_set, punish_set }
    SafroleState { pending_set, ring_root, slot_sealers, ticket_accumulator }
    PendingReport { work_report, reported_timeslot }
    PrivilegedServices { manager_service, assign_services, designate_service, registrar_service, always_accumulate_services }
    ValidatorStatsEntry { blocks_produced_count, tickets_count, preimages_count, preimage_data_octets_count, guarantees_count, assurances_count }
    CoreStatsEntry { da_items_size, assurers_count, imports_count, extrinsics_count, extrinsics_octets, exports_count, work_bundle_length, refine_gas_used }
    ServiceStatsEntry { preimage_xts_count, preimage_blob_size, work_digests_count, refine_gas_used, imports_count, extrinsics_count, extrinsics_octets, exports_count, accumulate_digests_count, accumulate_gas_used }
    AccumulationOutputPair { service, output_hash }
    AccountMetadata { version, code_hash, balance, gas_limit_accumulate, gas_limit_on_transfer, octets_footprint, gratis_storage_offset, items_footprint, created_at, last_accumulate_at, parent_service_id }
    fz::Version { major, minor, patch }
    fz::KeyValue { key, value }
    fz::AncestryItem { slot, header_hash }
    fz::Initialize { header, state, ancestry }
    BlockRequestInitArgs { header_hash, ascending_excl, max_blocks }
    BlockAnnouncement { header, header_hash, timeslot }
}
impl Show for BlockHeader {
    fn show(&self) -> String {
        let d = &self.data;
        let v = [d.parent_hash.show(), d.prior_state_root.show(), d.extrinsic_hash.show(), d.timeslot_index.show(), d.epoch_marker.show(), d.winning_tickets_marker.show(),
            d.author_index.show(), d.vrf_signature.show(), d.offenders_marker.show(), self.block_seal.show()];
        format!("[{}]", v.join(","))
    }
}
impl Show for SegmentRootLookupTable {
    fn show(&self) -> String {
        (**self).show()
    }
}
impl Show for OnChainStatistics {
    fn show(&self) -> String {
        let v = [list(self.validator_stats.curr.iter()), list(self.validator_stats.prev.iter()), self.core_stats.show(), self.service_stats.show()];
        format!("[{}]", v.join(","))
    }
}
impl Show for WorkExecutionResult {
    fn show(&self) -> String {
        match self {
            WorkExecutionResult::Output(o) => format!("0{}", o.show()),
            WorkExecutionResult::Error(e) => format!(
                "{}[]",
                match e {
                    WorkExecutionError::OutOfGas => 1,
                    WorkExecutionError::Panic => 2,
                    WorkExecutionError::BadExports => 3,
                    WorkExecutionError::Oversize => 4,
                    WorkExecutionError::Bad => 5,
                    WorkExecutionError::Big => 6,
                }
            ),
        }
    }
}
impl Show for ImportInfo {
    fn show(&self) -> String {
        match &self.work_package_id {
            WorkPackageId::WorkPackageHash(h) => format!("[{},{}]", h.show(), self.item_index as u32 + 32768),
            WorkPackageId::SegmentRoot(h) => format!("[{},{}]", h.show(), self.item_index),
        }
    }
}
impl Show for MerkleMountainRange<fr_crypto::hash::Keccak256> {
    fn show(&self) -> String {
        self.peaks.show()
    }
}
impl Show for SlotSealers {
    fn show(&self) -> String {
        match self {
            SlotSealers::Tickets(t) => format!("0{}", t.show()),
            SlotSealers::BandersnatchPubKeys(k) => format!("1{}", k.show()),
        }
    }
}
impl Show for TicketAccumulator {
    fn show(&self) -> String {
        self.clone().into_sorted_vec().show()
    }
}
impl Show for AccountCode {
    fn show(&self) -> String {
        format!("[{},{}]", hex::encode(self.metadata()), hex::encode(self.code()))
    }
}
impl Show for fz::PeerInfo {
    fn show(&self) -> String {
        let ver = |v: &fz::Version| v.show();
        format!("[{},{},{},{},{}]", self.fuzz_version, self.fuzz_features, ver(&self.jam_version), ver(&self.app_version), hex::encode(&self.app_name))
    }
}
impl Show for fz::FuzzMessageKind {
    fn show(&self) -> String {
        use fz::FuzzMessageKind::*;
        match self {
            PeerInfo(x) => format!("0{}", x.show()),
            Initialize(x) => format!("1{}", x.show()),
            StateRoot(x) => format!("2{}", x.show()),
            ImportBlock(x) => format!("3{}", x.show()),
            GetState(x) => format!("4{}", x.show()),
            State(x) => format!("5{}", x.show()),
            Error(x) => format!("255{}", hex::encode(x)),
        }
    }
}
impl Show for AuditableBundle {
    fn show(&self) -> String {
        let imports: Vec<String> = self.imports.iter().map(|item| format!("[{}]", item.iter().map(|s| hex::encode(s.as_ref())).collect::<Vec<_>>().join(","))).collect();
        format!("[{},{},[{}],{}]", self.package.show(), self.extrinsic_data.show(), imports.join(","), self.imports_justifications.show())
    }
}

fn go<T: JamDecode + JamEncode + Show>(name: &str, b: &[u8]) -> Value {
    one(name, b, |x: &T| Some(x.encode()))
}
fn one<T: Show + JamDecode>(name: &str, b: &[u8], enc: fn(&T) -> Option<Result<Vec<u8>, JamCodecError>>) -> Value {
    let mut e = json!({"t": name, "h": hex::encode(b), "crash": false, "ok": false, "n": 0, "v": "", "re": "", "writes": true, "back": false, "room": 0});
    let x = std::panic::catch_unwind(|| {
        let mut s = b;
        let before = LIVE.load(Relaxed);
        PEAK.store(before, Relaxed);
        let v = T::decode(&mut s);
        let room = PEAK.load(Relaxed).saturating_sub(before);
        (v.map(|v| (b.len() - s.len(), v.show(), enc(&v))).ok(), room)
    });
    match x {
        Err(_) => e["crash"] = json!(true),
        Ok((v, room)) => {
            e["room"] = json!(room.min(2_000_000_000));
            if let Some((n, text, re)) = v {
                e["ok"] = json!(true);
                e["n"] = json!(n);
                e["writes"] = json!(re.is_some());
                if let Some(Ok(re)) = re {
                    let mut s = &re[..];
                    let again = T::decode(&mut s);
                    e["back"] = json!(again.map(|a| a.show() == text && s.is_empty()).unwrap_or(false));
                    e["re"] = json!(hex::encode(re));
                }
                e["v"] = json!(text);
            }
        }
    }
    e
}

fn decode(t: &str, b: &[u8]) -> Value {
    macro_rules! by { ($($n:literal => $t:ty),* $(,)?) => { match t { $($n => go::<$t>(t, b),)*
        "Code" => one(t, b, |_: &AccountCode| None),
        "Announce" => one(t, b, |_: &BlockAnnouncement| None),
        "octets" => go::<ByteSequence>(t, b),
        x => panic!("no type {x}") } } }
    by!("u8" => u8, "u16" => u16, "u32" => u32, "u64" => u64, "bool" => bool, "ints" => Vec<u32>, "option" => Option<u32>, "pairs" => BTreeMap<u32, u64>, "set" => BTreeSet<u32>,
        "array" => [u16; 3], "three" => (u8, Option<bool>, Vec<u64>), "bits" => BitVec<u8, Lsb0>, "Header" => BlockHeader, "Block" => Block, "Extrinsics" => Extrinsics,
        "Report" => WorkReport, "Digest" => WorkDigest, "Package" => WorkPackage, "Item" => WorkItem, "Context" => RefinementContext, "Specs" => AvailSpecs,
        "Guarantee" => GuaranteesXtEntry, "Assurance" => AssurancesXtEntry, "Disputes" => DisputesXt, "Verdict" => Verdict, "TicketXt" => TicketsXtEntry,
        "Preimage" => PreimagesXtEntry, "EpochMark" => EpochMarker, "Ticket" => Ticket, "Result" => WorkExecutionResult, "AuthPool" => AuthPool, "AuthQueue" => AuthQueue,
        "History" => BlockHistory, "Safrole" => SafroleState, "Judged" => DisputesState, "Entropy" => EpochEntropy, "Staging" => StagingSet, "Active" => ActiveSet,
        "Before" => PastSet, "Pending" => PendingReports, "Slot" => Timeslot, "Privileges" => PrivilegedServices, "Statistics" => OnChainStatistics, "Ready" => AccumulateQueue,
        "Accumulated" => AccumulateHistory, "Outputs" => LastAccumulateOutputs, "Account" => AccountMetadata, "Slots" => AccountLookupsEntry, "Item0" => AccountStorageEntry,
        "Message" => fz::FuzzMessageKind, "Peer" => fz::PeerInfo, "State" => fz::State, "Opening" => fz::Initialize,
        "Ask" => BlockRequestInitArgs, "Answer" => BlockRequestRespArgs, "Bundle" => AuditableBundle)
}

pub async fn run(a: &Args) {
    let mut out = Out::new(&a.out);
    let text = std::fs::read_to_string(&a.inp).unwrap();
    let mut last = "";
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        if line != last {
            for x in serde_json::from_str::<Vec<Value>>(line).unwrap() {
                out.ev(decode(x["t"].as_str().unwrap(), &hex::decode(x["h"].as_str().unwrap()).unwrap()));
            }
        }
        last = line;
    }
    // a name and an error text beyond ASCII
    for (t, h) in [("Peer", "010000000000070000010002c3a9"), ("Message", "ff02c3a9")] {
        out.ev(decode(t, &hex::decode(h).unwrap()));
    }
    println!("{}", json!({"events": out.n}));
}
