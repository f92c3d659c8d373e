//! Signatures, verifiable random outputs and ring proofs: made honestly, replayed elsewhere, altered, and bent by a key holder
//! who adds a point of small order to the output.
use crate::world::*;
use crate::Args;
use ark_vrf::{
    pedersen::PedersenSuite,
    reexports::{
        ark_ec::{AffineRepr, CurveGroup},
        ark_ff::{Field, PrimeField},
        ark_serialize::{CanonicalDeserialize, CanonicalSerialize},
    },
    suites::bandersnatch::{AffinePoint, BandersnatchSha512Ell2 as S, BaseField, Input, ScalarField, Secret},
    Suite,
};
use fr_common::{ByteArray, ByteEncodable, Hash32};
use fr_crypto::{
    error::CryptoError,
    signers::{
        ed25519::{Ed25519Signer, Ed25519Verifier},
        Signer, Verifier,
    },
    traits::VrfSignature,
    types::*,
    vrf::bandersnatch_vrf::{RingVrfProver, RingVrfVerifier, VrfProver, VrfVerifier},
};
use rand::{seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn blob(r: &mut Rg, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.gen()).collect()
}

/// What a fallible call did: its value, refused, or aborted.
fn outcome<T>(f: impl FnOnce() -> Result<T, CryptoError>) -> Result<T, &'static str> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(_)) => Err("no"),
        Err(_) => Err("abort"),
    }
}

#[derive(Clone)]
struct Made {
    kind: &'static str,
    by: usize,
    ring: usize,
    ctx: Vec<u8>,
    msg: Vec<u8>,
    sig: Vec<u8>,
}

struct Ring {
    keys: Vec<Vec<u8>>,
    set: ValidatorKeySet,
    /// who holds the key at each place
    who: Vec<Option<usize>>,
    ver: Option<RingVrfVerifier>,
}

struct W<'a> {
    k: &'a Keys,
    out: Out,
    rings: Vec<Ring>,
    made: Vec<Made>,
}

fn bpk(k: &Keys, i: usize) -> Vec<u8> {
    k.vals[i].key.bandersnatch.as_slice().to_vec()
}

impl W<'_> {
    fn pk(&self, kind: &str, i: usize) -> Vec<u8> {
        match kind {
            "ed" => self.k.ed(i).as_slice().to_vec(),
            _ => bpk(self.k, i),
        }
    }

    fn new_ring(&mut self, keys: Vec<Vec<u8>>, who: Vec<Option<usize>>) -> usize {
        let set = ValidatorKeySet(
            keys.iter()
                .map(|b| ValidatorKey { bandersnatch: BandersnatchPubKey::from_slice(b).unwrap(), ..self.k.vals[0].key.clone() })
                .collect::<Vec<_>>()
                .try_into()
                .unwrap(),
        );
        let ver = outcome(|| RingVrfVerifier::new(&set));
        let root = match &ver {
            Ok(v) => outcome(|| v.compute_ring_root()).map(|x| hx(x.as_slice())),
            Err(e) => Err(*e),
        };
        self.out.ev(json!({"ev": "ring", "ring": keys.iter().map(|b| hx(b)).collect::<Vec<_>>(),
            "root": root.unwrap_or_else(|e| e.to_string())}));
        self.rings.push(Ring { keys, set, who, ver: ver.ok() });
        self.rings.len() - 1
    }

    fn ring_json(&self, kind: &str, ring: usize) -> Value {
        if kind == "ring" {
            json!(self.rings[ring].keys.iter().map(|b| hx(b)).collect::<Vec<_>>())
        } else {
            json!([])
        }
    }

    /// `at`: the place in the ring the signer claims.
    fn sign(&mut self, kind: &'static str, by: usize, ring: usize, at: usize, ctx: Vec<u8>, msg: Vec<u8>, seeded: bool) -> Option<usize> {
        let sk = &self.k.vals[by].sk;
        let res: Result<(Vec<u8>, Option<Vec<u8>>), &str> = match kind {
            "ed" => outcome(|| {
                let s = Ed25519Signer::new(Ed25519SecretKey::from_slice(&self.k.vals[by].ed.to_bytes()).unwrap());
                Ok((s.sign_message(&msg)?.as_slice().to_vec(), None))
            }),
            "vrf" => outcome(|| {
                let p = if seeded { VrfProver::from_seed(b2(format!("validator-{by}").as_bytes()).as_slice()) } else { VrfProver::from_secret_key(sk)? };
                let s = p.sign_vrf(&ctx, &msg)?;
                Ok((s.as_slice().to_vec(), Some(s.output_hash()?.as_slice().to_vec())))
            }),
            _ => outcome(|| {
                let set = self.rings[ring].set.clone();
                let p = if seeded {
                    RingVrfProver::from_seed(at as u16, set, b2(format!("validator-{by}").as_bytes()).as_slice())?
                } else {
                    RingVrfProver::from_secret_key(at as u16, set, sk)?
                };
                let s = p.sign_ring_vrf(&ctx, &msg)?;
                Ok((s.as_slice().to_vec(), Some(s.output_hash()?.as_slice().to_vec())))
            }),
        };
        let (res, sig, o) = match res {
            Ok((s, o)) => ("ok", s, o.unwrap_or_default()),
            Err(e) => (e, vec![], vec![]),
        };
        let ring_json = self.ring_json(kind, ring);
        self.out.ev(json!({"ev": "sign", "kind": kind, "by": hx(&self.pk(kind, by)), "ring": ring_json, "at": at, "ctx": hx(&ctx), "msg": hx(&msg),
            "res": res, "sig": hx(&sig), "out": hx(&o)}));
        if res == "ok" {
            self.made.push(Made { kind, by, ring, ctx, msg, sig });
            Some(self.made.len() - 1)
        } else {
            None
        }
    }

    /// Asks whether `sig` is `who`'s (a key, or for ring proofs a ring's) over this context and message.
    fn verify(&mut self, kind: &'static str, key: &[u8], ring: usize, ctx: &[u8], msg: &[u8], sig: &[u8], how: &str) {
        let res: Result<Vec<u8>, &str> = match kind {
            "ed" => outcome(|| {
                let s = Ed25519Sig::from_slice(sig).unwrap();
                Ed25519Verifier::new(Ed25519PubKey::from_slice(key).unwrap()).verify_message(msg, &s).map(|_| vec![])
            }),
            "vrf" => outcome(|| {
                let s = BandersnatchSig::from_slice(sig).unwrap();
                VrfVerifier::verify_vrf(ctx, msg, &s, &BandersnatchPubKey::from_slice(key).unwrap()).map(|x| x.as_slice().to_vec())
            }),
            _ => {
                let s = BandersnatchRingVrfSig::from_slice(sig).unwrap();
                match &self.rings[ring].ver {
                    Some(v) => outcome(|| v.verify_ring_vrf(ctx, msg, &s).map(|x| x.as_slice().to_vec())),
                    None => Err("no"),
                }
            }
        };
        let (res, o) = match res {
            Ok(o) => ("ok", o),
            Err(e) => (e, vec![]),
        };
        // what anyone reads off the signature itself must be what verification reports
        let read = match kind {
            "ed" => Ok(vec![]),
            "vrf" => outcome(|| BandersnatchSig::from_slice(sig).unwrap().output_hash().map(|x| x.as_slice().to_vec())),
            _ => outcome(|| BandersnatchRingVrfSig::from_slice(sig).unwrap().output_hash().map(|x| x.as_slice().to_vec())),
        };
        let ring_json = self.ring_json(kind, ring);
        self.out.ev(json!({"ev": "verify", "how": how, "kind": kind, "by": hx(key), "ring": ring_json, "ctx": hx(ctx), "msg": hx(msg), "sig": hx(sig),
            "res": res, "out": hx(&o), "read": read.map(|x| hx(&x)).unwrap_or_else(|e| e.to_string())}));
    }
}

/// A second output for the same key and input: the honest one plus the point of order two, with a proof that goes through
/// wherever nobody asks which group the output lies in.
fn bent(k: &Keys, by: usize, ctx: &[u8], msg: &[u8], honest: &[u8], ring: bool, r: &mut Rg) -> Option<Vec<u8>> {
    let x = ScalarField::deserialize_compressed(k.vals[by].sk.0.as_slice()).ok()?;
    let secret = Secret::from_scalar(x);
    let input = Input::new(ctx)?;
    let o = secret.output(input).0;
    let o2 = AffinePoint::new_unchecked(-o.x, -o.y);
    let g = S::generator();
    let base = <S as PedersenSuite>::BLINDING_BASE;
    let blinding = S::blinding(&x, &input.0, msg);
    for _ in 0..64 {
        let rnd = |r: &mut Rg| ScalarField::from_le_bytes_mod_order(&blob(r, 64));
        let (kk, kb) = (rnd(r), rnd(r));
        let v = (input.0 * kk).into_affine();
        let mut b = vec![];
        o2.serialize_compressed(&mut b).ok()?;
        if ring {
            let com = (g * x + base * blinding).into_affine();
            let rr = (g * kk + base * kb).into_affine();
            let c = S::challenge(&[&com, &input.0, &o2, &rr, &v], msg);
            if c.into_bigint().is_odd_() {
                continue;
            }
            for p in [&com, &rr, &v] {
                p.serialize_compressed(&mut b).ok()?;
            }
            (kk + c * x).serialize_compressed(&mut b).ok()?;
            (kb + c * blinding).serialize_compressed(&mut b).ok()?;
            b.extend_from_slice(&honest[b.len()..]);
        } else {
            let u = (g * kk).into_affine();
            let c = S::challenge(&[&secret.public().0, &input.0, &o2, &u, &v], msg);
            if c.into_bigint().is_odd_() {
                continue;
            }
            c.serialize_compressed(&mut b).ok()?;
            (kk + c * x).serialize_compressed(&mut b).ok()?;
        }
        return Some(b);
    }
    None
}

trait Odd {
    fn is_odd_(&self) -> bool;
}
impl<const N: usize> Odd for ark_vrf::reexports::ark_ff::BigInt<N> {
    fn is_odd_(&self) -> bool {
        self.0[0] & 1 == 1
    }
}

/// Encodings of points nobody holds a key for: off the curve, beyond the field, and of small order.
fn odd_key(r: &mut Rg) -> Vec<u8> {
    let mut v = vec![0u8; 32];
    match r.gen_range(0..6) {
        0 => v[0] = 1, // the neutral point
        1 => {
            // y = -1: the point of order two
            let y = -BaseField::ONE;
            y.serialize_compressed(&mut v[..]).unwrap();
        }
        2 => v = vec![0xff; 32],
        3 => {}
        _ => {
            // random octets: half of them are no point's encoding
            v = blob(r, 32);
        }
    }
    v
}

pub async fn run(a: &Args) {
    let mut r = rng(a.seed);
    let k = Keys::new(10);
    let mut w = W { k: &k, out: Out::new(&a.out), rings: vec![], made: vec![] };
    let first: Vec<usize> = (0..6).collect();
    w.new_ring(first.iter().map(|i| bpk(&k, *i)).collect(), first.iter().map(|i| Some(*i)).collect());
    for _ in 0..a.n {
        step(&mut w, &mut r);
    }
    println!("{} events", w.out.n);
}

fn step(w: &mut W, r: &mut Rg) {
    let k = w.k;
    if w.rings.len() < 3 || r.gen_bool(0.08) {
        // a ring made from one before it: keys swapped, replaced, repeated, or no key at all
        let o = r.gen_range(0..w.rings.len());
        let (mut keys, mut who) = (w.rings[o].keys.clone(), w.rings[o].who.clone());
        for _ in 0..r.gen_range(1..3) {
            let (i, j) = (r.gen_range(0..6), r.gen_range(0..6));
            match r.gen_range(0..5) {
                0 => {
                    keys.swap(i, j);
                    who.swap(i, j);
                }
                1 => {
                    let n = r.gen_range(0..10);
                    keys[i] = bpk(k, n);
                    who[i] = Some(n);
                }
                2 => {
                    keys[i] = keys[j].clone();
                    who[i] = who[j];
                }
                3 => {
                    keys[i] = vec![0; 32];
                    who[i] = None;
                }
                _ => {
                    keys[i] = odd_key(r);
                    who[i] = None;
                }
            }
        }
        w.new_ring(keys, who);
    }
    let kind: &'static str = *["ed", "vrf", "vrf", "ring", "ring"].choose(r).unwrap();
    let old = if r.gen_bool(0.6) { w.made.choose(r).cloned() } else { None };
    let mut ctx = match &old {
        Some(m) if kind != "ed" => m.ctx.clone(),
        _ => {
            let n = r.gen_range(0..60);
            blob(r, n)
        }
    };
    if kind == "ed" {
        ctx = vec![];
    }
    let msg = if r.gen_bool(0.4) {
        vec![]
    } else {
        let n = r.gen_range(0..200);
        blob(r, n)
    };
    let ring = r.gen_range(0..w.rings.len());
    let (by, at) = match (kind, &old) {
        ("ring", _) => {
            let places: Vec<usize> = (0..6).filter(|i| w.rings[ring].who[*i].is_some()).collect();
            match places.choose(r) {
                // someone claiming a place that is another's
                Some(p) if r.gen_bool(0.12) => (r.gen_range(0..10), *p),
                Some(p) => (w.rings[ring].who[*p].unwrap(), *p),
                None => return,
            }
        }
        (_, Some(m)) => (m.by, 0),
        _ => (r.gen_range(0..10), 0),
    };
    let seeded = by >= 6 && kind != "ed" && r.gen_bool(0.5);
    let Some(i) = w.sign(kind, by, ring, at, ctx, msg, seeded) else { return };
    let m = w.made[i].clone();
    let key = w.pk(kind, by);
    w.verify(kind, &key, ring, &m.ctx, &m.msg, &m.sig, "as made");
    for _ in 0..3 {
        let (mut key2, mut ring2, mut ctx2, mut msg2, mut sig2) = (key.clone(), ring, m.ctx.clone(), m.msg.clone(), m.sig.clone());
        let how = match r.gen_range(0..11) {
            0 if kind != "ed" => {
                let n = r.gen_range(0..40);
                ctx2 = blob(r, n);
                "other context"
            }
            1 => {
                if msg2.is_empty() || r.gen_bool(0.3) {
                    msg2.push(0);
                } else if r.gen_bool(0.5) {
                    let p = r.gen_range(0..msg2.len());
                    msg2[p] ^= 1 << r.gen_range(0..8);
                } else {
                    msg2.pop();
                }
                "other message"
            }
            2 | 3 => {
                let o = r.gen_range(0..10);
                key2 = w.pk(kind, o);
                ring2 = r.gen_range(0..w.rings.len());
                "other key or ring"
            }
            4 => {
                let o = odd_key(r);
                if kind == "vrf" {
                    key2 = o;
                } else {
                    let p = r.gen_range(0..sig2.len());
                    sig2[p] ^= 1 << r.gen_range(0..8);
                }
                "odd key"
            }
            5 | 6 => {
                let p = r.gen_range(0..sig2.len());
                sig2[p] ^= 1 << r.gen_range(0..8);
                "altered"
            }
            7 => {
                // the parts of two signatures put together
                let Some(o) = w.made.iter().filter(|x| x.kind == kind).collect::<Vec<_>>().choose(r).map(|x| x.sig.clone()) else { continue };
                let cut = if kind == "ring" { *[32, 192].choose(r).unwrap() } else { 32 };
                if r.gen_bool(0.5) {
                    sig2[..cut].copy_from_slice(&o[..cut]);
                } else {
                    sig2[cut..].copy_from_slice(&o[cut..]);
                }
                "spliced"
            }
            8 => {
                // nothing but one octet repeated, or noise
                let b: u8 = *[0u8, 1, 0xff].choose(r).unwrap();
                sig2 = if r.gen_bool(0.5) { vec![b; sig2.len()] } else { blob(r, sig2.len()) };
                "noise"
            }
            _ if kind != "ed" => match bent(w.k, by, &m.ctx, &m.msg, &m.sig, kind == "ring", r) {
                Some(s) => {
                    sig2 = s;
                    "bent"
                }
                None => continue,
            },
            _ => continue,
        };
        w.verify(kind, &key2, ring2, &ctx2, &msg2, &sig2, how);
    }
    let _ = (Hash32::default(), ByteArray::<32>::default());
}
