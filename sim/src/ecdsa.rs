//! Signing under a simulated random source (C16).

use crate::crypto::*;
use crate::report::Report;
use crate::runner;
use crate::source::{expand, Source};
use crylib::big_int::UBigInt;
use crylib::ec::ecdsa::{sign, verify_signature, Signature};
use crylib::ec::{EllipticCurve, ProjectivePoint, Secp256r1};
use crylib::finite_field::FieldElement;
use std::cell::RefCell;

type Order = <Secp256r1 as EllipticCurve>::Order;

/// Random numbers drawn outside of any world.
pub fn rng(dest: &mut [u8]) -> bool {
    dest.copy_from_slice(&expand(99, dest.len()));
    true
}

fn fe(x: &U256) -> FieldElement<4, Order> {
    FieldElement::try_new(UBigInt(*x)).expect("not reduced")
}

#[derive(Clone, Debug)]
enum Nonce {
    Zero,
    /// with the key of this run: makes s zero, or makes verification add equal points
    ForceS,
    Small(u32),
    Full(u32),
    NearN(u32),
    /// a single bit
    Bit(u32),
    /// repeats what was returned before
    Again,
}

#[derive(Clone, Debug)]
enum Hash {
    Sha(u32, usize),
    Zero,
    Ones,
    Order,
    AboveOrder(u32),
    Small(u32),
    Full(u32),
}

struct Stop(usize);

struct Tape {
    plan: Vec<Nonce>,
    forced: U256,
    drawn: Vec<U256>,
    good: usize,
}

fn good(k: &U256, hash: &[u8; 32], d: &U256) -> bool {
    ecdsa_sign(hash, d, k).is_some()
}

fn hex(x: &U256) -> String {
    crate::world::hex(&to_be(x))
}

pub fn exec(s: &mut Source, trace: bool) -> Report {
    let mut r = Report { worlds: 1, ..Default::default() };
    let calls = s.range(1, 4);
    let mut key: Option<U256> = None;
    let mut path = 0u64;
    let mut interesting = false;
    for call in 0..calls {
        let h = match s.weighted(&[5, 1, 1, 1, 2, 2, 3]) {
            0 => Hash::Sha(s.seed(), s.scale(300)),
            1 => Hash::Zero,
            2 => Hash::Ones,
            3 => Hash::Order,
            4 => Hash::AboveOrder(s.scale(1 << 20) as u32),
            5 => Hash::Small(s.scale(1 << 20) as u32),
            _ => Hash::Full(s.seed()),
        };
        let (msg, hash): (Vec<u8>, [u8; 32]) = match &h {
            Hash::Sha(x, n) => {
                let m = expand(*x, *n);
                let h = sha256(&m);
                (m, h)
            }
            Hash::Zero => (vec![1], [0; 32]),
            Hash::Ones => (vec![2], [255; 32]),
            Hash::Order => (vec![3], to_be(&N)),
            Hash::AboveOrder(x) => (vec![4], to_be(&addc(&N, &[*x as u64, 0, 0, 0]).0)),
            Hash::Small(x) => (vec![5], to_be(&[*x as u64, 0, 0, 0])),
            Hash::Full(x) => (vec![6], expand(*x, 32).try_into().unwrap()),
        };
        let real_sha = matches!(h, Hash::Sha(..));
        let forced: U256 = match s.weighted(&[3, 3]) {
            0 => [s.range(1, 5000) as u64, 0, 0, 0],
            _ => reduce(&from_be(&expand(s.seed(), 32)), &N),
        };
        let e = reduce(&from_be(&hash), &N);
        let force_possible = call == 0 && !is_zero(&e) && !is_zero(&forced);
        let choice = s.weighted(&[5, 3, 3, 1, 1, 4]);
        let sd = s.seed();
        let d = match key {
            Some(d) => d,
            None => {
                let d = match choice {
                    // h + r d = 0: the value makes s zero; h = r d: the verifier has to add equal points
                    0 | 5 if force_possible => {
                        let q = fq();
                        let x = reduce(&mul_pt(&forced, &g()).unwrap().0, &N);
                        let h = if choice == 0 { subb(&N, &e).0 } else { e };
                        q.leave(&q.mul(&q.enter(&h), &q.inv(&q.enter(&x))))
                    }
                    1 => [1 + sd as u64 % 4000, 0, 0, 0],
                    3 => subb(&N, &[1 + sd as u64 % 3, 0, 0, 0]).0,
                    4 => [1, 0, 0, 0],
                    _ => reduce(&from_be(&expand(sd, 32)), &N),
                };
                key = Some(d);
                d
            }
        };
        let n = s.scale(9);
        let plan: Vec<Nonce> = (0..n)
            .map(|_| match s.weighted(&[4, 4, 2, 2, 2, 1, 1]) {
                0 => Nonce::Zero,
                1 => Nonce::ForceS,
                2 => Nonce::Small(s.range(1, 5000) as u32),
                3 => Nonce::Full(s.seed()),
                4 => Nonce::NearN(s.range(1, 40) as u32),
                5 => Nonce::Bit(s.below(255) as u32),
                _ => Nonce::Again,
            })
            .collect();
        let bad_for_ever = s.pct(8);
        let tail_seed = s.seed();
        let tape = RefCell::new(Tape { plan, forced, drawn: vec![], good: 0 });
        let source = || {
            runner::leave();
            let mut t = tape.borrow_mut();
            let i = t.drawn.len();
            let k = match t.plan.get(i).cloned() {
                Some(Nonce::Zero) => [0; 4],
                Some(Nonce::ForceS) => t.forced,
                Some(Nonce::Small(x)) => [x as u64, 0, 0, 0],
                Some(Nonce::Full(x)) => reduce(&from_be(&expand(x, 32)), &N),
                Some(Nonce::NearN(x)) => subb(&N, &[x as u64, 0, 0, 0]).0,
                Some(Nonce::Bit(b)) => {
                    let mut v = [0; 4];
                    v[b as usize / 64] = 1 << (b % 64);
                    v
                }
                Some(Nonce::Again) => t.drawn.last().copied().unwrap_or([7, 0, 0, 0]),
                None if bad_for_ever => [0; 4],
                None => reduce(&from_be(&expand(tail_seed.wrapping_add(i as u32), 32)), &N),
            };
            t.good += good(&k, &hash, &d) as usize;
            t.drawn.push(k);
            let stop = t.good > 40 || t.drawn.len() > t.plan.len() + 60;
            let g = t.good;
            drop(t);
            if stop {
                std::panic::resume_unwind(Box::new(Stop(g)));
            }
            runner::enter();
            fe(&k)
        };
        let priv_key = fe(&d);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            runner::enter();
            let sig: Signature<Order> = sign::<Secp256r1>(
                &msg,
                &priv_key,
                |m| if real_sha { <crylib::hash::Sha256 as crylib::hash::Hasher<32>>::hash(m) } else { hash },
                source,
            );
            runner::leave();
            sig
        }));
        runner::leave();
        let t = tape.borrow();
        let what = format!(
            "key {} hash {} ({h:?}) values {:?}",
            hex(&d),
            crate::world::hex(&hash),
            t.drawn.iter().map(hex).collect::<Vec<_>>()
        );
        r.calls += 1;
        r.io += t.drawn.len() as u64;
        let zeros = t.drawn.iter().filter(|k| is_zero(k)).count() as u64;
        let forced_hits = t.drawn.iter().filter(|k| !is_zero(k) && !good(k, &hash, &d)).count() as u64;
        *r.counts.entry("random_source_zero".into()).or_insert(0) += zeros;
        *r.counts.entry("random_source_forces_zero_signature".into()).or_insert(0) += forced_hits;
        let q = fq();
        let doubling = t.drawn.last().is_some_and(|k| {
            mul_pt(k, &g()).is_some_and(|p| q.leave(&q.mul(&q.enter(&reduce(&p.0, &N)), &q.enter(&d))) == e)
        }) as u64;
        r.probe("signature whose verification adds equal points", doubling);
        interesting |= zeros + forced_hits + doubling > 0;
        if trace {
            r.trace.push(format!("call {call}: {what}"));
        }
        path = crate::world::mix(path, t.drawn.len() as u64 * 64 + zeros * 8 + forced_hits);
        for k in &t.drawn {
            path = crate::world::mix(path, k[0]);
        }
        path = crate::world::mix(path, u64::from_be_bytes(hash[24..].try_into().unwrap()));
        match res {
            Err(p) => match p.downcast::<Stop>() {
                Ok(st) => {
                    if trace {
                        r.trace.push("  still retrying, stopped by the simulator".into());
                    }
                    r.probe("kept retrying until stopped", 1);
                    if st.0 > 40 {
                        r.violate("Sign", 0, call, format!("no signature after 40 usable random values: {what}"));
                    }
                }
                Err(_) => r.violate("Crash", 0, call, format!("signing panicked: {what}")),
            },
            Ok(sig) => {
                let mut hit = None;
                for k in &t.drawn {
                    if let Some((x, y)) = ecdsa_sign(&hash, &d, k) {
                        let y2 = subb(&N, &y).0;
                        for s in [y, y2] {
                            if sig == Signature::new(fe(&x), fe(&s)) {
                                hit = Some((x, s));
                            }
                        }
                    }
                }
                match hit {
                    None => r.violate(
                        "Sign",
                        0,
                        call,
                        format!("the signature {sig:?} is not a valid one for any of the values the random source returned: {what}"),
                    ),
                    Some((x, y)) => {
                        let pk = mul_pt(&d, &g());
                        assert!(ecdsa_verify(&hash, &pk, &x, &y), "harness: signing and verifying disagree");
                        if trace {
                            r.trace.push(format!("  signature r {} s {}", hex(&x), hex(&y)));
                        }
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            runner::enter();
                            let pubk: ProjectivePoint<Secp256r1> = Secp256r1::BASE_POINT.mul_scalar(&priv_key);
                            let ok = verify_signature::<Secp256r1>(
                                &msg,
                                &pubk,
                                |m| if real_sha { <crylib::hash::Sha256 as crylib::hash::Hasher<32>>::hash(m) } else { hash },
                                &sig,
                            )
                            .is_ok();
                            runner::leave();
                            ok
                        }));
                        match res {
                            Ok(true) => {}
                            Ok(false) => r.violate("Sign", 0, call, format!("the library's own verifier rejects the signature: {what}")),
                            Err(_) => r.violate("Crash", 0, call, format!("verifying panicked: {what}")),
                        }
                        r.probe("signature after a retry", (t.drawn.len() > 1) as u64);
                    }
                }
            }
        }
    }
    r.path = path;
    r.digest ^= path;
    r.nontrivial = interesting;
    r
}
