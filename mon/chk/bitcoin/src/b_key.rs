//! Deposit key derivation.
use bitcoin::{compat::rust_bitcoin, types::*, Address, PublicKey};
use codec::{Decode, Encode};
use mon::rand::Rng;
use mon::*;
use rust_bitcoin::hashes::{hash160, Hash};
use rust_bitcoin::secp256k1::{self as secp, Secp256k1};
use sha2::{Digest, Sha256};
use std::sync::atomic::{AtomicUsize, Ordering};

/// (vault key, id) -> expected deposit key, computed on the secret side.
fn expected(v: &secp::SecretKey, pk: &[u8; 33], id: &[u8; 32]) -> [u8; 33] {
    let ctx = Secp256k1::new();
    let c: [u8; 32] = Sha256::new().chain_update(pk).chain_update(id).finalize().into();
    let d = v.mul_tweak(&secp::Scalar::from_be_bytes(c).unwrap()).unwrap();
    secp::PublicKey::from_secret_key(&ctx, &d).serialize()
}

/// First use of the shared context from many threads at once.
pub fn child() {
    let seed: u64 = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(0);
    let n = 8;
    // a spinning barrier: visible to the race detector, and it releases all threads at once
    let bar = AtomicUsize::new(0);
    let mut r = <R as mon::rand::SeedableRng>::seed_from_u64(seed);
    let sk = loop {
        if let Ok(k) = secp::SecretKey::from_slice(&r.gen::<[u8; 32]>()) {
            break k;
        }
    };
    let pk = secp::PublicKey::from_secret_key(&Secp256k1::new(), &sk).serialize();
    let ids: Vec<[u8; 32]> = (0..n).map(|_| r.gen()).collect();
    let bad: usize = std::thread::scope(|s| {
        let hs: Vec<_> = ids
            .iter()
            .map(|id| {
                let bar = &bar;
                s.spawn(move || {
                    bar.fetch_add(1, Ordering::SeqCst);
                    while bar.load(Ordering::SeqCst) < n {
                        std::hint::spin_loop();
                    }
                    let g = PublicKey(pk).new_deposit_public_key(H256(*id)).map(|k| k.0);
                    (g != Ok(expected(&sk, &pk, id))) as usize
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(1)).sum()
    });
    println!("keychild bad={bad}");
}

pub fn run(m: &Mon) {
    m.rule("stream derive: random vault keys and request ids; the derived key must be the public key of v*SHA256(V||id) (computed on the secret side with another secp256k1 release); distinct (key, id) counted. stream invalid: 33-byte strings that are not points. stream first-use: fresh processes whose 8 threads race for the first use of the shared curve context.");
    m.stream("derive", 60_000, 25, |c, r| {
        let sk = loop {
            if let Ok(k) = secp::SecretKey::from_slice(&r.gen::<[u8; 32]>()) {
                break k;
            }
        };
        let ctx0 = Secp256k1::new();
        let pk = secp::PublicKey::from_secret_key(&ctx0, &sk).serialize();
        let key = PublicKey(pk);
        let id: [u8; 32] = r.gen();
        let ctx = || format!("V {} id {}", hex(&pk), hex(&id));
        c.state(ctx().as_bytes());
        c.sample(ctx);
        c.event("derived");
        let want = expected(&sk, &pk, &id);
        let Some(g) = c.total("new_deposit_public_key", ctx, || key.new_deposit_public_key(H256(id))) else { return };
        match g {
            Ok(d) => {
                c.eq(hex(&d.0), hex(&want), "deposit key is not the key the vault can derive", ctx);
                c.eq(d.to_hash().0, hash160::Hash::hash(&want).to_byte_array(), "to_hash: not HASH160 of the key", ctx);
                let again = key.new_deposit_public_key(H256(id));
                c.check(again == Ok(d.clone()), "derivation is not deterministic", ctx);
                // another id: another key (uniqueness of deposit addresses)
                let mut id2 = id;
                id2[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8);
                let d2 = key.new_deposit_public_key(H256(id2));
                c.check(matches!(&d2, Ok(x) if *x != d && x.to_hash() != d.to_hash()), "two request ids share a deposit key", || format!("{} id2 {}", ctx(), hex(&id2)));
                let sk2 = sk.negate();
                let pk2 = secp::PublicKey::from_secret_key(&ctx0, &sk2).serialize();
                let d3 = PublicKey(pk2).new_deposit_public_key(H256(id));
                c.check(matches!(&d3, Ok(x) if *x != d), "two vaults share a deposit key", ctx);
            }
            Err(e) => c.violate("derivation fails for a valid key", format!("{e:?} {}", ctx())),
        }
        // encodings
        let e = key.encode();
        c.check(PublicKey::decode(&mut &e[..]).ok().as_ref() == Some(&key), "SCALE round trip changes the key", ctx);
        let js = serde_json::to_string(&key).unwrap();
        c.check(serde_json::from_str::<PublicKey>(&js).ok().as_ref() == Some(&key) && js == format!("\"0x{}\"", hex(&pk)), "JSON round trip changes the key", || js.clone());
        c.check(key.as_bytes() == &pk[..], "as_bytes", ctx);
        // script templates spending from the key
        let sl = r.gen_range(60..73);
        let sig = bytes(r, sl);
        let s = key.to_p2pkh_script_sig(sig.clone());
        let mut w = vec![sig.len() as u8];
        w.extend(&sig);
        w.push(33);
        w.extend(&pk);
        c.eq(hex(s.as_bytes()), hex(&w), "p2pkh scriptSig is not <sig> <key>", ctx);
        let s = key.to_p2sh_script_sig(sig.clone());
        let mut w = vec![0, sig.len() as u8];
        w.extend(&sig);
        w.push(34);
        w.extend(&pk);
        w.push(0xac);
        c.eq(hex(s.as_bytes()), hex(&w), "p2sh scriptSig is not OP_0 <sig> <redeem script>", ctx);
        let mut b = TransactionInputBuilder::new();
        b.with_p2wpkh(&key, sig.clone());
        c.check(b.build().witness == vec![sig.clone(), pk.to_vec()], "p2wpkh witness", ctx);
        let _ = Address::P2PKH(key.to_hash());
    });
    m.stream("invalid", 100_000, 10, |c, r| {
        let mut b = [0u8; 33];
        r.fill(&mut b[..]);
        if r.gen() {
            b[0] = 2 + r.gen_range(0..2);
        }
        if r.gen_ratio(1, 10) {
            b = [0; 33];
            b[0] = 2;
        }
        let id: [u8; 32] = r.gen();
        let valid = secp::PublicKey::from_slice(&b).is_ok();
        c.event(if valid { "point" } else { "not a point" });
        c.state(&b);
        if let Some(g) = c.total("new_deposit_public_key", || hex(&b), || PublicKey(b).new_deposit_public_key(H256(id))) {
            c.eq(g.is_ok(), valid, "derivation succeeds exactly for valid curve points", || hex(&b));
        }
    });
    let exe = std::env::current_exe().unwrap();
    let exes: Vec<(String, std::path::PathBuf)> = std::iter::once(("plain".to_string(), exe))
        .chain(std::env::var("MON_TSAN_EXE").ok().map(|p| ("tsan".to_string(), p.into())))
        .collect();
    for (name, exe) in exes {
        m.stream(&format!("first-use-{name}"), 60, 10, |c, r| {
            let seed: u64 = r.gen::<u64>() >> 1;
            let o = std::process::Command::new(&exe)
                .args(["keychild", &seed.to_string()])
                .env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66 report_signal_unsafe=0")
                .output()
                .expect("spawn child");
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            c.event(&format!("first-use process ({name})"));
            c.state(&seed.to_le_bytes());
            c.check(out.contains("keychild bad=0"), "concurrent first use gives a wrong key or crashes", || format!("{out}\n{err}\n{:?}", o.status));
            if err.contains("WARNING: ThreadSanitizer") {
                c.violate("data race on first use of the curve context", err);
            }
        });
        m.require(&format!("first-use process ({name})"), 30);
    }
    m.require("derived", 1000);
    m.require("point", 1000);
    m.require("not a point", 1000);
}
