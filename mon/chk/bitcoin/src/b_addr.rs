use crate::b_tx::fmt;
use bitcoin::{
    compat::rust_bitcoin::{self, address::Payload},
    types::*,
    Address, Script,
};
use codec::{Decode, Encode};
use mon::rand::Rng;
use mon::*;
use std::convert::TryFrom;

/// Template matcher written from the standardness rules.
fn classify(s: &[u8]) -> Option<Address> {
    let h160 = |b: &[u8]| H160(<[u8; 20]>::try_from(b).unwrap());
    if s.len() == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 20 && s[23] == 0x88 && s[24] == 0xac {
        Some(Address::P2PKH(h160(&s[3..23])))
    } else if s.len() == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87 {
        Some(Address::P2SH(h160(&s[2..22])))
    } else if s.len() == 22 && s[0] == 0 && s[1] == 20 {
        Some(Address::P2WPKHv0(h160(&s[2..])))
    } else if s.len() == 34 && s[0] == 0 && s[1] == 32 {
        Some(Address::P2WSHv0(H256(<[u8; 32]>::try_from(&s[2..]).unwrap())))
    } else {
        None
    }
}

fn any_addr(r: &mut R) -> Address {
    let mut h: [u8; 20] = r.gen();
    if r.gen_ratio(1, 5) {
        // payloads that look like opcodes
        let x = *pick(r, &[0x00u8, 0x14, 0x20, 0x76, 0x87, 0x88, 0xa9, 0xac, 0x6a]);
        h = [x; 20];
    }
    match r.gen_range(0..4) {
        0 => Address::P2PKH(H160(h)),
        1 => Address::P2SH(H160(h)),
        2 => Address::P2WPKHv0(H160(h)),
        _ => Address::P2WSHv0(H256(r.gen())),
    }
}

fn check_script(c: &mut Case, s: &[u8]) {
    let want = classify(s);
    let sc = Script::from(s.to_vec());
    let ctx = || hex(s);
    c.event(match &want {
        None => "not a standard output",
        Some(Address::P2PKH(_)) => "p2pkh",
        Some(Address::P2SH(_)) => "p2sh",
        Some(Address::P2WPKHv0(_)) => "p2wpkh",
        Some(Address::P2WSHv0(_)) => "p2wsh",
    });
    c.state(s);
    if let Some(g) = c.total("from_script_pub_key", ctx, || Address::from_script_pub_key(&sc)) {
        c.eq(g.ok(), want, "script -> address: wrong classification or payload", ctx);
    }
    if let Some(g) = c.total("extract_address", ctx, || TransactionOutput { value: 1, script: sc.clone() }.extract_address()) {
        c.eq(g.ok(), want, "output -> address: wrong classification or payload", ctx);
    }
    let preds = (sc.is_p2pkh(), sc.is_p2sh(), sc.is_p2wpkh_v0(), sc.is_p2wsh_v0());
    let wp = (matches!(want, Some(Address::P2PKH(_))), matches!(want, Some(Address::P2SH(_))), matches!(want, Some(Address::P2WPKHv0(_))), matches!(want, Some(Address::P2WSHv0(_))));
    c.eq(preds, wp, "script predicates disagree with the template", ctx);
    c.check(sc.as_bytes() == s && sc.len() == s.len() && sc.is_empty() == s.is_empty() && sc.as_hex() == hex(s), "script accessors", ctx);
    c.check(Script::try_from(&hex(s)[..]).ok() == Some(sc.clone()), "script from hex", ctx);
    // rust-bitcoin agrees on the standard templates
    let rb = Payload::from_script(rust_bitcoin::Script::from_bytes(s)).ok();
    if let Some(a) = want {
        assert!(rb.is_some());
        let g = Address::try_from(rb.unwrap());
        c.check(matches!(g, Ok(x) if x == a), "conversion from rust-bitcoin payload", ctx);
    }
}

/// Reference OP_RETURN payload extraction for direct pushes.
fn op_return_ref(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() < 2 || s.len() > 83 || s[0] != 0x6a || s[1] as usize != s.len() - 2 {
        return None;
    }
    Some(s[2..].to_vec())
}

pub fn run(m: &Mon) {
    m.rule("stream address: random addresses of the four kinds, payloads including opcode look-alikes, round trip through script, SCALE, JSON and rust-bitcoin. stream script: mutated standard scripts and random scripts of all lengths 0..90. stream opreturn: payload lengths 0..100 and malformed carriers. State = distinct script.");
    m.stream("address", 400_000, 30, |c, r| {
        let a = any_addr(r);
        let ctx = || format!("{a:?}");
        c.sample(ctx);
        let Some(s) = c.total("to_script_pub_key", ctx, || a.to_script_pub_key()) else { return };
        let mut want = vec![];
        match &a {
            Address::P2PKH(h) => {
                want.extend([0x76, 0xa9, 20]);
                want.extend(&h.0);
                want.extend([0x88, 0xac]);
            }
            Address::P2SH(h) => {
                want.extend([0xa9, 20]);
                want.extend(&h.0);
                want.push(0x87);
            }
            Address::P2WPKHv0(h) => {
                want.extend([0, 20]);
                want.extend(&h.0);
            }
            Address::P2WSHv0(h) => {
                want.extend([0, 32]);
                want.extend(&h.0);
            }
        }
        c.eq(s.as_bytes().to_vec(), want.clone(), "address -> script: not the standard template", ctx);
        check_script(c, &want);
        let o = TransactionOutput::payment(5, &a);
        c.check(o.value == 5 && o.script.as_bytes() == &want[..] && o.extract_address().ok() == Some(a), "payment output does not pay the address", ctx);
        let rb = Payload::try_from(a);
        c.check(matches!(&rb, Ok(p) if p.script_pubkey().as_bytes() == &want[..]), "conversion to rust-bitcoin payload", ctx);
        let e = a.encode();
        c.check(Address::decode(&mut &e[..]).ok() == Some(a), "SCALE round trip changes the address", ctx);
        let js = serde_json::to_string(&a).unwrap();
        c.check(serde_json::from_str::<Address>(&js).ok() == Some(a), "JSON round trip changes the address", ctx);
        let z = match &a {
            Address::P2PKH(h) | Address::P2SH(h) | Address::P2WPKHv0(h) => h.0 == [0; 20],
            Address::P2WSHv0(h) => h.0 == [0; 32],
        };
        c.eq(a.is_zero(), z, "is_zero", ctx);
        // different addresses never share a script
        let b = any_addr(r);
        c.check((a == b) == (a.to_script_pub_key() == b.to_script_pub_key()), "two addresses share a script", || format!("{a:?} {b:?}"));
    });
    m.stream("script", 800_000, 30, |c, r| {
        let s = if r.gen_ratio(1, 5) {
            let n = r.gen_range(0..90);
            bytes(r, n)
        } else {
            let mut s = any_addr(r).to_script_pub_key().as_bytes().to_vec();
            for _ in 0..r.gen_range(0..3) {
                match r.gen_range(0..6) {
                    0 => {
                        let i = if r.gen() { r.gen_range(0..3) } else { s.len() - 1 - r.gen_range(0..2) };
                        s[i] ^= 1 << r.gen_range(0..8);
                    }
                    1 => {
                        s.pop();
                    }
                    2 => s.push(*pick(r, &[0, 0x87, 0xac, 0x88])),
                    3 => {
                        let i = r.gen_range(0..3);
                        s[i] = *pick(r, &[0, 0x14, 0x20, 0x51, 0x76, 0xa9, 0x13, 0x15, 0x1f, 0x21]);
                    }
                    4 => {
                        s.remove(0);
                    }
                    _ => {
                        let i = r.gen_range(0..s.len());
                        s.insert(i, r.gen());
                    }
                }
                if s.len() < 3 {
                    break;
                }
            }
            s
        };
        check_script(c, &s);
    });
    m.stream("opreturn", 300_000, 20, |c, r| {
        let n = r.gen_range(0..100);
        let d = bytes(r, n);
        let ctx = || hex(&d);
        if n <= 75 {
            // a direct push: exactly the standard data carrier
            let Some(s) = c.total("op_return", ctx, || Script::op_return(&d)) else { return };
            let mut want = vec![0x6a, n as u8];
            want.extend(&d);
            c.eq(s.as_bytes().to_vec(), want.clone(), "op_return: not OP_RETURN <push data>", ctx);
            if n > 0 {
                let rb = rust_bitcoin::ScriptBuf::new_op_return(&<&rust_bitcoin::script::PushBytes>::try_from(&d[..]).unwrap());
                if n > 1 || d[0] > 16 && d[0] != 0x81 {
                    assert_eq!(rb.as_bytes(), &want[..]);
                }
            }
            c.eq(s.extract_op_return_data().ok(), Some(d.clone()), "op_return: payload does not survive", ctx);
            let o = TransactionOutput::op_return(3, &d);
            c.check(o.value == 3 && o.script == s && o.extract_address().is_err() == (classify(&want).is_none()), "op_return output", ctx);
            let _ = fmt(&o);
            c.event("op_return round trip");
        }
        let mut s = vec![0x6a, n as u8];
        s.extend(&d);
        if r.gen() {
            match r.gen_range(0..5) {
                0 => s[0] = r.gen(),
                1 => s[1] = s[1].wrapping_add(*pick(r, &[1, 255, 10])),
                2 => s.truncate(r.gen_range(0..s.len())),
                3 => s.push(r.gen()),
                _ => s[1] = r.gen(),
            }
        }
        c.state(&s);
        let want = op_return_ref(&s);
        c.event(if want.is_some() { "op_return accepted" } else { "op_return rejected" });
        let sc = Script::from(s.clone());
        if let Some(g) = c.total("extract_op_return_data", || hex(&s), || sc.extract_op_return_data()) {
            c.eq(g.ok(), want, "extract_op_return_data: wrong payload or verdict", || hex(&s));
        }
    });
    for k in ["p2pkh", "p2sh", "p2wpkh", "p2wsh", "not a standard output", "op_return round trip", "op_return rejected"] {
        m.require(k, 500);
    }
}
