//! Calls built from their types: any call with any arguments, most of them meaningful.
use codec::{Compact, Decode, Encode};
use mon::{rand::Rng, *};
use rt::{runtime::*, world::*};
use scale_info::{form::PortableForm, MetaType, PortableRegistry, Registry, TypeDef, TypeDefPrimitive};
use sp_core::H256;

pub type Field = scale_info::Field<PortableForm>;
pub struct Calls {
    pub reg: PortableRegistry,
    /// (pallet, pallet index, call, call index, arguments)
    pub all: Vec<(String, u8, String, u8, Vec<Field>)>,
}
/// What arguments are drawn from.
#[derive(Default)]
pub struct Pool {
    pub accounts: Vec<AccountId>,
    pub currencies: Vec<CurrencyId>,
    pub vaults: Vec<VaultId>,
    pub hashes: Vec<H256>,
    pub proofs: Vec<Vec<u8>>,
    pub addresses: Vec<Vec<u8>>,
    pub headers: Vec<Vec<u8>>,
    pub amounts: Vec<u128>,
    pub height: u32,
    pub names: Vec<(String, String)>,
    /// which amounts: bits of the largest
    pub bits: u32,
    pub wild: bool,
    /// currencies that go together
    pub groups: Vec<Vec<CurrencyId>>,
    pub hint: std::cell::RefCell<(Vec<CurrencyId>, usize)>,
}
fn last(p: &[String]) -> &str {
    p.last().map(|s| s.as_str()).unwrap_or("")
}
impl Calls {
    pub fn new() -> Calls {
        let mut g = Registry::new();
        let id = g.register_type(&MetaType::new::<RuntimeCall>()).id;
        let reg: PortableRegistry = g.into();
        let mut all = vec![];
        if let TypeDef::Variant(v) = &reg.resolve(id).unwrap().type_def {
            for p in &v.variants {
                let TypeDef::Variant(c) = &reg.resolve(p.fields[0].ty.id).unwrap().type_def else { continue };
                for k in &c.variants {
                    all.push((p.name.clone(), p.index, k.name.clone(), k.index, k.fields.clone()));
                }
            }
        }
        Calls { reg, all }
    }
    /// bytes of call `i` with drawn arguments
    pub fn bytes(&self, i: usize, r: &mut R, p: &Pool, depth: u32) -> Vec<u8> {
        let (_, pi, _, ci, fields) = &self.all[i];
        if depth == 0 {
            let mut g = if p.groups.is_empty() { vec![] } else { pick(r, &p.groups).clone() };
            if r.gen() {
                g.reverse();
            }
            *p.hint.borrow_mut() = (g, 0);
        }
        let mut out = vec![*pi, *ci];
        for f in fields {
            self.value(f.ty.id, f.name.as_deref().unwrap_or(""), r, p, &mut out, depth);
        }
        out
    }
    pub fn draw(&self, i: usize, r: &mut R, p: &Pool) -> Option<RuntimeCall> {
        let mut b = self.bytes(i, r, p, 0);
        if p.wild && r.gen_ratio(1, 12) {
            // bytes gone wrong on the way
            for _ in 0..r.gen_range(1..4) {
                let k = r.gen_range(0..b.len());
                match r.gen_range(0..4) {
                    0 => b[k] ^= 1 << r.gen_range(0..8),
                    1 => b[k] = *pick(r, &[0, 1, 0x7f, 0x80, 0xff]),
                    2 => b.truncate(k.max(2)),
                    _ => b.insert(k, r.gen()),
                }
            }
        }
        RuntimeCall::decode(&mut &b[..]).ok()
    }
    fn amount(&self, name: &str, r: &mut R, p: &Pool) -> u128 {
        if name.contains("min") && !name.contains("mint") && r.gen_ratio(3, 4) {
            return r.gen_range(0..2);
        }
        if name.contains("max") && r.gen_ratio(3, 4) {
            return 1 << 100;
        }
        match r.gen_range(0..12) {
            0 if p.wild => weird_u128(r),
            1 => 0,
            2 | 3 if !p.amounts.is_empty() => *pick(r, &p.amounts),
            4 if !p.amounts.is_empty() => pick(r, &p.amounts).saturating_add(1),
            5 if !p.amounts.is_empty() => {
                let d = r.gen_range(1..2000u128);
                pick(r, &p.amounts) / d
            }
            _ => log_uniform_u128(r, p.bits),
        }
    }
    fn int32(&self, name: &str, r: &mut R, p: &Pool) -> u32 {
        match r.gen_range(0..10) {
            0 if p.wild => weird_u64(r) as u32,
            _ if name == "fork_bound" || name == "length_rewards" => 100,
            _ if name.contains("pool_id") && r.gen_ratio(9, 10) => r.gen_range(0..2),
            1 => p.height,
            2..=4 => p.height + r.gen_range(0..100),
            5 => (p.height / WEEKS + r.gen_range(1..100)) * WEEKS,
            _ if name.contains("height") || name.contains("deadline") || name == "end" => p.height + r.gen_range(0..1000),
            _ => r.gen_range(0..4),
        }
    }
    pub fn value(&self, id: u32, name: &str, r: &mut R, p: &Pool, out: &mut Vec<u8>, depth: u32) {
        let t = self.reg.resolve(id).unwrap();
        match last(&t.path.segments) {
            "AccountId32" => {
                let a = if p.wild && r.gen_ratio(1, 20) { AccountId::new(r.gen()) } else { pick(r, &p.accounts).clone() };
                return a.encode_to(out);
            }
            "CurrencyId" if !p.groups.is_empty() && r.gen_ratio(7, 10) => {
                let mut h = p.hint.borrow_mut();
                h.1 += 1;
                return h.0[(h.1 - 1) % h.0.len()].encode_to(out);
            }
            "VaultCurrencyPair" if !p.vaults.is_empty() && !r.gen_ratio(1, 8) => {
                let v = pick(r, &p.vaults).currencies.clone();
                return v.encode_to(out);
            }
            "CurrencyId" if !r.gen_ratio(1, 15) => return pick(r, &p.currencies).encode_to(out),
            "VaultId" if !p.vaults.is_empty() && !r.gen_ratio(1, 8) => return pick(r, &p.vaults).encode_to(out),
            "H256" if !p.hashes.is_empty() && !r.gen_ratio(1, 8) => return pick(r, &p.hashes).encode_to(out),
            "Address" if !p.addresses.is_empty() && r.gen() => return out.extend(pick(r, &p.addresses)),
            "FullTransactionProof" if !p.proofs.is_empty() && r.gen_ratio(3, 4) => {
                let mut b = pick(r, &p.proofs).clone();
                if r.gen_ratio(1, 4) {
                    let k = r.gen_range(0..b.len());
                    b[k] ^= 1 << r.gen_range(0..8);
                }
                return out.extend(b);
            }
            "BlockHeader" if !p.headers.is_empty() && r.gen_ratio(3, 4) => {
                let mut b = pick(r, &p.headers).clone();
                if r.gen_ratio(1, 4) {
                    let k = r.gen_range(0..b.len());
                    b[k] ^= 1 << r.gen_range(0..8);
                }
                return out.extend(b);
            }
            "RuntimeCall" => {
                if depth > 1 {
                    return RuntimeCall::System(frame_system::Call::remark { remark: vec![] }).encode_to(out);
                }
                let i = r.gen_range(0..self.all.len());
                return out.extend(self.bytes(i, r, p, depth + 1));
            }
            "FixedU128" => {
                let x: u128 = match r.gen_range(0..8) {
                    0 if p.wild => weird_u128(r),
                    1 => 0,
                    2 => 1_000_000_000_000_000_000,
                    3 => 1_000_000_000_000_000_000 + log_uniform_u128(r, 62),
                    4 => r.gen_range(1_000_000_000_000_000_000..3_000_000_000_000_000_000),
                    _ => r.gen_range(0..1_000_000_000_000_000_000),
                };
                return x.encode_to(out);
            }
            "Permill" => return (if p.wild { r.gen::<u32>() } else { r.gen_range(0..=1_000_000u32) }).encode_to(out),
            _ => (),
        }
        match &t.type_def {
            TypeDef::Composite(c) => {
                for f in &c.fields {
                    self.value(f.ty.id, f.name.as_deref().unwrap_or(name), r, p, out, depth);
                }
            }
            TypeDef::Variant(v) => {
                if v.variants.is_empty() {
                    return;
                }
                let k = pick(r, &v.variants);
                out.push(k.index);
                for f in &k.fields {
                    self.value(f.ty.id, f.name.as_deref().unwrap_or(name), r, p, out, depth);
                }
            }
            TypeDef::Tuple(f) => {
                for f in &f.fields {
                    self.value(f.id, name, r, p, out, depth);
                }
            }
            TypeDef::Sequence(s) => {
                let elem = self.reg.resolve(s.type_param.id).unwrap();
                if matches!(elem.type_def, TypeDef::Primitive(TypeDefPrimitive::U8)) {
                    let b = if !p.names.is_empty() && (name == "full_name" || name.contains("name")) {
                        let (a, b) = pick(r, &p.names);
                        if r.gen() { a.as_bytes().to_vec() } else { b.as_bytes().to_vec() }
                    } else {
                        bytes(r, 40)
                    };
                    return b.encode_to(out);
                }
                let n = if name.contains("amounts") && r.gen_ratio(4, 5) { r.gen_range(2..4) } else { r.gen_range(0..5u32) };
                Compact(n).encode_to(out);
                for _ in 0..n {
                    self.value(s.type_param.id, name, r, p, out, depth);
                }
            }
            TypeDef::Array(a) => {
                for _ in 0..a.len {
                    self.value(a.type_param.id, name, r, p, out, depth);
                }
            }
            TypeDef::Compact(c) => {
                let mut inner = &self.reg.resolve(c.type_param.id).unwrap().type_def;
                while let TypeDef::Composite(k) = inner {
                    inner = &self.reg.resolve(k.fields[0].ty.id).unwrap().type_def;
                }
                match inner {
                    TypeDef::Primitive(TypeDefPrimitive::U128) => Compact(self.amount(name, r, p)).encode_to(out),
                    TypeDef::Primitive(TypeDefPrimitive::U32) => Compact(self.int32(name, r, p)).encode_to(out),
                    _ => Compact(r.gen_range(0..100u32)).encode_to(out),
                }
            }
            TypeDef::Primitive(k) => match k {
                TypeDefPrimitive::Bool => r.gen::<bool>().encode_to(out),
                TypeDefPrimitive::U8 => {
                    let x: u8 = if r.gen() { r.gen_range(0..31) } else { r.gen() };
                    x.encode_to(out)
                }
                TypeDefPrimitive::U16 => (weird_u64(r) as u16).encode_to(out),
                TypeDefPrimitive::U32 => self.int32(name, r, p).encode_to(out),
                TypeDefPrimitive::U64 => (if r.gen() { time_ms() / 1000 + r.gen_range(0..100_000u64) } else { weird_u64(r) }).encode_to(out),
                TypeDefPrimitive::U128 => self.amount(name, r, p).encode_to(out),
                TypeDefPrimitive::I64 => (weird_u64(r) as i64).encode_to(out),
                TypeDefPrimitive::I32 => (weird_u64(r) as i32).encode_to(out),
                TypeDefPrimitive::I128 => (weird_u128(r) as i128).encode_to(out),
                TypeDefPrimitive::U256 => r.gen::<[u8; 32]>().encode_to(out),
                TypeDefPrimitive::Str => String::new().encode_to(out),
                _ => out.push(r.gen()),
            },
            TypeDef::BitSequence(_) => out.push(0),
        }
    }
}
