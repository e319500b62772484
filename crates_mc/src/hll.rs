//! HyperLogLog++ at the level of its crate, with hashes of our choosing: the registers after any sequence of
//! additions and merges, in sparse or dense form, are those of the set of hashes.
use crate::{h, Ctx};
use hyperloglogplusplus::{error_for_precision, precision_for_error, registers::Registers, HyperLogLog, HyperLogLogStorage};
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hasher};

/// The hash of a u64 is that number.
#[derive(Clone, Default)]
struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { self.0 = u64::from_ne_bytes(b.try_into().unwrap()) }
}
impl BuildHasher for Id {
    type Hasher = Id;
    fn build_hasher(&self) -> Id { Id(0) }
}
type H = HyperLogLog<'static, u64, Id>;

fn regs(hs: &[u64], p: u8) -> BTreeMap<usize, u8> {
    let mut m = BTreeMap::new();
    for &x in hs {
        let i = (x >> (64 - p)) as usize;
        let rest = x & (u64::MAX >> p);
        let r = m.entry(i).or_insert(0u8);
        // position of the first one bit among the 64-p that follow the index
        let rho = rest.leading_zeros() as u8 - p + 1;
        *r = (*r).max(rho);
    }
    m
}

fn linear(m: f64, zeros: f64) -> f64 { m * (m / zeros).ln() }

const THRESHOLD: [f64; 15] = [10., 20., 40., 80., 220., 400., 900., 1800., 3100., 6500., 11500., 20000., 50000., 120000., 350000.];

fn check(c: &mut Ctx, name: &dyn Fn() -> String, s: &mut H, hs: &[u64], p: u8) -> bool {
    let want = regs(hs, p);
    let est = s.estimate_count();
    if s.immutable_estimate_count() != est {
        c.bad(name(), format!("{est}"), format!("immutable {}", s.immutable_estimate_count()));
        return false;
    }
    let sparse = s.is_sparse();
    let (dense, eexp) = match s.to_parts() {
        HyperLogLogStorage::Sparse(x) => {
            let mut idx: Vec<u64> = hs.iter().map(|x| x >> 39).collect();
            idx.sort();
            idx.dedup();
            let n = idx.len() as u64;
            if x.num_compressed != n || x.precision != p {
                c.bad(name(), format!("{n} entries"), format!("{}", x.num_compressed));
                return false;
            }
            // the sparse form ends where the dense form takes less room (give or take what the buffer holds)
            let room = (1usize << p) * 6;
            if x.num_bytes() * 8 > room + (room / 128 + 2) * 40 {
                c.bad(name(), "dense form".into(), format!("sparse form of {} bytes", x.num_bytes()));
                return false;
            }
            let m = (1u64 << 25) as f64;
            (x.immutable_to_dense(), Some(linear(m, m - n as f64) as u64))
        }
        HyperLogLogStorage::Dense(x) => {
            let m = (1u64 << p) as f64;
            let zeros = m - want.len() as f64;
            let l = linear(m, zeros);
            let e = if zeros > 0.0 && l <= THRESHOLD[p as usize - 4] { Some(l as u64) } else { None };
            (x.clone(), e)
        }
    };
    let got: BTreeMap<usize, u8> = dense.registers.iter().enumerate().filter(|x| x.1 != 0).collect();
    if got != want || dense.registers.count_zeroed_registers() != (1u64 << p) - want.len() as u64 {
        c.bad(name(), format!("registers {want:?}"), format!("sparse {sparse} registers {got:?}"));
        return false;
    }
    if let Some(e) = eexp {
        if est.abs_diff(e) > 1 || (est != e && hs.len() < 100) {
            c.bad(name(), format!("estimate {e}"), format!("sparse {sparse} estimate {est}"));
            return false;
        }
    }
    // what is read back from the stored parts is the same
    let ok = match s.to_parts() {
        HyperLogLogStorage::Sparse(x) => {
            let bytes = x.compressed.bytes().to_vec();
            let r: HyperLogLog<u64, Id> = HyperLogLog::from_sparse_parts(&bytes, x.num_compressed, p, Id(0));
            r.immutable_estimate_count() == est && r.num_bytes() == bytes.len() && r.is_sparse()
        }
        HyperLogLogStorage::Dense(x) => {
            let bytes = x.registers.bytes().to_vec();
            let r: HyperLogLog<u64, Id> = HyperLogLog::from_dense_parts(&bytes, p, Id(0));
            r.immutable_estimate_count() == est && r.num_bytes() == bytes.len() && !r.is_sparse()
        }
    };
    if !ok {
        c.bad(name(), "same estimate after reading back".into(), "different".into());
    }
    ok
}

fn build(hs: &[u64], p: u8) -> H {
    let mut s = HyperLogLog::new(p, Id(0));
    for x in hs {
        s.add(x);
    }
    s
}

fn case(c: &mut Ctx, p: u8, hs: &[u64]) {
    let name = || format!("precision {p} hashes {:x?}", hs);
    c.case(name, |c| {
        let mut s = build(hs, p);
        if !check(c, &name, &mut s, hs, p) {
            return;
        }
        // every cut in two, merged either way; the right part is complete, the left one is still collecting
        for cut in 0..=hs.len() {
            let (a, b) = hs.split_at(cut);
            for swap in [false, true] {
                let (a, b) = if swap { (b, a) } else { (a, b) };
                let mut x = build(a, p);
                let mut y = build(b, p);
                y.merge_all();
                x.merge_in(&y);
                if !check(c, &|| format!("{} cut {cut} swapped {swap}", name()), &mut x, hs, p) {
                    return;
                }
            }
            if hs.len() > 6 && cut > 3 && cut + 3 < hs.len() {
                continue;
            }
        }
        // adding everything again changes nothing
        let mut z = s.into_owned();
        z.merge_in(&s);
        for x in hs {
            z.add(x);
        }
        check(c, &|| format!("{} added twice", name()), &mut z, hs, p);
        c.trace(hs.len() as u64, h(format!("{p}{:?}", regs(hs, p))), name);
    });
}

fn alphabet(p: u8, full: bool) -> Vec<u64> {
    let top: Vec<u64> = [0u64, 1, (1 << p) - 1].iter().map(|i| i << (64 - p)).collect();
    // between the index and bit 39: what the sparse form drops or keeps
    let mid: Vec<u64> = [0u64, 1 << 39, 1 << (63 - p), ((1 << (25 - p)) - 1) << 39].to_vec();
    let low: Vec<u64> = vec![0, 1, 1 << 38, (1 << 39) - 1];
    let mut r = vec![];
    for (i, t) in top.iter().enumerate() {
        for m in &mid {
            for l in &low {
                if full || i != 1 {
                    r.push(t | m | l);
                }
            }
        }
    }
    r.sort();
    r.dedup();
    r
}

pub fn run(c: &mut Ctx) {
    let t = c.thorough;
    c.scope("registers: all pairs of writes to 16 and 32 registers", |c| {
        for e in [4u8, 5] {
            let n = 1usize << e;
            let vals: Vec<u8> = (0..64).collect();
            for i in 0..n {
                for j in 0..n {
                    for &v in &vals {
                        for &w in &vals {
                            let mut r = Registers::new(e);
                            r.set_max(i, v);
                            r.set_max(j, w);
                            let mut m = vec![0u8; n];
                            m[i] = v;
                            m[j] = m[j].max(w);
                            let mut a = Registers::new(e);
                            a.set_max(j, w);
                            let mut b = Registers::new(e);
                            b.set_max(i, v);
                            let u = Registers::merge(&a, &b);
                            let zeros = m.iter().filter(|x| **x == 0).count() as u64;
                            if r.iter().collect::<Vec<_>>() != m || u.iter().collect::<Vec<_>>() != m || r.count_zeroed_registers() != zeros || u.bytes() != r.bytes() {
                                c.bad(format!("{n} registers: {i}<-{v}, {j}<-{w}"), format!("{m:?}"), format!("{:?} merged {:?}", r.iter().collect::<Vec<_>>(), u.iter().collect::<Vec<_>>()));
                                return;
                            }
                            c.trace(2, h(&m), || format!("{i}<-{v},{j}<-{w}"));
                        }
                    }
                }
            }
        }
    });
    c.scope("all sequences of hashes that differ in every field, merged at every cut", |c| {
        for p in [4u8, 5, 8, 12] {
            let a = alphabet(p, true);
            let depth = if p <= 5 || t && p == 8 { 3 } else { 2 };
            let mut frontier: Vec<Vec<u64>> = vec![vec![]];
            for d in 0..=depth {
                let mut next = vec![];
                for w in &frontier {
                    case(c, p, w);
                    if d < depth {
                        for x in &a {
                            let mut y = w.clone();
                            y.push(*x);
                            next.push(y);
                        }
                    }
                }
                frontier = next;
            }
        }
        // the largest registers of each precision
        for p in 4..=18u8 {
            for x in alphabet(p, false) {
                case(c, p, &[x]);
            }
        }
    });
    c.scope("all sets of up to 3 distinct hashes of a small alphabet, precision 4 to 6", |c| {
        for p in [4u8, 5, 6] {
            let a = alphabet(p, false);
            for i in 0..a.len() {
                for j in i..a.len() {
                    for k in (j..a.len()).step_by(1) {
                        case(c, p, &[a[k], a[i], a[j]]);
                    }
                }
            }
        }
    });
    c.scope("runs of hashes up to the change to the dense form and beyond", |c| {
        for p in [4u8, 5, 6, 7, 8, 9, 10] {
            for step in [1u64 << 39, (1 << 39) * 129, 1 << 50, 0x9E37_79B9_7F4A_7C15, 0x0101_0101_0101_0101] {
                for n in (1..=if t { 3000 } else { 400usize }).step_by(if t { 7 } else { 1 }) {
                    let hs: Vec<u64> = (0..n as u64).map(|i| step.wrapping_mul(i + 1)).collect();
                    let name = || format!("precision {p}: {n} multiples of {step:x}");
                    c.case(name, |c| {
                        let mut s = build(&hs, p);
                        if !check(c, &name, &mut s, &hs, p) {
                            return;
                        }
                        for cut in [0, 1, n / 3, n / 2, n - 1] {
                            let mut x = build(&hs[..cut], p);
                            let mut y = build(&hs[cut..], p);
                            y.merge_all();
                            x.merge_in(&y);
                            if !check(c, &|| format!("{} cut {cut}", name()), &mut x, &hs, p) {
                                return;
                            }
                            // sparse or dense, fresh or merged: one estimate per set of registers
                            if !s.is_sparse() && !x.is_sparse() && s.estimate_count() != x.estimate_count() {
                                c.bad(name(), format!("{}", s.estimate_count()), format!("cut {cut}: {}", x.estimate_count()));
                            }
                        }
                        c.trace(n as u64, h(format!("{p}{:?}", regs(&hs, p))), name);
                    });
                }
            }
        }
    });
    c.scope("pairs of sparse entries at every distance", |c| {
        for e in 0..=24u32 {
            for d in [-1i64, 0, 1] {
                let dist = (1i64 << e) + d;
                for from in [0i64, 1, 127, 1 << 14, (1 << 25) - 1 - dist] {
                    for (la, lb) in [(0u64, 0u64), (0, 1 << 38), (1, (1 << 39) - 1)] {
                        if dist < 1 || from < 0 || from + dist >= 1 << 25 {
                            continue;
                        }
                        let hs = [((from as u64) << 39) | la, (((from + dist) as u64) << 39) | lb];
                        for p in [8u8, 14] {
                            case(c, p, &hs);
                        }
                    }
                }
            }
        }
    });
    c.scope("precision and error", |c| {
        for p in 4..=18u8 {
            let e = error_for_precision(p);
            let w = 1.04 / ((1u64 << p) as f64).sqrt();
            if (e - w).abs() > 1e-12 {
                c.bad(format!("error_for_precision({p})"), format!("{w}"), format!("{e}"));
            }
            // the least precision whose error is at most the one asked for
            for (f, q) in [(1.0 + 1e-9, p), (1.0 - 1e-9, p + 1), (1.2, p)] {
                if q > 18 {
                    continue;
                }
                let r = std::panic::catch_unwind(|| precision_for_error(w * f));
                if r.as_ref().ok() != Some(&q) {
                    c.bad(format!("precision_for_error({})", w * f), format!("{q}"), format!("{r:?}"));
                }
                c.trace(1, h((p, q)), || format!("{p} {f}"));
            }
        }
    });
}
