use crate::{h, Ctx};
use encodings::{delta, prefix_varint as pv, zigzag};

/// The format as its documentation states it: k-1 zero bits, a one bit and 7k value bits in k bytes, little
/// endian; above 56 bits a zero byte and the 8 bytes of the value.
fn spec(v: u64) -> Vec<u8> {
    for k in 1..=8u32 {
        if v < 1u64 << (7 * k) {
            let x: u128 = ((v as u128) << k) | (1u128 << (k - 1));
            return (0..k).map(|i| (x >> (8 * i)) as u8).collect();
        }
    }
    std::iter::once(0u8).chain((0..8).map(|i| (v >> (8 * i)) as u8)).collect()
}

fn spec_zz(n: i64) -> u64 {
    let n = n as i128;
    (if n < 0 { -2 * n - 1 } else { 2 * n }) as u64
}

fn single(c: &mut Ctx, v: u64) {
    c.case(|| format!("value {v}"), |c| {
        let mut b = vec![0xAA];
        pv::write_to_vec(&mut b, v);
        let w = spec(v);
        if b[1..] != w[..] {
            return c.bad(format!("write {v}"), format!("{w:?}"), format!("{:?}", &b[1..]));
        }
        if pv::prefix_length(w[0]) as usize != w.len() {
            c.bad(format!("prefix_length of {v}"), w.len().to_string(), pv::prefix_length(w[0]).to_string());
        }
        for tail in [&[][..], &[0x00], &[0xFF, 0x01], &[0xFF; 9], &[0x00; 9]] {
            let mut t = w.clone();
            t.extend_from_slice(tail);
            let g = pv::read_from_slice(&t);
            if g != (v, w.len()) {
                c.bad(format!("read {v} followed by {tail:?}"), format!("{:?}", (v, w.len())), format!("{g:?}"));
            }
        }
        let n = v as i64;
        if zigzag::encode(n) != spec_zz(n) || zigzag::decode(spec_zz(n)) != n || zigzag::encode(zigzag::decode(v)) != v {
            c.bad(format!("zigzag {n}"), spec_zz(n).to_string(), zigzag::encode(n).to_string());
        }
        c.trace(8, h(&w), || format!("{v} -> {w:?}"));
    });
}

fn seq(c: &mut Ctx, v: &[u64]) {
    c.case(|| format!("sequence {v:?}"), |c| {
        let plain: Vec<u8> = v.iter().flat_map(|x| spec(*x)).collect();
        let dl: Vec<u8> = {
            let mut p = 0u64;
            v.iter().flat_map(|x| { let d = x.wrapping_sub(p); p = *x; spec(spec_zz(d as i64)) }).collect()
        };
        let ix: Vec<i64> = v.iter().map(|x| *x as i64).collect();
        let zz: Vec<u8> = ix.iter().flat_map(|x| spec(spec_zz(*x))).collect();
        let check = |c: &mut Ctx, what: &str, want: &[u8], got: &[u8]| if want != got { c.bad(format!("{what} of {v:?}"), format!("{want:?}"), format!("{got:?}")) };
        let mut b = vec![];
        pv::compress_u64s_to_vec(&mut b, v.iter().cloned());
        check(c, "compress_u64s_to_vec", &plain, &b);
        let mut b = vec![];
        pv::compress_u64s_to_vec(&mut b, v.iter().cloned().map(delta::u64_encoder()));
        check(c, "compress_u64s_to_vec with deltas", &dl, &b);
        let mut b = vec![];
        pv::compress_i64s_to_vec(&mut b, ix.iter().cloned().map(delta::i64_encoder()));
        check(c, "compress_i64s_to_vec with deltas", &dl, &b);
        let mut b = vec![];
        pv::compress_i64s_to_vec(&mut b, ix.iter().cloned());
        check(c, "compress_i64s_to_vec", &zz, &b);
        let (mut k1, mut k2, mut k3, mut k4) = (pv::U64Compressor::new(), pv::U64Compressor::with(delta::u64_encoder()), pv::I64Compressor::new(), pv::I64Compressor::with(delta::i64_encoder()));
        if !k1.is_empty() || !k2.is_empty() {
            c.bad("is_empty of a new compressor".into(), "true".into(), "false".into());
        }
        for (x, i) in v.iter().zip(&ix) {
            k1.push(*x);
            k2.push(*x);
            k3.push(*i);
            k4.push(*i);
        }
        if (k1.is_empty(), k2.is_empty()) != (v.is_empty(), v.is_empty()) {
            c.bad(format!("is_empty after {v:?}"), v.is_empty().to_string(), k1.is_empty().to_string());
        }
        check(c, "U64Compressor", &plain, &k1.finish());
        check(c, "U64Compressor with deltas", &dl, &k2.finish());
        check(c, "I64Compressor", &zz, &k3.finish());
        check(c, "I64Compressor with deltas", &dl, &k4.finish());
        let back = |c: &mut Ctx, what: &str, got: Vec<u64>| if got != v { c.bad(format!("{what} of {v:?}"), format!("{v:?}"), format!("{got:?}")) };
        back(c, "u64_decompressor", pv::u64_decompressor(&plain).collect());
        back(c, "u64_decompressor with deltas", pv::u64_decompressor(&dl).map(delta::u64_decoder()).collect());
        back(c, "i64_decompressor", pv::i64_decompressor(&zz).map(|x| x as u64).collect());
        back(c, "i64_decompressor with deltas", pv::i64_decompressor(&dl).map(delta::i64_decoder()).map(|x| x as u64).collect());
        c.trace(v.len() as u64 * 12, h(&dl), || format!("{v:?}"));
    });
}

pub fn run(c: &mut Ctx) {
    let mut edge: Vec<u64> = vec![];
    for k in 0..64u32 {
        for d in -3i64..=3 {
            edge.push((1u64 << k).wrapping_add(d as u64));
            edge.push((1u64 << k).wrapping_neg().wrapping_add(d as u64));
            edge.push((3u64.wrapping_shl(k)).wrapping_add(d as u64));
        }
    }
    edge.sort();
    edge.dedup();
    let n = if c.thorough { 1 << 24 } else { 1 << 21 };
    c.scope("every value below the bound, and around every power of two", |c| {
        for v in 0..n {
            single(c, v);
        }
        for &v in &edge {
            single(c, v);
        }
        for k in 0..64u32 {
            for m in 0..1024u64 {
                single(c, (m << 54) >> (63 - k.min(63)) | m);
            }
        }
    });
    let few: Vec<u64> = {
        let mut f: Vec<u64> = vec![0, 1, 2, 63, 64, 127, 128, 129, 8191, 8192, 16383, 16384, (1 << 21) - 1, 1 << 21, (1 << 28) - 1, 1 << 28, 1 << 35, (1 << 42) - 1, 1 << 49, (1 << 55) - 1, 1 << 55, (1 << 56) - 1, 1 << 56, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX];
        if c.thorough {
            f.extend((0..64).flat_map(|k| [(1u64 << k) - 1, 1u64 << k]));
            f.sort();
            f.dedup();
        }
        f
    };
    c.scope("all sequences of up to 3 boundary values", |c| {
        seq(c, &[]);
        for &x in &few {
            seq(c, &[x]);
            for &y in &few {
                seq(c, &[x, y]);
                for &z in &few {
                    seq(c, &[x, y, z]);
                }
            }
        }
    });
    c.scope("all pairs of values around the powers of two", |c| {
        let step = if c.thorough { 1 } else { 3 };
        for &x in edge.iter().step_by(step) {
            for &y in edge.iter().step_by(step) {
                seq(c, &[x, y]);
            }
        }
    });
    c.scope("runs", |c| {
        for len in 0..200u64 {
            for f in [|i: u64| i, |i: u64| i * i * i, |i: u64| 1u64 << (i % 64), |i: u64| u64::MAX - i * 129, |i: u64| if i % 2 == 0 { 0 } else { u64::MAX - i }] {
                let v: Vec<u64> = (0..len).map(f).collect();
                seq(c, &v);
            }
        }
    });
}
