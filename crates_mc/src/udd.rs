//! UddSketch at the level of its crate: add_value, merge_sketch, merge_items, new_from_data, the three
//! compaction code paths, quantiles and ranks.
//!
//! Model: a sketch is a multiset of bucket keys at the original error. Its compaction level is the least c for
//! which the keys compacted c times fit in max_buckets; that is a function of the multiset alone, so any order
//! of adding and merging must end in the same sketch.
use crate::{h, Ctx};
use std::collections::BTreeMap;
use uddsketch::{SketchHashKey, SketchHashKey::*, UDDSketch, UDDSketchMetadata};

const ALPHA: f64 = 0.1;

/// (sign, index); sign 0 is the zero bucket.
type K = (i8, i64);

fn value(k: K, alpha: f64) -> f64 {
    let g = (1.0 + alpha) / (1.0 - alpha);
    // the middle of the bucket, cut to few bits so that sums are exact
    let v = g.powf(k.1 as f64 - 0.5);
    let v = f64::from_bits(v.to_bits() & !((1u64 << 32) - 1));
    match k.0 { 0 => 0.0, 1 => v, _ => -v }
}

fn comp(k: K, c: u32) -> K {
    let mut i = k.1;
    for _ in 0..c {
        // ceil(i / 2)
        i = -((-i).div_euclid(2));
    }
    (k.0, i)
}

fn order(k: &K) -> (i8, i64) {
    (k.0, if k.0 < 0 { -k.1 } else { k.1 })
}

fn real(k: K) -> SketchHashKey {
    match k.0 { 0 => Zero, 1 => Positive(k.1), _ => Negative(k.1) }
}

struct Model { c: u32, buckets: Vec<(K, u64)> }

fn model(keys: &[K], max: usize) -> Model {
    for c in 0.. {
        let mut m: BTreeMap<(i8, i64), (K, u64)> = BTreeMap::new();
        for k in keys {
            let k = comp(*k, c);
            m.entry(order(&k)).or_insert((k, 0)).1 += 1;
        }
        if m.len() <= max {
            return Model { c, buckets: m.into_values().collect() };
        }
    }
    unreachable!()
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-7 * (a.abs() + b.abs())
}

fn check(c: &mut Ctx, name: &dyn Fn() -> String, s: &UDDSketch, keys: &[K], max: usize, alpha: f64) -> bool {
    let m = model(keys, max);
    let want: Vec<_> = m.buckets.iter().map(|(k, n)| (real(*k), *n)).collect();
    let got: Vec<_> = s.bucket_iter().collect();
    if got != want || s.current_buckets_count() != want.len() || s.times_compacted() as u32 != m.c {
        c.bad(name(), format!("{} compactions, buckets {want:?}", m.c), format!("{} compactions, {} buckets {got:?}", s.times_compacted(), s.current_buckets_count()));
        return false;
    }
    let sum: f64 = keys.iter().map(|k| value(*k, alpha)).sum();
    let n = keys.len() as u64;
    let mean = if n == 0 { 0.0 } else { sum / n as f64 };
    if s.count() != n || !((s.sum() - sum).abs() <= 1e-9 * keys.iter().map(|k| value(*k, alpha).abs()).sum::<f64>()) || !((s.mean() - mean).abs() <= 1e-6 + 1e-6 * mean.abs()) || s.max_allowed_buckets() as usize != max {
        c.bad(name(), format!("count {n} sum {sum} mean {mean}"), format!("count {} sum {} mean {}", s.count(), s.sum(), s.mean()));
        return false;
    }
    // error after c compactions: tanh(2^c atanh(alpha))
    let err = (2f64.powi(m.c as i32) * alpha.atanh()).tanh();
    if !close(s.max_error(), err) {
        c.bad(name(), format!("error {err}"), format!("{}", s.max_error()));
        return false;
    }
    if n == 0 {
        return true;
    }
    // quantiles: within the error of the value at that rank
    let mut vs: Vec<f64> = keys.iter().map(|k| value(*k, alpha)).collect();
    vs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for i in 0..=16 {
        let q = i as f64 / 16.0;
        let e = s.estimate_quantile(q);
        let v = vs[((n as f64 * q) as usize).min(vs.len() - 1)];
        // the largest rank is answered from the last bucket
        if (e - v).abs() > err * v.abs() * (1.0 + 1e-6) + 1e-300 {
            c.bad(name(), format!("quantile {q} within {err} of {v}"), format!("{e}"));
            return false;
        }
    }
    // rank of a value: the buckets below it, and half of its own
    for p in keys.iter().take(6) {
        let t = order(&comp(*p, m.c));
        let w: f64 = m.buckets.iter().map(|(k, n)| match order(k).cmp(&t) {
            std::cmp::Ordering::Less => *n as f64,
            std::cmp::Ordering::Equal => *n as f64 / 2.0,
            _ => 0.0,
        }).sum::<f64>() / n as f64;
        let r = s.estimate_quantile_at_value(value(*p, alpha));
        if !close(r, w) {
            c.bad(name(), format!("rank of {} = {w}", value(*p, alpha)), format!("{r}"));
            return false;
        }
    }
    true
}

fn build(keys: &[K], max: usize, alpha: f64) -> UDDSketch {
    let mut s = UDDSketch::new(max as u32, alpha);
    for k in keys {
        s.add_value(value(*k, alpha));
    }
    s
}

fn meta(s: &UDDSketch) -> UDDSketchMetadata {
    UDDSketchMetadata {
        max_buckets: s.max_allowed_buckets(),
        current_error: s.max_error(),
        compactions: s.times_compacted(),
        values: s.count(),
        sum: s.sum(),
        buckets: s.current_buckets_count() as u32,
    }
}

fn reload(s: &UDDSketch) -> UDDSketch {
    let b: Vec<_> = s.bucket_iter().collect();
    UDDSketch::new_from_data(&meta(s), b.iter().map(|x| x.0), b.iter().map(|x| x.1))
}

/// merge `parts` (cut points in `keys`) by each of the two ways, each part built anew or read back.
fn merged(parts: &[&[K]], max: usize, alpha: f64, how: usize) -> UDDSketch {
    let mut it = parts.iter().map(|p| {
        let s = build(p, max, alpha);
        if how & 2 != 0 { reload(&s) } else { s }
    });
    let mut acc = it.next().unwrap();
    for o in it {
        if how & 1 == 0 {
            acc.merge_sketch(&o);
        } else {
            let b: Vec<_> = o.bucket_iter().collect();
            acc.merge_items(&meta(&o), b.iter().map(|x| x.0), b.iter().map(|x| x.1));
        }
        if how & 4 != 0 {
            acc = reload(&acc);
        }
    }
    acc
}

/// Least number of buckets that any number of compactions can lead to, for keys of this kind: one for zero,
/// two (index 0 and 1) for each sign.
fn irreducible(keys: &[K]) -> usize {
    let last: std::collections::HashSet<K> = keys.iter().map(|k| if k.0 == 0 { *k } else { (k.0, (k.1 > 0) as i64) }).collect();
    last.len()
}

pub fn run(c: &mut Ctx) {
    let alphabet: Vec<K> = vec![(0, 0), (1, -5), (1, 0), (1, 1), (1, 2), (1, 7), (-1, -2), (-1, 1), (-1, 6)];
    let depth = if c.thorough { 6 } else { 5 };
    c.scope("add: all sequences of values over 9 buckets", |c| {
        for n in 0..=depth {
            for w in words(alphabet.len(), n) {
                let keys: Vec<K> = w.iter().map(|i| alphabet[*i]).collect();
                for max in 1..=5 {
                    if irreducible(&keys) > max {
                        continue;
                    }
                    let name = || format!("add {keys:?}, {max} buckets");
                    c.case(name, |c| {
                        let s = build(&keys, max, ALPHA);
                        check(c, &name, &s, &keys, max, ALPHA);
                        check(c, &|| format!("new_from_data of {}", name()), &reload(&s), &keys, max, ALPHA);
                        c.trace(n as u64, h(format!("{:?}", model(&keys, max).buckets)), name);
                    });
                }
            }
        }
    });
    let small: Vec<K> = vec![(0, 0), (1, 1), (1, 2), (1, 8), (-1, 1), (-1, 5)];
    c.scope("merge: all sequences cut into all contiguous parts, two ways to merge, with and without reading back", |c| {
        for n in 1..=depth {
            for w in words(small.len(), n) {
                let keys: Vec<K> = w.iter().map(|i| small[*i]).collect();
                for max in [2, 3, 5] {
                    if irreducible(&keys) > max {
                        continue;
                    }
                    for cuts in 0..1usize << n {
                        let mut parts: Vec<&[K]> = vec![];
                        let mut from = 0;
                        for i in 0..n {
                            if cuts >> i & 1 == 1 {
                                parts.push(&keys[from..i]);
                                from = i;
                            }
                        }
                        parts.push(&keys[from..]);
                        for how in 0..8 {
                            let name = || format!("merge {parts:?}, {max} buckets, how {how}");
                            c.case(name, |c| {
                                let s = merged(&parts, max, ALPHA, how);
                                check(c, &name, &s, &keys, max, ALPHA);
                                c.trace((n + parts.len()) as u64, h(format!("{:?}", model(&keys, max).buckets)), name);
                            });
                        }
                    }
                }
            }
        }
    });
    c.scope("compaction of exactly so many buckets, around the limits of the three code paths", |c| {
        let alpha = 0.001;
        for max in [1usize, 2, 3, 199, 200, 201, 202, 999, 1000, 1001, 1002, 4999, 5000, 5001, 5002] {
            for shape in 0..4usize {
                let n = max + 2;
                let keys: Vec<K> = (0..n as i64).map(|i| match shape {
                    0 => (1, 2 * i + 1),
                    1 => (1, i - n as i64 / 2),
                    2 => if max < 5 { (1, 3 * i + 1) } else if i % 3 == 0 { (-1, i) } else if i == 1 { (0, 0) } else { (1, i) },
                    // several compactions at once: keys far apart do not combine for a while
                    _ => (1, 1 + (i * 4 + (i % 2)) % 40_000),
                }).collect();
                if irreducible(&keys) > max {
                    continue;
                }
                for rev in [false, true] {
                    let mut keys = keys.clone();
                    if rev { keys.reverse(); }
                    let name = || format!("{n} buckets into {max}, shape {shape}, reversed {rev}");
                    c.case(name, |c| {
                        let s = build(&keys, max, alpha);
                        check(c, &name, &s, &keys, max, alpha);
                        let (a, b) = keys.split_at(n / 2);
                        let m = merged(&[a, b], max, alpha, 1);
                        check(c, &|| format!("merged {}", name()), &m, &keys, max, alpha);
                        c.trace(n as u64, h((max, shape)), name);
                    });
                }
            }
        }
    });
}

fn words(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    for _ in 0..n {
        r = r.into_iter().flat_map(|w| (0..k).map(move |i| { let mut w = w.clone(); w.push(i); w })).collect();
    }
    r
}
