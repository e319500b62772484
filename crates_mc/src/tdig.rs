use crate::{h, Ctx};
use tdigest::{Builder, TDigest};

/// The values of part i of k, of one of six shapes.
fn part(shape: usize, i: usize, k: usize) -> Vec<i64> {
    let (i, k) = (i as i64, k as i64);
    match shape {
        0 => vec![],
        1 => vec![100 * i + 7],
        2 => (0..8).map(|j| i + 3 * k * j).collect(),
        3 => (0..60).map(|j| (j * 370 + i * 113) % 10007).collect(),
        4 => vec![50; 12],
        _ => (0..40).map(|j| 2000 * ((i * 5) % 7) + j * j).collect(),
    }
}

fn digest(v: &[i64], size: usize) -> TDigest {
    TDigest::new_with_size(size).merge_unsorted(v.iter().map(|x| *x as f64).collect())
}

/// k1 scale function, inverse of 2(k/d)^2.
fn k_of(q: f64, d: f64) -> f64 {
    if q < 0.5 { d * (q / 2.0).max(0.0).sqrt() } else { d * (1.0 - ((1.0 - q) / 2.0).max(0.0).sqrt()) }
}

fn basic(c: &mut Ctx, name: &dyn Fn() -> String, r: &TDigest, all: &[i64]) -> bool {
    let n = all.len() as u64;
    let sum: i64 = all.iter().sum();
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + b.abs());
    let w: u64 = r.raw_centroids().iter().map(|x| x.weight()).sum();
    if r.count() != n || w != n || !near(r.sum(), sum as f64) || (n > 0 && !near(r.mean(), sum as f64 / n as f64)) || r.is_empty() != (n == 0) {
        c.bad(name(), format!("{n} values, sum {sum}"), format!("count {} weights {w} sum {} mean {}", r.count(), r.sum(), r.mean()));
        return false;
    }
    if r.num_buckets() != r.raw_centroids().len() || r.num_buckets() > r.max_size() {
        c.bad(name(), format!("at most {} centroids", r.max_size()), format!("{}", r.raw_centroids().len()));
        return false;
    }
    if n == 0 {
        return true;
    }
    let (lo, hi) = (*all.iter().min().unwrap() as f64, *all.iter().max().unwrap() as f64);
    if r.min() != lo || r.max() != hi {
        c.bad(name(), format!("min {lo} max {hi}"), format!("min {} max {}", r.min(), r.max()));
        return false;
    }
    let cs = r.raw_centroids();
    if cs.windows(2).any(|w| w[0].mean() > w[1].mean()) || cs.iter().any(|x| x.mean() < lo - 1e-9 || x.mean() > hi + 1e-9) {
        c.bad(name(), "ordered centroids between min and max".into(), format!("{cs:?}"));
        return false;
    }
    let mut prev = f64::NEG_INFINITY;
    for i in 0..=40 {
        let e = r.estimate_quantile(i as f64 / 40.0);
        if e.is_nan() || e < lo - 1e-9 || e > hi + 1e-9 || e < prev - 1e-9 * (1.0 + prev.abs()) {
            c.bad(name(), format!("quantiles between {lo} and {hi}, rising"), format!("q {i}/40: {e} after {prev}"));
            return false;
        }
        prev = e;
    }
    let mut prev = 0.0;
    for i in 0..=40 {
        let e = r.estimate_quantile_at_value(lo - 1.0 + (hi - lo + 2.0) * i as f64 / 40.0);
        if e.is_nan() || !(0.0..=1.0).contains(&e) || e < prev - 1e-9 {
            c.bad(name(), "ranks between 0 and 1, rising".into(), format!("{i}/40: {e} after {prev}"));
            return false;
        }
        prev = e;
    }
    true
}

/// The merged digest's clusters are runs of the inputs' centroids in order of their means, and a run of several
/// is no wider than the scale function allows.
fn runs(c: &mut Ctx, name: &dyn Fn() -> String, r: &TDigest, inputs: &[TDigest]) -> bool {
    let mut cs: Vec<(f64, u64)> = inputs.iter().flat_map(|d| d.raw_centroids().iter().map(|x| (x.mean(), x.weight()))).collect();
    cs.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let n: u64 = cs.iter().map(|x| x.1).sum();
    // cumulative sum of the inputs at weight w, if w does not cut a centroid (those of one mean may come in any order)
    let at = |w: u64| -> Option<f64> {
        let (mut acc, mut s) = (0u64, 0.0);
        let mut i = 0;
        while i < cs.len() {
            let mut j = i;
            let mut wt = 0;
            while j < cs.len() && cs[j].0 == cs[i].0 {
                wt += cs[j].1;
                j += 1;
            }
            if w < acc + wt {
                return if w == acc || j > i + 1 { Some(s + cs[i].0 * (w - acc) as f64) } else { None };
            }
            acc += wt;
            s += cs[i].0 * wt as f64;
            i = j;
        }
        Some(s)
    };
    let d = r.max_size() as f64;
    let (mut w, mut s) = (0u64, 0.0);
    for x in r.raw_centroids() {
        let first = cs.iter().scan(0u64, |a, y| { *a += y.1; Some((*a, y.1)) }).find(|(a, _)| *a > w).map_or(0, |y| y.1);
        let start = w + first;
        w += x.weight();
        s += x.mean() * x.weight() as f64;
        match at(w) {
            Some(t) if (t - s).abs() <= 1e-7 * (1.0 + s.abs()) => {}
            t => {
                c.bad(name(), format!("clusters are runs of neighbouring centroids (sum {t:?} at weight {w})"), format!("sum {s}, centroids {:?}", r.raw_centroids()));
                return false;
            }
        }
        let unit = cs.iter().all(|y| y.1 == 1);
        if unit && w > start && k_of(w as f64 / n as f64, d) - k_of(start as f64 / n as f64, d) > 1.0 + 1e-6 {
            c.bad(name(), "a cluster no wider than the scale function allows".into(), format!("weight {} ending at {w} of {n}", x.weight()));
            return false;
        }
    }
    true
}

fn words(a: usize, n: usize) -> Vec<Vec<usize>> {
    (0..n).fold(vec![vec![]], |w, _| w.iter().flat_map(|x: &Vec<usize>| (0..a).map(|y| { let mut z = x.clone(); z.push(y); z }).collect::<Vec<_>>()).collect())
}

fn merge_case(c: &mut Ctx, shapes: &[usize], size: usize, trees: bool) {
    let name = || format!("merge of parts {shapes:?}, size {size}");
    c.case(name, |c| {
        let vals: Vec<Vec<i64>> = shapes.iter().enumerate().map(|(i, s)| part(*s, i, shapes.len())).collect();
        let all: Vec<i64> = vals.concat();
        let ds: Vec<TDigest> = vals.iter().map(|v| digest(v, size)).collect();
        for (v, d) in vals.iter().zip(&ds) {
            if !basic(c, &|| format!("digest of {v:?}, size {size}"), d, v) {
                return;
            }
        }
        let r = TDigest::merge_digests(ds.clone());
        if r.max_size() != size {
            c.bad(name(), size.to_string(), r.max_size().to_string());
        }
        if basic(c, &name, &r, &all) && !all.is_empty() {
            runs(c, &name, &r, &ds);
        }
        if trees && ds.len() > 1 {
            let left = ds[1..].iter().fold(ds[0].clone(), |a, b| TDigest::merge_digests(vec![a, b.clone()]));
            basic(c, &|| format!("left fold, {}", name()), &left, &all);
            let right = ds[..ds.len() - 1].iter().rev().fold(ds[ds.len() - 1].clone(), |a, b| TDigest::merge_digests(vec![b.clone(), a]));
            basic(c, &|| format!("right fold, {}", name()), &right, &all);
            // builders with values that are still in their buffers
            let mut b = Builder::with_size(size);
            for (i, v) in vals.iter().enumerate() {
                let mut o = Builder::with_size(size);
                for (j, x) in v.iter().enumerate() {
                    if (i + j) % 2 == 0 { b.push(*x as f64) } else { o.push(*x as f64) }
                }
                if i % 3 == 2 {
                    o.build();
                }
                b.merge(o);
            }
            basic(c, &|| format!("builders, {}", name()), &b.build(), &all);
            basic(c, &|| format!("builders, built twice, {}", name()), &b.build(), &all);
        }
        c.trace(shapes.len() as u64 * 3, h((r.count(), r.num_buckets(), r.sum().to_bits(), size)), name);
    });
}

pub fn run(c: &mut Ctx) {
    let sizes: &[usize] = if c.thorough { &[1, 2, 3, 5, 10, 20, 50, 100, 200] } else { &[2, 5, 10, 50, 100] };
    c.scope("all words of up to 4 parts of 6 shapes", |c| {
        c.case(|| "merge of nothing".into(), |c| {
            if TDigest::merge_digests(vec![]).count() != 0 {
                c.bad("merge of nothing".into(), "0".into(), "values".into());
            }
        });
        for n in 1..=if c.thorough { 5 } else { 4 } {
            for w in words(6, n) {
                for &s in sizes {
                    merge_case(c, &w, s, true);
                }
            }
        }
    });
    c.scope("periodic words of up to 17 (thorough 40) parts", |c| {
        for n in 5..=if c.thorough { 40 } else { 17 } {
            for p in 1..=3 {
                for w in words(6, p) {
                    let word: Vec<usize> = (0..n).map(|i| w[i % p]).collect();
                    for &s in &[5, 20, 100] {
                        merge_case(c, &word, s, false);
                    }
                }
            }
        }
    });
    c.scope("centroids handed in, merged down to a smaller size", |c| {
        for n in 1..=60usize {
            for &s in sizes {
                let name = || format!("new() with {n} centroids, size {s}");
                c.case(name, |c| {
                    let all: Vec<i64> = (0..n as i64).map(|i| i * i - 30 * i).collect();
                    let d = digest(&all, 400);
                    let r = TDigest::new(d.raw_centroids().to_vec(), d.sum(), d.count(), d.max(), d.min(), s);
                    if basic(c, &name, &r, &all) {
                        runs(c, &name, &r, &[d]);
                    }
                    c.trace(2, h((r.num_buckets(), s, n)), name);
                });
            }
        }
    });
}
