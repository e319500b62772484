//! CountMinSketch at the level of its crate: counters after any sequence of additions, subtractions and
//! combinations are the exact counts of the rows' items, and an estimate is the least of an item's counters.
use crate::{h, Ctx};
use countminsketch::CountMinSketch;
#[allow(deprecated)]
use std::hash::SipHasher;
use std::hash::{Hash, Hasher};

#[allow(deprecated)]
fn bucket<T: Hash>(x: &T, row: usize, w: usize) -> usize {
    let mut s = SipHasher::new_with_keys(row as u64 + 1, 0x517cc1b727220a95);
    x.hash(&mut s);
    (s.finish() % w as u64) as usize
}

const ITEMS: [&str; 4] = ["a", "bb", "", "é"];

/// One token: 0..4 add an item, 4..8 take one away, 8 start the next part.
fn play(c: &mut Ctx, word: &[usize], w: usize, d: usize) {
    let name = || format!("width {w} depth {d} word {word:?}");
    c.case(name, |c| {
        let mut parts = vec![CountMinSketch::with_dim(w, d)];
        let mut counts = [0i64; 4];
        for &t in word {
            match t {
                0..=3 => { parts.last_mut().unwrap().add_value(ITEMS[t]); counts[t] += 1 }
                4..=7 => { parts.last_mut().unwrap().subtract_value(ITEMS[t - 4]); counts[t - 4] -= 1 }
                _ => parts.push(CountMinSketch::with_dim(w, d)),
            }
        }
        let mut exp = vec![vec![0i64; w]; d];
        for (i, n) in counts.iter().enumerate() {
            for (r, row) in exp.iter_mut().enumerate() {
                row[bucket(&ITEMS[i], r, w)] += n;
            }
        }
        let np = parts.len();
        let mut forms = vec![];
        // left to right, right to left, and through the raw parts
        forms.push(parts.iter().cloned().reduce(|mut a, b| { a.combine(b); a }).unwrap());
        forms.push(parts.iter().rev().cloned().reduce(|mut a, b| { a.combine(b); a }).unwrap());
        let f = &forms[0];
        let keys = f.hash_keys();
        forms.push(CountMinSketch::new(w, d, keys.iter().map(|k| countminsketch::CountMinHashFn::with_key(*k)).collect(), f.counters().clone()));
        for (k, f) in forms.iter().enumerate() {
            if *f.counters() != exp || f.width() != w || f.depth() != d {
                c.bad(format!("{} form {k}", name()), format!("{exp:?}"), format!("{:?}", f.counters()));
                return;
            }
            for (i, it) in ITEMS.iter().enumerate() {
                let e = (0..d).map(|r| exp[r][bucket(it, r, w)]).min().unwrap();
                let g = f.estimate(it);
                let b: Vec<usize> = (0..d).map(|r| bucket(it, r, w)).collect();
                if g != e || f.get_bucket_indices(it) != b || (word.iter().all(|t| *t < 4 || *t == 8) && g < counts[i]) {
                    c.bad(format!("{} form {k} item {it:?}", name()), format!("estimate {e} buckets {b:?}"), format!("estimate {g} buckets {:?}", f.get_bucket_indices(it)));
                    return;
                }
            }
        }
        c.trace((word.len() + np) as u64, h(&exp), name);
    });
}

pub fn run(c: &mut Ctx) {
    c.scope("all sequences of add, subtract and next part, combined both ways", |c| {
        let n = if c.thorough { 7 } else { 6 };
        let mut frontier: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..=n {
            let mut next = vec![];
            for word in &frontier {
                for (w, d) in [(1, 1), (2, 3), (3, 2), (7, 1)] {
                    play(c, word, w, d);
                }
                if word.len() < n {
                    for t in 0..9 {
                        let mut x = word.clone();
                        x.push(t);
                        next.push(x);
                    }
                }
            }
            frontier = next;
        }
    });
    c.scope("sizes from error and probability", |c| {
        for i in 1..=99 {
            for j in 1..=99 {
                let (e, p) = (i as f64 / 100.0, j as f64 / 100.0);
                let s = CountMinSketch::with_prob(e, p);
                let (w, d) = (s.width() as f64, s.depth() as f64);
                // the least width w with e/w <= error, the least depth d with exp(-d) <= probability
                let ok = std::f64::consts::E / w <= e * (1.0 + 1e-12) && std::f64::consts::E / (w - 1.0) > e * (1.0 - 1e-12)
                    && (-d).exp() <= p * (1.0 + 1e-12) && (-(d - 1.0)).exp() > p * (1.0 - 1e-12);
                let keys: Vec<u64> = (1..=s.depth() as u64).collect();
                if !ok || s.hash_keys() != keys || s.counters().len() != s.depth() || s.counters().iter().any(|r| r.len() != s.width() || r.iter().any(|x| *x != 0)) {
                    c.bad(format!("with_prob({e}, {p})"), "least width and depth for these bounds, all counters 0".into(), format!("width {w} depth {d} keys {:?}", s.hash_keys()));
                }
                c.trace(1, h((s.width(), s.depth())), || format!("with_prob({e},{p})"));
            }
        }
    });
}
