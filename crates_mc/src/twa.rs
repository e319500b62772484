use crate::{h, Ctx};
use counter_agg::range::I64Range;
use time_weighted_average::{TimeWeightMethod, TimeWeightSummary};
use tspoint::TSPoint;

type P = (i64, i64);

/// Twice the integral (exact: every value is a multiple of 1/D).
const D: i128 = 5040;
fn val_at(m: u8, a: P, b: Option<P>, t: i64) -> Option<i128> {
    if t == a.0 {
        return Some(a.1 as i128 * D);
    }
    match (m, b) {
        (0, _) => Some(a.1 as i128 * D),
        (_, Some(b)) => Some(a.1 as i128 * D + (b.1 - a.1) as i128 * D * (t - a.0) as i128 / (b.0 - a.0) as i128),
        _ => None,
    }
}
fn area2(m: u8, a: (i64, i128), b: (i64, i128)) -> i128 {
    (b.0 - a.0) as i128 * if m == 0 { 2 * a.1 } else { a.1 + b.1 }
}

pub fn run(c: &mut Ctx) {
    let meth = [TimeWeightMethod::LOCF, TimeWeightMethod::Linear];
    let vals = [-1i64, 0, 3];
    let pt = |p: P| TSPoint { ts: p.0, val: p.1 as f64 };
    // series of 1..3 points in 10..=14, previous in 4..=10, start in 4..=11, end in 13..=18, next in 13..=19
    let mut series: Vec<Vec<P>> = vec![];
    for &a in &vals {
        series.push(vec![(10, a)]);
        for &b in &vals {
            series.push(vec![(10, a), (13, b)]);
            series.push(vec![(10, a), (11, b)]);
            for &d in &vals {
                series.push(vec![(10, a), (12, b), (13, d)]);
            }
        }
    }
    c.scope("with_bounds", |c| {
        for (mi, m) in meth.iter().enumerate() {
            let mi = mi as u8;
            for s in &series {
                let pts: Vec<TSPoint> = s.iter().map(|p| pt(*p)).collect();
                let sum = TimeWeightSummary::new_from_sorted_iter(&pts, *m).unwrap();
                let (first, last) = (s[0], *s.last().unwrap());
                let mut prevs = vec![None];
                for start in 6..=11 {
                    for t in [6, 8, 9, 10] {
                        for &v in &vals {
                            prevs.push(Some((start, (t, v))));
                        }
                    }
                }
                let mut nexts = vec![None];
                for end in last.0 - 1..=last.0 + 4 {
                    nexts.push(Some((end, None)));
                    for t in [last.0, last.0 + 1, last.0 + 3, last.0 + 4] {
                        for &v in &vals {
                            nexts.push(Some((end, Some((t, v)))));
                        }
                    }
                }
                for p in &prevs {
                    for n in &nexts {
                        let name = || format!("{m:?} {s:?} prev {p:?} next {n:?}");
                        c.case(name, |c| {
                            let got = sum.with_bounds(p.map(|(t, q)| (t, pt(q))), n.map(|(t, q)| (t, q.map(pt))));
                            // the first value and the area that the start adds
                            let mut ok = true;
                            let mut f = (first.0, first.1 as i128 * D);
                            let mut total = 0i128;
                            for w in s.windows(2) {
                                total += area2(mi, (w[0].0, w[0].1 as i128 * D), (w[1].0, w[1].1 as i128 * D));
                            }
                            if let Some((start, q)) = *p {
                                if q.0 >= first.0 || start > first.0 || q.0 > start {
                                    ok = false;
                                } else if start < first.0 {
                                    let v = val_at(mi, q, Some(first), start).unwrap();
                                    total += area2(mi, (start, v), (first.0, first.1 as i128 * D));
                                    f = (start, v);
                                }
                            }
                            let mut l = (last.0, last.1 as i128 * D);
                            if let Some((end, q)) = *n {
                                if end < last.0 {
                                    ok = false;
                                } else if end > last.0 {
                                    match q {
                                        Some(q) if q.0 < end => ok = false,
                                        None if mi == 1 => ok = false,
                                        _ => {
                                            let v = val_at(mi, last, q, end).unwrap();
                                            total += area2(mi, (last.0, last.1 as i128 * D), (end, v));
                                            l = (end, v);
                                        }
                                    }
                                }
                            }
                            let fl = |x: i128| x as f64 / D as f64;
                            let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + b.abs());
                            match (&got, ok) {
                                (Err(_), false) => {}
                                (Ok(g), true) => {
                                    let w = (f.0, fl(f.1), l.0, fl(l.1), fl(total) / 2.0);
                                    let x = (g.first.ts, g.first.val, g.last.ts, g.last.val, g.time_weighted_integral());
                                    if (w.0, w.2) != (x.0, x.2) || !near(x.1, w.1) || !near(x.3, w.3) || !near(x.4, w.4) {
                                        c.bad(name(), format!("{w:?}"), format!("{x:?}"));
                                    } else if l.0 > f.0 {
                                        let a = g.time_weighted_average();
                                        if !a.as_ref().is_ok_and(|a| near(*a, w.4 / (l.0 - f.0) as f64)) {
                                            c.bad(name(), format!("average {}", w.4 / (l.0 - f.0) as f64), format!("{a:?}"));
                                        }
                                    } else if g.time_weighted_average().is_ok() {
                                        c.bad(name(), "no average of an instant".into(), format!("{g:?}"));
                                    }
                                }
                                _ => c.bad(name(), if ok { "a summary" } else { "an error" }.into(), format!("{got:?}")),
                            }
                            c.trace(2, h((f, l, total, ok)), name);
                        });
                    }
                }
            }
        }
    });
    c.scope("accum, combine", |c| {
        // all sequences of up to 5 points over 4 times and 2 values, in order or not, split at every place
        let times = [0i64, 1, 2, 5];
        let k = if c.thorough { 6 } else { 5 };
        for (mi, m) in meth.iter().enumerate() {
            let mut stack: Vec<Vec<P>> = vec![vec![]];
            while let Some(s) = stack.pop() {
                if s.len() < k {
                    for &t in &times {
                        for v in [1i64, 4] {
                            let mut x = s.clone();
                            x.push((t, v));
                            stack.push(x);
                        }
                    }
                }
                let name = || format!("{m:?} {s:?}");
                c.case(name, |c| {
                    // the model: points in order, the first at a time counts
                    let sorted = s.windows(2).all(|w| w[0].0 <= w[1].0);
                    let mut d: Vec<P> = vec![];
                    for p in &s {
                        if d.last().is_none_or(|l| l.0 != p.0) {
                            d.push(*p);
                        }
                    }
                    let total: i128 = d.windows(2).map(|w| area2(mi as u8, (w[0].0, w[0].1 as i128), (w[1].0, w[1].1 as i128))).sum();
                    let pts: Vec<TSPoint> = s.iter().map(|p| pt(*p)).collect();
                    let g = TimeWeightSummary::new_from_sorted_iter(&pts, *m);
                    match &g {
                        Ok(g) => {
                            if !sorted || s.is_empty() || g.first != pt(d[0]) || g.last != pt(*d.last().unwrap()) || (g.time_weighted_integral() * 2.0 - total as f64).abs() > 1e-9 {
                                c.bad(name(), format!("{sorted} {d:?} {total}/2"), format!("{g:?}"));
                            }
                        }
                        Err(_) => {
                            if sorted && !s.is_empty() {
                                c.bad(name(), "a summary".into(), format!("{g:?}"));
                            }
                        }
                    }
                    if sorted {
                        for cut in 1..s.len() {
                            let a = TimeWeightSummary::new_from_sorted_iter(&pts[..cut], *m).unwrap();
                            let b = TimeWeightSummary::new_from_sorted_iter(&pts[cut..], *m).unwrap();
                            let both = a.combine(&b);
                            let it = TimeWeightSummary::combine_sorted_iter([&a, &b]);
                            if both != it {
                                c.bad(name(), format!("{both:?}"), format!("combine_sorted_iter {it:?}"));
                            }
                            if pts[cut - 1].ts < pts[cut].ts {
                                let g = g.as_ref().unwrap();
                                if !both.as_ref().is_ok_and(|x| x.first == g.first && x.last == g.last && (x.w_sum - g.w_sum).abs() < 1e-9) {
                                    c.bad(format!("{} cut at {cut}", name()), format!("{g:?}"), format!("{both:?}"));
                                }
                            } else if both.is_ok() {
                                c.bad(format!("{} cut at {cut}", name()), "an error: the parts touch".into(), format!("{both:?}"));
                            }
                            let other = TimeWeightSummary::new_from_sorted_iter(&pts[cut..], meth[1 - mi]).unwrap();
                            if a.combine(&other).is_ok() || other.combine(&a).is_ok() {
                                c.bad(format!("{} cut at {cut}", name()), "methods differ: an error".into(), "a summary".into());
                            }
                        }
                    }
                    c.trace(s.len() as u64 * 2, h((mi, &d, sorted)), name);
                });
            }
        }
    });
    c.scope("ranges", |c| {
        let lim: Vec<Option<i64>> = std::iter::once(None).chain([i64::MIN, i64::MIN + 1, -3, -1, 0, 1, 2, 5, i64::MAX - 1, i64::MAX].map(Some)).collect();
        let valid = |r: &I64Range| !matches!((r.left, r.right), (Some(a), Some(b)) if a > b);
        let mut rs = vec![];
        for &l in &lim {
            for &r in &lim {
                rs.push(I64Range { left: l, right: r });
            }
        }
        for a in &rs {
            c.case(|| format!("{a:?}"), |c| {
                for p in lim.iter().flatten() {
                    let w = a.left.is_none_or(|l| *p >= l) && a.right.is_none_or(|r| *p < r);
                    if a.contains(*p) != w {
                        c.bad(format!("{a:?} contains {p}"), w.to_string(), a.contains(*p).to_string());
                    }
                }
                let w = match (a.left, a.right) {
                    (Some(l), Some(r)) if l <= r => (r as i128 - l as i128).try_into().map(|x: i64| Some(x)).unwrap_or(Some(-1)),
                    _ => None,
                };
                if w != Some(-1) && a.duration() != w {
                    c.bad(format!("{a:?} duration"), format!("{w:?}"), format!("{:?}", a.duration()));
                }
                if a.is_singleton() != (a.left.is_some() && a.left == a.right) || a.has_infinite() != (a.left.is_none() || a.right.is_none()) {
                    c.bad(format!("{a:?} singleton, infinite"), "".into(), format!("{} {}", a.is_singleton(), a.has_infinite()));
                }
                for b in rs.iter().filter(|b| valid(a) && valid(b)) {
                    let mut x = *a;
                    x.extend(b);
                    let w = I64Range { left: if a.left.is_none() || b.left.is_none() { None } else { a.left.min(b.left) }, right: if a.right.is_none() || b.right.is_none() { None } else { a.right.max(b.right) } };
                    if x != w {
                        c.bad(format!("{a:?} extend {b:?}"), format!("{w:?}"), format!("{x:?}"));
                    }
                    c.trace(1, h((w.left, w.right)), || format!("{a:?} extend {b:?}"));
                }
                c.trace(14, h((a.left, a.right)), || format!("{a:?}"));
            });
        }
    });
}
