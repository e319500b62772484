use crate::{h, Ctx};
use flat_serialize::{FlatSerializable, Slice, WrapErr};
use flat_serialize_macro::{flat_serialize, FlatSerializable};

flat_serialize! {
    #[derive(Debug)]
    struct Basic<'input> { header: u64, data_len: u32, array: [u16; 3], data: [u8; self.data_len], data2: [[u8; 2]; self.data_len / 3], }
}
flat_serialize! {
    #[derive(Debug, PartialEq, Eq)]
    struct Opt { header: u64, optional_field: u32 if self.header != 1, non_optional_field: u16, }
}
flat_serialize! {
    #[derive(Debug)]
    struct NestedOptional { present: u64, val: Opt if self.present > 2, }
}
flat_serialize! {
    #[derive(Debug)]
    struct Nested<'a> { prefix: u64, basic: Basic<'a>, }
}
flat_serialize! {
    #[derive(Debug)]
    struct NestedSlice<'b> { num_vals: u64, vals: [Opt; self.num_vals], }
}
flat_serialize! {
    #[derive(Debug, PartialEq, Eq)]
    enum BasicEnum<'input> { k: u64, First: 2 { data_len: u32, data: [u8; self.data_len], }, Fixed: 3 { array: [u16; 3], }, }
}
flat_serialize! {
    #[derive(Debug)]
    struct ManyEnum<'input> { count: u64, enums: [BasicEnum<'input>; self.count], }
}
flat_serialize! {
    #[derive(Debug, PartialEq, Eq)]
    enum Padded<'input> { k: u8, First: 2 { padding: [u8; 3], data_len: u32, data: [u8; self.data_len], }, Fixed: 3 { padding: u8, array: [u16; 3], }, Empty: 7 { one: u8, }, }
}
flat_serialize! {
    #[derive(Debug)]
    struct Wide<'input> { n: u64, m: u64, a: [f64; self.n], b: [[u32; 2]; self.m], c: [u32; self.n + self.m], d: [u16; self.n * 2], e: [u8; self.m], }
}
#[derive(Debug, PartialEq, Clone, Copy, FlatSerializable)]
#[repr(C)]
struct Fixed { a: i64, b: f64, c: [i32; 2], }
flat_serialize! {
    #[derive(Debug)]
    struct FixedSlice<'input> { n: u32, m: u32, f: Fixed, v: [Fixed; self.n], w: [u32; self.m], }
}

fn u8s(n: usize, s: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(s)).collect()
}
fn le(b: &mut Vec<u8>, x: &[u8]) {
    b.extend_from_slice(x)
}

/// `v` is written as exactly `want`, read back from it whatever follows, refused when anything is missing;
/// a copy that owns its data is written the same.
macro_rules! check {
    ($c:expr, $t:ident, $v:expr, $want:expr, $real:expr) => {{
        let want: Vec<u8> = $want;
        let real: usize = $real;
        let name = || format!("{} {:?}", stringify!($t), want);
        $c.case(name, |c| {
            let v = $v;
            if v.num_bytes() != want.len() {
                c.bad(name(), format!("num_bytes {}", want.len()), v.num_bytes().to_string());
            }
            let mut out = vec![];
            v.fill_vec(&mut out);
            if out != want {
                return c.bad(name(), format!("{want:?}"), format!("written as {out:?}"));
            }
            for tail in [&[][..], &[1, 2, 3], &[0; 16]] {
                // the tail starts where the value ends: only behind a value without trailing padding
                if !tail.is_empty() && real != want.len() {
                    continue;
                }
                let mut b = want.clone();
                b.extend_from_slice(tail);
                let (mut r, rem) = unsafe { $t::try_ref(&b).unwrap() };
                if rem != tail || format!("{r:?}") != format!("{v:?}") {
                    c.bad(name(), format!("{v:?} and {tail:?}"), format!("read as {r:?} and {rem:?}"));
                }
                let mut o = vec![];
                r.fill_vec(&mut o);
                if o != want || r.num_bytes() != want.len() {
                    c.bad(name(), format!("{want:?}"), format!("what was read is written as {o:?}"));
                }
                r.make_owned();
                let mut o = vec![];
                r.fill_vec(&mut o);
                let n1 = r.num_bytes();
                let own = r.into_owned();
                let mut o2 = vec![];
                own.fill_vec(&mut o2);
                if o != want || o2 != want || n1 != want.len() || own.num_bytes() != want.len() || format!("{own:?}") != format!("{v:?}") {
                    c.bad(name(), format!("{want:?}"), format!("its owned copy is written as {o:?} / {o2:?}"));
                }
            }
            for i in 0..real {
                let b = want[..i].to_vec();
                if !matches!(unsafe { $t::try_ref(&b) }, Err(WrapErr::NotEnoughBytes(_))) {
                    c.bad(name(), format!("the first {i} bytes are not enough"), "accepted".into());
                }
            }
            if $t::MIN_LEN > want.len() {
                c.bad(name(), "MIN_LEN is a lower bound".into(), $t::MIN_LEN.to_string());
            }
            c.trace(6 + real as u64, h(&want), name);
        });
    }};
}

/// Every way to look at a slice sees the same elements.
fn slice<'a, T: FlatSerializable<'a> + Clone + PartialEq + std::fmt::Debug>(c: &mut Ctx, what: &str, s: &Slice<'a, T>, want: &[T]) {
    let n = want.len();
    let v: Vec<T> = s.iter().collect();
    let mut o = s.clone();
    o.make_owned();
    let w: Vec<T> = s.clone().into_iter().collect();
    if v != want || w != want || o.as_slice() != want || s.len() != n || s.is_empty() != (n == 0) || s.iter().is_empty() != (n == 0) || o.len() != n || *s != o {
        c.bad(format!("{what} {want:?}"), format!("{want:?}"), format!("{v:?} {w:?} len {} empty {}", s.len(), s.is_empty()));
    }
    if s.iter().len() != n {
        c.bad(format!("{what} {want:?}"), format!("iter().len() {n}"), s.iter().len().to_string());
    }
    for i in 0..n + 2 {
        let mut it = s.iter();
        if it.nth(i) != want.get(i).cloned() || it.next() != want.get(i + 1).cloned() {
            c.bad(format!("{what} {want:?}"), format!("nth({i})"), format!("{:?}", s.iter().nth(i)));
        }
    }
    c.trace(n as u64 + 4, h(format!("{want:?}")), || what.to_string());
}

fn opt(hd: u64, o: u32, x: u16) -> (Opt, Vec<u8>) {
    let f = if hd != 1 { Some(o) } else { None };
    let mut b = hd.to_ne_bytes().to_vec();
    if let Some(o) = f {
        le(&mut b, &o.to_ne_bytes());
    }
    le(&mut b, &x.to_ne_bytes());
    (Opt { header: hd, optional_field: f, non_optional_field: x }, b)
}

fn en(kind: usize) -> (BasicEnum<'static>, Vec<u8>) {
    if kind < 9 {
        let d = u8s(kind, kind as u8);
        let mut b = 2u64.to_ne_bytes().to_vec();
        le(&mut b, &(kind as u32).to_ne_bytes());
        le(&mut b, &d);
        (BasicEnum::First { data_len: kind as u32, data: d.into() }, b)
    } else {
        let a = [kind as u16, 0xFFFF, 258];
        let mut b = 3u64.to_ne_bytes().to_vec();
        for x in a {
            le(&mut b, &x.to_ne_bytes());
        }
        (BasicEnum::Fixed { array: a }, b)
    }
}
fn pad(b: &mut Vec<u8>, to: usize) {
    while b.len() % to != 0 {
        b.push(0);
    }
}
fn basic(hd: u64, n: usize) -> (Vec<u8>, Vec<u8>, Vec<[u8; 2]>) {
    let (d, d2): (Vec<u8>, Vec<[u8; 2]>) = (u8s(n, 1), (0..n / 3).map(|i| [i as u8, 200 - i as u8]).collect());
    let mut b = hd.to_ne_bytes().to_vec();
    le(&mut b, &(n as u32).to_ne_bytes());
    for x in [1u16, 0xABCD, 0xFFFF] {
        le(&mut b, &x.to_ne_bytes());
    }
    le(&mut b, &d);
    for x in &d2 {
        le(&mut b, x);
    }
    (b, d, d2)
}

pub fn run(c: &mut Ctx) {
    let m = if c.thorough { 70 } else { 20 };
    let heads = [0u64, 1, 2, 3, 255, 256, u64::MAX - 1, u64::MAX];
    c.scope("structs with arrays", |c| {
        for hd in heads {
            for n in 0..m {
                let (b, d, d2) = basic(hd, n);
                let l = b.len();
                let arr = [1u16, 0xABCD, 0xFFFF];
                check!(c, Basic, Basic { header: hd, data_len: n as u32, array: arr, data: (&d[..]).into(), data2: (&d2[..]).into() }, b.clone(), l);
                check!(c, Basic, Basic { header: hd, data_len: n as u32, array: arr, data: d.clone().into(), data2: d2.clone().into() }, b.clone(), l);
                for pre in heads {
                    let mut x = pre.to_ne_bytes().to_vec();
                    x.extend_from_slice(&b);
                    let l = x.len();
                    check!(c, Nested, Nested { prefix: pre, basic: Basic { header: hd, data_len: n as u32, array: arr, data: (&d[..]).into(), data2: d2.clone().into() } }, x, l);
                }
                let (r, _) = unsafe { Basic::try_ref(&b).unwrap() };
                slice(c, "u8 slice", &r.data, &d);
                slice(c, "[u8; 2] slice", &r.data2, &d2);
            }
        }
        for n in 0..if c.thorough { 12u64 } else { 7 } {
            for k in 0..if c.thorough { 12u64 } else { 7 } {
                let a: Vec<f64> = (0..n).map(|i| i as f64 * 1.5 - 2.0).collect();
                let b: Vec<[u32; 2]> = (0..k).map(|i| [i as u32, u32::MAX - i as u32]).collect();
                let cc: Vec<u32> = (0..n + k).map(|i| i as u32 * 77777).collect();
                let d: Vec<u16> = (0..2 * n).map(|i| i as u16 * 999).collect();
                let e = u8s(k as usize, 9);
                let mut w = n.to_ne_bytes().to_vec();
                le(&mut w, &k.to_ne_bytes());
                a.iter().for_each(|x| le(&mut w, &x.to_ne_bytes()));
                b.iter().flatten().for_each(|x| le(&mut w, &x.to_ne_bytes()));
                cc.iter().for_each(|x| le(&mut w, &x.to_ne_bytes()));
                d.iter().for_each(|x| le(&mut w, &x.to_ne_bytes()));
                le(&mut w, &e);
                let l = w.len();
                check!(c, Wide, Wide { n, m: k, a: (&a[..]).into(), b: b.clone().into(), c: (&cc[..]).into(), d: d.clone().into(), e: (&e[..]).into() }, w, l);
                let f = |i: u64| Fixed { a: -(i as i64), b: i as f64 / 3.0, c: [i as i32, -7] };
                let fb = |w: &mut Vec<u8>, f: &Fixed| { le(w, &f.a.to_ne_bytes()); le(w, &f.b.to_ne_bytes()); le(w, &f.c[0].to_ne_bytes()); le(w, &f.c[1].to_ne_bytes()) };
                let v: Vec<Fixed> = (1..=n).map(f).collect();
                let u: Vec<u32> = (0..k as u32).map(|x| x * 1000003).collect();
                let mut w = (n as u32).to_ne_bytes().to_vec();
                le(&mut w, &(k as u32).to_ne_bytes());
                fb(&mut w, &f(99));
                v.iter().for_each(|x| fb(&mut w, x));
                u.iter().for_each(|x| le(&mut w, &x.to_ne_bytes()));
                let l = w.len();
                check!(c, FixedSlice, FixedSlice { n: n as u32, m: k as u32, f: f(99), v: (&v[..]).into(), w: u.clone().into() }, w.clone(), l);
                let (r, _) = unsafe { FixedSlice::try_ref(&w).unwrap() };
                slice(c, "slice of structs", &r.v, &v);
            }
        }
    });
    c.scope("optional fields", |c| {
        for hd in heads {
            for o in [0u32, 1, 0xDEADBEEF, u32::MAX] {
                for x in [0u16, 0xF00F, u16::MAX] {
                    let (v, b) = opt(hd, o, x);
                    let l = b.len();
                    check!(c, Opt, Opt { header: v.header, optional_field: v.optional_field, non_optional_field: v.non_optional_field }, b, l);
                    for p in 0..6u64 {
                        let (v, b) = opt(hd, o, x);
                        let mut w = p.to_ne_bytes().to_vec();
                        if p > 2 {
                            w.extend_from_slice(&b);
                        }
                        let l = w.len();
                        check!(c, NestedOptional, NestedOptional { present: p, val: if p > 2 { Some(Opt { header: v.header, optional_field: v.optional_field, non_optional_field: v.non_optional_field }) } else { None } }, w, l);
                    }
                }
            }
        }
    });
    c.scope("slices of values of different lengths", |c| {
        // all words of up to 4 (5) elements; elements are aligned by zero bytes after each of them
        let elems: Vec<(u64, u32, u16)> = vec![(1, 0, 5), (0, 7, 9), (77, u32::MAX, 0)];
        let k = if c.thorough { 6 } else { 4 };
        let mut st: Vec<Vec<usize>> = vec![vec![]];
        while let Some(w) = st.pop() {
            if w.len() < k {
                for i in 0..elems.len() {
                    st.push([&w[..], &[i]].concat());
                }
            }
            let mut b = (w.len() as u64).to_ne_bytes().to_vec();
            let mut real = 8;
            let mk = || w.iter().map(|i| opt(elems[*i].0, elems[*i].1, elems[*i].2).0).collect::<Vec<Opt>>();
            for i in &w {
                le(&mut b, &opt(elems[*i].0, elems[*i].1, elems[*i].2).1);
                real = b.len();
                pad(&mut b, 8);
            }
            check!(c, NestedSlice, NestedSlice { num_vals: w.len() as u64, vals: mk().into() }, b.clone(), real);
            c.case(|| format!("NestedSlice {w:?}"), |c| {
                let (r, _) = unsafe { NestedSlice::try_ref(&b).unwrap() };
                slice_opt(c, &r.vals, &mk());
            });
        }
        let kinds = [0usize, 1, 4, 6, 9];
        let mut st: Vec<Vec<usize>> = vec![vec![]];
        while let Some(w) = st.pop() {
            if w.len() < k {
                for i in kinds {
                    st.push([&w[..], &[i]].concat());
                }
            }
            let mut b = (w.len() as u64).to_ne_bytes().to_vec();
            let mut real = 8;
            for i in &w {
                le(&mut b, &en(*i).1);
                real = b.len();
                pad(&mut b, 8);
            }
            let mk = || w.iter().map(|i| en(*i).0).collect::<Vec<_>>();
            check!(c, ManyEnum, ManyEnum { count: w.len() as u64, enums: mk().into() }, b.clone(), real);
            c.case(|| format!("ManyEnum {w:?}"), |c| {
                let (r, _) = unsafe { ManyEnum::try_ref(&b).unwrap() };
                let v: Vec<String> = r.enums.iter().map(|x| format!("{x:?}")).collect();
                let want: Vec<String> = mk().iter().map(|x| format!("{x:?}")).collect();
                if v != want || r.enums.len() != w.len() || r.enums.iter().len() != w.len() {
                    c.bad(format!("elements of {w:?}"), format!("{want:?}"), format!("{v:?} len {} iter().len() {}", r.enums.len(), r.enums.iter().len()));
                }
            });
        }
    });
    c.scope("enums", |c| {
        for k in 0..10 {
            let (_, b) = en(k);
            let l = b.len();
            check!(c, BasicEnum, en(k).0, b, l);
        }
        for n in 0..m {
            let d = u8s(n, 3);
            let mut b = vec![2u8, 11, 12, 13];
            le(&mut b, &(n as u32).to_ne_bytes());
            le(&mut b, &d);
            let l = b.len();
            check!(c, Padded, Padded::First { padding: [11, 12, 13], data_len: n as u32, data: (&d[..]).into() }, b, l);
        }
        for x in [0u16, 255, 256, 0xFFFF] {
            let mut b = vec![3u8, 77];
            for y in [x, 1, x] {
                le(&mut b, &y.to_ne_bytes());
            }
            let l = b.len();
            check!(c, Padded, Padded::Fixed { padding: 77, array: [x, 1, x] }, b, l);
        }
        for x in 0..=255u8 {
            check!(c, Padded, Padded::Empty { one: x }, vec![7, x], 2);
            if x != 2 && x != 3 && x != 7 {
                c.case(|| format!("tag {x}"), |c| {
                    let b = vec![x; 40];
                    if !matches!(unsafe { Padded::try_ref(&b) }, Err(WrapErr::InvalidTag(_))) {
                        c.bad(format!("tag {x}"), "InvalidTag".into(), "accepted".into());
                    }
                    let mut b = (x as u64).to_ne_bytes().to_vec();
                    b.extend_from_slice(&[0; 40]);
                    if !matches!(unsafe { BasicEnum::try_ref(&b) }, Err(WrapErr::InvalidTag(_))) {
                        c.bad(format!("tag {x}"), "InvalidTag".into(), "accepted".into());
                    }
                    c.trace(2, x as u64, || format!("tag {x}"));
                });
            }
        }
    });
}

fn slice_opt(c: &mut Ctx, s: &Slice<Opt>, want: &[Opt]) {
    let f = |x: &Opt| (x.header, x.optional_field, x.non_optional_field);
    let v: Vec<_> = s.iter().map(|x| f(&x)).collect();
    let w: Vec<_> = want.iter().map(f).collect();
    let nth: Vec<_> = (0..w.len() + 1).map(|i| s.iter().nth(i).map(|x| f(&x))).collect();
    if v != w || s.len() != w.len() || s.is_empty() != w.is_empty() || s.iter().len() != w.len() || nth[..w.len()] != w.iter().map(|x| Some(*x)).collect::<Vec<_>>()[..] || nth[w.len()].is_some() {
        c.bad(format!("elements {w:?}"), format!("{w:?}"), format!("{v:?} len {} iter().len() {} nth {nth:?}", s.len(), s.iter().len()));
    }
    c.trace(w.len() as u64 + 4, h(&w), || format!("{w:?}"));
}
