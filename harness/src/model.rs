//! Random sequences of operations, compared to a plain `Vec` after every operation. A difference is
//! reported only if the operation that shows it belongs to the property being checked.
use crate::util::*;
use orx_concurrent_vec::*;

/// the property to which the operation being executed belongs
macro_rules! run_model {
    ($cx:expr, $v:ident, $k:expr, $seed:expr, $len:expr, $weight:expr) => {{
        let prop: &str = &$cx.prop;
        let mut r = Rng::new($seed);
        let mut m: Vec<i64> = vec![];
        let mut log = String::new();
        let mut next = 0i64;
        macro_rules! fresh { () => {{ next += 1; next }} }
        ctx!("{} vec, random operations, seed {}", $k, $seed);
        // the outcome of an operation; `false` ends the sequence
        macro_rules! check {
            ($tags:expr, $got:expr, $want:expr, $what:expr) => {{
                let (got, want) = (&$got, &$want);
                if *got != *want {
                    if $tags.contains(&prop) {
                        fail(&format!("{}: got {:?}, expected {:?}, after: {}", $what, got, want, log));
                    }
                    break;
                }
            }};
        }
        for _ in 0..$len {
            let n = m.len();
            // prefer the operations of the property
            let op = if r.chance($weight, 10) { *pick(prop, &mut r) } else { r.below(26) };
            let (i, j) = (r.below(n + 3), r.below(n + 3));
            let (a, b) = { let x = r.below(n + 1); let y = r.below(n + 1); (x.min(y), x.max(y)) };
            let room = $v.maximum_capacity().min(1 << 20) - n;
            let c = r.below(9).min(room);
            if log.len() > 1500 { log = format!("..{}", &log[log.len() - 900..]); }
            log.push_str(&format!(" {op}:{i},{j},{a}..{b},{c}"));
            more!("op {op} with i={i} j={j} range {a}..{b} count {c} at length {n}");
            let tags: &[&str];
            match op {
                0 if room > 0 => {
                    tags = &["C01"];
                    let x = fresh!();
                    check!(tags, $v.push(Tk::new(x)), n, "push");
                    m.push(x);
                }
                1 if room > 0 => {
                    tags = &["C01"];
                    let x = fresh!();
                    check!(tags, $v.push_for_idx(|k| Tk::new(x + if k == n { 0 } else { 1 << 40 })), n, "push_for_idx");
                    m.push(x);
                }
                2 => {
                    tags = &["C01"];
                    let x: Vec<i64> = (0..c).map(|_| fresh!()).collect();
                    check!(tags, $v.extend(tks(x.clone())), n, "extend");
                    m.extend(x);
                }
                3 => {
                    tags = &["C01"];
                    let x: Vec<i64> = (0..c).map(|_| fresh!()).collect();
                    check!(tags, $v.extend_n_items(tks(x.clone()), c), n, "extend_n_items");
                    m.extend(x);
                }
                4 => {
                    tags = &["C01"];
                    let x: Vec<i64> = (0..c).map(|_| fresh!()).collect();
                    check!(tags, $v.extend_for_idx(|k| tks(x.iter().map(|y| y + if k == n { 0 } else { 1 << 40 })), c), n, "extend_for_idx");
                    m.extend(x);
                }
                5 => {
                    tags = &["C03"];
                    check!(tags, ($v.len(), $v.is_empty()), (n, n == 0), "len and is_empty");
                }
                6 => {
                    tags = &["C04"];
                    check!(tags, $v.get(i).map(|e| e.map(|x| x.get())), m.get(i).copied(), "get");
                    check!(tags, $v.get_cloned(i).map(|x| x.get()), m.get(i).copied(), "get_cloned");
                    check!(tags, panics(|| $v[i].map(|_| ())), i >= n, "index panics");
                }
                7 if i < n => {
                    tags = &["C05"];
                    let x = fresh!();
                    check!(tags, $v[i].replace(Tk::new(x)).get(), m[i], "replace");
                    m[i] = x;
                }
                8 if i < n => {
                    tags = &["C05"];
                    let x = fresh!();
                    $v[i].set(Tk::new(x));
                    m[i] = x;
                }
                9 if i < n => {
                    tags = &["C05"];
                    let x = fresh!();
                    let mut seen = None;
                    $v[i].update(|y| { seen = Some(y.get()); y.put(x) });
                    check!(tags, seen, Some(m[i]), "value given to the closure of update");
                    m[i] = x;
                }
                10 if i < n => {
                    tags = &["C05"];
                    check!(tags, ($v[i].cloned().get(), $v[i].map(|x| x.get())), (m[i], m[i]), "cloned and map");
                }
                11 => {
                    tags = &["C06"];
                    let s = $v.slice(a..b);
                    check!(tags, (s.len(), s.iter().map(|e| e.map(|x| x.get())).collect::<Vec<_>>()), (b - a, m[a..b].to_vec()), "slice");
                }
                12 => {
                    tags = &["C08"];
                    let ok = i < n && j < n;
                    check!(tags, $v.swap(i, j), ok, "swap");
                    if ok { m.swap(i, j); }
                }
                13 => {
                    tags = &["C08"];
                    let s = $v.slice(a..b);
                    let ok = i < b - a && j < b - a;
                    check!(tags, s.swap(i, j), ok, "swap of a slice");
                    if ok { m.swap(a + i, a + j); }
                }
                14 => {
                    tags = &["C09"];
                    let x = fresh!();
                    if r.chance(1, 2) { $v.slice(a..b).fill(Tk::new(x)); m[a..b].fill(x); }
                    else { $v.slice(a..b).fill_with(|k| Tk::new(x * 1000 + k as i64)); for k in a..b { m[k] = x * 1000 + (k - a) as i64; } }
                }
                15 if r.chance(1, 3) => {
                    tags = &["C09"];
                    let x = fresh!();
                    if r.chance(1, 2) { $v.fill(Tk::new(x)); m.fill(x); }
                    else { $v.fill_with(|k| Tk::new(x * 1000 + k as i64)); for k in 0..n { m[k] = x * 1000 + k as i64; } }
                }
                16 => {
                    tags = &["C10"];
                    let want = if n == 0 { -1 } else { m[r.below(n)] };
                    check!(tags, $v.index_of(&Tk::new(want)), m.iter().position(|x| *x == want), "index_of");
                    check!(tags, $v.contains(&Tk::new(want)), m.contains(&want), "contains");
                    let s = $v.slice(a..b);
                    check!(tags, s.index_of(&Tk::new(want)), m[a..b].iter().position(|x| *x == want), "index_of of a slice");
                    check!(tags, s.contains(&Tk::new(want)), m[a..b].contains(&want), "contains of a slice");
                }
                17 => {
                    tags = &["C10"];
                    let f = |x: i64, y: i64| x.wrapping_mul(7).wrapping_sub(y);
                    check!(tags, $v.reduce(|x, y| Tk::new(f(x.get(), y.get()))).map(|x| x.get()), m.iter().copied().reduce(f), "reduce");
                    check!(tags, $v.slice(a..b).reduce(|x, y| Tk::new(f(x.get(), y.get()))).map(|x| x.get()), m[a..b].iter().copied().reduce(f), "reduce of a slice");
                    check!(tags, $v.slice(a..b).fold(3, |x, y| f(x, y.get())), m[a..b].iter().fold(3, |x, y| f(x, *y)), "fold of a slice");
                    check!(tags, $v.fold(3, |x, y| f(x, y.get())), m.iter().fold(3, |x, y| f(x, *y)), "fold");
                    check!(tags, $v.filter(|x| x.get() % 2 == 0).map(|e| e.map(|x| x.get())).collect::<Vec<_>>(), m.iter().copied().filter(|x| x % 2 == 0).collect::<Vec<_>>(), "filter");
                    check!(tags, $v.map(|x| x.get() + 1).collect::<Vec<_>>(), m.iter().map(|x| x + 1).collect::<Vec<_>>(), "map");
                }
                18 => {
                    tags = &["C10"];
                    check!(tags, ids(&$v.clone_to_vec()), m, "clone_to_vec");
                    check!(tags, $v.iter_cloned().map(|x| x.get()).collect::<Vec<_>>(), m, "iter_cloned");
                    check!(tags, ids(&$v.slice(a..b).clone_to_vec()), m[a..b], "clone_to_vec of a slice");
                    check!(tags, $v.slice(a..b).iter_cloned().map(|x| x.get()).collect::<Vec<_>>(), m[a..b], "iter_cloned of a slice");
                }
                19 => {
                    tags = &["C11"];
                    let mut w: Vec<i64> = m[a..b].to_vec();
                    let same = r.chance(1, 2) || w.is_empty();
                    if !same { let at = r.below(w.len()); w[at] = -7; }
                    let s = $v.slice(a..b);
                    let o: ConcurrentVec<Tk> = tks(w.clone()).into_iter().collect();
                    let e: Vec<bool> = s.iter().zip(o.iter()).map(|(x, y)| x == y).collect();
                    check!(tags, e.iter().all(|x| *x), same, "elements == elements");
                    let e: Vec<bool> = s.iter().zip(w.iter()).map(|(x, y)| *x == Tk::new(*y)).collect();
                    check!(tags, e.iter().all(|x| *x), same, "elements == values");
                    let u: ConcurrentVec<Tk> = ids(&$v.clone_to_vec()).into_iter().map(Tk::new).collect();
                    check!(tags, u.slice(a..b) == tks(w.clone())[..], same, "slice == [T]");
                    check!(tags, u.slice(a..b) == o, same, "slice == vec");
                    check!(tags, o == u.slice(a..b), same, "vec == slice");
                    check!(tags, u == tks(m.clone())[..], true, "vec == [T]");
                    check!(tags, u == tks(w.clone())[..], same && b - a == n, "vec == other [T]");
                    check!(tags, format!("{:?}", u).contains(&format!("{:?}", m)), true, "debug");
                }
                20 => {
                    tags = &["C13"];
                    if r.chance(1, 4) {
                        $v.clear();
                        m.clear();
                        check!(tags, $v.len(), 0, "len after clear");
                    }
                }
                21 => {
                    tags = &["C13"];
                    let max = $v.maximum_capacity();
                    // reserving beyond the capacity of a fixed vec is a known finding
                    if $k == "linear" && max < 4000 && r.chance(1, 2) {
                        let got = $v.reserve_maximum_capacity(max + c);
                        check!(tags, (got >= max + c, got), (true, $v.maximum_capacity()), "reserve_maximum_capacity");
                    } else {
                        check!(tags, $v.reserve_maximum_capacity(n), max, "reserve_maximum_capacity within the maximum");
                    }
                }
                22 => {
                    tags = &["C12"];
                    if r.chance(1, 3) {
                        $v = ConcurrentVec::from($v.into_inner());
                    }
                }
                23 => {
                    tags = &["C12"];
                    check!(tags, ids(&$v.clone_to_vec()), m, "content");
                }
                24 => {
                    tags = &["C14"];
                    let want = m.get(i).copied();
                    check!(tags, unsafe { $v.get_ref(i) }.map(|x| x.get()), want, "get_ref");
                    check!(tags, $v.get_raw(i).map(|p| unsafe { &*p }.get()), want, "get_raw");
                    check!(tags, $v.get_raw_mut(i).map(|p| unsafe { &*p }.get()), want, "get_raw_mut");
                    check!(tags, unsafe { $v.iter_ref() }.map(|x| x.get()).collect::<Vec<_>>(), m, "iter_ref");
                    let s = $v.slice(a..b);
                    let want = m[a..b].get(i).copied();
                    check!(tags, unsafe { s.get_ref(i) }.map(|x| x.get()), want, "get_ref of a slice");
                    check!(tags, unsafe { s.get_mut(i) }.map(|x| x.get()), want, "get_mut of a slice");
                    check!(tags, unsafe { s.iter_mut() }.map(|x| x.get()).collect::<Vec<_>>(), m[a..b], "iter_mut of a slice");
                }
                25 => {
                    tags = &["C07"];
                    let mid = a;
                    let (x, y) = $v.split_at(mid);
                    check!(tags, (x.iter().map(|e| e.map(|z| z.get())).collect::<Vec<_>>(), y.iter().map(|e| e.map(|z| z.get())).collect::<Vec<_>>()), (m[..mid].to_vec(), m[mid..].to_vec()), "split_at");
                    let got: Vec<Vec<i64>> = $v.chunks(c + 1).map(|x| x.iter().map(|e| e.map(|z| z.get())).collect()).collect();
                    check!(tags, got, m.chunks(c + 1).map(|x| x.to_vec()).collect::<Vec<_>>(), "chunks");
                }
                _ => { tags = &[]; }
            }
            // an operation must leave exactly the expected content
            if $v.len() < 300 || r.chance(1, 8) {
                check!(tags, content(&$v), m, "content after the operation");
            } else if i < m.len() && i < $v.len() {
                check!(tags, $v[i].map(|x| x.get()), m[i], "element after the operation");
            }
            if r.chance(1, 10) {
                let capok = $v.capacity() >= m.len() && $v.capacity() <= $v.maximum_capacity();
                check!(tags, capok, true, "capacity within bounds");
            }
            check!(tags, live(), m.len() as i64, "number of values alive");
        }
        let clean = content(&$v) == m;
        if clean {
            let x = $v.to_vec();
            if ids(&x) != m && prop == "C12" {
                fail(&format!("to_vec: got {:?}, expected {:?}, after: {}", ids(&x), m, log));
            }
            drop(x);
            if live() != 0 && prop == "C12" {
                fail(&format!("{} values leaked by to_vec after: {}", live(), log));
            }
        }
        LIVE.store(0, std::sync::atomic::Ordering::SeqCst);
    }};
}

fn pick<'a>(prop: &str, r: &mut Rng) -> &'a usize {
    let ops: &'a [usize] = match prop {
        "C01" => &[0, 1, 2, 3, 4, 20, 22],
        "C03" => &[0, 2, 5, 5, 20],
        "C04" => &[0, 2, 6, 6, 20, 12],
        "C05" => &[0, 7, 8, 9, 10],
        "C06" => &[0, 2, 11, 11, 20],
        "C07" => &[0, 2, 25, 25, 20],
        "C08" => &[0, 2, 12, 13],
        "C09" => &[0, 2, 14, 15],
        "C10" => &[0, 2, 16, 17, 18, 8],
        "C11" => &[0, 2, 19, 8],
        "C12" => &[0, 2, 22, 23, 20, 21],
        "C13" => &[0, 2, 4, 20, 20, 21],
        _ => &[0, 2, 24, 20],
    };
    &ops[r.below(ops.len())]
}

fn run(cx: &mut Cx) {
    for round in 0..cx.reps(150, 1) {
        let seed = cx.rng.next();
        let len = [12, 40, 150, 400][round % 4];
        let weight = [5, 8, 0][round % 3];
        let cap = if round % 2 == 0 { 40 } else { 700 };
        kinds!(Tk, cap, |v, k| {
            run_model!(cx, v, k, seed, len, weight);
        });
    }
}
pub fn c01(cx: &mut Cx) {
    run(cx)
}
pub fn c03(cx: &mut Cx) {
    run(cx)
}
pub fn c04(cx: &mut Cx) {
    run(cx)
}
pub fn c05(cx: &mut Cx) {
    run(cx)
}
pub fn c08(cx: &mut Cx) {
    run(cx)
}
pub fn c09(cx: &mut Cx) {
    run(cx)
}
pub fn c10(cx: &mut Cx) {
    run(cx)
}
pub fn c11(cx: &mut Cx) {
    run(cx)
}
pub fn c12(cx: &mut Cx) {
    run(cx)
}
pub fn c13(cx: &mut Cx) {
    run(cx)
}
pub fn c14(cx: &mut Cx) {
    run(cx)
}
pub fn c06(cx: &mut Cx) {
    run(cx)
}
pub fn c07(cx: &mut Cx) {
    run(cx)
}
