//! Poseidon2 and the Merkle trees built on it.
use crate::util::*;
use ark_bn254::Fr;
use ark_ff::{AdditiveGroup, Field, PrimeField};
use mpc_core::gadgets::poseidon2::{
    POSEIDON2_BN254_T2_PARAMS, POSEIDON2_BN254_T3_PARAMS, POSEIDON2_BN254_T4_PARAMS, POSEIDON2_BN254_T16_PARAMS, Poseidon2,
    Poseidon2Params,
};
use mpc_core::protocols::shamir::{self as sh, ShamirState};
use symex::net::RecNet;
use symex::privacy::{Privacy, received};
use symex::{Cx, Session, SymF, entropy, smt};

type Par<const T: usize, const D: u64> = Poseidon2Params<SymF, T, D>;

/// Parameters with the given constants (leaked: the code wants them 'static).
fn params<const T: usize, const D: u64>(rf: usize, rp: usize, diag: [SymF; T], ext: Vec<[SymF; T]>, int: Vec<SymF>) -> &'static Par<T, D> {
    Box::leak(Box::new(Poseidon2Params {
        rounds_f_beginning: rf / 2,
        rounds_f_end: rf - rf / 2,
        rounds_p: rp,
        mat_internal_diag_m_1: Box::leak(Box::new(diag)),
        round_constants_external: Box::leak(Box::new(ext)),
        round_constants_internal: Box::leak(Box::new(int)),
    }))
}

fn fixed_diag<const T: usize>() -> Option<[SymF; T]> {
    match T {
        2 => Some(std::array::from_fn(|i| SymF::from([1u64, 2][i]))),
        3 => Some(std::array::from_fn(|i| SymF::from([1u64, 1, 2][i]))),
        _ => None,
    }
}

/// Concrete, all different constants.
fn consts<const T: usize, const D: u64>(rf: usize, rp: usize) -> &'static Par<T, D> {
    let c = |i: usize| SymF::from((i as u64 + 3) * 0x9E37_79B9 % 1000003);
    let diag = fixed_diag::<T>().unwrap_or_else(|| std::array::from_fn(|i| c(1000 + i)));
    params(rf, rp, diag, (0..rf).map(|r| std::array::from_fn(|i| c(r * T + i))).collect(), (0..rp).map(|r| c(500 + r)).collect())
}

/// The repository's own instance, over symbols.
fn real<const T: usize>(p: &Poseidon2Params<Fr, T, 5>) -> &'static Par<T, 5> {
    let q = params(
        0,
        p.rounds_p,
        p.mat_internal_diag_m_1.map(SymF::C),
        p.round_constants_external.iter().map(|r| r.map(SymF::C)).collect(),
        p.round_constants_internal.iter().map(|x| SymF::C(*x)).collect(),
    );
    let mut q = q.clone();
    q.rounds_f_beginning = p.rounds_f_beginning;
    q.rounds_f_end = p.rounds_f_end;
    Box::leak(Box::new(q))
}

// ---- the specification: Poseidon2 (Grassi, Khovratovich, Schofnegger), as matrices ----

const M4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];

fn external_matrix(t: usize) -> Vec<Vec<u64>> {
    (0..t)
        .map(|i| {
            (0..t)
                .map(|j| match t {
                    2 | 3 => 1 + (i == j) as u64,
                    4 => M4[i][j],
                    _ => M4[i % 4][j % 4] * if i / 4 == j / 4 { 2 } else { 1 },
                })
                .collect()
        })
        .collect()
}

fn spec_external<const T: usize>(x: &[SymF; T]) -> [SymF; T] {
    let m = external_matrix(T);
    std::array::from_fn(|i| (0..T).fold(SymF::ZERO, |a, j| a + x[j] * SymF::from(m[i][j])))
}

fn spec_internal<const T: usize>(x: &[SymF; T], diag_m_1: &[SymF; T]) -> [SymF; T] {
    std::array::from_fn(|i| (0..T).fold(SymF::ZERO, |a, j| a + if i == j { x[j] * (diag_m_1[j] + SymF::ONE) } else { x[j] }))
}

fn spec_pow(x: SymF, d: u64) -> SymF {
    (1..d).fold(x, |a, _| a * x)
}

fn spec_ext_round<const T: usize, const D: u64>(p: &Par<T, D>, x: &[SymF; T], r: usize) -> [SymF; T] {
    spec_external(&std::array::from_fn(|i| spec_pow(x[i] + p.round_constants_external[r][i], D)))
}

fn spec_int_round<const T: usize, const D: u64>(p: &Par<T, D>, x: &[SymF; T], r: usize) -> [SymF; T] {
    let mut y = *x;
    y[0] = spec_pow(x[0] + p.round_constants_internal[r], D);
    spec_internal(&y, p.mat_internal_diag_m_1)
}

pub fn spec_permutation<const T: usize, const D: u64>(p: &Par<T, D>, x: &[SymF; T]) -> [SymF; T] {
    let mut s = spec_external(x);
    for r in 0..p.rounds_f_beginning {
        s = spec_ext_round(p, &s, r);
    }
    for r in 0..p.rounds_p {
        s = spec_int_round(p, &s, r);
    }
    for r in 0..p.rounds_f_end {
        s = spec_ext_round(p, &s, p.rounds_f_beginning + r);
    }
    s
}

fn arr<const T: usize>(v: &[SymF]) -> [SymF; T] {
    std::array::from_fn(|i| v[i])
}

fn components<const T: usize, const D: u64>(s: &mut Session) {
    s.case(format!("components T={T} D={D}"), move |cx| {
        let x: [SymF; T] = arr(&cx.vars("x", T));
        let diag = fixed_diag::<T>().unwrap_or_else(|| arr(&cx.vars("diag", T)));
        let ext: Vec<[SymF; T]> = (0..2).map(|r| arr(&cx.vars(&format!("ce{r}_"), T))).collect();
        let p = params::<T, D>(2, 2, diag, ext, cx.vars("ci", 2));
        let h = Poseidon2::<SymF, T, D>::new(p);
        cx.require("num_rounds", h.num_rounds() == 4);
        cx.require("num_sbox", h.num_sbox() == 2 * T + 2);
        let run = |f: &dyn Fn(&mut [SymF; T])| {
            let mut y = x;
            f(&mut y);
            y
        };
        cx.prove_all_eq("matmul_external", &run(&|y| Poseidon2::<SymF, T, D>::matmul_external(y)), &spec_external(&x));
        cx.prove_all_eq("matmul_internal", &run(&|y| h.matmul_internal(y)), &spec_internal(&x, &diag));
        for r in 0..2 {
            let e: [SymF; T] = std::array::from_fn(|i| x[i] + p.round_constants_external[r][i]);
            cx.prove_all_eq(format!("add_rc_external {r}"), &run(&|y| h.add_rc_external(y, r)), &e);
            let mut e = x;
            e[0] += p.round_constants_internal[r];
            cx.prove_all_eq(format!("add_rc_internal {r}"), &run(&|y| h.add_rc_internal(y, r)), &e);
            cx.prove_all_eq(format!("external_round {r}"), &run(&|y| h.external_round(y, r)), &spec_ext_round(p, &x, r));
            cx.prove_all_eq(format!("internal_round {r}"), &run(&|y| h.internal_round(y, r)), &spec_int_round(p, &x, r));
        }
    });
}

fn permutation<const T: usize, const D: u64>(s: &mut Session, name: &'static str, p: impl Fn() -> &'static Par<T, D> + Sync) {
    s.case(format!("permutation T={T} D={D} {name}"), move |cx| {
        let x: [SymF; T] = arr(&cx.vars("x", T));
        cx.expand(4000, D as usize, &x);
        let p = p();
        let h = Poseidon2::<SymF, T, D>::new(p);
        let want = spec_permutation(p, &x);
        cx.prove_all_eq("permutation", &h.permutation(&x), &want);
        let mut y = x;
        h.permutation_in_place(&mut y);
        cx.prove_all_eq("permutation_in_place", &y, &want);
    });
}

/// The Grain LFSR of the Poseidon paper, from which the published round constants come.
struct Grain(std::collections::VecDeque<bool>);

impl Grain {
    fn new(t: usize, rf: usize, rp: usize) -> Self {
        let mut b = std::collections::VecDeque::new();
        let mut push = |v: u64, n: u32| (0..n).rev().for_each(|i| b.push_back(v >> i & 1 == 1));
        push(1, 2); // prime field
        push(0, 4); // x^alpha
        push(254, 12);
        push(t as u64, 12);
        push(rf as u64, 10);
        push(rp as u64, 10);
        push((1 << 30) - 1, 30);
        let mut g = Grain(b);
        (0..160).for_each(|_| {
            g.step();
        });
        g
    }
    fn step(&mut self) -> bool {
        let b = &self.0;
        let n = b[62] ^ b[51] ^ b[38] ^ b[23] ^ b[13] ^ b[0];
        self.0.pop_front();
        self.0.push_back(n);
        n
    }
    fn bit(&mut self) -> bool {
        loop {
            let keep = self.step();
            let v = self.step();
            if keep {
                return v;
            }
        }
    }
    fn field(&mut self) -> Fr {
        loop {
            let mut n = num_bigint::BigUint::from(0u32);
            for _ in 0..254 {
                n = (n << 1u32) + self.bit() as u32;
            }
            if n < Fr::MODULUS.into() {
                return Fr::from(n);
            }
        }
    }
}

fn instance<const T: usize>(cx: &mut Cx, p: &Poseidon2Params<Fr, T, 5>, rp: usize) {
    cx.require(format!("T={T}: 4+4 external and {rp} internal rounds"), p.rounds_f_beginning == 4 && p.rounds_f_end == 4 && p.rounds_p == rp);
    let ok = p.round_constants_external.len() == 8 && p.round_constants_internal.len() == rp;
    cx.require(format!("T={T}: number of round constants"), ok);
    if !ok {
        return;
    }
    let mut g = Grain::new(T, 8, rp);
    for r in 0..8 + rp {
        let internal = (4..4 + rp).contains(&r);
        let row: Vec<SymF> = (0..if internal { 1 } else { T }).map(|_| SymF::C(g.field())).collect();
        if internal {
            cx.prove_eq(format!("T={T}: internal round constant {}", r - 4), SymF::C(p.round_constants_internal[r - 4]), row[0]);
        } else {
            let k = if r < 4 { r } else { r - rp };
            cx.prove_all_eq(format!("T={T}: external round constants {k}"), &p.round_constants_external[k].map(SymF::C), &row);
        }
    }
    let d = Poseidon2::<Fr, T, 5>::default();
    cx.require(format!("T={T}: default() is this instance"), std::ptr::eq(d.params, p));
}

pub fn p01(s: &mut Session) {
    s.functions(&[
        "gadgets::poseidon2::Poseidon2::{new, num_rounds, num_sbox, matmul_m4, matmul_external, matmul_internal, add_rc_external, add_rc_internal, sbox, single_sbox, external_round, internal_round, permutation, permutation_in_place, default}",
        "gadgets::poseidon2::{POSEIDON2_BN254_T2_PARAMS, _T3_, _T4_, _T16_}",
    ]);
    s.bound("each layer and round: all states, round constants and (T>=4) diagonals symbolic, T in {2,3,4,8,12,16,20,24}, S-box degrees 3, 5, 7 and 11; the whole permutation: symbolic state with given constants, T=2 (8+56 rounds, the repository's constants), T=3, 4 and 16 (shorter)");
    s.outside("the internal diagonals of T=4 and T=16 have no specification to compare with other than the known answers of the existing tests");
    components::<2, 5>(s);
    components::<3, 5>(s);
    components::<4, 5>(s);
    components::<8, 5>(s);
    components::<12, 5>(s);
    components::<16, 5>(s);
    components::<20, 5>(s);
    components::<24, 5>(s);
    components::<3, 3>(s);
    components::<3, 7>(s);
    components::<2, 11>(s);
    components::<4, 7>(s);
    permutation::<2, 5>(s, "8+56", || real(&POSEIDON2_BN254_T2_PARAMS));
    permutation::<3, 5>(s, "8+56", || real(&POSEIDON2_BN254_T3_PARAMS));
    permutation::<4, 5>(s, "8+56", || real(&POSEIDON2_BN254_T4_PARAMS));
    permutation::<3, 3>(s, "4+3", || consts(4, 3));
    permutation::<4, 7>(s, "4+3", || consts(4, 3));
    permutation::<8, 5>(s, "2+2", || consts(2, 2));
    if s.thorough() {
        permutation::<16, 5>(s, "8+57", || real(&POSEIDON2_BN254_T16_PARAMS));
    }
    s.case("instances", |cx| {
        instance::<2>(cx, &POSEIDON2_BN254_T2_PARAMS, 56);
        instance::<3>(cx, &POSEIDON2_BN254_T3_PARAMS, 56);
        instance::<4>(cx, &POSEIDON2_BN254_T4_PARAMS, 56);
        instance::<16>(cx, &POSEIDON2_BN254_T16_PARAMS, 57);
    });
}

// ---- Shamir ----

fn deal_state<const T: usize>(x: &[SymF], t: usize, n: usize) -> Vec<[Share; T]> {
    let cols: Vec<Vec<Share>> = x.iter().enumerate().map(|(i, v)| deal(*v, t, n, &format!("x{i}"))).collect();
    (0..n).map(|p| std::array::from_fn(|i| cols[i][p])).collect()
}

fn check_states(cx: &mut Cx, label: &str, r: Vec<eyre::Result<Vec<SymF>>>, t: usize, want: &[SymF]) {
    if let Some(r) = all_ok(cx, label, r) {
        cx.require(format!("{label}: number of values"), r.iter().all(|v| v.len() == want.len()));
        for k in 0..want.len() {
            let col: Vec<SymF> = r.iter().map(|v| v[k]).collect();
            is_sharing(cx, &format!("{label}: state[{k}]"), &col, t, want[k]);
        }
    }
}

/// One round with all of the protocol's randomness symbolic.
fn shamir_rounds<const T: usize>(s: &mut Session, n: usize, t: usize) {
    for external in [true, false] {
        s.case(format!("{} round T={T} n={n} t={t}", if external { "external" } else { "internal" }), move |cx| {
            let x: [SymF; T] = arr(&cx.vars("x", T));
            let diag = fixed_diag::<T>().unwrap_or_else(|| arr(&cx.vars("diag", T)));
            let ext: Vec<[SymF; T]> = (0..2).map(|r| arr(&cx.vars(&format!("ce{r}_"), T))).collect();
            let p = params::<T, 5>(2, 1, diag, ext, cx.vars("ci", 1));
            cx.expand(4000, 5, &x);
            let h = Poseidon2::<SymF, T, 5>::new(p);
            let sh = deal_state::<T>(&x, t, n);
            let want = if external { spec_ext_round(p, &x, 1) } else { spec_int_round(p, &x, 0) };
            let (r, _) = shamir(n, t, 1, |i, net, st| {
                let mut pre = h.precompute_shamir(1, net, st)?;
                let mut y = sh[i];
                if external {
                    h.shamir_external_round_precomp(&mut y, 1, &mut pre, net, st)?;
                } else {
                    h.shamir_internal_round_precomp(&mut y, 0, &mut pre, net, st)?;
                }
                Ok(inner(&y))
            });
            check_states(cx, "round", r, t, &want);
        });
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Plain,
    Precomp,
    Packed(usize),
}

fn shamir_permutation<const T: usize>(s: &mut Session, how: How, name: &'static str, n: usize, t: usize, p: impl Fn() -> &'static Par<T, 5> + Sync) {
    s.case(format!("{how:?} T={T} {name} n={n} t={t}"), move |cx| {
        let m = if let How::Packed(m) = how { m } else { 1 };
        let x = cx.vars("x", T * m);
        cx.fix_randomness();
        cx.expand(4000, 5, &x);
        let p = p();
        let h = Poseidon2::<SymF, T, 5>::new(p);
        let want: Vec<SymF> = x.chunks_exact(T).flat_map(|c| spec_permutation(p, &arr(c))).collect();
        let cols: Vec<Vec<Share>> = x.iter().enumerate().map(|(i, v)| deal(*v, t, n, &format!("x{i}"))).collect();
        let (r, _) = shamir(n, t, 1, |i, net, st| {
            let mine: Vec<Share> = cols.iter().map(|c| c[i]).collect();
            // enough preprocessing, by the code's own account, must mean: no more is made on the way
            st.buffer_triples(net, h.rand_required(m, how != How::Plain))?;
            let mut one: [Share; T] = std::array::from_fn(|k| mine[k]);
            Ok(match how {
                How::Plain => {
                    let a = h.shamir_permutation(&one, net, st)?;
                    h.shamir_permutation_in_place(&mut one, net, st)?;
                    (inner(&a), inner(&one), true)
                }
                How::Precomp => {
                    let mut pre = h.precompute_shamir(2, net, st)?;
                    let a = h.shamir_permutation_with_precomputation(&one, &mut pre, net, st)?;
                    let half = pre.get_offset() == h.num_sbox() && !pre.consumed();
                    h.shamir_permutation_in_place_with_precomputation(&mut one, &mut pre, net, st)?;
                    (inner(&a), inner(&one), half && pre.consumed())
                }
                How::Packed(_) => {
                    let mut pre = h.precompute_shamir(m, net, st)?;
                    let a = h.shamir_permutation_with_precomputation_packed(&mine, &mut pre, net, st)?;
                    let c = pre.consumed();
                    let mut pre = h.precompute_shamir(m, net, st)?;
                    let mut b = mine.clone();
                    h.shamir_permutation_in_place_with_precomputation_packed(&mut b, &mut pre, net, st)?;
                    (inner(&a), inner(&b), c && pre.consumed())
                }
            })
        });
        let Some(r) = all_ok(cx, "permutation", r) else { return };
        cx.require("precomputations used up exactly", r.iter().all(|x| x.2));
        let (a, b): (Vec<_>, Vec<_>) = r.into_iter().map(|x| (Ok(x.0), Ok(x.1))).unzip();
        check_states(cx, "copy", a, t, &want);
        check_states(cx, "in place", b, t, &want);
    });
}

pub fn p02(s: &mut Session) {
    s.functions(&[
        "gadgets::poseidon2::shamir: Poseidon2::{rand_required, precompute_shamir, shamir_external_round_precomp, shamir_internal_round_precomp, shamir_permutation, shamir_permutation_in_place, shamir_permutation_with_precomputation, .._in_place_with_precomputation, .._with_precomputation_packed, .._in_place_with_precomputation_packed}",
        "gadgets::poseidon2::Poseidon2Precomputations::{get, get_offset, consumed}",
        "protocols::shamir::{ShamirState::{rand, buffer_triples}, arithmetic::{mul_vec, open, open_vec}, network::ShamirNetworkExt}",
    ]);
    s.bound("single rounds: state, sharing, round constants, diagonal and all protocol randomness symbolic, T=2,3,4, 3 parties; whole permutations: state and its sharing symbolic, the repository's constants with 8+56 rounds (T=2) or given constants with fewer rounds (T=3,4), one fixed sample of the protocol's randomness, (3,1) and (5,2) parties/threshold, up to 3 packed states");
    s.outside("whole permutations over all protocol randomness (single rounds are over all of it); T above 4");
    shamir_rounds::<2>(s, 3, 1);
    shamir_rounds::<3>(s, 3, 1);
    shamir_rounds::<4>(s, 3, 1);
    shamir_permutation::<2>(s, How::Plain, "8+56", 3, 1, || real(&POSEIDON2_BN254_T2_PARAMS));
    shamir_permutation::<2>(s, How::Precomp, "4+3", 3, 1, || consts(4, 3));
    shamir_permutation::<2>(s, How::Packed(2), "4+3", 3, 1, || consts(4, 3));
    shamir_permutation::<3>(s, How::Plain, "4+3", 5, 2, || consts(4, 3));
    shamir_permutation::<3>(s, How::Precomp, "2+1", 5, 2, || consts(2, 1));
    shamir_permutation::<3>(s, How::Packed(3), "2+2", 3, 1, || consts(2, 2));
    shamir_permutation::<4>(s, How::Plain, "2+2", 3, 1, || consts(2, 2));
    shamir_permutation::<4>(s, How::Packed(2), "2+2", 3, 1, || consts(2, 2));
    if s.thorough() {
        shamir_permutation::<2>(s, How::Precomp, "8+56", 3, 1, || real(&POSEIDON2_BN254_T2_PARAMS));
        shamir_permutation::<3>(s, How::Precomp, "8+56", 3, 1, || real(&POSEIDON2_BN254_T3_PARAMS));
        shamir_permutation::<4>(s, How::Precomp, "4+8", 3, 1, || consts(4, 8));
        shamir_permutation::<2>(s, How::Packed(3), "8+20", 7, 3, || consts(8, 20));
    }
}

// ---- Merkle trees ----

fn spec_tree<const T: usize>(h: &Poseidon2<SymF, T, 5>, leaves: &[SymF], arity: usize, sponge: bool) -> SymF {
    let mut level = leaves.to_vec();
    while level.len() > 1 {
        level = level.chunks(arity).map(|c| spec_node(h, c, sponge)).collect();
    }
    level[0]
}

fn spec_node<const T: usize>(h: &Poseidon2<SymF, T, 5>, children: &[SymF], sponge: bool) -> SymF {
    let s: [SymF; T] = std::array::from_fn(|i| children.get(i).copied().unwrap_or(SymF::ZERO));
    let out = h.permutation(&s)[0]; // P01 is about the permutation itself
    if sponge { out } else { out + s[0] }
}

fn plain_tree<const T: usize, const A: usize>(s: &mut Session, depth: u32, sponge: bool) {
    let kind = if sponge { "sponge" } else { "compression" };
    s.case(format!("{kind} T={T} arity={A} depth={depth}"), move |cx| {
        let n = A.pow(depth);
        let x = cx.vars("leaf", n);
        let h = Poseidon2::<SymF, T, 5>::new(consts(2, 1));
        let want = spec_tree(&h, &x, A, sponge);
        let root = if sponge { h.merkle_tree_sponge::<A>(x.clone()) } else { h.merkle_tree_compression::<A>(x.clone()) };
        cx.prove_eq("root", root, want);
        for i in 0..n {
            let (root, wit) =
                if sponge { h.merkle_tree_sponge_with_witness::<A>(x.clone(), i) } else { h.merkle_tree_compression_with_witness::<A>(x.clone(), i) };
            cx.prove_eq(format!("root with witness of leaf {i}"), root, want);
            cx.require(format!("one witness element per level, leaf {i}"), wit.len() == depth as usize);
            let mut level = x.clone();
            let mut k = i;
            for (d, w) in wit.iter().enumerate() {
                cx.require(format!("position of leaf {i} at level {d}"), w.position == k % A);
                let sib: Vec<SymF> = (0..A).filter(|j| *j != k % A).map(|j| level[k / A * A + j]).collect();
                cx.prove_all_eq(format!("siblings of leaf {i} at level {d}"), &w.other, &sib);
                level = level.chunks(A).map(|c| spec_node(&h, c, sponge)).collect();
                k /= A;
            }
            let ok = if sponge { h.verify_merkle_path_sponge(want, x[i], wit) } else { h.verify_merkle_path_compression(want, x[i], wit) };
            cx.require(format!("the path of leaf {i} verifies"), ok);
        }
    });
    s.case(format!("{kind} verification T={T} arity={A} depth={depth}"), move |cx| {
        let leaf = cx.var("leaf");
        let root = cx.var("root");
        let other: Vec<Vec<SymF>> = (0..depth).map(|d| cx.vars(&format!("other{d}_"), A - 1)).collect();
        let h = Poseidon2::<SymF, T, 5>::new(consts(2, 1));
        let npos = (A as u32).pow(depth);
        for code in 0..npos {
            let pos: Vec<usize> = (0..depth).map(|d| (code / (A as u32).pow(d)) as usize % A).collect();
            let mut cur = leaf;
            for d in 0..depth as usize {
                let mut c = other[d].clone();
                c.insert(pos[d], cur);
                cur = spec_node(&h, &c, sponge);
            }
            let ok = path_check::<T, A>(&h, sponge, root, leaf, &other, &pos);
            let eq = smt::eq(root, cur);
            cx.prove(format!("accepted exactly if the path {pos:?} leads to the root"), if ok { eq } else { smt::not(eq) });
            if ok {
                return; // the other positions are reached on the rejecting side
            }
        }
    });
    s.case(format!("{kind} malformed paths T={T} arity={A} depth={depth}"), move |cx| {
        let (leaf, root) = (cx.var("leaf"), cx.var("root"));
        let h = Poseidon2::<SymF, T, 5>::new(consts(2, 1));
        for d in 0..depth as usize {
            for p in [0, A - 1, A, A + 1] {
                for len in (if d == 0 { A - 1 } else { A - 2 })..=(if d == 0 { A - 1 } else { A + 1 }) {
                    if len == A - 1 && p < A {
                        continue;
                    }
                    let other: Vec<Vec<SymF>> = (0..depth as usize).map(|e| cx.vars(&format!("other{e}_"), if e == d { len } else { A - 1 })).collect();
                    let mut pos = vec![0; depth as usize];
                    pos[d] = p;
                    cx.require(format!("{len} siblings and position {p} at level {d} are refused"), !path_check::<T, A>(&h, sponge, root, leaf, &other, &pos));
                }
            }
        }
    });
}

/// Verification of a path with the given siblings and positions (the witness type cannot be named
/// outside the crate, so a real one is overwritten).
fn path_check<const T: usize, const A: usize>(h: &Poseidon2<SymF, T, 5>, sponge: bool, root: SymF, leaf: SymF, other: &[Vec<SymF>], pos: &[usize]) -> bool {
    let zeros = vec![SymF::ZERO; A.pow(other.len() as u32)];
    let mut wit = if sponge { h.merkle_tree_sponge_with_witness::<A>(zeros, 0).1 } else { h.merkle_tree_compression_with_witness::<A>(zeros, 0).1 };
    for ((w, o), p) in wit.iter_mut().zip(other).zip(pos) {
        w.other = o.clone();
        w.position = *p;
    }
    if sponge { h.verify_merkle_path_sponge(root, leaf, wit) } else { h.verify_merkle_path_compression(root, leaf, wit) }
}

pub fn p03(s: &mut Session) {
    s.functions(&[
        "gadgets::merkle_tree::plain: Poseidon2::{merkle_tree_sponge, merkle_tree_compression, merkle_tree_sponge_with_witness, merkle_tree_compression_with_witness, verify_merkle_path_sponge, verify_merkle_path_compression}",
    ]);
    s.bound("all leaves, siblings, roots symbolic; (state size, arity, depth): sponge (3,2,3) (4,2,2) (4,3,2) (8,4,2), compression (2,2,3) (3,2,2) (4,4,2) (4,2,2); every leaf index; Poseidon2 with 2+1 rounds and given constants (the tree code does not depend on them; P01 covers the permutation)");
    s.outside("trees of a single leaf and empty paths (the code panics on both); hash collisions");
    plain_tree::<3, 2>(s, 3, true);
    plain_tree::<4, 2>(s, 2, true);
    plain_tree::<4, 3>(s, 2, true);
    plain_tree::<8, 4>(s, 2, true);
    plain_tree::<2, 2>(s, 3, false);
    plain_tree::<3, 2>(s, 2, false);
    plain_tree::<4, 4>(s, 2, false);
    plain_tree::<4, 2>(s, 2, false);
    if s.thorough() {
        plain_tree::<2, 2>(s, 5, false);
        plain_tree::<3, 2>(s, 4, true);
    }
}

fn shamir_tree<const T: usize, const A: usize>(s: &mut Session, depth: u32, sponge: bool, n: usize, t: usize) {
    let kind = if sponge { "sponge" } else { "compression" };
    s.case(format!("{kind} T={T} arity={A} depth={depth} n={n} t={t}"), move |cx| {
        let x = cx.vars("leaf", A.pow(depth));
        cx.fix_randomness();
        cx.expand(4000, 5, &x);
        let h = Poseidon2::<SymF, T, 5>::new(consts(2, 1));
        let want = spec_tree(&h, &x, A, sponge);
        let cols: Vec<Vec<Share>> = x.iter().enumerate().map(|(i, v)| deal(*v, t, n, &format!("x{i}"))).collect();
        let (r, _) = shamir(n, t, 1, |i, net, st| {
            let mine: Vec<Share> = cols.iter().map(|c| c[i]).collect();
            let r = if sponge { h.merkle_tree_sponge_shamir::<A, _>(mine, net, st)? } else { h.merkle_tree_compression_shamir::<A, _>(mine, net, st)? };
            Ok(vec![r.inner()])
        });
        check_states(cx, "root", r, t, &[want]);
    });
}

pub fn p04(s: &mut Session) {
    s.functions(&["gadgets::merkle_tree::shamir: Poseidon2::{merkle_tree_sponge_shamir, merkle_tree_compression_shamir}", "and what P02 lists"]);
    s.bound("leaves and their sharings symbolic, one fixed sample of the protocol's randomness; (state size, arity, depth): sponge (3,2,2) (4,3,1), compression (2,2,3) (3,2,2) (4,4,1); (3,1) parties/threshold, (5,2) for one; Poseidon2 with 2+1 rounds and given constants");
    s.outside("trees of a single leaf (the code panics); the protocol's randomness other than the sample (P02's single rounds are over all of it)");
    shamir_tree::<3, 2>(s, 2, true, 3, 1);
    shamir_tree::<4, 3>(s, 1, true, 3, 1);
    shamir_tree::<2, 2>(s, 3, false, 3, 1);
    shamir_tree::<3, 2>(s, 2, false, 5, 2);
    shamir_tree::<4, 4>(s, 1, false, 3, 1);
    if s.thorough() {
        shamir_tree::<4, 4>(s, 2, false, 3, 1);
        shamir_tree::<3, 2>(s, 3, true, 5, 2);
    }
}

/// Everything a coalition receives during the protocol (with its own input shares) is independent
/// of the inputs. `run` executes the protocol on a party's shares of `k` values.
fn private_run(
    s: &mut Session,
    name: String,
    (n, t): (usize, usize),
    k: usize,
    run: impl Fn(&[Share], &RecNet, &mut ShamirState<SymF>) -> eyre::Result<()> + Sync,
) {
    let thorough = s.thorough();
    s.case(format!("{name} n={n} t={t}"), move |cx| {
        let x = cx.vars("x", k);
        let mut rng = entropy::rng(7);
        let cols: Vec<Vec<Share>> = x.iter().map(|v| sh::share_field_element(*v, t, n, &mut rng)).collect();
        let (r, log) = shamir(n, t, 1, |i, net, st| {
            let mine: Vec<Share> = cols.iter().map(|c| c[i]).collect();
            run(&mine, net, st)
        });
        if all_ok(cx, &name, r).is_none() {
            return;
        }
        for co in crate::shamir::coalitions(n, t, thorough) {
            let mut view = received(&log, &co);
            for i in &co {
                view.extend(cols.iter().map(|c| c[*i].inner()));
            }
            cx.private(Privacy {
                label: format!("view of parties {co:?}"),
                secrets: x.clone(),
                revealed: vec![],
                parties: co.iter().map(|i| *i as u64 + 1).collect(),
                view,
            });
        }
    });
}

pub fn p05(s: &mut Session) {
    s.functions(&[
        "gadgets::poseidon2::shamir: Poseidon2::{precompute_shamir, shamir_permutation, shamir_permutation_with_precomputation, shamir_permutation_with_precomputation_packed}",
        "gadgets::merkle_tree::shamir: Poseidon2::{merkle_tree_sponge_shamir, merkle_tree_compression_shamir}",
        "protocols::shamir::{ShamirState::{rand, buffer_triples}, arithmetic::{mul_vec, open, open_vec}, network::ShamirNetworkExt}",
    ]);
    let sz: Vec<(usize, usize)> = if s.thorough() { vec![(3, 1), (4, 1), (5, 2)] } else { vec![(3, 1), (4, 1)] };
    s.bound(format!("(parties, threshold) in {sz:?}; every coalition of `threshold` parties (in the quick tier four parties only for the trees); state size 2 (trees: 2 and 3), one external round, one internal round, one external round; two permutations or two packed states or a tree of 4 leaves per run; all inputs and randomness symbolic"));
    s.assumption("each pair's ChaCha12 stream is a stream of independent uniform symbols unknown to the other parties; the dealer's randomness is uniform; semi-honest parties");
    for (n, t) in sz {
        let deep = s.thorough();
        let h = || Poseidon2::<SymF, 2, 5>::new(consts(2, 1));
        let st2 = |v: &[Share]| -> [Share; 2] { [v[0], v[1]] };
        if n == 3 || deep {
            private_run(s, "one permutation".into(), (n, t), 2, move |v, net, st| {
                h().shamir_permutation(&st2(v), net, st)?;
                Ok(())
            });
        }
        if n == 3 || deep {
            private_run(s, "two permutations with precomputation".into(), (n, t), 4, move |v, net, st| {
                let mut pre = h().precompute_shamir(2, net, st)?;
                h().shamir_permutation_with_precomputation(&st2(v), &mut pre, net, st)?;
                h().shamir_permutation_with_precomputation(&st2(&v[2..]), &mut pre, net, st)?;
                Ok(())
            });
        }
        if n == 3 || deep {
            private_run(s, "two packed permutations".into(), (n, t), 4, move |v, net, st| {
                let mut pre = h().precompute_shamir(2, net, st)?;
                h().shamir_permutation_with_precomputation_packed(v, &mut pre, net, st)?;
                Ok(())
            });
        }
        private_run(s, "compression tree".into(), (n, t), 4, move |v, net, st| {
            h().merkle_tree_compression_shamir::<2, _>(v.to_vec(), net, st)?;
            Ok(())
        });
        private_run(s, "sponge tree".into(), (n, t), 2, move |v, net, st| {
            Poseidon2::<SymF, 3, 5>::new(consts(2, 1)).merkle_tree_sponge_shamir::<2, _>(v.to_vec(), net, st)?;
            Ok(())
        });
    }
}
