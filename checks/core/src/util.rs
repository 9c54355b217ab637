//! Helpers shared by the harnesses: reference computations that do not use the code under test.
use ark_bn254::Fr;
use ark_ff::{AdditiveGroup, Field};
use mpc_core::protocols::shamir::{ShamirPreprocessing, ShamirPrimeFieldShare, ShamirState};
use symex::net::{Log, RecNet, run_parties};
use symex::{Cx, SymF};

pub type Share = ShamirPrimeFieldShare<SymF>;

pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(from: usize, n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            go(i + 1, n, k, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(0, n, k, &mut vec![], &mut out);
    out
}

/// Value at `at` of the polynomial through `(xs[i], ys[i])`, by Lagrange's formula.
pub fn interpolate(xs: &[u64], ys: &[SymF], at: u64) -> SymF {
    assert_eq!(xs.len(), ys.len());
    let mut r = SymF::C(Fr::ZERO);
    for (i, y) in ys.iter().enumerate() {
        let mut k = Fr::ONE;
        for (j, x) in xs.iter().enumerate() {
            if i != j {
                k *= (Fr::from(at) - Fr::from(*x)) * (Fr::from(xs[i]) - Fr::from(*x)).inverse().unwrap();
            }
        }
        r += *y * SymF::C(k);
    }
    r
}

/// `shares[i]` is party i's point at i+1: they lie on one polynomial of degree `deg` with value
/// `secret` at 0. Equivalent to: every `deg`+1 of them reconstruct `secret`.
pub fn is_sharing(cx: &mut Cx, label: &str, shares: &[SymF], deg: usize, secret: SymF) {
    let xs: Vec<u64> = (1..=deg as u64 + 1).collect();
    cx.prove_eq(format!("{label}: the shares of the first {} parties give the value", deg + 1), interpolate(&xs, &shares[..=deg], 0), secret);
    for j in deg + 1..shares.len() {
        cx.prove_eq(
            format!("{label}: party {j}'s share lies on the degree-{deg} polynomial"),
            interpolate(&xs, &shares[..=deg], j as u64 + 1),
            shares[j],
        );
    }
}

/// Runs a Shamir protocol between `n` threads over a recording network.
pub fn shamir<R: Send>(
    n: usize,
    t: usize,
    pairs: usize,
    f: impl Fn(usize, &RecNet, &mut ShamirState<SymF>) -> eyre::Result<R> + Sync,
) -> (Vec<eyre::Result<R>>, Log) {
    let (nets, log) = RecNet::parties(n);
    let r = run_parties(nets, |i, net| {
        let mut st = ShamirState::from(ShamirPreprocessing::<SymF>::new(n, t, pairs, &net)?);
        f(i, &net, &mut st)
    });
    (r, log)
}

pub fn all_ok<R>(cx: &mut Cx, label: &str, rs: Vec<eyre::Result<R>>) -> Option<Vec<R>> {
    let mut out = vec![];
    for (i, r) in rs.into_iter().enumerate() {
        out.push(cx.ok(format!("{label}, party {i}"), r)?);
    }
    Some(out)
}

/// Degree-t sharing of a value with fresh symbols for the polynomial.
pub fn deal(v: SymF, t: usize, n: usize, label: &str) -> Vec<Share> {
    let coeffs: Vec<SymF> = (0..t).map(|i| SymF::var(format!("{label}_c{i}"))).collect();
    (1..=n as u64)
        .map(|x| {
            let mut s = v;
            let mut p = Fr::ONE;
            for c in &coeffs {
                p *= Fr::from(x);
                s += *c * SymF::C(p);
            }
            Share::new(s)
        })
        .collect()
}

pub fn inner(v: &[Share]) -> Vec<SymF> {
    v.iter().map(|s| s.inner()).collect()
}
