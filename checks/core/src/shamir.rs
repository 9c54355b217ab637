use crate::util::*;
use ark_ff::{AdditiveGroup, Field};
use mpc_core::MpcState;
use mpc_core::protocols::shamir::{
    self as sh, ShamirPreprocessing, ShamirPrimeFieldShare, ShamirState, arithmetic as ar,
};
use symex::curve::{G1, g1};
use symex::net::{RecNet, run_parties};
use symex::privacy::{Privacy, received};
use symex::{Cx, Session, SymF, entropy, smt};

const ONE: SymF = SymF::ONE;

fn sizes(s: &Session) -> Vec<(usize, usize)> {
    // (parties, threshold)
    let mut v = vec![(3, 1), (4, 1), (5, 2), (6, 2), (7, 3)];
    if s.thorough() {
        v.extend([(5, 1), (8, 3), (9, 4), (11, 5), (10, 2)]);
    }
    v
}

/// Sets of d+1 or more of n parties in other than ascending order: descending, rotated and
/// interleaved (all of them for small n, a spread of at most 60 otherwise).
fn orders(n: usize, d: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for k in d + 1..=n {
        let all = subsets(n, k);
        let step = all.len().div_ceil(20);
        for (j, s) in all.into_iter().step_by(step).enumerate() {
            if k > d + 1 {
                out.push(s.clone());
            }
            let mut r = s.clone();
            r.reverse();
            out.push(r);
            let mut r = s.clone();
            r.rotate_left((j + 1) % k);
            out.push(r);
            let r: Vec<usize> = s.iter().skip(1).step_by(2).chain(s.iter().step_by(2)).copied().collect();
            out.push(r);
        }
    }
    out
}

/// Sharing and reconstruction.
pub fn s01(s: &mut Session) {
    s.functions(&[
        "shamir::{share_field_element, combine_field_element, share_field_elements, combine_field_elements}",
        "shamir::{share_curve_point, combine_curve_point, share, share_point, evaluate_poly, evaluate_poly_point}",
        "shamir::{lagrange_from_coeff, reconstruct, reconstruct_point, precompute_interpolation_polys, interpolate_poly_from_precomputed}",
        "shamir::{share_with_zeros, interpolation_poly_from_zero_points, interpolate_poly_from_secret_and_zeros, poly_with_zeros_from_precomputed, poly_with_zeros_from_precomputed_point}",
    ]);
    let sz = sizes(s);
    s.bound(format!("(parties, degree) in {sz:?} plus degrees 0..n-1 for n=4; every subset of degree+1 parties in ascending order, up to 20 subsets of every size from degree+1 to n in three other orders; vectors of 3 values; group elements as discrete logarithms"));
    s.outside("duplicate or zero party indices; party counts above the bound");
    s.assumption("the group is an abstract group of prime order r (points are represented by their discrete logarithm)");
    let mut sz = sz;
    sz.extend([(4, 0), (4, 2), (4, 3)]);
    for (n, d) in sz {
        s.case(format!("field n={n} d={d}"), move |cx| {
            let v = cx.var("secret");
            let shares = sh::share_field_element(v, d, n, &mut entropy::rng(1));
            cx.require("one share per party", shares.len() == n);
            is_sharing(cx, "share_field_element", &inner(&shares), d, v);
            for sub in subsets(n, d + 1) {
                let xs: Vec<usize> = sub.iter().map(|i| i + 1).collect();
                let sh_: Vec<Share> = sub.iter().map(|i| shares[*i]).collect();
                let r = sh::combine_field_element(&sh_, &xs, d);
                if let Some(r) = cx.ok(format!("combine {xs:?}"), r) {
                    cx.prove_eq(format!("combine_field_element of parties {xs:?}"), r, v);
                }
            }
            for sub in orders(n, d) {
                let xs: Vec<usize> = sub.iter().map(|i| i + 1).collect();
                let sh_: Vec<Share> = sub.iter().map(|i| shares[*i]).collect();
                if let Some(r) = cx.ok(format!("combine {xs:?}"), sh::combine_field_element(&sh_, &xs, d)) {
                    cx.prove_eq(format!("combine_field_element of parties {xs:?}"), r, v);
                }
            }
            // too few or inconsistent inputs are refused
            let xs: Vec<usize> = (1..=d).collect();
            cx.require("too few shares are refused", sh::combine_field_element(&shares[..d], &xs, d).is_err());
            if n > d + 1 {
                let xs: Vec<usize> = (1..=d + 1).collect();
                cx.require("index/share count mismatch is refused", sh::combine_field_element(&shares, &xs, d).is_err());
            }
        });
        s.case(format!("vector n={n} d={d}"), move |cx| {
            let vs = cx.vars("secret", 3);
            let shares = sh::share_field_elements(&vs, d, n, &mut entropy::rng(2));
            cx.require("one vector per party", shares.len() == n && shares.iter().all(|p| p.len() == 3));
            for k in 0..3 {
                let col: Vec<SymF> = shares.iter().map(|p| p[k].inner()).collect();
                is_sharing(cx, &format!("share_field_elements[{k}]"), &col, d, vs[k]);
            }
            for sub in subsets(n, d + 1).into_iter().chain(orders(n, d)) {
                let xs: Vec<usize> = sub.iter().map(|i| i + 1).collect();
                let p: Vec<Vec<Share>> = sub.iter().map(|i| shares[*i].clone()).collect();
                if let Some(r) = cx.ok(format!("combine {xs:?}"), sh::combine_field_elements(&p, &xs, d)) {
                    cx.prove_all_eq(format!("combine_field_elements of {xs:?}"), &r, &vs);
                }
            }
            let xs: Vec<usize> = (1..=n).collect();
            if let Some(r) = cx.ok("combine all", sh::combine_field_elements(&shares, &xs, d)) {
                cx.prove_all_eq("combine_field_elements of all parties", &r, &vs);
            }
            let mut bad = shares.clone();
            bad[n - 1].pop();
            cx.require("ragged vectors are refused", sh::combine_field_elements(&bad, &xs, d).is_err());
            cx.require("too few vectors are refused", sh::combine_field_elements(&shares[..d], &xs[..d], d).is_err());
            if n > d + 1 {
                cx.require("index count mismatch is refused", sh::combine_field_elements(&shares, &xs[..d + 1], d).is_err());
            }
        });
        s.case(format!("point n={n} d={d}"), move |cx| {
            let v = cx.var("secret");
            let shares = sh::share_curve_point::<G1, _>(g1(v), d, n, &mut entropy::rng(3));
            cx.require("one share per party", shares.len() == n);
            let dl: Vec<SymF> = shares.iter().map(|p| p.inner().dl()).collect();
            is_sharing(cx, "share_curve_point", &dl, d, v);
            for sub in subsets(n, d + 1).into_iter().chain(orders(n, d)) {
                let xs: Vec<usize> = sub.iter().map(|i| i + 1).collect();
                let p: Vec<_> = sub.iter().map(|i| shares[*i]).collect();
                if let Some(r) = cx.ok(format!("combine {xs:?}"), sh::combine_curve_point(&p, &xs, d)) {
                    cx.prove_eq(format!("combine_curve_point of {xs:?}"), r.dl(), v);
                }
            }
            let xs: Vec<usize> = (1..=n).collect();
            if n > d + 1 {
                cx.require("index count mismatch is refused", sh::combine_curve_point(&shares, &xs[..d + 1], d).is_err());
            }
            cx.require("too few shares are refused", sh::combine_curve_point(&shares[..d], &xs[..d], d).is_err());
        });
        s.case(format!("interpolation n={n} d={d}"), move |cx| {
            let ys = cx.vars("y", d + 1);
            for sub in subsets(n, d + 1).into_iter().step_by(3) {
                let xs: Vec<usize> = sub.iter().map(|i| i + 1).collect();
                let x64: Vec<u64> = xs.iter().map(|x| *x as u64).collect();
                let pre = sh::precompute_interpolation_polys::<SymF>(&xs);
                let poly = sh::interpolate_poly_from_precomputed(&ys, &pre);
                cx.require("degree of the interpolated polynomial", poly.len() == d + 1);
                for (x, y) in xs.iter().zip(&ys) {
                    cx.prove_eq(format!("interpolated polynomial over {xs:?} at {x}"), sh::evaluate_poly(&poly, SymF::from(*x as u64)), *y);
                }
                let la = sh::lagrange_from_coeff::<SymF>(&xs);
                cx.prove_eq(format!("reconstruct over {xs:?}"), sh::reconstruct(&ys, &la), interpolate(&x64, &ys, 0));
            }
            // the polynomial with prescribed roots
            let secret = cx.var("secret");
            for z in subsets(n, d.min(n - 1)) {
                let zeros: Vec<usize> = z.iter().map(|i| i + 1).collect();
                let poly = sh::interpolate_poly_from_secret_and_zeros(&secret, &zeros);
                cx.require("degree with prescribed roots", poly.len() == zeros.len() + 1);
                cx.prove_eq(format!("value at 0 with roots {zeros:?}"), sh::evaluate_poly(&poly, SymF::ZERO), secret);
                for r in &zeros {
                    cx.prove_eq(format!("root {r} of {zeros:?}"), sh::evaluate_poly(&poly, SymF::from(*r as u64)), SymF::ZERO);
                }
                let all: Vec<usize> = (1..=n).collect();
                let sw = sh::share_with_zeros(&secret, &zeros, &all);
                is_sharing(cx, &format!("share_with_zeros {zeros:?}"), &sw, zeros.len(), secret);
                let pre = sh::interpolation_poly_from_zero_points::<SymF>(&zeros);
                let p2 = sh::poly_with_zeros_from_precomputed(&secret, pre.clone());
                cx.prove_all_eq(format!("poly_with_zeros_from_precomputed {zeros:?}"), &p2, &poly);
                let p3: Vec<SymF> = sh::poly_with_zeros_from_precomputed_point::<SymF, G1>(&g1(secret), &pre).iter().map(|p| p.dl()).collect();
                cx.prove_all_eq(format!("poly_with_zeros_from_precomputed_point {zeros:?}"), &p3, &poly);
            }
        });
    }
}

/// Any `degree` shares are independent of the secret.
pub fn s02(s: &mut Session) {
    s.functions(&["shamir::{share_field_element, share_field_elements, share_curve_point, share, share_point}"]);
    let mut sz = sizes(s);
    sz.extend([(4, 2), (5, 4)]);
    s.bound(format!("(parties, degree) in {sz:?}; every set of `degree` parties (sampled to 40 sets per size above n=7); vectors of 2 values"));
    s.assumption("the sharing randomness (outputs of the caller's RNG) is uniform and independent");
    for (n, d) in sz {
        for (kind, name) in [(0, "field"), (1, "vector"), (2, "point")] {
            s.case(format!("{name} n={n} d={d}"), move |cx| {
                let k = if kind == 1 { 2 } else { 1 };
                let vs = cx.vars("secret", k);
                let shares: Vec<Vec<SymF>> = match kind {
                    0 => sh::share_field_element(vs[0], d, n, &mut entropy::rng(1)).iter().map(|x| vec![x.inner()]).collect(),
                    1 => sh::share_field_elements(&vs, d, n, &mut entropy::rng(1)).iter().map(|p| inner(p)).collect(),
                    _ => sh::share_curve_point::<G1, _>(g1(vs[0]), d, n, &mut entropy::rng(1)).iter().map(|p| vec![p.inner().dl()]).collect(),
                };
                let subs = subsets(n, d);
                let step = subs.len().div_ceil(40);
                for sub in subs.into_iter().step_by(step) {
                    cx.private(Privacy {
                        label: format!("shares of parties {sub:?}"),
                        secrets: vs.clone(),
                        revealed: vec![],
                        parties: vec![],
                        view: sub.iter().flat_map(|i| shares[*i].clone()).collect(),
                    });
                }
            });
        }
    }
}

fn op_sizes(s: &Session) -> Vec<(usize, usize)> {
    if s.thorough() { vec![(3, 1), (4, 1), (5, 2), (6, 2), (5, 1), (7, 3), (7, 2)] } else { vec![(3, 1), (4, 1), (5, 2)] }
}

/// Arithmetic on shares.
pub fn s03(s: &mut Session) {
    s.functions(&[
        "shamir::arithmetic::{add, add_assign, sub, sub_assign, sub_vec_assign, add_vec_assign, add_public, add_assign_public, mul, mul_vec, local_mul_vec, mul_public, mul_assign_public, div, div_shared_by_public, div_public_by_shared, inv, inv_vec, neg, open, open_vec, mul_open_vec, promote_to_trivial_share(s)}",
        "ShamirPrimeFieldShare operators", "ShamirNetworkExt::{degree_reduce, degree_reduce_many, broadcast_next, broadcast}",
        "ShamirPreprocessing::new, ShamirState::{from, get_pair, rand}", "ShamirRng (double sharing)",
    ]);
    let sz = op_sizes(s);
    s.bound(format!("(parties, threshold) in {sz:?}; vectors of 1..3 values; up to two multiplications in sequence; all shares of the operands arbitrary degree-t sharings"));
    s.outside("larger party counts and vector lengths (the code is uniform in both); panics inside rayon with more than one chunk");
    s.assumption("messages between each pair of parties arrive unchanged and in order");
    for (n, t) in sz {
        s.case(format!("local n={n} t={t}"), move |cx| {
            let (a, b, p) = (cx.var("a"), cx.var("b"), cx.var("p"));
            let (sa, sb) = (deal(a, t, n, "a"), deal(b, t, n, "b"));
            let each = |f: &dyn Fn(Share, Share) -> Share| -> Vec<SymF> { sa.iter().zip(&sb).map(|(x, y)| f(*x, *y).inner()).collect() };
            let zero = SymF::ZERO;
            let mut chk = |cx: &mut Cx, l: &str, v: Vec<SymF>, w: SymF| is_sharing(cx, l, &v, t, w);
            chk(cx, "add", each(&|x, y| ar::add(x, y)), a + b);
            chk(cx, "sub", each(&|x, y| ar::sub(x, y)), a - b);
            chk(cx, "neg", each(&|x, _| ar::neg(x)), zero - a);
            chk(cx, "add_public", each(&|x, _| ar::add_public(x, p)), a + p);
            chk(cx, "mul_public", each(&|x, _| ar::mul_public(x, p)), a * p);
            chk(cx, "add_assign", each(&|x, y| { let mut z = x; ar::add_assign(&mut z, y); z }), a + b);
            chk(cx, "sub_assign", each(&|x, y| { let mut z = x; ar::sub_assign(&mut z, y); z }), a - b);
            chk(cx, "add_assign_public", each(&|x, _| { let mut z = x; ar::add_assign_public(&mut z, p); z }), a + p);
            chk(cx, "mul_assign_public", each(&|x, _| { let mut z = x; ar::mul_assign_public(&mut z, p); z }), a * p);
            chk(cx, "add_vec_assign", each(&|x, y| { let mut z = [x, y]; ar::add_vec_assign(&mut z, &[y, x]); z[0] }), a + b);
            chk(cx, "sub_vec_assign", each(&|x, y| { let mut z = [x, y]; ar::sub_vec_assign(&mut z, &[y, x]); z[1] }), b - a);
            chk(cx, "operator +", each(&|x, y| x + y), a + b);
            chk(cx, "operator -", each(&|x, y| x - y), a - b);
            chk(cx, "operator + &", each(&|x, y| &x + &y), a + b);
            chk(cx, "operator - &", each(&|x, y| &x - &y), a - b);
            chk(cx, "operator + public", each(&|x, _| x + p), a + p);
            chk(cx, "operator & + &public", each(&|x, _| &x + &p), a + p);
            chk(cx, "operator * public", each(&|x, _| x * p), a * p);
            chk(cx, "operator & * &public", each(&|x, _| &x * &p), a * p);
            chk(cx, "unary -", each(&|x, _| -x), zero - a);
            chk(cx, "unary - &", each(&|x, _| -&x), zero - a);
            chk(cx, "operator +=", each(&|x, y| { let mut z = x; z += y; z }), a + b);
            chk(cx, "operator -=", each(&|x, y| { let mut z = x; z -= y; z }), a - b);
            chk(cx, "operator *= public", each(&|x, _| { let mut z = x; z *= p; z }), a * p);
            chk(cx, "operator += public", each(&|x, _| { let mut z = x; z += p; z }), a + p);
            chk(cx, "promote_to_trivial_share", each(&|_, _| ar::promote_to_trivial_share(p)), p);
            chk(cx, "promote_to_trivial_shares", each(&|_, _| ar::promote_to_trivial_shares(&[a, p])[1]), p);
            chk(cx, "zero_share", each(&|_, _| Share::zero_share()), zero);
            // products of shares are degree-2t sharings
            let m: Vec<SymF> = each(&|x, y| x * y);
            is_sharing(cx, "operator * (degree 2t)", &m, 2 * t, a * b);
            let m: Vec<SymF> = sa.iter().zip(&sb).map(|(x, y)| ar::local_mul_vec(&[*y, *x], &[*y, *y])[1]).collect();
            is_sharing(cx, "local_mul_vec (degree 2t)", &m, 2 * t, a * b);
            // division by a public value
            let d: Vec<_> = sa.iter().map(|x| ar::div_shared_by_public(*x, p)).collect();
            if d.iter().all(|r| r.is_ok()) {
                cx.prove("division succeeds only for a nonzero divisor", smt::ne(p, zero));
                let v: Vec<SymF> = d.into_iter().map(|r| r.unwrap().inner()).collect();
                let q = interpolate(&(1..=t as u64 + 1).collect::<Vec<_>>(), &v[..=t], 0);
                cx.prove_eq("div_shared_by_public", q * p, a);
                is_sharing(cx, "div_shared_by_public", &v, t, q);
            } else {
                cx.require("all parties agree that the divisor is zero", d.iter().all(|r| r.is_err()));
                cx.prove("division fails only for zero", smt::zero(p));
            }
        });
        s.case(format!("mul n={n} t={t}"), move |cx| {
            let (a, b, c) = (cx.var("a"), cx.var("b"), cx.var("c"));
            let (sa, sb, sc) = (deal(a, t, n, "a"), deal(b, t, n, "b"), deal(c, t, n, "c"));
            let (r, _) = shamir(n, t, 2, |i, net, st| {
                let x = ar::mul(sa[i], sb[i], net, st)?;
                let y = ar::mul(x, sc[i], net, st)?;
                Ok((x.inner(), y.inner()))
            });
            if let Some(r) = all_ok(cx, "mul", r) {
                let x: Vec<SymF> = r.iter().map(|v| v.0).collect();
                is_sharing(cx, "mul", &x, t, a * b);
                // the second product is compared against the first one's reconstructed shares
                let y: Vec<SymF> = r.iter().map(|v| v.1).collect();
                is_sharing(cx, "mul of a product", &y, t, a * b * c);
            }
        });
        s.case(format!("mul_vec n={n} t={t}"), move |cx| {
            let (a, b) = (cx.vars("a", 3), cx.vars("b", 3));
            let sa: Vec<Vec<Share>> = (0..3).map(|k| deal(a[k], t, n, &format!("a{k}"))).collect();
            let sb: Vec<Vec<Share>> = (0..3).map(|k| deal(b[k], t, n, &format!("b{k}"))).collect();
            let (r, _) = shamir(n, t, 3, |i, net, st| {
                let x: Vec<Share> = sa.iter().map(|v| v[i]).collect();
                let y: Vec<Share> = sb.iter().map(|v| v[i]).collect();
                let m = ar::mul_vec(&x, &y, net, st)?;
                Ok(inner(&m))
            });
            if let Some(r) = all_ok(cx, "mul_vec", r) {
                cx.require("mul_vec keeps the length", r.iter().all(|v| v.len() == 3));
                for k in 0..3 {
                    let col: Vec<SymF> = r.iter().map(|v| v[k]).collect();
                    is_sharing(cx, &format!("mul_vec[{k}]"), &col, t, a[k] * b[k]);
                }
            }
        });
        s.case(format!("open n={n} t={t}"), move |cx| {
            let a = cx.vars("a", 3);
            let sa: Vec<Vec<Share>> = (0..3).map(|k| deal(a[k], t, n, &format!("a{k}"))).collect();
            let (r, _) = shamir(n, t, 2, |i, net, st| {
                let x: Vec<Share> = sa.iter().map(|v| v[i]).collect();
                let o = ar::open(x[0], net, st)?;
                let v = ar::open_vec(&x, net, st)?;
                let m = ar::mul_open_vec(&x, &[x[1], x[2], x[0]], net, st)?;
                Ok((o, v, m))
            });
            if let Some(r) = all_ok(cx, "open", r) {
                for (i, (o, v, m)) in r.iter().enumerate() {
                    cx.prove_eq(format!("open at party {i}"), *o, a[0]);
                    cx.prove_all_eq(format!("open_vec at party {i}"), v, &a);
                    cx.prove_all_eq(format!("mul_open_vec at party {i}"), m, &[a[0] * a[1], a[1] * a[2], a[2] * a[0]]);
                }
            }
        });
        s.case(format!("inv_vec of two nonzero values n={n} t={t}"), move |cx| {
            let a = cx.vars("a", 2);
            cx.assume(smt::ne(a[0], SymF::ZERO));
            cx.assume(smt::ne(a[1], SymF::ZERO));
            cx.generic(true); // the sampled masks are not zero
            let sh = [deal(a[0], t, n, "a0"), deal(a[1], t, n, "a1")];
            let (r, _) = shamir(n, t, 6, |i, net, st| Ok(inner(&ar::inv_vec(&[sh[0][i], sh[1][i]], net, st)?)));
            if let Some(r) = all_ok(cx, "inv_vec", r) {
                cx.require("inv_vec keeps the length", r.iter().all(|v| v.len() == 2));
                for k in 0..2 {
                    let col: Vec<SymF> = r.iter().map(|v| v[k]).collect();
                    let q = interpolate(&(1..=t as u64 + 1).collect::<Vec<_>>(), &col[..=t], 0);
                    cx.prove_eq(format!("inv_vec[{k}] times operand"), q * a[k], ONE);
                    is_sharing(cx, &format!("inv_vec[{k}]"), &col, t, q);
                }
            }
        });
        for kind in ["inv", "inv_vec", "div_public_by_shared", "div"] {
            if n > 4 && !s.thorough() && kind != "inv" {
                continue;
            }
            s.case(format!("{kind} n={n} t={t}"), move |cx| {
                let (a, b) = (cx.var("a"), cx.var("b"));
                let (sa, sb) = (deal(a, t, n, "a"), deal(b, t, n, "b"));
                let (r, _) = shamir(n, t, 6, |i, net, st| {
                    Ok(match kind {
                        "inv" => ar::inv(sa[i], net, st)?.inner(),
                        "inv_vec" => ar::inv_vec(&[sa[i]], net, st)?[0].inner(),
                        "div_public_by_shared" => ar::div_public_by_shared(b, sa[i], net, st)?.inner(),
                        _ => ar::div(sb[i], sa[i], net, st)?.inner(),
                    })
                });
                if r.iter().all(|x| x.is_ok()) {
                    let v: Vec<SymF> = r.into_iter().map(|x| x.unwrap()).collect();
                    cx.prove("succeeds only for a nonzero operand", smt::ne(a, SymF::ZERO));
                    let q = interpolate(&(1..=t as u64 + 1).collect::<Vec<_>>(), &v[..=t], 0);
                    let want = if kind.starts_with("inv") { ONE } else { b };
                    cx.prove_eq(format!("{kind}: result times operand"), q * a, want);
                    is_sharing(cx, kind, &v, t, q);
                } else {
                    cx.require("all parties report the failure", r.iter().all(|x| x.is_err()));
                }
            });
            s.case(format!("{kind} of a nonzero value n={n} t={t}"), move |cx| {
                let (a, b) = (cx.var("a"), cx.var("b"));
                cx.assume(smt::ne(a, SymF::ZERO));
                cx.generic(true); // the sampled mask is not zero
                let (sa, sb) = (deal(a, t, n, "a"), deal(b, t, n, "b"));
                let (r, _) = shamir(n, t, 6, |i, net, st| {
                    Ok(match kind {
                        "inv" => ar::inv(sa[i], net, st)?.inner(),
                        "inv_vec" => ar::inv_vec(&[sa[i]], net, st)?[0].inner(),
                        "div_public_by_shared" => ar::div_public_by_shared(b, sa[i], net, st)?.inner(),
                        _ => ar::div(sb[i], sa[i], net, st)?.inner(),
                    })
                });
                cx.require("succeeds for a nonzero operand", r.iter().all(|x| x.is_ok()));
            });
        }
    }
}

/// Correlated randomness.
pub fn s04(s: &mut Session) {
    s.functions(&["ShamirPreprocessing::new", "ShamirRng::{new, get_shared_rngs, random_double_share, buffer_triples, fork_with_pairs}", "ShamirState::{from, get_pair, rand, buffer_triples, fork}"]);
    let mut sz = vec![(3, 1), (4, 1), (5, 1), (5, 2), (6, 2), (7, 3)];
    if s.thorough() {
        sz.extend([(7, 2), (8, 3), (9, 4), (7, 1), (10, 4)]);
    }
    s.bound(format!("(parties, threshold) in {sz:?}; 1..4 preprocessed pairs plus refills of at most one batch; one fork"));
    s.assumption("ChaCha12 outputs under distinct seeds/positions are independent uniform symbols; equal seeds give equal symbols");
    for (n, t) in sz {
        for amount in [1usize, 4] {
            s.case(format!("pairs n={n} t={t} amount={amount}"), move |cx| {
                let (r, _) = shamir(n, t, amount, |_, net, st| {
                    let k = amount.div_ceil(t + 1) * (t + 1);
                    let mut v = (0..k).map(|_| st.get_pair(net)).collect::<eyre::Result<Vec<_>>>()?;
                    // empty now; refill explicitly by one more batch
                    st.buffer_triples(net, 2)?;
                    v.push(st.get_pair(net)?);
                    v.push((st.rand(net)?.inner(), SymF::ZERO));
                    Ok(v)
                });
                if let Some(r) = all_ok(cx, "preprocessing", r) {
                    let k = r[0].len();
                    cx.require("all parties got the same number of pairs", r.iter().all(|v| v.len() == k));
                    let xs: Vec<u64> = (1..=t as u64 + 1).collect();
                    let mut secrets = vec![];
                    for j in 0..k {
                        let rt: Vec<SymF> = r.iter().map(|v| v[j].0).collect();
                        let v = interpolate(&xs, &rt[..=t], 0);
                        is_sharing(cx, &format!("pair {j}, degree-t part"), &rt, t, v);
                        if j + 1 < k {
                            let r2: Vec<SymF> = r.iter().map(|v| v[j].1).collect();
                            is_sharing(cx, &format!("pair {j}, degree-2t part"), &r2, 2 * t, v);
                        }
                        secrets.push(v);
                    }
                    distinct(cx, &secrets);
                }
            });
        }
        s.case(format!("fork n={n} t={t}"), move |cx| {
            let (r, _) = shamir(n, t, 3 * (t + 1), |i, net, st| {
                let mut f = st.fork(t + 1)?;
                let ids_ok = f.id() == i && st.id() == i && f.num_parties == n && f.threshold == t;
                let mut v = vec![];
                for _ in 0..t + 1 {
                    v.push(f.get_pair(net)?);
                }
                for _ in 0..2 * (t + 1) {
                    v.push(st.get_pair(net)?);
                }
                // both refill from their own generators
                f.buffer_triples(net, 1)?;
                v.push(f.get_pair(net)?);
                st.buffer_triples(net, 1)?;
                v.push(st.get_pair(net)?);
                Ok((ids_ok, v))
            });
            if let Some(r) = all_ok(cx, "fork", r) {
                cx.require("the fork keeps id, party count and threshold", r.iter().all(|v| v.0));
                let xs: Vec<u64> = (1..=t as u64 + 1).collect();
                let mut secrets = vec![];
                for j in 0..r[0].1.len() {
                    let rt: Vec<SymF> = r.iter().map(|v| v.1[j].0).collect();
                    let v = interpolate(&xs, &rt[..=t], 0);
                    is_sharing(cx, &format!("pair {j}, degree-t part"), &rt, t, v);
                    let r2: Vec<SymF> = r.iter().map(|v| v.1[j].1).collect();
                    is_sharing(cx, &format!("pair {j}, degree-2t part"), &r2, 2 * t, v);
                    secrets.push(v);
                }
                distinct(cx, &secrets);
            }
        });
    }
    s.case("threshold check", |cx| {
        for n in 2..=8 {
            for t in 1..n {
                let (nets, _) = RecNet::parties(n);
                let too_large = 2 * t + 1 > n;
                if too_large {
                    let r = run_parties(nets, |_, net| ShamirPreprocessing::<SymF>::new(n, t, 1, &net).is_err());
                    cx.require(format!("n={n} t={t} is refused"), r.iter().all(|e| *e));
                } else if n <= 5 {
                    let r = run_parties(nets, |_, net| ShamirPreprocessing::<SymF>::new(n, t, 1, &net).is_ok());
                    cx.require(format!("n={n} t={t} is accepted"), r.iter().all(|e| *e));
                }
            }
        }
    });
}

/// The given masks are linearly independent over the sampled symbols: in particular no mask is
/// used twice and none is a constant.
fn distinct(cx: &mut Cx, masks: &[SymF]) {
    cx.private(Privacy {
        label: "the masks are jointly uniform".into(),
        secrets: vec![cx_offset(0)],
        revealed: vec![],
        parties: vec![],
        view: masks.iter().enumerate().map(|(i, m)| *m + cx_offset(0) * SymF::from(i as u64 + 1)).collect(),
    });
    for i in 1..masks.len() {
        cx.private(Privacy {
            label: format!("mask {i} is independent of the earlier ones"),
            secrets: vec![cx_offset(0)],
            revealed: vec![],
            parties: vec![],
            view: masks[..i].iter().copied().chain([masks[i] + cx_offset(0)]).collect(),
        });
    }
}
fn cx_offset(i: usize) -> SymF {
    SymF::var(format!("offset{i}"))
}

pub fn coalitions(n: usize, k: usize, thorough: bool) -> Vec<Vec<usize>> {
    let v = subsets(n, k);
    let step = if thorough { 1 } else { v.len().div_ceil(10) };
    v.into_iter().step_by(step).collect()
}

/// What a coalition of `t` parties sees in the protocols tells it nothing about the inputs.
pub fn s05(s: &mut Session) {
    s.functions(&[
        "ShamirPreprocessing::new", "ShamirNetworkExt::{degree_reduce, degree_reduce_many, degree_reduce_point, broadcast_next}",
        "shamir::arithmetic::{mul, mul_vec, inv, inv_vec, div, open, open_vec, mul_open_vec}", "shamir::pointshare::{scalar_mul, open_point}",
    ]);
    let sz: Vec<(usize, usize)> = if s.thorough() { vec![(3, 1), (4, 1), (5, 2), (6, 2), (7, 3)] } else { vec![(3, 1), (4, 1), (5, 2)] };
    s.bound(format!("(parties, threshold) in {sz:?}; every coalition of exactly `threshold` parties (at most 10 per size in the quick tier); one operation per run with its preprocessing; semi-honest parties"));
    s.assumption("each pair's ChaCha12 stream is a stream of independent uniform symbols unknown to the other parties; the dealer's randomness is uniform");
    s.outside("computational assumptions on the PRG; timing; malicious deviations");
    let thorough = s.thorough();
    for (n, t) in sz {
        for kind in ["mul", "two muls", "mul_vec", "mul_open_vec", "inv", "inv_vec", "div", "open", "open_vec", "scalar_mul", "open_point"] {
            if n > 4 && !thorough && matches!(kind, "div" | "inv_vec" | "two muls") {
                continue;
            }
            s.case(format!("{kind} n={n} t={t}"), move |cx| {
                let (a, b) = (cx.var("a"), cx.var("b"));
                let inverts = matches!(kind, "inv" | "inv_vec" | "div");
                if inverts {
                    cx.assume(smt::ne(a, SymF::ZERO));
                    if kind == "inv_vec" {
                        cx.assume(smt::ne(b, SymF::ZERO));
                    }
                    cx.generic(true);
                }
                let mut rng = entropy::rng(7);
                let sa = sh::share_field_element(a, t, n, &mut rng);
                let sb = sh::share_field_element(b, t, n, &mut rng);
                let pa = sh::share_curve_point::<G1, _>(g1(a), t, n, &mut rng);
                let (r, log) = shamir(n, t, 4, |i, net, st| {
                    match kind {
                        "mul" => { ar::mul(sa[i], sb[i], net, st)?; }
                        "two muls" => {
                            let x = ar::mul(sa[i], sb[i], net, st)?;
                            ar::mul(x, sb[i], net, st)?;
                        }
                        "mul_vec" => { ar::mul_vec(&[sa[i], sb[i]], &[sb[i], sb[i]], net, st)?; }
                        "mul_open_vec" => { ar::mul_open_vec(&[sa[i], sb[i]], &[sb[i], sb[i]], net, st)?; }
                        "inv" => { ar::inv(sa[i], net, st)?; }
                        "inv_vec" => { ar::inv_vec(&[sa[i], sb[i]], net, st)?; }
                        "div" => { ar::div(sb[i], sa[i], net, st)?; }
                        "open" => { ar::open(sa[i], net, st)?; }
                        "open_vec" => { ar::open_vec(&[sa[i], sb[i]], net, st)?; }
                        "scalar_mul" => { sh::pointshare::scalar_mul(&pa[i], sb[i], net, st)?; }
                        _ => { sh::pointshare::open_point(&pa[i], net, st)?; }
                    }
                    Ok(())
                });
                if all_ok(cx, kind, r).is_none() {
                    return;
                }
                let revealed = match kind {
                    "mul_open_vec" => vec![a * b, b * b],
                    "open" | "open_point" => vec![a],
                    "open_vec" => vec![a, b],
                    _ => vec![],
                };
                for co in coalitions(n, t, thorough) {
                    let mut view = received(&log, &co);
                    for i in &co {
                        view.extend([sa[*i].inner(), sb[*i].inner(), pa[*i].inner().dl()]);
                    }
                    cx.private(Privacy {
                        label: format!("{kind}: view of parties {co:?}"),
                        secrets: vec![a, b],
                        revealed: revealed.clone(),
                        parties: co.iter().map(|i| *i as u64 + 1).collect(),
                        view,
                    });
                }
            });
        }
        s.case(format!("preprocessing n={n} t={t}"), move |cx| {
            let (r, log) = shamir(n, t, 2, |_, net, st| {
                let p = st.get_pair(net)?;
                let q = st.get_pair(net)?;
                Ok((p, q))
            });
            let Some(r) = all_ok(cx, "preprocessing", r) else { return };
            let o = cx_offset(0);
            let xs: Vec<u64> = (1..=t as u64 + 1).collect();
            let val = |f: &dyn Fn(usize) -> SymF| interpolate(&xs, &(0..=t).map(f).collect::<Vec<_>>(), 0);
            let (v0, v1) = (val(&|i| r[i].0.0), val(&|i| r[i].1.0));
            for co in coalitions(n, t, thorough) {
                // both masked values look uniform to the coalition, even given its shares
                let mut view = received(&log, &co);
                for i in &co {
                    view.extend([r[*i].0.0, r[*i].0.1, r[*i].1.0, r[*i].1.1]);
                }
                view.push(v0 + o);
                view.push(v1 + o);
                cx.private(Privacy {
                    label: format!("preprocessing: the masks are unknown to parties {co:?}"),
                    secrets: vec![o],
                    revealed: vec![],
                    parties: co.iter().map(|i| *i as u64 + 1).collect(),
                    view,
                });
            }
        });
    }
}
