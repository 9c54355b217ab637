//! Shamir point shares and polynomials with shared coefficients.
use crate::util::*;
use ark_ec::CurveGroup;
use ark_ff::{AdditiveGroup, Field};
use mpc_core::protocols::shamir::{ShamirPointShare, pointshare as ps, poly};
use symex::curve::{G1, g1};
use symex::{Cx, Session, SymF};

type Point = ShamirPointShare<G1>;

fn deal_point(v: SymF, t: usize, n: usize, label: &str) -> Vec<Point> {
    deal(v, t, n, label).into_iter().map(|s| Point::new(g1(s.inner()))).collect()
}

fn dl(v: &[Point]) -> Vec<SymF> {
    v.iter().map(|p| p.inner().dl()).collect()
}

pub fn s06(s: &mut Session) {
    s.functions(&[
        "shamir::pointshare::{add, sub, add_assign, sub_assign, add_assign_public, sub_assign_public, add_assign_public_affine, sub_assign_public_affine, scalar_mul_public_point, scalar_mul_public_scalar, scalar_mul, scalar_mul_local, open_half_point, open_point, open_point_many, open_point_and_field, open_point_and_field_many, msm_public_points, promote_to_trivial_share}",
        "ShamirPointShare operators and conversions", "ShamirNetworkExt::{degree_reduce_point, broadcast_next}", "shamir::{reconstruct, reconstruct_point}",
    ]);
    let sz: Vec<(usize, usize)> = if s.thorough() { vec![(3, 1), (4, 1), (5, 2), (6, 2), (5, 1), (7, 3)] } else { vec![(3, 1), (4, 1), (5, 2)] };
    s.bound(format!("(parties, threshold) in {sz:?}; all discrete logarithms, sharings, scalars and protocol randomness symbolic; vectors of 1..3 values"));
    s.assumption("the group is an abstract group of prime order r (points are represented by their discrete logarithm); messages arrive unchanged and in order");
    for (n, t) in sz {
        s.case(format!("local n={n} t={t}"), move |cx| {
            let (a, b, p, k, f) = (cx.var("a"), cx.var("b"), cx.var("p"), cx.var("k"), cx.var("f"));
            let (sa, sb, sf) = (deal_point(a, t, n, "a"), deal_point(b, t, n, "b"), deal(f, t, n, "f"));
            let pp = g1(p);
            let paff = pp.into_affine();
            let each = |g: &dyn Fn(Point, Point) -> Point| -> Vec<SymF> { sa.iter().zip(&sb).map(|(x, y)| g(*x, *y).inner().dl()).collect() };
            let chk = |cx: &mut Cx, l: &str, v: Vec<SymF>, w: SymF| is_sharing(cx, l, &v, t, w);
            chk(cx, "add", each(&|x, y| ps::add(&x, &y)), a + b);
            chk(cx, "sub", each(&|x, y| ps::sub(&x, &y)), a - b);
            chk(cx, "add_assign", each(&|mut x, y| { ps::add_assign(&mut x, &y); x }), a + b);
            chk(cx, "sub_assign", each(&|mut x, y| { ps::sub_assign(&mut x, &y); x }), a - b);
            chk(cx, "add_assign_public", each(&|mut x, _| { ps::add_assign_public(&mut x, &pp); x }), a + p);
            chk(cx, "sub_assign_public", each(&|mut x, _| { ps::sub_assign_public(&mut x, &pp); x }), a - p);
            chk(cx, "add_assign_public_affine", each(&|mut x, _| { ps::add_assign_public_affine(&mut x, &paff); x }), a + p);
            chk(cx, "sub_assign_public_affine", each(&|mut x, _| { ps::sub_assign_public_affine(&mut x, &paff); x }), a - p);
            chk(cx, "scalar_mul_public_scalar", each(&|x, _| ps::scalar_mul_public_scalar(&x, &k)), a * k);
            chk(cx, "promote_to_trivial_share", each(&|_, _| ps::promote_to_trivial_share(&pp)), p);
            chk(cx, "operator +", each(&|x, y| x + y), a + b);
            chk(cx, "operator + &", each(&|x, y| x + &y), a + b);
            chk(cx, "operator & + &", each(&|x, y| &x + &y), a + b);
            chk(cx, "operator -", each(&|x, y| x - y), a - b);
            chk(cx, "operator - &", each(&|x, y| x - &y), a - b);
            chk(cx, "operator & - &", each(&|x, y| &x - &y), a - b);
            chk(cx, "operator +=", each(&|mut x, y| { x += &y; x }), a + b);
            chk(cx, "operator -=", each(&|mut x, y| { x -= &y; x }), a - b);
            chk(cx, "operator & * &scalar", each(&|x, _| &x * &k), a * k);
            chk(cx, "default is a sharing of the neutral element", each(&|_, _| Point::default()), SymF::ZERO);
            let v: Vec<SymF> = sf.iter().map(|x| ps::scalar_mul_public_point(*x, &pp).inner().dl()).collect();
            is_sharing(cx, "scalar_mul_public_point", &v, t, f * p);
            let v: Vec<SymF> = sa.iter().zip(&sf).map(|(x, y)| ps::scalar_mul_local(x, *y).dl()).collect();
            is_sharing(cx, "scalar_mul_local (degree 2t)", &v, 2 * t, a * f);
            let v: Vec<SymF> = sa.iter().zip(&sf).map(|(x, y)| (*y * x).inner().dl()).collect();
            is_sharing(cx, "operator scalar share * point share (degree 2t)", &v, 2 * t, a * f);
            for i in 0..n {
                let m = [sa[i], sb[i]];
                let want = dl(&m);
                let of = |v: &[G1]| v.iter().map(|p| p.dl()).collect::<Vec<_>>();
                cx.prove_all_eq("convert_slice", &of(Point::convert_slice(&m)), &want);
                cx.prove_all_eq("convert_vec", &of(&Point::convert_vec(m.to_vec())), &want);
                cx.prove_all_eq("convert_slice_rev", &dl(Point::convert_slice_rev(Point::convert_slice(&m))), &want);
                cx.prove_all_eq("convert_vec_rev", &dl(&Point::convert_vec_rev(Point::convert_vec(m.to_vec()))), &want);
                cx.prove_eq("convert", m[0].convert().dl(), want[0]);
            }
        });
        s.case(format!("msm n={n} t={t}"), move |cx| {
            for len in [0, 1, 3] {
                let (p, f) = (cx.vars("p", len), cx.vars("f", len));
                let pts: Vec<_> = p.iter().map(|x| g1(*x).into_affine()).collect();
                let cols: Vec<Vec<Share>> = f.iter().enumerate().map(|(i, v)| deal(*v, t, n, &format!("f{i}"))).collect();
                let v: Vec<SymF> = (0..n)
                    .map(|i| {
                        let mine: Vec<Share> = cols.iter().map(|c| c[i]).collect();
                        ps::msm_public_points::<G1, _>(&pts, &mine).inner().dl()
                    })
                    .collect();
                let want = p.iter().zip(&f).fold(SymF::ZERO, |a, (x, y)| a + *x * *y);
                is_sharing(cx, &format!("msm_public_points of {len}"), &v, t, want);
            }
        });
        s.case(format!("open n={n} t={t}"), move |cx| {
            let a = cx.vars("a", 3);
            let f = cx.vars("f", 3);
            let sa: Vec<Vec<Point>> = (0..3).map(|k| deal_point(a[k], t, n, &format!("a{k}"))).collect();
            let sf: Vec<Vec<Share>> = (0..3).map(|k| deal(f[k], t, n, &format!("f{k}"))).collect();
            let (r, _) = shamir(n, t, 1, |i, net, st| {
                let x: Vec<Point> = sa.iter().map(|v| v[i]).collect();
                let y: Vec<Share> = sf.iter().map(|v| v[i]).collect();
                let o = ps::open_point(&x[0], net, st)?.dl();
                let m: Vec<SymF> = ps::open_point_many(&x, net, st)?.iter().map(|p| p.dl()).collect();
                let (bp, bf) = ps::open_point_and_field(&x[1], &y[2], net, st)?;
                let (mp, mf) = ps::open_point_and_field_many(&x, &y, net, st)?;
                let mp: Vec<SymF> = mp.iter().map(|p| p.dl()).collect();
                let h = ps::open_half_point(ps::scalar_mul_local(&x[1], y[0]), net, st)?.dl();
                Ok((o, m, bp.dl(), bf, mp, mf, h))
            });
            if let Some(r) = all_ok(cx, "open", r) {
                for (i, (o, m, bp, bf, mp, mf, h)) in r.iter().enumerate() {
                    cx.prove_eq(format!("open_point at party {i}"), *o, a[0]);
                    cx.prove_all_eq(format!("open_point_many at party {i}"), m, &a);
                    cx.prove_eq(format!("open_point_and_field (point) at party {i}"), *bp, a[1]);
                    cx.prove_eq(format!("open_point_and_field (field) at party {i}"), *bf, f[2]);
                    cx.prove_all_eq(format!("open_point_and_field_many (points) at party {i}"), mp, &a);
                    cx.prove_all_eq(format!("open_point_and_field_many (fields) at party {i}"), mf, &f);
                    cx.prove_eq(format!("open_half_point at party {i}"), *h, a[1] * f[0]);
                }
            }
        });
        s.case(format!("scalar_mul n={n} t={t}"), move |cx| {
            let (a, f, g) = (cx.var("a"), cx.var("f"), cx.var("g"));
            let (sa, sf, sg) = (deal_point(a, t, n, "a"), deal(f, t, n, "f"), deal(g, t, n, "g"));
            let (r, _) = shamir(n, t, 2, |i, net, st| {
                let x = ps::scalar_mul(&sa[i], sf[i], net, st)?;
                let y = ps::scalar_mul(&x, sg[i], net, st)?;
                Ok((x.inner().dl(), y.inner().dl()))
            });
            if let Some(r) = all_ok(cx, "scalar_mul", r) {
                let (x, y): (Vec<_>, Vec<_>) = r.into_iter().unzip();
                is_sharing(cx, "scalar_mul", &x, t, a * f);
                is_sharing(cx, "scalar_mul of a product", &y, t, a * f * g);
            }
        });
    }
}

pub fn s07(s: &mut Session) {
    s.functions(&["shamir::poly::{eval_poly, horner_evaluate}"]);
    let mut lens: Vec<(usize, usize)> = vec![(1, 1), (2, 8), (15, 8), (17, 8), (40, 2), (70, 3), (129, 8)];
    if s.thorough() {
        lens.extend([(1, 8), (16, 8), (31, 8), (33, 8), (64, 2), (100, 3), (150, 8), (200, 4), (90, 1)]);
    }
    s.bound(format!("(coefficients, threads of the pool) in {lens:?} with 3 parties, threshold 1; coefficients, sharings and the point symbolic"));
    for (m, threads) in lens {
        s.case(format!("{m} coefficients, {threads} threads"), move |cx| {
            let c = cx.vars("c", m);
            let x = cx.var("x");
            let sh: Vec<Vec<Share>> = c.iter().enumerate().map(|(i, v)| deal(*v, 1, 3, &format!("c{i}"))).collect();
            cx.expand(4000, 0, &[]);
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            let r: Vec<SymF> = (0..3)
                .map(|i| {
                    let mine: Vec<Share> = sh.iter().map(|v| v[i]).collect();
                    pool.install(|| poly::eval_poly(&mine, x).inner())
                })
                .collect();
            let at = |co: &dyn Fn(usize) -> SymF| {
                let (mut acc, mut pow) = (SymF::ZERO, SymF::ONE);
                for k in 0..m {
                    acc += co(k) * pow;
                    pow *= x;
                }
                acc
            };
            // party by party against its own coefficient shares, and the whole against the values
            for i in 0..3 {
                cx.prove_eq(format!("party {i}'s evaluation"), r[i], at(&|k| sh[k][i].inner()));
            }
            is_sharing(cx, "eval_poly", &r, 1, at(&|k| c[k]));
        });
    }
}
