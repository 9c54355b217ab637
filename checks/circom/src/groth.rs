//! Groth16: the QAP witness maps, the prover (plain and on Shamir shares), the verifier.
use crate::util::*;
use ark_bn254::Fr;
use ark_ff::{AdditiveGroup, FftField, Field};
use ark_groth16::{Proof, ProvingKey, VerifyingKey};
use co_circom_types::{SharedWitness, VerificationError};
use co_groth16::{
    CircomGroth16Prover, CircomReduction, ConstraintMatrices, Groth16, LibSnarkReduction, PlainGroth16Driver,
    R1CSToQAP, ShamirCoGroth16, ShamirGroth16Driver,
};
use symex::curve::{Dlog, SymPairing, a1, a2};
use symex::net::{RecNet, run_parties};
use symex::privacy::Privacy;
use symex::{Cx, Session, SymF, smt};

const ONE: SymF = SymF::ONE;
const ZERO: SymF = SymF::ZERO;
type Row = Vec<(SymF, usize)>;

fn c(x: i64) -> SymF {
    if x < 0 { SymF::C(-Fr::from((-x) as u64)) } else { SymF::C(Fr::from(x as u64)) }
}

/// A circuit with an assignment (index 0 is the constant one).
#[derive(Clone)]
struct Circuit {
    rows: Vec<(Row, Row, Row)>,
    public: usize,
    z: Vec<SymF>,
}

impl Circuit {
    fn matrices(&self) -> ConstraintMatrices<SymF> {
        let col = |f: &dyn Fn(&(Row, Row, Row)) -> &Row| -> Vec<Row> { self.rows.iter().map(|r| f(r).clone()).collect() };
        let (a, b, c) = (col(&|r| &r.0), col(&|r| &r.1), col(&|r| &r.2));
        let nz = |m: &Vec<Row>| m.iter().map(|r| r.len()).sum();
        ConstraintMatrices {
            num_instance_variables: self.public,
            num_witness_variables: self.z.len() - self.public,
            num_constraints: self.rows.len(),
            a_num_non_zero: nz(&a),
            b_num_non_zero: nz(&b),
            c_num_non_zero: nz(&c),
            a,
            b,
            c,
        }
    }
    fn publics(&self) -> Vec<SymF> {
        self.z[..self.public].to_vec()
    }
    fn witness(&self) -> Vec<SymF> {
        self.z[self.public..].to_vec()
    }
    fn n(&self) -> usize {
        (self.rows.len() + self.public).next_power_of_two()
    }
    fn eval(&self, r: &Row) -> SymF {
        r.iter().fold(ZERO, |s, (k, i)| s + *k * self.z[*i])
    }
    /// Evaluations of the A, B and C polynomials on the domain.
    fn abc(&self) -> [Vec<SymF>; 3] {
        let mut v = [vec![ZERO; self.n()], vec![ZERO; self.n()], vec![ZERO; self.n()]];
        for (i, r) in self.rows.iter().enumerate() {
            v[0][i] = self.eval(&r.0);
            v[1][i] = self.eval(&r.1);
            v[2][i] = self.eval(&r.2);
        }
        for j in 0..self.public {
            v[0][self.rows.len() + j] = self.z[j];
        }
        v
    }
    /// u_j(tau), v_j(tau), w_j(tau): the column polynomials at a point given as Lagrange values.
    fn columns(&self, lagrange: &[SymF]) -> [Vec<SymF>; 3] {
        let mut v = [vec![ZERO; self.z.len()], vec![ZERO; self.z.len()], vec![ZERO; self.z.len()]];
        for (i, r) in self.rows.iter().enumerate() {
            for (m, row) in [&r.0, &r.1, &r.2].into_iter().enumerate() {
                for (k, j) in row {
                    v[m][*j] += *k * lagrange[i];
                }
            }
        }
        for j in 0..self.public {
            v[0][j] += lagrange[self.rows.len() + j];
        }
        v
    }
}

/// x*y = p, all three free up to this relation.
fn product() -> Circuit {
    let (x, y) = (SymF::var("x"), SymF::var("y"));
    let p = x * y;
    Circuit { rows: vec![(vec![(ONE, 2)], vec![(ONE, 3)], vec![(ONE, 1)])], public: 2, z: vec![ONE, p, x, y] }
}

/// No public input but the constant; every coefficient is a symbol.
fn coefficients() -> Circuit {
    let (x, y) = (SymF::var("x"), SymF::var("y"));
    let k = SymF::vars("k", 3);
    // (k0*x + k1) * (k2*y) = w
    let w = (k[0] * x + k[1]) * (k[2] * y);
    Circuit { rows: vec![(vec![(k[0], 1), (k[1], 0)], vec![(k[2], 2)], vec![(ONE, 3)])], public: 1, z: vec![ONE, x, y, w] }
}

/// A chain of `m` constraints that mention public inputs and the constant in all three matrices,
/// the same variable several times in a row, and empty rows.
fn chain(m: usize, public: usize) -> Circuit {
    let mut z = vec![ONE];
    z.extend(SymF::vars("p", public - 1));
    let first = z.len();
    z.push(SymF::var("x"));
    z.push(SymF::var("y"));
    let mut rows = vec![];
    let val = |z: &Vec<SymF>, r: &Row| r.iter().fold(ZERO, |s, (k, i)| s + *k * z[*i]);
    for i in 0..m {
        let last = z.len() - 1;
        let pubi = i % public;
        let (a, b): (Row, Row) = match i % 4 {
            0 => (vec![(c(2), first), (c(3), 0), (c(-1), pubi)], vec![(ONE, first + 1), (c(7), pubi)]),
            1 => (vec![(c(5), first), (c(4), first)], vec![(ONE, last.min(first + 1)), (c(-2), first + 1)]),
            2 => (vec![], vec![(ONE, last)]),
            _ => (vec![(ONE, pubi), (c(9), first)], vec![(c(-3), 0)]),
        };
        // a*b = 3*new - x + 2*public
        let rhs = val(&z, &a) * val(&z, &b);
        let new = (rhs + z[first] - z[pubi] * c(2)) * SymF::C(Fr::from(3u64).inverse().unwrap());
        z.push(new);
        rows.push((a, b, vec![(c(3), z.len() - 1), (c(-1), first), (c(2), pubi)]));
    }
    Circuit { rows, public, z }
}

fn root(n: usize) -> Fr {
    Fr::get_root_of_unity(n as u64).unwrap()
}

/// Coefficients of the polynomial with the given values on the domain of `vals.len()` elements.
fn interpolated(vals: &[SymF]) -> Vec<SymF> {
    let n = vals.len();
    let (wi, ni) = (root(n).inverse().unwrap(), Fr::from(n as u64).inverse().unwrap());
    (0..n)
        .map(|k| vals.iter().enumerate().fold(ZERO, |s, (i, v)| s + *v * SymF::C(wi.pow([(i * k) as u64]) * ni)))
        .collect()
}

fn at(coeffs: &[SymF], x: Fr) -> SymF {
    coeffs.iter().enumerate().fold(ZERO, |s, (k, v)| s + *v * SymF::C(x.pow([k as u64])))
}

#[derive(Clone, Copy, PartialEq)]
enum Red {
    Circom,
    LibSnark,
}

/// The values that the key's h_query is paired with, from their definition.
fn reference_h(red: Red, cir: &Circuit) -> Vec<SymF> {
    let n = cir.n();
    let [a, b, _] = cir.abc();
    let (pa, pb) = (interpolated(&a), interpolated(&b));
    match red {
        // coefficient k of (A*B - C)/(X^n - 1) is the coefficient n+k of A*B (C has degree below n)
        Red::LibSnark => (0..n)
            .map(|k| {
                let mut s = ZERO;
                for i in 0..n {
                    if n + k >= i && n + k - i < n {
                        s += pa[i] * pb[n + k - i];
                    }
                }
                s
            })
            .collect(),
        // A*B - C on the coset between the domain's elements, C through the products on the domain
        Red::Circom => {
            let ab: Vec<SymF> = a.iter().zip(&b).map(|(x, y)| *x * *y).collect();
            let pc = interpolated(&ab);
            let (w, g) = (root(n), root(2 * n));
            (0..n)
                .map(|i| {
                    let x = g * w.pow([i as u64]);
                    at(&pa, x) * at(&pb, x) - at(&pc, x)
                })
                .collect()
        }
    }
}

fn map<T: CircomGroth16Prover<SymPairing>>(
    red: Red,
    st: &mut T::State,
    m: &ConstraintMatrices<SymF>,
    p: &[SymF],
    w: &[T::ArithmeticShare],
) -> eyre::Result<Vec<T::ArithmeticHalfShare>> {
    match red {
        Red::Circom => CircomReduction::witness_map_from_matrices::<SymPairing, T>(st, m, p, w),
        Red::LibSnark => LibSnarkReduction::witness_map_from_matrices::<SymPairing, T>(st, m, p, w),
    }
}

fn in_pool<R: Send>(threads: usize, f: impl FnOnce() -> R + Send) -> R {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(f)
}

fn deal_witness(cir: &Circuit, t: usize, n: usize) -> Vec<Vec<Share>> {
    let cols: Vec<Vec<Share>> = cir.witness().iter().enumerate().map(|(i, v)| deal(*v, t, n, &format!("w{i}"))).collect();
    (0..n).map(|p| cols.iter().map(|c| c[p]).collect()).collect()
}

pub fn g01(s: &mut Session) {
    s.functions(&[
        "co_groth16::{CircomReduction, LibSnarkReduction}::witness_map_from_matrices with the plain and the Shamir driver",
        "groth16_roots_of_unity, roots_of_unity, bit_reversed_coset_table, evaluate_constraint, evaluate_constraint_half_share",
        "{Plain, Shamir}Groth16Driver: evaluate_constraint*, promote_to_trivial_shares, local_mul_vec, distribute_powers_and_mul_by_const",
    ]);
    let mut shapes: Vec<(usize, usize, usize)> = vec![(1, 1, 1), (2, 1, 8), (2, 2, 3), (3, 1, 2), (4, 2, 8), (5, 3, 3), (6, 4, 5)];
    if s.thorough() {
        shapes.extend([(12, 4, 7), (13, 4, 8), (7, 2, 16), (28, 4, 8)]);
    }
    s.bound(format!("(constraints, public inputs with the constant, threads of the pool) in {shapes:?}, all witness values and public inputs symbolic with given coefficients, and one constraint with symbolic coefficients; both reductions; plain, and Shamir with (parties, threshold) (3,1) and (5,2)"));
    s.assumption("the witness satisfies the constraints (libsnark reduction: the quotient is only defined then)");
    s.outside("domains above the bound; the two-adicity limit");
    for red in [Red::Circom, Red::LibSnark] {
        let rn = if red == Red::Circom { "circom" } else { "libsnark" };
        let mut cs: Vec<(String, Box<dyn Fn() -> Circuit + Sync>, usize)> = vec![
            ("product".into(), Box::new(product), 4),
            ("symbolic coefficients".into(), Box::new(coefficients), 3),
        ];
        for (m, p, th) in &shapes {
            let (m, p) = (*m, *p);
            cs.push((format!("chain of {m} with {p} public, {th} threads"), Box::new(move || chain(m, p)), *th));
        }
        for (name, mk, th) in &cs {
            let th = *th;
            s.case(format!("{rn} {name}"), move |cx| {
                cx.expand(4000, 0, &[]);
                let cir = mk();
                let want = reference_h(red, &cir);
                let (m, p, w) = (cir.matrices(), cir.publics(), cir.witness());
                let r = in_pool(th, || map::<PlainGroth16Driver>(red, &mut (), &m, &p, &w));
                if let Some(h) = cx.ok("plain witness map", r) {
                    cx.prove_all_eq("plain witness map", &h, &want);
                }
            });
            for (n, t) in [(3, 1), (5, 2)] {
                if n == 5 && (cs.len() > 3 && name.contains("chain") && !name.contains("of 2 with 2")) {
                    continue;
                }
                s.case(format!("{rn} {name} n={n} t={t}"), move |cx| {
                    cx.expand(4000, 0, &[]);
                    let cir = mk();
                    let want = reference_h(red, &cir);
                    let (m, p) = (cir.matrices(), cir.publics());
                    let sh = deal_witness(&cir, t, n);
                    let (r, _) = shamir(n, t, 1, |i, _net, st| in_pool(th, || map::<ShamirGroth16Driver>(red, st, &m, &p, &sh[i])));
                    if let Some(h) = all_ok(cx, "witness map", r) {
                        for (k, v) in want.iter().enumerate() {
                            let col: Vec<SymF> = h.iter().map(|x| x[k]).collect();
                            is_sharing(cx, &format!("h[{k}]"), &col, 2 * t, *v);
                        }
                        cx.require("one value per element of the domain", h.iter().all(|x| x.len() == want.len()));
                    }
                });
            }
        }
    }
}

/// A proving key whose elements are unrelated symbols.
struct FreeKey {
    alpha: SymF,
    beta: (SymF, SymF),
    delta: (SymF, SymF),
    a: Vec<SymF>,
    b1: Vec<SymF>,
    b2: Vec<SymF>,
    h: Vec<SymF>,
    l: Vec<SymF>,
}

impl FreeKey {
    fn new(cir: &Circuit) -> Self {
        let m = cir.z.len();
        Self {
            alpha: SymF::var("alpha"),
            beta: (SymF::var("beta1"), SymF::var("beta2")),
            delta: (SymF::var("delta1"), SymF::var("delta2")),
            a: SymF::vars("qa", m),
            b1: SymF::vars("qb", m),
            b2: SymF::vars("qbb", m),
            h: SymF::vars("qh", cir.n()),
            l: SymF::vars("ql", m - cir.public),
        }
    }
    fn key(&self) -> ProvingKey<SymPairing> {
        ProvingKey {
            vk: VerifyingKey {
                alpha_g1: a1(self.alpha),
                beta_g2: a2(self.beta.1),
                gamma_g2: a2(SymF::var("gamma2")),
                delta_g2: a2(self.delta.1),
                gamma_abc_g1: vec![],
            },
            beta_g1: a1(self.beta.0),
            delta_g1: a1(self.delta.0),
            a_query: self.a.iter().map(|x| a1(*x)).collect(),
            b_g1_query: self.b1.iter().map(|x| a1(*x)).collect(),
            b_g2_query: self.b2.iter().map(|x| a2(*x)).collect(),
            h_query: self.h.iter().map(|x| a1(*x)).collect(),
            l_query: self.l.iter().map(|x| a1(*x)).collect(),
        }
    }
}

fn dot(a: &[SymF], b: &[SymF]) -> SymF {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).fold(ZERO, |s, (x, y)| s + *x * *y)
}

/// The proof is the Groth16 proof for some blinders r, s. These follow from A and B:
/// A = A0 + r*delta1, B = B0 + s*delta2; C's formula is compared after multiplying it out with
/// delta1*delta2, where r*delta1 = A - A0 and s*delta2 = B - B0.
fn check_formula(cx: &mut Cx, label: &str, cir: &Circuit, k: &FreeKey, red: Red, p: &Proof<SymPairing>) {
    let (a, b, cc) = (p.a.dlog(), p.b.dlog(), p.c.dlog());
    let a0 = k.alpha + dot(&k.a, &cir.z);
    let b0 = k.beta.0 + dot(&k.b1, &cir.z);
    let bb0 = k.beta.1 + dot(&k.b2, &cir.z);
    let rest = dot(&k.l, &cir.witness()) + dot(&k.h, &reference_h(red, cir));
    // C = s*A + r*B1 - r*s*delta1 + rest with B1 = B0 + s*delta1:  C = s*A + r*B0 + rest
    let (rd, sd) = (a - a0, b - bb0);
    cx.prove_eq(
        format!("{label}: C = s*A + r*B - r*s*delta + L + H"),
        (cc - rest) * (k.delta.0 * k.delta.1),
        sd * a * k.delta.0 + rd * b0 * k.delta.1,
    );
}

fn prove_plain(red: Red, k: &ProvingKey<SymPairing>, m: &ConstraintMatrices<SymF>, w: SharedWitness<SymF, SymF>) -> eyre::Result<Proof<SymPairing>> {
    match red {
        Red::Circom => Groth16::<SymPairing>::plain_prove::<CircomReduction>(k, m, w),
        Red::LibSnark => Groth16::<SymPairing>::plain_prove::<LibSnarkReduction>(k, m, w),
    }
}

fn prove_shamir(
    red: Red,
    (n, t): (usize, usize),
    k: &ProvingKey<SymPairing>,
    m: &ConstraintMatrices<SymF>,
    w: Vec<SharedWitness<SymF, Share>>,
) -> Vec<eyre::Result<Proof<SymPairing>>> {
    let (nets0, _) = RecNet::parties(n);
    let (nets1, _) = RecNet::parties(n);
    run_parties(nets0.into_iter().zip(nets1).collect(), |i, (n0, n1)| match red {
        Red::Circom => ShamirCoGroth16::<SymPairing>::prove::<_, CircomReduction>(&n0, &n1, n, t, k, m, w[i].clone()),
        Red::LibSnark => ShamirCoGroth16::<SymPairing>::prove::<_, LibSnarkReduction>(&n0, &n1, n, t, k, m, w[i].clone()),
    })
}

fn shared(cir: &Circuit, t: usize, n: usize) -> Vec<SharedWitness<SymF, Share>> {
    deal_witness(cir, t, n).into_iter().map(|w| SharedWitness { public_inputs: cir.publics(), witness: w }).collect()
}

pub fn g02(s: &mut Session) {
    s.functions(&[
        "co_groth16::CoGroth16::{prove_inner, create_proof_with_assignment, calculate_coeff}",
        "ShamirCoGroth16::prove, Groth16::plain_prove; {Plain, Shamir}Groth16Driver (all of it)",
        "shamir::{pointshare::open_half_point, scalar_mul_local, ShamirNetworkExt::degree_reduce_point, ShamirState::{rand, fork}}",
    ]);
    s.bound("circuits: one product (domain 4), one constraint with symbolic coefficients (domain 2), chains of 2 with 2 public inputs (domain 4); every key element, witness value, public input, sharing and all randomness symbolic; both reductions; plain and Shamir with (parties, threshold) (3,1), (4,1), (5,2)");
    s.assumption("the group is an abstract group of prime order r (points are represented by their discrete logarithm); messages arrive unchanged and in order");
    let cs: Vec<(&str, fn() -> Circuit)> = vec![("product", product), ("symbolic coefficients", coefficients), ("chain", || chain(2, 2))];
    for red in [Red::Circom, Red::LibSnark] {
        let rn = if red == Red::Circom { "circom" } else { "libsnark" };
        for (name, mk) in &cs {
            s.case(format!("plain {rn} {name}"), move |cx| {
                cx.expand(20000, 0, &[]);
                let cir = mk();
                let k = FreeKey::new(&cir);
                let w = SharedWitness { public_inputs: cir.publics(), witness: cir.witness() };
                if let Some(p) = cx.ok("prove", prove_plain(red, &k.key(), &cir.matrices(), w)) {
                    check_formula(cx, "plain proof", &cir, &k, red, &p);
                }
            });
            for (n, t) in [(3, 1), (4, 1), (5, 2)] {
                if n > 3 && *name != "product" {
                    continue;
                }
                s.case(format!("shamir {rn} {name} n={n} t={t}"), move |cx| {
                    cx.expand(20000, 0, &[]);
                    let cir = mk();
                    let k = FreeKey::new(&cir);
                    let r = prove_shamir(red, (n, t), &k.key(), &cir.matrices(), shared(&cir, t, n));
                    if let Some(p) = all_ok(cx, "prove", r) {
                        check_formula(cx, "party 0's proof", &cir, &k, red, &p[0]);
                        for (i, q) in p.iter().enumerate().skip(1) {
                            cx.prove_eq(format!("party {i} has the same A"), q.a.dlog(), p[0].a.dlog());
                            cx.prove_eq(format!("party {i} has the same B"), q.b.dlog(), p[0].b.dlog());
                            cx.prove_eq(format!("party {i} has the same C"), q.c.dlog(), p[0].c.dlog());
                        }
                    }
                });
            }
        }
    }
    s.case("sizes that do not match are refused", |cx| {
        let cir = product();
        let (k, m) = (FreeKey::new(&cir).key(), cir.matrices());
        for (what, dp, dw) in [("public input", 1i32, 0i32), ("public input", -1, 0), ("witness value", 0, 1), ("witness value", 0, -1)] {
            let resize = |v: &mut Vec<SymF>, d: i32| {
                let n = (v.len() as i32 + d) as usize;
                v.resize(n, ONE);
            };
            let (mut p, mut w) = (cir.publics(), cir.witness());
            resize(&mut p, dp);
            resize(&mut w, dw);
            let r = prove_plain(Red::Circom, &k, &m, SharedWitness { public_inputs: p.clone(), witness: w.clone() });
            cx.require(format!("plain: {} {what} is refused", if dp + dw > 0 { "an additional" } else { "a missing" }), r.is_err());
            let ws = (0..3).map(|_| SharedWitness { public_inputs: p.clone(), witness: w.iter().map(|x| Share::new(*x)).collect() }).collect();
            let r = prove_shamir(Red::LibSnark, (3, 1), &k, &m, ws);
            cx.require(format!("shamir: {} {what} is refused by all", if dp + dw > 0 { "an additional" } else { "a missing" }), r.iter().all(|x| x.is_err()));
        }
        cx.prove_eq("the inputs are symbolic", cir.publics()[1], cir.witness()[0] * cir.witness()[1]);
    });
}

/// Key of an honest setup. The generator of G1 has discrete logarithm gamma*delta, so that no
/// division occurs.
fn honest(cir: &Circuit, red: Red, tau: SymF) -> ProvingKey<SymPairing> {
    honest_with(cir, red, tau, SymF::var("gamma"), SymF::var("delta"))
}

fn honest_with(cir: &Circuit, red: Red, tau: SymF, gamma: SymF, delta: SymF) -> ProvingKey<SymPairing> {
    let n = cir.n();
    let (alpha, beta) = (SymF::var("alpha"), SymF::var("beta"));
    let g = gamma * delta;
    let mut pow = vec![ONE];
    for i in 0..2 * n {
        pow.push(pow[i] * tau);
    }
    // Lagrange values at tau: L_i = 1/n * sum_k w^(-ik) tau^k
    let lag = |n: usize| -> Vec<SymF> {
        let (wi, ni) = (root(n).inverse().unwrap(), Fr::from(n as u64).inverse().unwrap());
        (0..n).map(|i| (0..n).fold(ZERO, |s, k| s + pow[k] * SymF::C(wi.pow([(i * k) as u64]) * ni))).collect()
    };
    let [u, v, w] = cir.columns(&lag(n));
    let mixed: Vec<SymF> = (0..cir.z.len()).map(|j| beta * u[j] + alpha * v[j] + w[j]).collect();
    let h: Vec<SymF> = match red {
        Red::LibSnark => (0..n - 1).map(|i| gamma * pow[i] * (pow[n] - ONE)).collect(),
        Red::Circom => lag(2 * n).iter().skip(1).step_by(2).map(|x| gamma * *x).collect(),
    };
    ProvingKey {
        vk: VerifyingKey {
            alpha_g1: a1(alpha * g),
            beta_g2: a2(beta),
            gamma_g2: a2(gamma),
            delta_g2: a2(delta),
            gamma_abc_g1: mixed[..cir.public].iter().map(|x| a1(*x * delta)).collect(),
        },
        beta_g1: a1(beta * g),
        delta_g1: a1(delta * g),
        a_query: u.iter().map(|x| a1(*x * g)).collect(),
        b_g1_query: v.iter().map(|x| a1(*x * g)).collect(),
        b_g2_query: v.iter().map(|x| a2(*x)).collect(),
        h_query: h.iter().map(|x| a1(*x)).collect(),
        l_query: mixed[cir.public..].iter().map(|x| a1(*x * gamma)).collect(),
    }
}

pub fn g03(s: &mut Session) {
    s.functions(&[
        "co_groth16::Groth16::verify", "CoGroth16::prove_inner with an honest key (plain and Shamir)", "ark_groth16 verification over an abstract pairing",
    ]);
    s.bound("honest key with symbolic tau, alpha, beta, gamma, delta for one product constraint with one public input (domain 4) and, with a given tau, a chain of 2 with 2 public inputs; both reductions; plain and Shamir (3,1); the verifier for arbitrary keys, proofs and 0 to 3 public inputs");
    s.assumption("the pairing is an abstract bilinear map between groups of prime order r");
    for red in [Red::Circom, Red::LibSnark] {
        let rn = if red == Red::Circom { "circom" } else { "libsnark" };
        for (name, mk, sym) in [("product", product as fn() -> Circuit, true), ("chain", || chain(2, 2), false)] {
            let tau = move || if sym { SymF::var("tau") } else { SymF::C(Fr::from(7u64).pow([1000003])) };
            s.case(format!("plain {rn} {name} verifies"), move |cx| {
                cx.expand(40000, 0, &[]);
                let cir = mk();
                let k = honest(&cir, red, tau());
                let w = SharedWitness { public_inputs: cir.publics(), witness: cir.witness() };
                if let Some(p) = cx.ok("prove", prove_plain(red, &k, &cir.matrices(), w)) {
                    let r = Groth16::<SymPairing>::verify(&k.vk, &p, &cir.publics()[1..]);
                    cx.require("the proof verifies", r.is_ok());
                    equation(cx, "the verification equation holds", &k.vk, &p, &cir.publics()[1..], true);
                }
            });
            s.case(format!("shamir {rn} {name} verifies"), move |cx| {
                cx.expand(40000, 0, &[]);
                let cir = mk();
                let k = honest(&cir, red, tau());
                let r = prove_shamir(red, (3, 1), &k, &cir.matrices(), shared(&cir, 1, 3));
                if let Some(p) = all_ok(cx, "prove", r) {
                    let r = Groth16::<SymPairing>::verify(&k.vk, &p[0], &cir.publics()[1..]);
                    cx.require("the proof verifies", r.is_ok());
                    equation(cx, "the verification equation holds", &k.vk, &p[0], &cir.publics()[1..], true);
                }
            });
        }
    }
    for m in 0..=3usize {
        s.case(format!("verify with {m} public inputs"), move |cx| {
            let vk = VerifyingKey::<SymPairing> {
                alpha_g1: a1(cx.var("alpha")),
                beta_g2: a2(cx.var("beta")),
                gamma_g2: a2(cx.var("gamma")),
                delta_g2: a2(cx.var("delta")),
                gamma_abc_g1: cx.vars("ic", m + 1).into_iter().map(a1).collect(),
            };
            let p = Proof { a: a1(cx.var("A")), b: a2(cx.var("B")), c: a1(cx.var("C")) };
            let x = cx.vars("x", m);
            let r = Groth16::<SymPairing>::verify(&vk, &p, &x);
            match r {
                Ok(()) => equation(cx, "accepted, so the equation holds", &vk, &p, &x, true),
                Err(VerificationError::InvalidProof) => equation(cx, "rejected, so the equation does not hold", &vk, &p, &x, false),
                Err(VerificationError::Malformed(e)) => cx.require(format!("well-formed input refused: {e}"), false),
            }
        });
        s.case(format!("verify with a wrong number of public inputs for {m}"), move |cx| {
            let vk = VerifyingKey::<SymPairing> {
                alpha_g1: a1(cx.var("alpha")),
                beta_g2: a2(cx.var("beta")),
                gamma_g2: a2(cx.var("gamma")),
                delta_g2: a2(cx.var("delta")),
                gamma_abc_g1: cx.vars("ic", m + 1).into_iter().map(a1).collect(),
            };
            let p = Proof { a: a1(cx.var("A")), b: a2(cx.var("B")), c: a1(cx.var("C")) };
            for k in 0..=4 {
                if k != m {
                    let r = Groth16::<SymPairing>::verify(&vk, &p, &cx.vars("x", k));
                    cx.require(format!("{k} public inputs are refused"), r.is_err());
                }
            }
            let a = cx.var("A");
            cx.prove_eq("the proof is symbolic", p.a.dlog(), a);
        });
    }
}

fn equation(cx: &mut Cx, label: &str, vk: &VerifyingKey<SymPairing>, p: &Proof<SymPairing>, x: &[SymF], holds: bool) {
    let ic: Vec<SymF> = vk.gamma_abc_g1.iter().map(|g| g.dlog()).collect();
    let mut input = vec![ONE];
    input.extend(x);
    let l = p.a.dlog() * p.b.dlog();
    let r = vk.alpha_g1.dlog() * vk.beta_g2.dlog() + dot(&ic, &input) * vk.gamma_g2.dlog() + p.c.dlog() * vk.delta_g2.dlog();
    cx.prove(label, if holds { smt::eq(l, r) } else { smt::ne(l, r) });
}

pub fn g04(s: &mut Session) {
    s.functions(&["CoGroth16::prove_inner: the blinders r and s of plain_prove and ShamirCoGroth16::prove", "{Plain, Shamir}Groth16Driver::rand"]);
    s.bound("one product constraint whose inputs and output are all private, honest key with a given tau and delta, symbolic alpha, beta; two proofs for the same key; plain and Shamir (3,1). The blinders are uniform and independent of each other, of the witness and of those of the other proof: shown by a coupling of the proofs for any two witnesses");
    s.assumption("the parties' and the prover's random number generators give independent uniform symbols");
    s.outside("what the messages between the parties tell about the witness: this needs computational assumptions on the group");
    for red in [Red::Circom, Red::LibSnark] {
        let rn = if red == Red::Circom { "circom" } else { "libsnark" };
        for (n, t) in [(1, 0), (3, 1), (5, 2)] {
            let name = if n == 1 { format!("plain {rn}") } else { format!("shamir {rn} n={n} t={t}") };
            s.case(name, move |cx| {
                cx.expand(40000, 0, &[]);
                let cir = private_product();
                let k = honest_with(&cir, red, given(3), given(5), given(7));
                let mut view = vec![];
                let m = cir.matrices();
                if n == 1 {
                    // both proofs in one thread, so from one generator
                    let r = run_parties(vec![()], |_, _| {
                        let w = || SharedWitness { public_inputs: cir.publics(), witness: cir.witness() };
                        [prove_plain(red, &k, &m, w()), prove_plain(red, &k, &m, w())]
                    });
                    for p in r.into_iter().flatten() {
                        let Some(p) = cx.ok("prove", p) else { return };
                        view.extend([p.a.dlog(), p.b.dlog(), p.c.dlog()]);
                    }
                } else {
                    let Some(p) = all_ok(cx, "prove", prove_shamir(red, (n, t), &k, &m, shared(&cir, t, n))) else { return };
                    view.extend([p[0].a.dlog(), p[0].b.dlog(), p[0].c.dlog()]);
                }
                cx.private(Privacy {
                    label: "the proof".into(),
                    secrets: vec![SymF::var("x"), SymF::var("y")],
                    revealed: vec![],
                    parties: vec![],
                    view,
                });
            });
        }
    }
}

/// A field element without structure.
fn given(i: u64) -> SymF {
    SymF::C(Fr::from(i).pow([1000003]))
}

/// x*y = w, all private.
fn private_product() -> Circuit {
    let (x, y) = (SymF::var("x"), SymF::var("y"));
    Circuit { rows: vec![(vec![(ONE, 1)], vec![(ONE, 2)], vec![(ONE, 3)])], public: 1, z: vec![ONE, x, y, x * y] }
}
