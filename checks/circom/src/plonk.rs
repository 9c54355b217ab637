//! PLONK: the prover (plain and on Shamir shares), the verifier.
use crate::util::*;
use ark_bn254::Fr;
use ark_ff::{AdditiveGroup, BigInteger, FftField, Field, PrimeField};
use ark_poly::univariate::DensePolynomial;
use circom_types::plonk::{Additions, CircomPolynomial, PlonkProof, VerificationKey, VerifyingKey, Zkey};
use co_circom_types::{SharedWitness, VerificationError};
use co_plonk::{Plonk, ShamirCoPlonk};
use sha3::{Digest, Keccak256};
use std::sync::Arc;
use symex::curve::{Dlog, SymPairing, a1, a2};
use symex::net::{RecNet, run_parties};
use symex::privacy::Privacy;
use symex::{Cx, Session, SymF, smt};

const ONE: SymF = SymF::ONE;
const ZERO: SymF = SymF::ZERO;
const K1: u64 = 2;
const K2: u64 = 3;

/// A field element without structure.
fn given(i: u64) -> Fr {
    Fr::from(i).pow([1000003])
}

fn root(n: usize) -> Fr {
    Fr::get_root_of_unity(n as u64).unwrap()
}

/// qm*a*b + ql*a + qr*b + qo*c + qc = 0 for the signals a, b, c.
#[derive(Clone)]
struct Gate {
    w: [usize; 3],
    q: [Fr; 5],
}

/// Signals: 0 is the constant (zero), then the public ones, the private ones, and the additions.
#[derive(Clone)]
struct Circuit {
    public: usize,
    /// Values of all signals but the additions.
    z: Vec<SymF>,
    additions: Vec<(usize, usize, Fr, Fr)>,
    gates: Vec<Gate>,
    n: usize,
}

fn f(x: i64) -> Fr {
    if x < 0 { -Fr::from((-x) as u64) } else { Fr::from(x as u64) }
}

fn gate(a: usize, b: usize, c: usize, q: [i64; 5]) -> Gate {
    Gate { w: [a, b, c], q: q.map(f) }
}

impl Circuit {
    /// With the rows for the public inputs before the given gates.
    fn new(public: Vec<SymF>, private: Vec<SymF>, additions: Vec<(usize, usize, Fr, Fr)>, gates: Vec<Gate>) -> Self {
        let p = public.len();
        let mut rows: Vec<Gate> = (1..=p).map(|i| gate(i, 0, 0, [0, 1, 0, 0, 0])).collect();
        rows.extend(gates);
        let n = rows.len().next_power_of_two().max(8);
        let mut z = vec![ZERO];
        z.extend(public);
        z.extend(private);
        Circuit { public: p, z, additions, gates: rows, n }
    }
    fn vars(&self) -> usize {
        self.z.len() + self.additions.len()
    }
    fn witness(&self) -> SharedWitness<SymF, SymF> {
        let mut public_inputs = self.z[..=self.public].to_vec();
        public_inputs[0] = ONE; // the witness files begin with the constant one
        SharedWitness { public_inputs, witness: self.z[self.public + 1..].to_vec() }
    }
    /// Shamir shares of the witness on given polynomials.
    fn shared(&self, t: usize, n: usize) -> Vec<SharedWitness<SymF, Share>> {
        let w = self.witness();
        let share = |i: usize, v: SymF, p: usize| {
            let x = Fr::from(p as u64 + 1);
            Share::new((1..=t).fold(v, |s, e| s + SymF::C(given((100 * i + e) as u64 + 1000) * x.pow([e as u64]))))
        };
        let cols: Vec<Vec<Share>> = w.witness.iter().enumerate().map(|(i, v)| (0..n).map(|p| share(i, *v, p)).collect()).collect();
        (0..n)
            .map(|p| SharedWitness { public_inputs: w.public_inputs.clone(), witness: cols.iter().map(|c| c[p]).collect() })
            .collect()
    }
    fn publics(&self) -> Vec<SymF> {
        self.z[1..=self.public].to_vec()
    }
    /// The values of sigma_1..3 on the domain: the positions of a signal form one cycle.
    fn sigma(&self) -> [Vec<Fr>; 3] {
        let w = root(self.n);
        let id = |col: usize, row: usize| [Fr::ONE, f(K1 as i64), f(K2 as i64)][col] * w.pow([row as u64]);
        let mut s: [Vec<Fr>; 3] = std::array::from_fn(|c| (0..self.n).map(|r| id(c, r)).collect());
        for v in 0..self.vars() {
            let pos: Vec<(usize, usize)> = (0..3)
                .flat_map(|c| (0..self.gates.len()).map(move |r| (c, r)))
                .filter(|(c, r)| self.gates[*r].w[*c] == v)
                .collect();
            for (i, (c, r)) in pos.iter().enumerate() {
                let (nc, nr) = pos[(i + 1) % pos.len()];
                s[*c][*r] = id(nc, nr);
            }
        }
        s
    }
    fn zkey(&self, tau: SymF) -> Zkey<SymPairing> {
        let n = self.n;
        let mut p_tau = vec![ONE];
        for i in 0..n + 5 {
            p_tau.push(p_tau[i] * tau);
        }
        let poly = |vals: Vec<Fr>| -> (CircomPolynomial<SymF>, SymF) {
            let c = coefficients(&vals);
            let w = root(4 * n);
            let evaluations = (0..4 * n).map(|i| SymF::C(horner(&c, w.pow([i as u64])))).collect();
            let commit = c.iter().zip(&p_tau).fold(ZERO, |s, (k, t)| s + SymF::C(*k) * *t);
            (CircomPolynomial { coeffs: DensePolynomial { coeffs: c.into_iter().map(SymF::C).collect() }, evaluations }, commit)
        };
        let col = |k: usize| -> Vec<Fr> {
            let mut v: Vec<Fr> = self.gates.iter().map(|g| g.q[k]).collect();
            v.resize(n, Fr::ZERO);
            v
        };
        let (qm_poly, qm) = poly(col(0));
        let (ql_poly, ql) = poly(col(1));
        let (qr_poly, qr) = poly(col(2));
        let (qo_poly, qo) = poly(col(3));
        let (qc_poly, qc) = poly(col(4));
        let [s1, s2, s3] = self.sigma();
        let (s1_poly, s1) = poly(s1);
        let (s2_poly, s2) = poly(s2);
        let (s3_poly, s3) = poly(s3);
        let lagrange = (0..self.public) // as the zkey parser does
            .map(|i| {
                let mut v = vec![Fr::ZERO; n];
                v[i] = Fr::ONE;
                poly(v).0
            })
            .collect();
        Zkey {
            n_vars: self.vars(),
            n_public: self.public,
            domain_size: n,
            pow: n.ilog2() as usize,
            n_additions: self.additions.len(),
            n_constraints: self.gates.len(),
            verifying_key: VerifyingKey {
                k1: SymF::from(K1),
                k2: SymF::from(K2),
                qm: a1(qm),
                ql: a1(ql),
                qr: a1(qr),
                qo: a1(qo),
                qc: a1(qc),
                s1: a1(s1),
                s2: a1(s2),
                s3: a1(s3),
                x_2: a2(tau),
            },
            additions: self
                .additions
                .iter()
                .map(|(a, b, x, y)| Additions { signal_id1: *a as u32, signal_id2: *b as u32, factor1: SymF::C(*x), factor2: SymF::C(*y) })
                .collect(),
            map_a: self.gates.iter().map(|g| g.w[0]).collect(),
            map_b: self.gates.iter().map(|g| g.w[1]).collect(),
            map_c: self.gates.iter().map(|g| g.w[2]).collect(),
            qm_poly,
            ql_poly,
            qr_poly,
            qo_poly,
            qc_poly,
            s1_poly,
            s2_poly,
            s3_poly,
            lagrange,
            p_tau: p_tau.into_iter().map(a1).collect(),
        }
    }
}

fn coefficients(vals: &[Fr]) -> Vec<Fr> {
    let n = vals.len();
    let (wi, ni) = (root(n).inverse().unwrap(), Fr::from(n as u64).inverse().unwrap());
    (0..n).map(|k| vals.iter().enumerate().map(|(i, v)| *v * wi.pow([(i * k) as u64]) * ni).sum()).collect()
}

fn horner(c: &[Fr], x: Fr) -> Fr {
    c.iter().rev().fold(Fr::ZERO, |s, k| s * x + k)
}

/// The verification key that belongs to a proving key.
fn vk_of(z: &Zkey<SymPairing>) -> VerificationKey<SymPairing> {
    let v = &z.verifying_key;
    let mut k = empty_vk();
    k.n_public = z.n_public;
    k.power = z.pow;
    (k.k1, k.k2) = (v.k1, v.k2);
    (k.qm, k.ql, k.qr, k.qo, k.qc) = (v.qm, v.ql, v.qr, v.qo, v.qc);
    (k.s1, k.s2, k.s3, k.x2) = (v.s1, v.s2, v.s3, v.x_2);
    k
}

fn empty_vk() -> VerificationKey<SymPairing> {
    serde_json::from_value(serde_json::json!({
        "protocol": "plonk", "curve": "symbolic", "nPublic": 0, "power": 3, "k1": "2", "k2": "3", "Qm": "0", "Ql": "0", "Qr": "0",
        "Qo": "0", "Qc": "0", "S1": "0", "S2": "0", "S3": "0", "X_2": "0", "w": "0"
    }))
    .expect("verification key")
}

/// Keccak-256 over 32-byte big-endian field elements and 64-byte points.
#[derive(Default)]
struct Hash(Vec<u8>);
impl Hash {
    fn scalar(mut self, x: SymF) -> Self {
        self.0.extend(x.into_bigint().to_bytes_be());
        self
    }
    fn point(mut self, d: SymF) -> Self {
        self.0.extend(d.into_bigint().to_bytes_be());
        self.0.extend([0u8; 32]);
        self
    }
    fn challenge(self) -> SymF {
        SymF::from_be_bytes_mod_order(&Keccak256::digest(&self.0))
    }
}

struct Challenges {
    beta: SymF,
    gamma: SymF,
    alpha: SymF,
    xi: SymF,
    v: SymF,
    u: SymF,
}

/// The Fiat-Shamir challenges of snarkjs' PLONK.
fn challenges(k: &VerificationKey<SymPairing>, p: &PlonkProof<SymPairing>, x: &[SymF]) -> Challenges {
    let mut h = Hash::default();
    for d in [k.qm, k.ql, k.qr, k.qo, k.qc, k.s1, k.s2, k.s3] {
        h = h.point(d.dlog());
    }
    for s in x {
        h = h.scalar(*s);
    }
    let beta = h.point(p.a.dlog()).point(p.b.dlog()).point(p.c.dlog()).challenge();
    let gamma = Hash::default().scalar(beta).challenge();
    let alpha = Hash::default().scalar(beta).scalar(gamma).point(p.z.dlog()).challenge();
    let xi = Hash::default().scalar(alpha).point(p.t1.dlog()).point(p.t2.dlog()).point(p.t3.dlog()).challenge();
    let v = [p.eval_a, p.eval_b, p.eval_c, p.eval_s1, p.eval_s2, p.eval_zw].into_iter().fold(Hash::default().scalar(xi), Hash::scalar).challenge();
    let u = Hash::default().point(p.wxi.dlog()).point(p.wxiw.dlog()).challenge();
    Challenges { beta, gamma, alpha, xi, v, u }
}

fn powi(x: SymF, e: usize) -> SymF {
    (0..e).fold(ONE, |s, _| s * x)
}

/// The two sides of the PLONK verification equation (GWC19, section 8.4) in discrete logarithms:
/// e(Wxi + u*Wxiw, [tau]) = e(xi*Wxi + u*xi*w*Wxiw + F - E, [1]).
/// `lag[i]` is L_i(xi).
fn equation(k: &VerificationKey<SymPairing>, p: &PlonkProof<SymPairing>, x: &[SymF], c: &Challenges, lag: &[SymF]) -> (SymF, SymF) {
    let n = 1usize << k.power;
    let w = SymF::C(root(n));
    let xin = powi(c.xi, n);
    let zh = xin - ONE;
    let pi = x.iter().zip(lag).fold(ZERO, |s, (x, l)| s - *x * *l);
    let (a, b, cc, s1, s2, zw) = (p.eval_a, p.eval_b, p.eval_c, p.eval_s1, p.eval_s2, p.eval_zw);
    let a2l0 = c.alpha * c.alpha * lag[0];
    let pa = a + c.beta * s1 + c.gamma;
    let pb = b + c.beta * s2 + c.gamma;
    // constant part of the linearisation and its commitment
    let r0 = pi - a2l0 - c.alpha * pa * pb * (cc + c.gamma) * zw;
    let gates = a * b * k.qm.dlog() + a * k.ql.dlog() + b * k.qr.dlog() + cc * k.qo.dlog() + k.qc.dlog();
    let perm = (a + c.beta * c.xi + c.gamma) * (b + c.beta * k.k1 * c.xi + c.gamma) * (cc + c.beta * k.k2 * c.xi + c.gamma) * c.alpha;
    let d = gates + (perm + a2l0 + c.u) * p.z.dlog()
        - pa * pb * c.alpha * c.beta * zw * k.s3.dlog()
        - zh * (p.t1.dlog() + xin * p.t2.dlog() + xin * xin * p.t3.dlog());
    let fold = |vals: [SymF; 5]| vals.into_iter().rev().fold(ZERO, |s, y| (s + y) * c.v);
    let fc = d + fold([p.a.dlog(), p.b.dlog(), p.c.dlog(), k.s1.dlog(), k.s2.dlog()]);
    let e = fold([a, b, cc, s1, s2]) + c.u * zw - r0;
    let lhs = (p.wxi.dlog() + c.u * p.wxiw.dlog()) * k.x2.dlog();
    let rhs = c.xi * p.wxi.dlog() + c.u * c.xi * w * p.wxiw.dlog() + fc - e;
    (lhs, rhs)
}

/// L_i(xi) for the first elements of the domain; assumes that xi is not in it.
fn lagrange_at(cx: &mut Cx, n: usize, count: usize, xi: SymF) -> Vec<SymF> {
    outside_domain(cx, n, xi);
    let w = root(n);
    (0..count)
        .map(|i| {
            let wi = SymF::C(w.pow([i as u64]));
            (powi(xi, n) - ONE) * wi * SymF::C(Fr::from(n as u64).inverse().unwrap()) * (xi - wi).inverse().expect("not in the domain")
        })
        .collect()
}

fn outside_domain(cx: &mut Cx, n: usize, xi: SymF) {
    for i in 0..n.min(32) {
        cx.assume(smt::ne(xi, SymF::C(root(n).pow([i as u64]))));
    }
}

fn free_vk(n_public: usize, power: usize) -> VerificationKey<SymPairing> {
    let mut k = empty_vk();
    k.n_public = n_public;
    k.power = power;
    let v = |s: &str| SymF::var(s);
    (k.k1, k.k2) = (v("k1"), v("k2"));
    (k.qm, k.ql, k.qr, k.qo, k.qc) = (a1(v("Qm")), a1(v("Ql")), a1(v("Qr")), a1(v("Qo")), a1(v("Qc")));
    (k.s1, k.s2, k.s3, k.x2) = (a1(v("S1")), a1(v("S2")), a1(v("S3")), a2(v("tau")));
    k
}

fn free_proof() -> PlonkProof<SymPairing> {
    let p = |s: &str| a1(SymF::var(s));
    let v = |s: &str| SymF::var(s);
    PlonkProof {
        a: p("A"),
        b: p("B"),
        c: p("C"),
        z: p("Z"),
        t1: p("T1"),
        t2: p("T2"),
        t3: p("T3"),
        wxi: p("Wxi"),
        wxiw: p("Wxiw"),
        eval_a: v("ea"),
        eval_b: v("eb"),
        eval_c: v("ec"),
        eval_s1: v("es1"),
        eval_s2: v("es2"),
        eval_zw: v("ezw"),
        protocol: "plonk".into(),
        curve: "symbolic".into(),
    }
}

pub fn k02(s: &mut Session) {
    s.functions(&[
        "co_plonk::Plonk::verify, VerifierChallenges::new, calculate_r0_d, calculate_e, calculate_f, valid_pairing",
        "plonk_utils::{calculate_lagrange_evaluations, calculate_pi}, Domains::new, Keccak256Transcript",
    ]);
    s.bound("arbitrary verification key, proof and public inputs; 0 to 4 public inputs; domains of 2^1, 2^3, 2^4 and 2^6 elements (thorough: up to 2^10)");
    s.assumption("the pairing is an abstract bilinear map between groups of prime order r; Keccak-256 digests are arbitrary field elements, equal for equal inputs; the challenge xi is none of the first 32 elements of the domain");
    let mut cs = vec![(0, 3), (1, 3), (2, 3), (3, 4), (4, 3), (1, 1), (2, 6)];
    if s.thorough() {
        cs.extend([(1, 10), (4, 7)]);
    }
    for (m, power) in cs {
        s.case(format!("{m} public inputs, domain 2^{power}"), move |cx| {
            cx.oracle(true);
            let (k, p, x) = (free_vk(m, power), free_proof(), cx.vars("x", m));
            let c = challenges(&k, &p, &x);
            let lag = lagrange_at(cx, 1 << power, m.max(1), c.xi);
            let (l, r) = equation(&k, &p, &x, &c, &lag);
            match Plonk::<SymPairing>::verify(&k, &p, &x) {
                Ok(()) => cx.prove("accepted, so the equation holds", smt::eq(l, r)),
                Err(VerificationError::InvalidProof) => cx.prove("rejected, so the equation does not hold", smt::ne(l, r)),
                Err(VerificationError::Malformed(e)) => cx.require(format!("well-formed input refused: {e}"), false),
            }
        });
        s.case(format!("a wrong number of public inputs for {m}, domain 2^{power}"), move |cx| {
            cx.oracle(true);
            let (k, p) = (free_vk(m, power), free_proof());
            for j in 0..=5 {
                if j != m {
                    let x = cx.vars("x", j);
                    outside_domain(cx, 1 << power, challenges(&k, &p, &x).xi);
                    let r = Plonk::<SymPairing>::verify(&k, &p, &x);
                    cx.require(format!("{j} public inputs are refused"), r.is_err());
                }
            }
            cx.prove_eq("the proof is symbolic", p.a.dlog(), SymF::var("A"));
        });
    }
}

fn nets(n: usize) -> Vec<[RecNet; 8]> {
    let mut per: Vec<Vec<RecNet>> = (0..n).map(|_| vec![]).collect();
    for _ in 0..8 {
        for (i, x) in RecNet::parties(n).0.into_iter().enumerate() {
            per[i].push(x);
        }
    }
    per.into_iter().map(|v| v.try_into().ok().expect("eight")).collect()
}

fn prove_plain(z: &Arc<Zkey<SymPairing>>, w: SharedWitness<SymF, SymF>) -> eyre::Result<PlonkProof<SymPairing>> {
    run_parties(vec![()], |_, _| Plonk::<SymPairing>::plain_prove(z.clone(), w.clone())).remove(0)
}

fn prove_shamir(z: &Arc<Zkey<SymPairing>>, w: Vec<SharedWitness<SymF, Share>>, n: usize, t: usize) -> Vec<eyre::Result<PlonkProof<SymPairing>>> {
    run_parties(nets(n), |i, nets| ShamirCoPlonk::<SymPairing>::prove(&nets, n, t, z.clone(), w[i].clone()))
}

fn verifies(cx: &mut Cx, label: &str, z: &Zkey<SymPairing>, p: &PlonkProof<SymPairing>, x: &[SymF]) {
    let k = vk_of(z);
    let c = challenges(&k, p, x);
    let lag = lagrange_at(cx, z.domain_size, z.n_public.max(1), c.xi);
    let (l, r) = equation(&k, p, x, &c, &lag);
    cx.prove_eq(format!("{label}: the verification equation holds"), l, r);
    let r = Plonk::<SymPairing>::verify(&k, p, x);
    cx.require(format!("{label}: the verifier accepts"), r.is_ok());
}

/// x*y = p with p public.
fn product(x: SymF, y: SymF) -> Circuit {
    Circuit::new(vec![x * y], vec![x, y], vec![], vec![gate(2, 3, 1, [1, 0, 0, -1, 0])])
}

/// No public input; constants, an addition of an addition, unused rows.
fn sums(x: SymF, y: SymF) -> Circuit {
    // 3: s = 5x - 2y, 4: t = 7s + 3x, then t*y + 4 = out
    let s = x * k(5) + y * k(-2);
    let t = s * k(7) + x * k(3);
    let out = t * y + k(4);
    Circuit::new(
        vec![],
        vec![x, y, out],
        vec![(1, 2, f(5), f(-2)), (4, 1, f(7), f(3))],
        vec![gate(5, 2, 3, [1, 0, 0, -1, 4])],
    )
}

/// Three public inputs, one of them unused by the gates; all eight rows in use; every selector.
fn full(x: SymF, y: SymF) -> Circuit {
    let (p, q) = (x * k(3) + k(1), y);
    let a = p * y; // 5
    let b = a + x; // 6
    let c = b * k(2) - p; // 7
    let d = a * b + a * k(2) - b * k(3) + k(11); // 8
    Circuit::new(
        vec![p, q, k(9)],
        vec![x, a, b, c, d],
        vec![],
        vec![
            gate(4, 4, 1, [0, 2, 1, -1, 1]),
            gate(1, 2, 5, [1, 0, 0, -1, 0]),
            gate(5, 4, 6, [0, 1, 1, -1, 0]),
            gate(6, 1, 7, [0, 2, -1, -1, 0]),
            gate(5, 6, 8, [1, 2, -3, -1, 11]),
        ],
    )
}

/// Six public inputs.
fn inputs(x: SymF, y: SymF) -> Circuit {
    Circuit::new(vec![k(3), x, k(5), y, x * y, k(7)], vec![k(21)], vec![], vec![gate(2, 4, 5, [1, 0, 0, -1, 0]), gate(6, 1, 7, [1, 0, 0, -1, 0])])
}

/// Eleven rows, so a domain of 16; x is in two of them.
fn chain(x: SymF, y: SymF) -> Circuit {
    let mut z = vec![y];
    let mut gates = vec![];
    for i in 0..8 {
        z.push(z[i] * k(2) + y + k(i as i64));
        gates.push(gate(2 + i, 2, 3 + i, [0, 2, 1, -1, i as i64]));
    }
    let out = z[8] * x;
    let last = z.len() + 1; // signal of z[8]
    gates.push(gate(last, last + 1, 1, [1, 0, 0, -1, 0]));
    gates.push(gate(last + 1, last + 1, last + 2, [1, 3, 0, -1, 0]));
    z.push(x);
    z.push(x * x + x * k(3));
    Circuit::new(vec![out], z, vec![], gates)
}

fn k(x: i64) -> SymF {
    SymF::C(f(x))
}

type Mk = fn(SymF, SymF) -> Circuit;

/// An honest prover with a satisfying witness makes a proof that verifies.
pub fn k01(s: &mut Session) {
    s.functions(&[
        "co_plonk::{Plonk::plain_prove, CoPlonk::prove_inner}, Round1..Round5, PlonkWitness, plonk_utils, Keccak256Transcript, Domains",
        "PlainPlonkDriver (all of it), co_plonk::Plonk::verify",
    ]);
    s.bound("five circuits: one private product (1 public input), a sum of sums with additions (no public input), all selectors in all 8 rows (3 public inputs), products of public inputs (6), 11 rows in a domain of 16; in each, in turn, one of the two private values, the prover's randomness, or tau is arbitrary and the others are one fixed sample");
    s.assumption("the group is abstract, of prime order r; Keccak-256 digests are those of the symbolic terms, so one sample of challenges per circuit; sampled and derived values that are zero with negligible probability are not zero");
    let cs: Vec<(&str, Mk)> = vec![("product", product), ("sums", sums), ("full", full), ("inputs", inputs), ("chain", chain)];
    for (name, mk) in cs {
        for what in ["x", "y", "randomness", "tau"] {
            if name == "chain" && (what == "y" || what == "randomness") {
                continue; // in every row
            }
            s.case(format!("{name}, symbolic {what}"), move |cx| {
                cx.expand(20000, 0, &[]);
                if what != "randomness" {
                    cx.fix_randomness();
                }
                cx.generic(true);
                let v = |n: &str, i| if n == what { SymF::var(n) } else { SymF::C(given(i)) };
                let cir = mk(v("x", 5), v("y", 6));
                let z = Arc::new(cir.zkey(v("tau", 3)));
                if let Some(p) = cx.ok("prove", prove_plain(&z, cir.witness())) {
                    verifies(cx, "plain", &z, &p, &cir.publics());
                }
            });
        }
    }
}

/// Malformed proving keys and witnesses of the wrong size are refused.
pub fn k05(s: &mut Session) {
    s.functions(&[
        "co_plonk::{Plonk::plain_prove, ShamirCoPlonk::prove}, Round1::{init_round, calculate_additions, compute_wire_polynomials}, plonk_utils::get_witness, Domains::new",
    ]);
    s.bound("arbitrary witness values; the product, sums and full circuits of K01; every number of public and private values up to two more than needed; plain and Shamir (3, 1)");
    let cs: Vec<(&str, Mk)> = vec![("product", product), ("sums", sums), ("full", full)];
    for (name, mk) in cs {
        for shamir in [false, true] {
            let proto = if shamir { "shamir" } else { "plain" };
            s.case(format!("{name}, {proto}, size of the witness"), move |cx| {
                cx.fix_randomness();
                let cir = mk(SymF::C(given(5)), SymF::C(given(6)));
                let z = Arc::new(cir.zkey(SymF::C(given(3))));
                let (np, nw) = (cir.public + 1, cir.z.len() - cir.public - 1);
                for i in 1..np + 3 {
                    for j in 0..nw + 3 {
                        if (i, j) == (np, nw) {
                            continue;
                        }
                        let (public_inputs, witness) = (cx.vars("p", i), cx.vars("w", j));
                        let label = format!("{i} public and {j} private values are refused where {np} and {nw} are needed");
                        refused(cx, label, shamir, &z, public_inputs, witness);
                    }
                }
                cx.prove_eq("the witness is symbolic", SymF::var("w0"), SymF::var("w0"));
            });
            s.case(format!("{name}, {proto}, malformed proving key"), move |cx| {
                cx.fix_randomness();
                let cir = mk(SymF::C(given(5)), SymF::C(given(6)));
                let good = || cir.zkey(SymF::C(given(3)));
                let (p, w) = (cx.vars("p", cir.public + 1), cx.vars("w", cir.z.len() - cir.public - 1));
                for col in 0..3 {
                    for row in 0..cir.gates.len() {
                        let mut z = good();
                        let index = z.n_vars + row;
                        [&mut z.map_a, &mut z.map_b, &mut z.map_c][col][row] = index;
                        refused(cx, format!("signal {index} in column {col}, row {row} is refused"), shamir, &Arc::new(z), p.clone(), w.clone());
                    }
                }
                for i in 0..cir.additions.len() {
                    for second in [false, true] {
                        let mut z = good();
                        let bad = z.n_vars as u32;
                        let a = &mut z.additions[i];
                        *(if second { &mut a.signal_id2 } else { &mut a.signal_id1 }) = bad;
                        refused(cx, format!("addition {i} of signal {bad} is refused"), shamir, &Arc::new(z), p.clone(), w.clone());
                    }
                }
                for size in [0, 3, 6, 7, 9, 12, 24] {
                    let mut z = good();
                    z.domain_size = size;
                    if size < cir.gates.len() && size > 0 {
                        continue;
                    }
                    refused(cx, format!("a domain of {size} is refused"), shamir, &Arc::new(z), p.clone(), w.clone());
                }
                cx.prove_eq("the witness is symbolic", p[0], SymF::var("p0"));
            });
        }
    }
}

fn refused(cx: &mut Cx, label: String, shamir: bool, z: &Arc<Zkey<SymPairing>>, public_inputs: Vec<SymF>, witness: Vec<SymF>) {
    let ok = if shamir {
        let w = SharedWitness { public_inputs, witness: witness.into_iter().map(Share::new).collect() };
        prove_shamir(z, vec![w; 3], 3, 1).iter().any(|r| r.is_ok())
    } else {
        prove_plain(z, SharedWitness { public_inputs, witness }).is_ok()
    };
    cx.require(label, !ok);
}

/// The parties of a collaborative proof all obtain the same proof, and it verifies.
pub fn k03(s: &mut Session) {
    s.functions(&[
        "co_plonk::ShamirCoPlonk::prove, CoPlonk::prove_inner, Round1..Round5 with ShamirPlonkDriver",
        "ShamirPreprocessing::new, ShamirState::fork, shamir::{arithmetic, pointshare, network}, mpc_net::{join, join4, join5, join8}",
    ]);
    s.bound("the circuits of K01 without the 11 rows; (parties, threshold) = (3,1), (4,1), (5,2); in turn one of the two private values is arbitrary, the other, the shares' polynomials and the randomness are one fixed sample");
    s.assumption("as for K01; the network delivers in order");
    let quick = [("product", "x", 3, 1), ("sums", "y", 4, 1), ("full", "y", 5, 2)];
    let cs: Vec<(&str, Mk)> = vec![("product", product), ("sums", sums), ("full", full)];
    for (name, mk) in cs {
        for (n, t) in [(3, 1), (4, 1), (5, 2)] {
            for var in ["x", "y"] {
                if !quick.contains(&(name, var, n, t)) && (!s.thorough() || (name, var) == ("full", "x")) {
                    continue;
                }
                s.case(format!("{name}, n={n} t={t}, symbolic {var}"), move |cx| {
                    let v = |n: &str, i| if n == var { SymF::var(n) } else { SymF::C(given(i)) };
                    cx.expand(20000, 0, &[]);
                    cx.fix_randomness();
                    cx.generic(true);
                    let cir = mk(v("x", 5), v("y", 6));
                    let z = Arc::new(cir.zkey(SymF::C(given(3))));
                    let Some(ps) = all_ok(cx, "prove", prove_shamir(&z, cir.shared(t, n), n, t)) else { return };
                    for (i, p) in ps.iter().enumerate() {
                        cx.prove_all_eq(format!("party {i} has the proof of party 0"), &elements(&ps[0]), &elements(p));
                    }
                    verifies(cx, "shamir", &z, &ps[0], &cir.publics());
                });
            }
        }
    }
}

fn elements(p: &PlonkProof<SymPairing>) -> Vec<SymF> {
    let g = [p.a, p.b, p.c, p.z, p.t1, p.t2, p.t3, p.wxi, p.wxiw].into_iter().map(|q| q.dlog());
    g.chain([p.eval_a, p.eval_b, p.eval_c, p.eval_s1, p.eval_s2, p.eval_zw]).collect()
}

/// The proof reveals nothing about the signals but what the public inputs say.
pub fn k04(s: &mut Session) {
    s.functions(&[
        "co_plonk::Plonk::plain_prove, CoPlonk::prove_inner, Round1Challenges::random, Round1..Round5 with PlainPlonkDriver",
        "plonk_utils::blind_coefficients",
    ]);
    s.bound("two circuits without public dependence on the secret; one arbitrary private value at a time; the eleven blinders are arbitrary, the other draws one fixed sample; tau fixed");
    s.assumption("as for K01; (a + beta s1 + gamma)(b + beta s2 + gamma)(c + beta s3 + gamma) at tau is not zero");
    s.outside("the last quotient commitment is shown to be uniform given the rest for one fixed witness per circuit, not for an arbitrary one");
    let cs: Vec<(&str, Mk)> = vec![("sums", sums), ("padded", padded)];
    for (name, mk) in cs {
        for var in ["x", "y", "none"] {
            let label = if var == "none" { format!("{name}, last quotient commitment") } else { format!("{name}, secret {var}") };
            s.case(label, move |cx| {
                cx.expand(40000, 0, &[]);
                if var == "none" {
                    cx.expand_couplings(40000);
                }
                cx.generic(true);
                cx.fix_randomness_after(11);
                let v = |n: &str, i| if n == var { SymF::var(n) } else { SymF::C(given(i)) };
                let cir = mk(v("x", 5), v("y", 6));
                let z = Arc::new(cir.zkey(SymF::C(given(3))));
                let Some(p) = cx.ok("prove", prove_plain(&z, cir.witness())) else { return };
                let k = vk_of(&z);
                let mut c = challenges(&k, &p, &cir.publics());
                // the evaluations of the permutation polynomials are public, the opening proofs follow from the rest
                let lag = lagrange_at(cx, z.domain_size, z.n_public.max(1), c.xi);
                let w = SymF::C(root(z.domain_size));
                cx.prove_eq("Wxiw follows from the rest", p.wxiw.dlog() * (k.x2.dlog() - c.xi * w), p.z.dlog() - p.eval_zw);
                c.u = ZERO;
                let (l, r) = equation(&k, &p, &cir.publics(), &c, &lag);
                cx.prove_eq("Wxi follows from the rest", l, r);
                for (e, s) in [(p.eval_s1, 0), (p.eval_s2, 1)] {
                    cx.require("the evaluations of sigma are public", e == SymF::C(horner(&coefficients(&cir.sigma()[s]), c.xi.sim())));
                }
                let g = [p.a, p.b, p.c, p.z, p.t1, p.t2].into_iter().map(|q| q.dlog());
                let mut view: Vec<SymF> = g.chain([p.eval_a, p.eval_b, p.eval_c, p.eval_zw]).collect();
                if var == "none" {
                    // uniform given all the others, so it does not matter what is added to it
                    view.push(p.t3.dlog() + SymF::var("shift"));
                    let f = |w: SymF, s: SymF| w + c.beta * s + c.gamma;
                    let perm = f(p.a.dlog(), k.s1.dlog()) * f(p.b.dlog(), k.s2.dlog()) * f(p.c.dlog(), k.s3.dlog());
                    cx.assume(smt::ne(perm, ZERO));
                }
                let secrets = vec![SymF::var(if var == "none" { "shift" } else { var })];
                cx.private(Privacy { label: "the proof".into(), secrets, revealed: vec![], parties: vec![], view });
            });
        }
    }
}

/// A private product and unused rows.
fn padded(x: SymF, y: SymF) -> Circuit {
    Circuit::new(vec![k(7)], vec![x, y, x * y], vec![], vec![gate(2, 3, 4, [1, 0, 0, -1, 0])])
}
