//! co-circom-types: sharing of circuit inputs and witnesses.
use crate::util::*;
use ark_bn254::Fr;
use ark_ff::{AdditiveGroup, Field, PrimeField};
use circom_types::Witness;
use co_circom_types::{BatchedWitness, Input, ShamirInputType, ShamirSharedInput, ShamirSharedWitness, SharedWitness, split_input_shamir};
use mpc_core::protocols::shamir::ShamirPrimeFieldShare;
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use symex::net::run_parties;
use symex::privacy::Privacy;
use symex::{Cx, Session, SymF};

fn c(x: i64) -> SymF {
    if x < 0 { SymF::C(-Fr::from((-x) as u64)) } else { SymF::C(Fr::from(x as u64)) }
}
fn v(n: &str) -> SymF {
    SymF::var(n)
}

/// A JSON input with the value of each entry, `None` where the array has an unknown.
type Given = (Value, Vec<Option<SymF>>);

fn given() -> Vec<(&'static str, Given)> {
    let q = |x: i64| Some(c(x));
    let m = |s: &str| Some(v(s));
    let modulus = Fr::MODULUS.to_string();
    vec![
        ("scalar", (json!("$a"), vec![m("a")])),
        ("negated", (json!("-$b"), vec![Some(-v("b"))])),
        ("true", (json!(true), vec![q(1)])),
        ("false", (json!(false), vec![q(0)])),
        ("decimal", (json!("12345678901234567890123456789"), vec![Some(SymF::C("12345678901234567890123456789".parse().unwrap()))])),
        ("zero", (json!("0"), vec![q(0)])),
        ("hex", (json!("0x1fF"), vec![q(511)])),
        ("negated hex", (json!("-0x10"), vec![q(-16)])),
        ("modulus in hex", (json!(hex_of_modulus(0)), vec![q(0)])),
        ("modulus plus 5 in hex", (json!(hex_of_modulus(5)), vec![q(5)])),
        ("minus modulus", (json!(format!("-{modulus}")), vec![q(0)])),
        ("array", (json!(["$c", "-$d", "$e"]), vec![m("c"), Some(-v("d")), m("e")])),
        ("equal entries", (json!(["$a", "$a"]), vec![m("a"), m("a")])),
        ("empty array", (json!([]), vec![])),
        ("nested", (json!([["$f", "$g"], [["$h"], []], "$i", true]), vec![m("f"), m("g"), m("h"), m("i"), q(1)])),
        ("unknown", (json!(["?", "$j", ["?", "-$k"], "?", false]), vec![None, m("j"), None, Some(-v("k")), None, q(0)])),
        ("long array", (json!((0..12).map(|i| format!("$l{i}")).collect::<Vec<_>>()), (0..12).map(|i| m(&format!("l{i}"))).collect())),
    ]
}

/// modulus + k, in hexadecimal.
fn hex_of_modulus(k: u64) -> String {
    let mut l = Fr::MODULUS.0;
    l[0] += k; // the lowest limb is far from overflow
    format!("0x{:x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0])
}

/// The entries that each party must hold.
fn expected(name: &str, g: &Given) -> Vec<(String, SymF)> {
    match &g.0 {
        Value::Array(_) => {
            g.1.iter().enumerate().filter_map(|(i, x)| x.map(|x| (format!("{name}[{i}]"), x))).collect()
        }
        _ => vec![(name.to_string(), g.1[0].unwrap())],
    }
}

fn split(input: &Input, public: &[&str], t: usize, n: usize) -> eyre::Result<Vec<ShamirSharedInput<SymF>>> {
    let public: Vec<String> = public.iter().map(|x| x.to_string()).collect();
    run_parties(vec![()], |_, _| split_input_shamir(input.clone(), &public, t, n)).pop().unwrap()
}

/// What each party got under `key`: it is the expected value in the expected form.
fn check_entry(cx: &mut Cx, key: &str, got: &[ShamirSharedInput<SymF>], public: bool, want: SymF, t: usize) {
    let mut shares = vec![];
    for (i, g) in got.iter().enumerate() {
        let Some(x) = g.get(key) else {
            cx.require(format!("party {i} has the entry {key}"), false);
            return;
        };
        cx.require(format!("{key} is public: {public}, party {i}"), x.is_public() == public);
        cx.require(format!("{key}: accessors agree, party {i}"), x.as_public().is_some() == public && x.as_shared().is_some() != public);
        match x {
            ShamirInputType::Public(p) => {
                cx.prove_eq(format!("{key}: public value, party {i}"), *p, want);
                if let Some(q) = x.as_public() {
                    cx.prove_eq(format!("{key}: as_public, party {i}"), q, want);
                }
            }
            ShamirInputType::Shared(s) => {
                if let Some(q) = x.as_shared() {
                    cx.prove_eq(format!("{key}: as_shared, party {i}"), q.inner(), s.inner());
                }
                shares.push(s.inner());
            }
        }
    }
    if !public && shares.len() == got.len() {
        is_sharing(cx, key, &shares, t, want);
    }
}

pub fn c01(s: &mut Session) {
    s.functions(&[
        "co_circom_types::split_input_shamir, parse_field, parse_array, parse_boolean",
        "ShamirInputType::{is_public, as_public, as_shared, from}",
        "ShamirSharedWitness::share_shamir, SharedWitness::public_inputs_for_verify, BatchedWitness::unbatch",
    ]);
    s.bound("inputs: scalars, booleans, arrays of up to 12, nested up to 3 deep, with unknown entries; every value a symbol (alone or with a minus sign) besides given decimal and hexadecimal literals; each name public or shared; (parties, degree) in {(1,0), (3,1), (5,2), (4,3)}");
    s.bound("witnesses of up to 5 values, all splits between public and shared; batches of 1 to 3");
    s.outside("the decimal digits of literals (parsed by arkworks and num-bigint)");
    for (n, t) in [(1, 0), (3, 1), (5, 2), (4, 3)] {
        for all_public in [false, true] {
            s.case(format!("inputs n={n} t={t} {}", if all_public { "all public" } else { "all shared" }), move |cx| {
                let g = given();
                let input: Input = g.iter().map(|(k, (j, _))| (k.to_string(), j.clone())).collect();
                let names: Vec<&str> = if all_public { g.iter().map(|x| x.0).collect() } else { vec![] };
                let Some(got) = cx.ok("split_input_shamir", split(&input, &names, t, n)) else { return };
                cx.require("one map per party", got.len() == n);
                let want: Vec<(String, SymF)> = g.iter().flat_map(|(k, x)| expected(k, x)).collect();
                for (i, p) in got.iter().enumerate() {
                    cx.require(format!("party {i} has exactly the given entries"), p.len() == want.len());
                }
                for (k, x) in want {
                    check_entry(cx, &k, &got, all_public, x, t);
                }
            });
        }
        s.case(format!("mixed n={n} t={t}"), move |cx| {
            // names that are prefixes or suffixes of each other, and a public name that is not given
            let g: Vec<(&str, Given, bool)> = vec![
                ("in", (json!("$a"), vec![Some(v("a"))]), true),
                ("in1", (json!("$b"), vec![Some(v("b"))]), false),
                ("i", (json!("$c"), vec![Some(v("c"))]), false),
                ("main.in", (json!("$d"), vec![Some(v("d"))]), false),
                ("arr", (json!(["$e", "?", "$f"]), vec![Some(v("e")), None, Some(v("f"))]), true),
                ("arr2", (json!(["$g", ["$h"]]), vec![Some(v("g")), Some(v("h"))]), false),
                ("flag", (json!(true), vec![Some(c(1))]), true),
                ("flag2", (json!(true), vec![Some(c(1))]), false),
            ];
            let input: Input = g.iter().map(|(k, x, _)| (k.to_string(), x.0.clone())).collect();
            let Some(got) = cx.ok("split_input_shamir", split(&input, &["in", "arr", "flag", "absent"], t, n)) else { return };
            let mut count = 0;
            for (k, x, public) in &g {
                for (key, val) in expected(k, x) {
                    count += 1;
                    check_entry(cx, &key, &got, *public, val, t);
                }
            }
            cx.require("exactly the given entries", got.iter().all(|p| p.len() == count));
        });
    }
    s.case("malformed inputs are refused", |cx| {
        for (public, x) in [
            json!(5), json!(null), json!({"a": "1"}), json!("abc"), json!(""), json!("?"), json!("0x"), json!("0xg1"), json!("-"),
            json!("1.5"), json!(["$a", 5]), json!([["$a", null]]), json!(["$a", {"b": "1"}]), json!(["abc"]), json!(["0x"]), json!(["$a", ["-"]]),
        ]
        .into_iter()
        .flat_map(|x| [(false, x.clone()), (true, x)])
        {
            let input: Input = [("ok".to_string(), json!("$z")), ("x".to_string(), x.clone())].into_iter().collect();
            let r = split(&input, if public { &["x"] } else { &[] }, 1, 3);
            cx.require(format!("refused: {x}"), r.is_err());
        }
    });
    s.case("conversions into inputs", |cx| {
        let (a, b) = (v("a"), v("b"));
        let p = ShamirInputType::from(a);
        let q = ShamirInputType::from(Share::new(b));
        cx.require("public", p.is_public() && !q.is_public() && p.as_shared().is_none() && q.as_public().is_none());
        cx.prove_eq("the value", p.as_public().unwrap_or(c(0)), a);
        cx.prove_eq("the share", q.as_shared().map(|x| x.inner()).unwrap_or(c(0)), b);
    });
    for (n, t) in [(1, 0), (3, 1), (5, 2), (4, 3)] {
        for len in 1..=5usize {
            for pubs in 0..=len {
                s.case(format!("witness of {len} with {pubs} public n={n} t={t}"), move |cx| {
                    let w = SymF::vars("w", len);
                    let values = w.clone();
                    let sh = run_parties(vec![()], |_, _| {
                        ShamirSharedWitness::share_shamir(Witness { values: values.clone() }, pubs, t, n, &mut rand::thread_rng())
                    })
                    .pop()
                    .unwrap();
                    cx.require("one share per party", sh.len() == n);
                    for (i, x) in sh.iter().enumerate() {
                        cx.require(format!("sizes, party {i}"), x.public_inputs.len() == pubs && x.witness.len() == len - pubs);
                        cx.prove_all_eq("public inputs", &x.public_inputs, &w[..pubs]);
                        if pubs > 0 {
                            cx.prove_all_eq("public inputs for verification: all but the constant", &x.public_inputs_for_verify(), &w[1..pubs]);
                        }
                    }
                    for k in pubs..len {
                        let col: Vec<SymF> = sh.iter().map(|x| x.witness[k - pubs].inner()).collect();
                        is_sharing(cx, &format!("witness {k}"), &col, t, w[k]);
                    }
                });
            }
        }
    }
    for (b, p, w) in [(1, 1, 0), (1, 2, 3), (2, 1, 1), (2, 3, 2), (3, 2, 0), (3, 2, 4)] {
        s.case(format!("unbatch {b} witnesses of {p} and {w}"), move |cx| {
            let val = |kind: &str, i: usize, k: usize| SymF::var(format!("{kind}{i}_{k}"));
            let batch = BatchedWitness {
                public_inputs: (0..p).map(|i| (0..b).map(|k| val("p", i, k)).collect()).collect(),
                witness: (0..w).map(|i| (0..b).map(|k| ShamirPrimeFieldShare::new(val("w", i, k))).collect::<Vec<_>>()).collect(),
            };
            let got: Vec<SharedWitness<SymF, Share>> = batch.unbatch();
            cx.require("one witness per batch entry", got.len() == b);
            for (k, g) in got.iter().enumerate() {
                cx.prove_all_eq(&format!("public inputs of {k}"), &g.public_inputs, &(0..p).map(|i| val("p", i, k)).collect::<Vec<_>>());
                cx.prove_all_eq(&format!("witness of {k}"), &inner(&g.witness), &(0..w).map(|i| val("w", i, k)).collect::<Vec<_>>());
            }
        });
    }
    s.case("inconsistent batches are refused", |cx| {
        let f = |p: &[usize], w: &[usize]| {
            let cols = |k: &str, s: &[usize]| s.iter().enumerate().map(|(i, n)| SymF::vars(&format!("{k}{i}"), *n)).collect::<Vec<_>>();
            let b = BatchedWitness { public_inputs: cols("p", p), witness: cols("w", w) };
            catch_unwind(AssertUnwindSafe(|| b.unbatch())).is_err()
        };
        for (p, w) in [(&[][..], &[1][..]), (&[2, 1], &[2]), (&[1, 2], &[1]), (&[2], &[2, 3]), (&[2], &[1]), (&[2, 2], &[2, 0])] {
            cx.require(format!("refused: sizes {p:?} {w:?}"), f(p, w));
        }
        let x = v("x");
        cx.prove_eq("reached", x + x, x.double());
    });
}

pub fn c02(s: &mut Session) {
    s.functions(&["co_circom_types::split_input_shamir", "ShamirSharedWitness::share_shamir"]);
    s.bound("inputs: a scalar, its negation, an array with nested entries, next to a public input; witnesses of 3 shared values; (parties, degree) in {(3,1), (5,2), (4,3)}, every coalition of that many parties");
    s.assumption("the random number generator gives independent uniform symbols");
    for (n, t) in [(3, 1), (5, 2), (4, 3)] {
        for co in subsets(n, t) {
            let co_ = co.clone();
            s.case(format!("inputs n={n} t={t} coalition {co:?}"), move |cx| {
                let input: Input = [("a", json!("$x")), ("b", json!("-$x")), ("c", json!(["$y", ["$x", true]])), ("p", json!("$p"))]
                    .into_iter()
                    .map(|(k, x)| (k.to_string(), x))
                    .collect();
                let Some(got) = cx.ok("split_input_shamir", split(&input, &["p"], t, n)) else { return };
                let view = co_
                    .iter()
                    .flat_map(|i| got[*i].values().map(|x| x.as_public().unwrap_or_else(|| x.as_shared().unwrap().inner())))
                    .collect();
                cx.private(Privacy { label: "the coalition's inputs".into(), secrets: vec![v("x"), v("y")], revealed: vec![], parties: vec![], view });
            });
            let co_ = co.clone();
            s.case(format!("witness n={n} t={t} coalition {co:?}"), move |cx| {
                let w = SymF::vars("w", 5);
                let sh = run_parties(vec![()], |_, _| {
                    ShamirSharedWitness::share_shamir(Witness { values: w.clone() }, 2, t, n, &mut rand::thread_rng())
                })
                .pop()
                .unwrap();
                let view = co_.iter().flat_map(|i| sh[*i].public_inputs.iter().cloned().chain(inner(&sh[*i].witness))).collect();
                cx.private(Privacy { label: "the coalition's witness".into(), secrets: w[2..].to_vec(), revealed: vec![], parties: vec![], view });
            });
        }
    }
}
