//! Formulas over terms and their decision by z3's finite-field theory (QF_FF, real BN254 prime).
use crate::arena::{Arena, Atom, AtomId, LinId, Val, VarKey, arena};
use crate::field::SymF;
use ark_bn254::Fr;
use ark_ff::{AdditiveGroup, Field, PrimeField};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Fm {
    T,
    F,
    Zero(LinId),
    Not(Box<Fm>),
    And(Vec<Fm>),
    Or(Vec<Fm>),
}

pub fn zero(x: SymF) -> Fm {
    match x.val() {
        Val::C(c) => {
            if c == Fr::ZERO {
                Fm::T
            } else {
                Fm::F
            }
        }
        Val::S(i) => Fm::Zero(arena().monic(i).0),
    }
}
pub fn eq(a: SymF, b: SymF) -> Fm {
    if let (Val::S(x), Val::S(y)) = (a.val(), b.val()) {
        if x == y {
            return Fm::T;
        }
    }
    zero(a - b)
}
pub fn ne(a: SymF, b: SymF) -> Fm {
    not(eq(a, b))
}
pub fn not(f: Fm) -> Fm {
    match f {
        Fm::T => Fm::F,
        Fm::F => Fm::T,
        Fm::Not(g) => *g,
        g => Fm::Not(Box::new(g)),
    }
}
pub fn and(fs: impl IntoIterator<Item = Fm>) -> Fm {
    let mut v = vec![];
    for f in fs {
        match f {
            Fm::T => {}
            Fm::F => return Fm::F,
            g => v.push(g),
        }
    }
    match v.len() {
        0 => Fm::T,
        1 => v.pop().unwrap(),
        _ => Fm::And(v),
    }
}
pub fn or(fs: impl IntoIterator<Item = Fm>) -> Fm {
    let mut v = vec![];
    for f in fs {
        match f {
            Fm::F => {}
            Fm::T => return Fm::T,
            g => v.push(g),
        }
    }
    match v.len() {
        0 => Fm::F,
        1 => v.pop().unwrap(),
        _ => Fm::Or(v),
    }
}
pub fn implies(a: Fm, b: Fm) -> Fm {
    or([not(a), b])
}
pub fn all_eq(a: &[SymF], b: &[SymF]) -> Fm {
    if a.len() != b.len() {
        return Fm::F;
    }
    and(a.iter().zip(b).map(|(x, y)| eq(*x, *y)))
}

impl Fm {
    pub fn sim(&self) -> bool {
        self.sim_in(&arena())
    }
    pub fn sim_in(&self, a: &Arena) -> bool {
        match self {
            Fm::T => true,
            Fm::F => false,
            Fm::Zero(l) => a.lin_sim[*l as usize] == Fr::ZERO,
            Fm::Not(f) => !f.sim_in(a),
            Fm::And(v) => v.iter().all(|f| f.sim_in(a)),
            Fm::Or(v) => v.iter().any(|f| f.sim_in(a)),
        }
    }
    pub fn lins(&self, out: &mut Vec<LinId>) {
        match self {
            Fm::T | Fm::F => {}
            Fm::Zero(l) => out.push(*l),
            Fm::Not(f) => f.lins(out),
            Fm::And(v) | Fm::Or(v) => v.iter().for_each(|f| f.lins(out)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Unsat,
    Sat(BTreeMap<VarKey, Fr>),
    Unknown(String),
}

pub static QUERIES: AtomicUsize = AtomicUsize::new(0);
pub static SOLVER_US: AtomicU64 = AtomicU64::new(0);

/// A query rendered to SMT-LIB.
pub struct Query {
    pub text: String,
    pub vars: Vec<(String, VarKey)>,
    /// Number of independent questions in it; more than one only where all answers should be unsat.
    pub questions: usize,
}

struct Emit<'a> {
    a: &'a Arena,
    defs: String,
    decls: String,
    axioms: String,
    lin_done: HashMap<LinId, String>,
    atom_done: HashMap<AtomId, String>,
    vars: Vec<(String, VarKey)>,
    /// Terms known to be nonzero in the query.
    nonzero: HashSet<LinId>,
    /// Distinguishes a second copy of the terms.
    suffix: &'static str,
}

fn k(c: &Fr) -> String {
    format!("(as ff{} F)", c.into_bigint())
}

impl Emit<'_> {
    /// Emits definitions for everything `l` needs (iteratively: terms can be deep).
    fn need(&mut self, l: LinId) {
        enum W {
            L(LinId),
            A(AtomId),
        }
        let mut st = vec![W::L(l)];
        while let Some(w) = st.last() {
            match *w {
                W::L(l) => {
                    if self.lin_done.contains_key(&l) {
                        st.pop();
                        continue;
                    }
                    let lin = &self.a.lins[l as usize];
                    let miss: Vec<_> = lin.t.iter().filter(|(a, _)| !self.atom_done.contains_key(a)).map(|x| x.0).collect();
                    if !miss.is_empty() {
                        st.extend(miss.into_iter().map(W::A));
                        continue;
                    }
                    st.pop();
                    let mut parts = vec![];
                    if lin.c != Fr::ZERO || lin.t.is_empty() {
                        parts.push(k(&lin.c));
                    }
                    for (a, c) in &lin.t {
                        let n = &self.atom_done[a];
                        if *c == Fr::ONE {
                            parts.push(n.clone());
                        } else {
                            parts.push(format!("(ff.mul {} {})", k(c), n));
                        }
                    }
                    let name = if parts.len() == 1 {
                        parts.pop().unwrap()
                    } else {
                        let name = format!("l{l}{}", self.suffix);
                        let _ = writeln!(self.defs, "(define-fun {name} () F (ff.add {}))", parts.join(" "));
                        name
                    };
                    self.lin_done.insert(l, name);
                }
                W::A(a) => {
                    if self.atom_done.contains_key(&a) {
                        st.pop();
                        continue;
                    }
                    match &self.a.atoms[a as usize] {
                        Atom::Var(key) => {
                            let n = format!("v{a}{}", self.suffix);
                            let _ = writeln!(self.decls, "(declare-fun {n} () F)");
                            self.vars.push((n.clone(), key.clone()));
                            self.atom_done.insert(a, n);
                            st.pop();
                        }
                        Atom::Prod(x, y) => {
                            let (x, y) = (*x, *y);
                            match (self.lin_done.get(&x).cloned(), self.lin_done.get(&y).cloned()) {
                                (Some(nx), Some(ny)) => {
                                    let n = format!("p{a}{}", self.suffix);
                                    let _ = writeln!(self.defs, "(define-fun {n} () F (ff.mul {nx} {ny}))");
                                    self.atom_done.insert(a, n);
                                    st.pop();
                                }
                                (nx, ny) => {
                                    if ny.is_none() {
                                        st.push(W::L(y));
                                    }
                                    if nx.is_none() {
                                        st.push(W::L(x));
                                    }
                                }
                            }
                        }
                        Atom::Mono(v) => {
                            let miss: Vec<AtomId> = v.iter().copied().filter(|f| !self.atom_done.contains_key(f)).collect();
                            if miss.is_empty() {
                                let n = format!("m{a}{}", self.suffix);
                                let fs: Vec<&str> = v.iter().map(|f| self.atom_done[f].as_str()).collect();
                                let _ = writeln!(self.defs, "(define-fun {n} () F (ff.mul {}))", fs.join(" "));
                                self.atom_done.insert(a, n);
                                st.pop();
                            } else {
                                st.extend(miss.into_iter().map(W::A));
                            }
                        }
                        Atom::Inv(x) => match self.lin_done.get(x).cloned() {
                            Some(nx) => {
                                let n = format!("w{a}{}", self.suffix);
                                let _ = writeln!(self.decls, "(declare-fun {n} () F)");
                                if self.nonzero.contains(x) {
                                    let _ = writeln!(self.axioms, "(assert (= (ff.mul {nx} {n}) (as ff1 F)))");
                                } else {
                                    let _ = writeln!(
                                        self.axioms,
                                        "(assert (or (= {nx} (as ff0 F)) (= (ff.mul {nx} {n}) (as ff1 F))))"
                                    );
                                }
                                self.atom_done.insert(a, n);
                                st.pop();
                            }
                            None => {
                                let x = *x;
                                st.push(W::L(x))
                            }
                        },
                        Atom::Opq(x) => match self.lin_done.get(x).cloned() {
                            Some(nx) => {
                                self.atom_done.insert(a, nx);
                                st.pop();
                            }
                            None => {
                                let x = *x;
                                st.push(W::L(x))
                            }
                        },
                    }
                }
            }
        }
    }
    fn fm(&self, f: &Fm) -> String {
        match f {
            Fm::T => "true".into(),
            Fm::F => "false".into(),
            Fm::Zero(l) => format!("(= {} (as ff0 F))", self.lin_done[l]),
            Fm::Not(g) => format!("(not {})", self.fm(g)),
            Fm::And(v) => format!("(and {})", v.iter().map(|g| self.fm(g)).collect::<Vec<_>>().join(" ")),
            Fm::Or(v) => format!("(or {})", v.iter().map(|g| self.fm(g)).collect::<Vec<_>>().join(" ")),
        }
    }
}

/// Are the formulas unsatisfiable for a reason that does not depend on what the terms are? (Every
/// "term is zero" becomes a proposition.)
pub fn refuted_propositionally(asserts: &[Fm]) -> bool {
    fn go(f: &Fm, used: &mut std::collections::BTreeSet<LinId>) -> String {
        let all = |v: &[Fm], used: &mut _| v.iter().map(|g| go(g, used)).collect::<Vec<_>>().join(" ");
        match f {
            Fm::T => "true".into(),
            Fm::F => "false".into(),
            Fm::Zero(l) => {
                used.insert(*l);
                format!("b{l}")
            }
            Fm::Not(g) => format!("(not {})", go(g, used)),
            Fm::And(v) => format!("(and {})", all(v, used)),
            Fm::Or(v) => format!("(or {})", all(v, used)),
        }
    }
    let mut used = Default::default();
    let body: Vec<String> = asserts.iter().map(|f| format!("(assert {})", go(f, &mut used))).collect();
    let decls: Vec<String> = used.iter().map(|l| format!("(declare-fun b{l} () Bool)")).collect();
    let text = format!("{}\n{}\n(check-sat)\n", decls.join("\n"), body.join("\n"));
    matches!(run(&Query { text, vars: vec![], questions: 1 }, Duration::from_secs(20)), Verdict::Unsat)
}

pub fn render(asserts: &[Fm], timeout: Duration, fix: Option<&BTreeMap<VarKey, Fr>>) -> Query {
    let a = arena();
    let mut e = Emit {
        a: &a,
        defs: String::new(),
        decls: String::new(),
        axioms: String::new(),
        lin_done: HashMap::new(),
        atom_done: HashMap::new(),
        vars: vec![],
        nonzero: HashSet::new(),
        suffix: "",
    };
    fn units(f: &Fm, out: &mut HashSet<LinId>) {
        match f {
            Fm::Not(g) => {
                if let Fm::Zero(l) = **g {
                    out.insert(l);
                }
            }
            Fm::And(v) => v.iter().for_each(|g| units(g, out)),
            _ => {}
        }
    }
    asserts.iter().for_each(|f| units(f, &mut e.nonzero));
    let mut ls = vec![];
    asserts.iter().for_each(|f| f.lins(&mut ls));
    for l in ls {
        e.need(l);
    }
    let mut t = String::new();
    let _ = writeln!(t, "(set-logic QF_FF)\n(set-option :timeout {})", timeout.as_millis());
    let _ = writeln!(t, "(define-sort F () (_ FiniteField {}))", Fr::MODULUS);
    t += &e.decls;
    t += &e.defs;
    t += &e.axioms;
    if let Some(m) = fix {
        for (n, key) in &e.vars {
            if let Some(v) = m.get(key) {
                let _ = writeln!(t, "(assert (= {n} {}))", k(v));
            }
        }
    }
    for f in asserts {
        let _ = writeln!(t, "(assert {})", e.fm(f));
    }
    t += "(check-sat)\n";
    if !e.vars.is_empty() {
        let _ = writeln!(t, "(get-value ({}))", e.vars.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(" "));
    }
    Query { text: t, vars: e.vars, questions: 1 }
}

/// "Some of these pairs differ", without any simplification across the pairs.
pub fn render_distinct(pairs: &[(SymF, SymF)], timeout: Duration) -> Query {
    let ids: Vec<(LinId, LinId)> = {
        let mut a = arena();
        pairs.iter().map(|(x, y)| (a.lin_of(x.val()), a.lin_of(y.val()))).collect()
    };
    let a = arena();
    let mut e = Emit {
        a: &a,
        defs: String::new(),
        decls: String::new(),
        axioms: String::new(),
        lin_done: HashMap::new(),
        atom_done: HashMap::new(),
        vars: vec![],
        nonzero: HashSet::new(),
        suffix: "",
    };
    let mut t = String::new();
    let _ = writeln!(t, "(set-logic QF_FF)\n(set-option :timeout {})", timeout.as_millis());
    let _ = writeln!(t, "(define-sort F () (_ FiniteField {}))", Fr::MODULUS);
    let mut cl = String::new();
    let mut seen = HashSet::new();
    for (x, y) in ids {
        if !seen.insert((x, y)) {
            continue;
        }
        e.need(x);
        e.need(y);
        let _ = write!(cl, " (not (= {} {}))", e.lin_done[&x], e.lin_done[&y]);
    }
    t += &e.decls;
    t += &e.defs;
    t += &e.axioms;
    let _ = writeln!(t, "(assert (or false{cl}))\n(check-sat)");
    Query { text: t, vars: vec![], questions: 1 }
}

/// "The view differs, or the path is left, after replacing symbols by the given terms": the terms
/// are written out twice, the second copy over the replaced symbols.
pub fn render_coupled(view: &[LinId], pre: &[Fm], map: &HashMap<AtomId, Val>, hyps: &[Fm], timeout: Duration) -> Query {
    let mut exprs: Vec<(AtomId, LinId)> = {
        let mut a = arena();
        map.iter().map(|(k, v)| (*k, a.lin_of(*v))).collect()
    };
    exprs.sort();
    let a = arena();
    let mut e = Emit {
        a: &a,
        defs: String::new(),
        decls: String::new(),
        axioms: String::new(),
        lin_done: HashMap::new(),
        atom_done: HashMap::new(),
        vars: vec![],
        nonzero: HashSet::new(),
        suffix: "",
    };
    let mut ls: Vec<LinId> = view.to_vec();
    ls.extend(exprs.iter().map(|x| x.1));
    hyps.iter().for_each(|f| f.lins(&mut ls));
    pre.iter().for_each(|f| f.lins(&mut ls));
    ls.iter().for_each(|l| e.need(*l));
    let mut t = String::new();
    let _ = writeln!(t, "(set-logic QF_FF)\n(set-option :timeout {})", timeout.as_millis());
    let _ = writeln!(t, "(define-sort F () (_ FiniteField {}))", Fr::MODULUS);
    let mut asserts = String::new();
    for f in hyps {
        let _ = writeln!(asserts, "(assert {})", e.fm(f));
    }
    let first: Vec<String> = view.iter().map(|l| e.lin_done[l].clone()).collect();
    let names: HashMap<AtomId, String> = exprs.iter().map(|(k, l)| (*k, e.lin_done[l].clone())).collect();
    let mut second: HashMap<AtomId, String> = HashMap::new();
    for (k, n) in &e.atom_done {
        if let Atom::Var(_) = a.atoms[*k as usize] {
            second.insert(*k, names.get(k).unwrap_or(n).clone());
        }
    }
    for (k, n) in &names {
        second.insert(*k, n.clone());
    }
    e.lin_done = HashMap::new();
    e.atom_done = second;
    e.suffix = "q";
    for l in view {
        e.need(*l);
    }
    let mut pl = vec![];
    pre.iter().for_each(|f| f.lins(&mut pl));
    pl.iter().for_each(|l| e.need(*l));
    let mut cl = String::new();
    for (l, n) in view.iter().zip(&first) {
        let _ = write!(cl, " (not (= {n} {}))", e.lin_done[l]);
    }
    for f in pre {
        let _ = write!(cl, " (not {})", e.fm(f));
    }
    t += &e.decls;
    t += &e.defs;
    t += &e.axioms;
    t += &asserts;
    let _ = writeln!(t, "(assert (or false{cl}))\n(check-sat)");
    Query { text: t, vars: vec![], questions: 1 }
}

/// One question per multiplication: "it was multiplied out wrongly"; the atoms are free.
pub fn render_expansions(es: &[(LinId, LinId, LinId)], timeout: Duration) -> Query {
    let a = arena();
    let mut text = String::new();
    for (x, y, r) in es {
        let mut factors: std::collections::BTreeSet<AtomId> = Default::default();
        let mut lin = |l: LinId| -> String {
            let l = &a.lins[l as usize];
            let mut s = format!("(ff.add {}", k(&l.c));
            for (i, c) in &l.t {
                let n = match &a.atoms[*i as usize] {
                    Atom::Mono(v) => {
                        factors.extend(v.iter().copied());
                        format!("(ff.mul {})", v.iter().map(|f| format!("v{f}")).collect::<Vec<_>>().join(" "))
                    }
                    _ => {
                        factors.insert(*i);
                        format!("v{i}")
                    }
                };
                if *c == Fr::ONE {
                    let _ = write!(s, " {n}");
                } else {
                    let _ = write!(s, " (ff.mul {} {n})", k(c));
                }
            }
            s + ")"
        };
        let (x, y, r) = (lin(*x), lin(*y), lin(*r));
        let _ = writeln!(text, "(reset)\n(set-logic QF_FF)\n(set-option :timeout {})", timeout.as_millis());
        let _ = writeln!(text, "(define-sort F () (_ FiniteField {}))", Fr::MODULUS);
        for f in &factors {
            let _ = writeln!(text, "(declare-fun v{f} () F)");
        }
        let _ = writeln!(text, "(assert (not (= (ff.mul {x} {y}) {r})))\n(check-sat)");
    }
    Query { text, vars: vec![], questions: es.len() }
}

pub fn z3_bin() -> &'static str {
    "z3-new"
}

/// Runs the solver on one query.
pub fn run(q: &Query, timeout: Duration) -> Verdict {
    let t0 = Instant::now();
    let r = run_inner(q, timeout);
    QUERIES.fetch_add(q.questions, Ordering::SeqCst);
    SOLVER_US.fetch_add(t0.elapsed().as_micros() as u64, Ordering::SeqCst);
    if let Ok(d) = std::env::var("SYMEX_DUMP") {
        let n = QUERIES.load(Ordering::SeqCst);
        let _ = std::fs::write(format!("{d}/q{n}.smt2"), format!("; {:?} {:?}\n{}", verdict_name(&r), t0.elapsed(), q.text));
    }
    r
}

pub fn verdict_name(v: &Verdict) -> &'static str {
    match v {
        Verdict::Unsat => "unsat",
        Verdict::Sat(_) => "sat",
        Verdict::Unknown(_) => "unknown",
    }
}

fn run_inner(q: &Query, timeout: Duration) -> Verdict {
    let mut ch = match Command::new(z3_bin())
        .args(["-in", "-smt2", &format!("-T:{}", timeout.as_secs() + 5), "-memory:6000"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Verdict::Unknown(format!("cannot start the solver: {e}")),
    };
    let mut stdin = ch.stdin.take().unwrap();
    let text = q.text.clone();
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let out = ch.wait_with_output();
    let _ = w.join();
    let out = match out {
        Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(),
        Err(e) => return Verdict::Unknown(e.to_string()),
    };
    if q.questions > 1 {
        let n = out.lines().filter(|l| l.trim() == "unsat").count();
        return if n == q.questions && !out.contains("error") {
            Verdict::Unsat
        } else if out.lines().any(|l| l.trim() == "sat") {
            Verdict::Sat(BTreeMap::new())
        } else {
            Verdict::Unknown(out.lines().find(|l| l.trim() != "unsat").unwrap_or("no answer").chars().take(300).collect())
        };
    }
    let first = out.lines().next().unwrap_or("").trim();
    match first {
        "unsat" => Verdict::Unsat,
        "sat" => {
            if out.contains("(error") {
                return Verdict::Unknown(out.chars().take(200).collect());
            }
            let mut vals: HashMap<String, Fr> = HashMap::new();
            let toks: Vec<&str> = out.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
            let mut cur: Option<&str> = None;
            for (i, t) in toks.iter().enumerate() {
                if let Some(v) = cur {
                    if let Some(d) = t.strip_prefix("ff") {
                        if let Ok(n) = d.parse::<num_bigint::BigUint>() {
                            vals.insert(v.to_string(), Fr::from(n));
                            cur = None;
                            continue;
                        }
                    }
                }
                if t.starts_with('v') && toks.get(i + 1) == Some(&"as") {
                    cur = Some(t);
                }
            }
            let mut m = BTreeMap::new();
            for (n, key) in &q.vars {
                match vals.get(n) {
                    Some(v) => {
                        m.insert(key.clone(), *v);
                    }
                    None => return Verdict::Unknown(format!("no value for {n} in the model")),
                }
            }
            Verdict::Sat(m)
        }
        _ => Verdict::Unknown(out.chars().take(300).collect()),
    }
}

pub fn solve(asserts: &[Fm], timeout: Duration) -> Verdict {
    let flat = and(asserts.iter().cloned());
    match &flat {
        Fm::F => return Verdict::Unsat,
        Fm::T => return Verdict::Sat(BTreeMap::new()),
        _ => {}
    }
    let q = render(asserts, timeout, None);
    run(&q, timeout)
}

/// The generic-position assumptions of the current run as a formula.
pub fn assumed_fm() -> Fm {
    let a = arena();
    and(a.assumed.iter().map(|l| Fm::Not(Box::new(Fm::Zero(*l)))))
}

/// The branch decisions of the current run (with its assumptions) as a formula.
pub fn path_fm() -> Fm {
    and([assumed_fm(), decisions_fm()])
}

/// The branch decisions of the current run as a formula.
pub fn decisions_fm() -> Fm {
    let a = arena();
    and(a.path.iter().map(|(l, z)| if *z { Fm::Zero(*l) } else { Fm::Not(Box::new(Fm::Zero(*l))) }))
}

/// Do the path condition and the inverse axioms imply that the two terms are equal?
pub fn prove_equal(i: LinId, j: LinId) -> bool {
    let d = SymF::of(Val::S(i)) - SymF::of(Val::S(j));
    let f = zero(d);
    if f == Fm::T {
        return true;
    }
    matches!(solve(&[path_fm(), not(f)], Duration::from_secs(30)), Verdict::Unsat)
}
