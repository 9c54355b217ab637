//! Perfect privacy of a view, decided by a coupling.
//!
//! The view of a set of parties is a list of terms over secrets `s` and randomness `r`. For an
//! alternative secret `s'` the engine constructs randomness `r'` (a bijective image of `r`: each
//! step solves one view element for one fresh symbol that enters it affinely with a nonzero
//! coefficient) and asks the solver whether `view(s, r) = view(s', r')` for all values. If that is
//! so the view's distribution does not depend on the secret. If not, the engine looks for a proof
//! of the opposite: a concrete view of the real code that no randomness explains under `s'`.
use crate::arena::{AtomId, Val, VarKey, arena};
use crate::driver::Model;
use crate::field::SymF;
use crate::net::Log;
use crate::smt::{self, Fm, Verdict};
use ark_bn254::Fr;
use ark_ff::{AdditiveGroup, Field};
use std::collections::{BTreeSet, HashMap};
use std::time::Duration;

#[derive(Clone)]
pub struct Privacy {
    pub label: String,
    /// Symbols the adversary must learn nothing about.
    pub secrets: Vec<SymF>,
    /// Functions of the secrets the adversary legitimately learns.
    pub revealed: Vec<SymF>,
    /// Parties whose own random choices the adversary knows.
    pub parties: Vec<u64>,
    pub view: Vec<SymF>,
}

/// All symbolic field elements in a byte string (handles are recognised by their tag).
pub fn handles(data: &[u8]) -> Vec<SymF> {
    let mut out = vec![];
    let mut i = 0;
    while i + 32 <= data.len() {
        let w = &data[i..i + 32];
        if w[31] == 0xFF && w[4..31].iter().all(|b| *b == 0) {
            out.push(SymF::S(u32::from_le_bytes(w[..4].try_into().unwrap())));
            i += 32;
        } else {
            i += 1;
        }
    }
    out
}

/// What the given parties receive from the others.
pub fn received(log: &Log, corrupt: &[usize]) -> Vec<SymF> {
    let mut per: std::collections::BTreeMap<(usize, usize), Vec<SymF>> = Default::default();
    for m in log.lock().unwrap().iter() {
        if corrupt.contains(&m.to) && !corrupt.contains(&m.from) {
            per.entry((m.from, m.to)).or_default().extend(handles(&m.data));
        }
    }
    per.into_values().flatten().collect()
}

pub enum Outcome {
    Private { goals: usize },
    /// The view of this assignment is impossible under the alternative secrets.
    Leak { model: Model, alt: Vec<Fr>, detail: String },
    Unknown(String),
}

/// What one path of the harness recorded.
pub struct PathInfo {
    pub model: Model,
    pub sampled: HashMap<VarKey, BTreeSet<u64>>,
    pub assumptions: Vec<Fm>,
    pub path: Fm,
    pub privacy: Vec<Privacy>,
    /// Products of up to so many terms are multiplied out.
    pub expand: usize,
}

impl PathInfo {
    fn pre(&self) -> Vec<Fm> {
        let mut v = self.assumptions.clone();
        v.push(self.path.clone());
        v
    }
    /// Random symbols the adversary does not know.
    fn hidden(&self, p: &Privacy) -> BTreeSet<AtomId> {
        let ks = self.sampled.iter().filter(|(_, by)| by.iter().all(|b| !p.parties.contains(b)));
        let mut a = arena();
        ks.map(|(k, _)| a.atom_of(k)).collect()
    }
}

struct Coupling {
    map: HashMap<AtomId, Val>,
    /// It is a bijection of all values that meet the harness's assumptions, not only of those on
    /// its path.
    global: bool,
}

enum Step {
    Private(usize),
    /// The view stays but another path may be taken.
    OtherPath,
    Differs(Model),
    Unknown(String),
}

impl Coupling {
    fn apply(&self, v: Val) -> Val {
        arena().subst(v, &self.map, &mut HashMap::new())
    }
    fn bind(&mut self, m: AtomId, v: Val) {
        let one: HashMap<AtomId, Val> = HashMap::from([(m, v)]);
        let keys: Vec<AtomId> = self.map.keys().copied().collect();
        let mut memo = HashMap::new();
        for k in keys {
            let old = self.map[&k];
            let new = arena().subst(old, &one, &mut memo);
            self.map.insert(k, new);
        }
    }
}

fn sub(a: Val, b: Val) -> Val {
    arena().lincomb(a, Fr::ONE, b, -Fr::ONE)
}

/// Is the term different from zero under the assumptions?
fn nonzero(c: Val, pre: &[Fm], timeout: Duration, queries: &mut usize) -> bool {
    match c {
        Val::C(c) => c != Fr::ZERO,
        Val::S(_) => {
            let mut q = pre.to_vec();
            q.push(smt::zero(SymF::of(c)));
            *queries += 1;
            matches!(smt::solve(&q, timeout), Verdict::Unsat)
        }
    }
}

fn alternatives(p: &Privacy) -> Vec<SymF> {
    (0..p.secrets.len()).map(|i| SymF::var(format!("alt_{i}"))).collect()
}

fn secret_atoms(p: &Privacy) -> Option<Vec<AtomId>> {
    let a = arena();
    p.secrets
        .iter()
        .map(|s| match s.val() {
            Val::S(l) => Some(a.lins[l as usize].t[0].0),
            Val::C(_) => None,
        })
        .collect()
}

/// Decides the `j`-th privacy claim of a harness from all its paths.
/// Multiplications that were multiplied out on the way are added to `expansions`.
pub fn decide(paths: &[PathInfo], j: usize, timeout: Duration, expansions: &mut Vec<(u32, u32, u32)>) -> Outcome {
    let r = decide_inner(paths, j, timeout, expansions);
    expansions.append(&mut arena().expansions);
    r
}

fn decide_inner(paths: &[PathInfo], j: usize, timeout: Duration, expansions: &mut Vec<(u32, u32, u32)>) -> Outcome {
    let mut goals = 0;
    // paths that the coupling may leave
    let mut crossing: Vec<(usize, Coupling)> = vec![];
    for (i, info) in paths.iter().enumerate() {
        let Some(p) = info.privacy.get(j) else { continue };
        let Some(secrets) = secret_atoms(p) else { return Outcome::Unknown("a secret is not a symbol".into()) };
        arena().begin_run(crate::arena::Mode::Symbolic, info.model.clone());
        arena().expand = info.expand;
        let coupled = couple(p, info, &secrets, timeout);
        expansions.append(&mut arena().expansions);
        match coupled {
            (Step::Private(n), _) => goals += n,
            (Step::OtherPath, c) => crossing.push((i, c)),
            (Step::Differs(m), _) => return confirm(paths, j, i, m, timeout),
            (Step::Unknown(e), _) => return Outcome::Unknown(e),
        }
    }
    // One coupling for all of these paths: wherever it leads, the view there is the same.
    let Some((first, c)) = crossing.first() else { return Outcome::Private { goals } };
    if !c.global {
        return Outcome::Unknown(format!("{}: the coupling of path {first} leaves it and is not total", paths[*first].privacy[j].label));
    }
    for (a, _) in &crossing {
        let (pa, ia) = (&paths[*a].privacy[j], &paths[*a]);
        for ib in paths {
            let mut hyp = ia.pre();
            hyp.extend(ib.pre().iter().map(|f| map_fm(f, c)));
            let mut differs = Fm::T;
            if let Some(pb) = ib.privacy.get(j) {
                for (x, y) in pa.revealed.iter().zip(&pb.revealed) {
                    hyp.push(smt::eq(*x, SymF::of(c.apply(y.val()))));
                }
                if pa.view.len() == pb.view.len() {
                    differs = smt::or(pa.view.iter().zip(&pb.view).map(|(x, y)| smt::ne(*x, SymF::of(c.apply(y.val())))).collect::<Vec<_>>());
                }
            }
            hyp.push(differs);
            match smt::solve(&hyp, timeout) {
                Verdict::Unsat => goals += 1,
                Verdict::Sat(m) => return confirm(paths, j, *a, m, timeout),
                Verdict::Unknown(e) => return Outcome::Unknown(format!("{}: views of two paths: {e}", pa.label)),
            }
        }
    }
    Outcome::Private { goals }
}

/// Constructs the coupling of one path with itself and asks the solver whether the view is kept.
fn couple(p: &Privacy, info: &PathInfo, secret_atoms: &[AtomId], timeout: Duration) -> (Step, Coupling) {
    let mut queries = 0;
    let pre = &info.pre()[..];
    let hidden = info.hidden(p);
    let alt = alternatives(p);
    let mut c = Coupling { map: HashMap::new(), global: true };
    for (a, s) in secret_atoms.iter().zip(&alt) {
        c.map.insert(*a, s.val());
    }
    // fresh primed symbol for every hidden random symbol the view depends on
    let mut prime: HashMap<AtomId, AtomId> = HashMap::new(); // primed -> unprimed
    {
        let mut a = arena();
        let mut used = BTreeSet::new();
        for v in &p.view {
            used.extend(a.symbols(v.val()));
        }
        for m in used.intersection(&hidden) {
            let v = a.var(VarKey::Named(format!("coupled_{m}")));
            let Val::S(l) = v else { return (Step::Unknown("coupling needs a symbolic run".into()), c) };
            let pa = a.lins[l as usize].t[0].0;
            prime.insert(pa, *m);
            c.map.insert(*m, v);
        }
    }
    let pre2 = |c: &Coupling| -> Vec<Fm> { pre.iter().map(|f| map_fm(f, c)).collect() };
    let mut seen = BTreeSet::new();
    let mut left: Vec<Val> = vec![];
    let mut settled: BTreeSet<u32> = BTreeSet::new();
    let mut free: BTreeSet<AtomId> = prime.keys().copied().collect();
    // terms are numbered in the order of their creation: causes before effects
    let mut ordered: Vec<SymF> = p.view.clone();
    ordered.sort_by_key(|v| match v.val() {
        Val::S(l) => l,
        Val::C(_) => 0,
    });
    let mut todo: std::collections::VecDeque<Val> = Default::default();
    for v in &ordered {
        if let Val::S(l) = v.val() {
            if seen.insert(l) {
                todo.push_back(v.val());
            }
        }
    }
    // 0: constant coefficients only, deferring what has none; 1: any nonzero coefficient
    let mut stage = 0;
    let mut stuck = 0;
    while let Some(v1) = todo.pop_front() {
        let v2 = c.apply(v1);
        if v1 == v2 {
            if let Val::S(l) = v1 {
                settled.insert(l);
            }
            stuck = 0;
            continue;
        }
        let cands: Vec<AtomId> = arena().symbols(v2).into_iter().filter(|a| free.contains(a)).collect();
        let mut pick: Option<(AtomId, Val)> = None;
        if let Val::S(l2) = v2 {
            let lin = arena().lins[l2 as usize].clone();
            // linear with a constant coefficient and nowhere else
            for m in &cands {
                let Some((_, k)) = lin.t.iter().find(|(a, _)| a == m) else { continue };
                let rest: Val = {
                    let mut a = arena();
                    let mut l = lin.clone();
                    l.t.retain(|(a, _)| a != m);
                    a.mk(l)
                };
                if arena().symbols(rest).contains(m) {
                    continue;
                }
                // m := (v1 - rest)/k
                let d = sub(v1, rest);
                let e = arena().scale(d, k.inverse().unwrap());
                pick = Some((*m, e));
                break;
            }
            if pick.is_none() && stage == 1 {
                for m in &cands {
                    let at = |x: u64| {
                        arena().subst(v2, &HashMap::from([(*m, Val::C(Fr::from(x)))]), &mut HashMap::new())
                    };
                    let (e0, e1, e2) = (at(0), at(1), at(2));
                    let mut co = sub(e1, e0);
                    let second = sub(sub(e2, e1), co);
                    let affine = smt::zero(SymF::of(second));
                    if affine != Fm::T {
                        queries += 1;
                        if !matches!(smt::solve(&[smt::not(affine)], timeout), Verdict::Unsat) {
                            continue;
                        }
                    }
                    // the coefficient often mentions other free symbols that cancel: leave them out
                    let others: HashMap<AtomId, Val> = arena().symbols(co).into_iter().filter(|x| free.contains(x)).map(|x| (x, Val::C(Fr::ZERO))).collect();
                    if !others.is_empty() {
                        let plain = arena().subst(co, &others, &mut HashMap::new());
                        let differs = smt::ne(SymF::of(co), SymF::of(plain));
                        queries += 1;
                        if differs == Fm::F || matches!(smt::solve(&[differs], timeout), Verdict::Unsat) {
                            co = plain;
                        }
                    }
                    let mut always = info.assumptions.clone();
                    always.extend(info.assumptions.iter().map(|f| map_fm(f, &c)));
                    if !nonzero(co, &always, timeout, &mut queries) {
                        let mut both = pre.to_vec();
                        both.extend(pre2(&c));
                        if !nonzero(co, &both, timeout, &mut queries) {
                            continue;
                        }
                        c.global = false;
                    }
                    let d = SymF::of(v1) - SymF::of(e0);
                    let inv = match co {
                        Val::S(cl) => SymF::of(arena().inv(cl)),
                        Val::C(k) => SymF::C(k.inverse().unwrap()),
                    };
                    pick = Some((*m, (d * inv).val()));
                    break;
                }
            }
        }
        match pick {
            Some((m, e)) => {
                if std::env::var("SYMEX_VERBOSE").is_ok_and(|v| v == "2") {
                    eprintln!("  {v1:?}: pivot {m} of {cands:?} in stage {stage}");
                }
                c.bind(m, e);
                free.remove(&m);
                stuck = 0;
                stage = 0;
                // identical already as terms over the symbols that are still free: so it stays
                if c.apply(v1) == v1 {
                    if let Val::S(l) = v1 {
                        settled.insert(l);
                    }
                }
            }
            None => {
                todo.push_back(v1);
                stuck += 1;
                if stuck >= todo.len() {
                    stuck = 0;
                    if stage == 1 {
                        break;
                    }
                    stage = 1;
                }
            }
        }
    }
    left.extend(todo);
    if std::env::var("SYMEX_VERBOSE").is_ok_and(|v| v == "2") {
        for v in &left {
            let v2 = c.apply(*v);
            let now = arena().symbols(v2);
            eprintln!("  left {v:?}, now {v2:?} with {now:?} (free {free:?})");
        }
    }
    for m in free {
        let un = prime[&m];
        let v = {
            let mut a = arena();
            let k = crate::arena::Lin { c: Fr::ZERO, t: vec![(un, Fr::ONE)] };
            a.mk(k)
        };
        c.bind(m, v);
    }
    // the coupled run must produce the same view, on the same path
    let mut hyp: Vec<Fm> = pre.to_vec();
    hyp.extend(pre_secret_only(&info.assumptions, &hidden).iter().map(|f| map_fm(f, &c)));
    for r in &p.revealed {
        let r2 = SymF::of(c.apply(r.val()));
        hyp.push(smt::eq(*r, r2));
    }
    let mut goals: Vec<Fm> = left.iter().map(|v| smt::eq(SymF::of(*v), SymF::of(c.apply(*v)))).collect();
    let mut of_assumptions = vec![];
    for f in pre {
        let g = map_fm(f, &c);
        if g != *f {
            if info.assumptions.contains(f) {
                of_assumptions.push(goals.len());
            }
            goals.push(g);
        }
    }
    let n = goals.len();
    {
        let view: Vec<u32> = p
            .view
            .iter()
            .filter_map(|v| match v.val() {
                Val::S(l) if !settled.contains(&l) => Some(l),
                _ => None,
            })
            .collect();
        if view.is_empty() && pre.iter().all(|f| map_fm(f, &c) == *f) {
            // the solver confirms on the elements that are affine in the symbols
            let affine = |l: &u32| {
                let a = arena();
                let ok = |v: Val| match v {
                    Val::S(l) => a.lins[l as usize].t.iter().all(|(x, _)| matches!(a.atoms[*x as usize], crate::arena::Atom::Var(_))),
                    Val::C(_) => true,
                };
                ok(Val::S(*l)) && a.lins[*l as usize].t.iter().all(|(x, _)| c.map.get(x).is_none_or(|v| ok(*v)))
            };
            let view: Vec<u32> = settled.iter().copied().filter(affine).collect();
            if view.is_empty() {
                return (Step::Private(0), c);
            }
            let used: BTreeSet<AtomId> = view.iter().flat_map(|l| arena().symbols(Val::S(*l))).collect();
            let map = c.map.iter().filter(|(k, _)| used.contains(k)).map(|(k, v)| (*k, *v)).collect();
            let q = smt::render_coupled(&view, &[], &map, &[], timeout);
            return match smt::run(&q, timeout) {
                Verdict::Sat(_) => (Step::Unknown(format!("{}: the solver contradicts the coupling", p.label)), c),
                Verdict::Unsat => (Step::Private(view.len()), c),
                Verdict::Unknown(_) => (Step::Private(0), c),
            };
        }
        // all in one question first; if that takes long, one by one below
        let short = timeout.min(Duration::from_secs(15));
        let q = smt::render_coupled(&view, pre, &c.map, &hyp, short);
        if let Verdict::Unsat = smt::run(&q, short) {
            return (Step::Private(n), c);
        }
    }
    let mut unknown: Option<String> = None;
    let mut other_path = false;
    for (i, g) in goals.iter().enumerate() {
        if *g == Fm::T || hyp.contains(g) {
            continue;
        }
        let mut q = hyp.clone();
        q.push(smt::not(g.clone()));
        match smt::solve(&q, timeout) {
            Verdict::Unsat => {}
            Verdict::Sat(m) if i < left.len() => return (Step::Differs(m), c),
            Verdict::Sat(_) => {
                if std::env::var("SYMEX_VERBOSE").is_ok_and(|v| v == "2") {
                    eprintln!("  may leave the path: {g:?} over {:?}", fm_symbols(g));
                }
                other_path = true;
                if of_assumptions.contains(&i) {
                    c.global = false;
                }
            }
            Verdict::Unknown(e) => unknown = Some(e),
        }
    }
    if let Some(e) = unknown {
        return (Step::Unknown(e), c);
    }
    (if other_path { Step::OtherPath } else { Step::Private(n) }, c)
}

/// Conditions that only speak about secrets and known values (the harness's assumptions).
fn pre_secret_only(pre: &[Fm], hidden: &BTreeSet<AtomId>) -> Vec<Fm> {
    pre.iter().flat_map(flatten).filter(|f| fm_symbols(f).is_disjoint(hidden)).collect()
}

fn flatten(f: &Fm) -> Vec<Fm> {
    match f {
        Fm::And(v) => v.iter().flat_map(flatten).collect(),
        g => vec![g.clone()],
    }
}

fn fm_symbols(f: &Fm) -> BTreeSet<AtomId> {
    match f {
        Fm::T | Fm::F => BTreeSet::new(),
        Fm::Zero(l) => arena().symbols(Val::S(*l)),
        Fm::Not(g) => fm_symbols(g),
        Fm::And(v) | Fm::Or(v) => v.iter().flat_map(fm_symbols).collect(),
    }
}

fn map_fm(f: &Fm, c: &Coupling) -> Fm {
    match f {
        Fm::T => Fm::T,
        Fm::F => Fm::F,
        Fm::Zero(l) => smt::zero(SymF::of(c.apply(Val::S(*l)))),
        Fm::Not(g) => smt::not(map_fm(g, c)),
        Fm::And(v) => smt::and(v.iter().map(|g| map_fm(g, c)).collect::<Vec<_>>()),
        Fm::Or(v) => smt::or(v.iter().map(|g| map_fm(g, c)).collect::<Vec<_>>()),
    }
}

/// Looks for a concrete view of path `i` that no hidden randomness explains under other secrets.
fn confirm(paths: &[PathInfo], j: usize, i: usize, m: Model, timeout: Duration) -> Outcome {
    let (p, info) = (&paths[i].privacy[j], &paths[i]);
    arena().begin_run(crate::arena::Mode::Symbolic, info.model.clone());
    let hidden = &info.hidden(p);
    let secret_atoms = &secret_atoms(p).unwrap()[..];
    let alt = &alternatives(p)[..];
    // candidates for the alternative secrets: what the solver proposed, then arbitrary ones that
    // keep the revealed values
    let mut tries: Vec<(Model, Vec<Fr>)> = vec![];
    let alts: Vec<Fr> = alt
        .iter()
        .map(|s| match s.val() {
            Val::S(l) => {
                let a = arena();
                let at = a.lins[l as usize].t[0].0;
                match &a.atoms[at as usize] {
                    crate::arena::Atom::Var(k) => m.get(k).copied().unwrap_or_else(|| crate::arena::default_value(k)),
                    _ => Fr::ZERO,
                }
            }
            Val::C(c) => c,
        })
        .collect();
    let clean: Model = m
        .iter()
        .filter(|(k, _)| !matches!(k, VarKey::Named(n) if n.starts_with("alt_") || n.starts_with("coupled_")))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    // the current run's own values with alternative secrets chosen by the solver
    {
        let mut q: Vec<Fm> = vec![];
        let map = Coupling { map: secret_atoms.iter().copied().zip(alt.iter().map(|s| s.val())).collect(), global: true };
        for r in &p.revealed {
            let want = SymF::C(r.sim());
            q.push(smt::eq(SymF::of(map.apply(r.val())), want));
        }
        for f in pre_secret_only(&info.assumptions, hidden) {
            q.push(map_fm(&f, &map));
        }
        for (s, a) in p.secrets.iter().zip(alt) {
            q.push(smt::ne(*a, SymF::C(s.sim())));
            for small in 0..4u64 {
                q.push(smt::ne(*a, SymF::C(Fr::from(small))));
            }
        }
        if let Verdict::Sat(mm) = smt::solve(&q, timeout) {
            let v = alt
                .iter()
                .enumerate()
                .map(|(i, _)| {
                    let k = VarKey::Named(format!("alt_{i}"));
                    mm.get(&k).copied().unwrap_or_else(|| crate::arena::default_value(&k))
                })
                .collect();
            tries.push((Model::new(), v));
        }
    }
    tries.push((clean, alts));
    for (model, alts) in tries {
        let over = {
            let mut o = arena().overrides.clone();
            o.extend(model);
            o
        };
        if let Some(d) = impossible(paths, j, i, &over, &alts, timeout) {
            return Outcome::Leak { model: over, alt: alts, detail: d };
        }
    }
    Outcome::Unknown(format!("{}: no coupling found, no impossible view found either", p.label))
}

/// Under `over`, which takes path `i`, is the view impossible for the secrets `alts` whatever the
/// hidden randomness, on every path?
fn impossible(paths: &[PathInfo], j: usize, i: usize, over: &Model, alts: &[Fr], timeout: Duration) -> Option<String> {
    let (p, info) = (&paths[i].privacy[j], &paths[i]);
    let secret_atoms = &secret_atoms(p)?[..];
    // concrete values of the view in this assignment
    let mut consts: HashMap<AtomId, Val> = HashMap::new();
    {
        let a = arena();
        let mut used = BTreeSet::new();
        for info in paths {
            if let Some(p) = info.privacy.get(j) {
                for v in p.view.iter().chain(&p.revealed) {
                    used.extend(a.symbols(v.val()));
                }
            }
            for f in info.pre() {
                drop_used(&a, &f, &mut used);
            }
        }
        for at in used {
            if let crate::arena::Atom::Var(k) = &a.atoms[at as usize] {
                let v = over.get(k).copied().unwrap_or_else(|| crate::arena::default_value(k));
                consts.insert(at, Val::C(v));
            }
        }
    }
    let conc = |v: SymF| SymF::of(arena().subst(v.val(), &consts, &mut HashMap::new()));
    // the assignment must take path i
    if !info.pre().iter().all(|f| map_fm(f, &Coupling { map: consts.clone(), global: true }) == Fm::T) {
        return None;
    }
    for other in paths {
        let Some(po) = other.privacy.get(j) else { return None };
        let mut alt_map = consts.clone();
        for h in other.hidden(po) {
            alt_map.remove(&h);
        }
        for (a, v) in secret_atoms.iter().zip(alts) {
            alt_map.insert(*a, Val::C(*v));
        }
        let altc = Coupling { map: alt_map, global: true };
        // the alternative must be admissible as far as the revealed values and the assumptions go
        for (r, s) in p.revealed.iter().zip(&po.revealed) {
            let same = SymF::of(altc.apply(s.val()));
            if let (SymF::C(x), SymF::C(y)) = (same, conc(*r)) {
                if x != y {
                    return None;
                }
            }
        }
        for f in pre_secret_only(&other.assumptions, &other.hidden(po)) {
            if map_fm(&f, &altc) == Fm::F {
                return None;
            }
        }
        if p.view.len() != po.view.len() {
            continue;
        }
        let mut q: Vec<Fm> = vec![];
        for (v, w) in p.view.iter().zip(&po.view) {
            q.push(smt::eq(SymF::of(altc.apply(w.val())), conc(*v)));
        }
        for f in other.pre() {
            q.push(map_fm(&f, &altc));
        }
        match smt::solve(&q, timeout) {
            Verdict::Unsat => {}
            _ => return None,
        }
    }
    Some(format!(
        "{}: the view the real code produces for the secret(s) {:?} cannot occur for {:?}, whatever randomness the other parties use",
        p.label,
        p.secrets.iter().map(|s| conc(*s).to_string()).collect::<Vec<_>>(),
        alts.iter().map(|v| v.to_string()).collect::<Vec<_>>()
    ))
}

fn drop_used(a: &crate::arena::Arena, f: &Fm, used: &mut BTreeSet<AtomId>) {
    match f {
        Fm::T | Fm::F => {}
        Fm::Zero(l) => used.extend(a.symbols(Val::S(*l))),
        Fm::Not(g) => drop_used(a, g, used),
        Fm::And(v) | Fm::Or(v) => v.iter().for_each(|g| drop_used(a, g, used)),
    }
}

/// Re-decides a recorded leak: used on replay.
pub fn recheck(paths: &[PathInfo], over: &Model, alts: &[Fr], timeout: Duration) -> Option<String> {
    for (i, info) in paths.iter().enumerate() {
        arena().begin_run(crate::arena::Mode::Symbolic, info.model.clone());
        for j in 0..info.privacy.len() {
            if let Some(d) = impossible(paths, j, i, over, alts, timeout) {
                return Some(d);
            }
        }
    }
    None
}
