//! The concolic driver: runs a harness, discharges its obligations with the solver on every path,
//! asks the solver for inputs outside all explored paths, replays counterexamples concretely.
use crate::arena::{Mode, VarKey, arena, key_name, reset};
use crate::field::{SymF, Unsupported};
use crate::privacy::{self, Outcome, PathInfo, Privacy};
use crate::smt::{self, Fm, Verdict};
use ark_bn254::Fr;
use ark_ff::{AdditiveGroup, Field, PrimeField};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub type Model = BTreeMap<VarKey, Fr>;

/// What a harness talks to during one run.
pub struct Cx {
    pub obligations: Vec<(String, Fm)>,
    /// Equalities that hold by term normalisation; still put to the solver, in one query per path.
    pub normal: Vec<(SymF, SymF)>,
    pub assumptions: Vec<Fm>,
    pub custom: Vec<Custom>,
    pub privacy: Vec<Privacy>,
    expand_couplings: usize,
    pub notes: Vec<String>,
}

/// An obligation of the form "no assignment satisfies these assertions" with its own replay.
pub struct Custom {
    pub label: String,
    pub asserts: Vec<Fm>,
    pub replay: Box<dyn Fn(&Model) -> Result<bool, String> + Send + Sync>,
}

struct AssumeFailed;

impl Cx {
    fn new() -> Self {
        Cx { obligations: vec![], normal: vec![], assumptions: vec![], custom: vec![], privacy: vec![], expand_couplings: 0, notes: vec![] }
    }
    pub fn var(&mut self, name: impl Into<String>) -> SymF {
        SymF::var(name)
    }
    pub fn vars(&mut self, prefix: &str, n: usize) -> Vec<SymF> {
        SymF::vars(prefix, n)
    }
    pub fn prove(&mut self, label: impl Into<String>, f: Fm) {
        self.obligations.push((label.into(), f));
    }
    pub fn prove_eq(&mut self, label: impl Into<String>, a: SymF, b: SymF) {
        let (a, b) = (unfolded(a), unfolded(b));
        let f = smt::eq(a, b);
        if f == Fm::T {
            self.normal.push((a, b));
        }
        self.prove(label, f);
    }
    pub fn prove_all_eq(&mut self, label: impl Into<String>, a: &[SymF], b: &[SymF]) {
        let label = label.into();
        if a.len() != b.len() {
            self.prove(format!("{label}: {} values, expected {}", a.len(), b.len()), Fm::F);
            return;
        }
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            self.prove_eq(format!("{label}[{i}]"), *x, *y);
        }
    }
    /// A fact about control flow in this run that must hold on every path.
    pub fn require(&mut self, label: impl Into<String>, b: bool) {
        self.prove(label, if b { Fm::T } else { Fm::F });
    }
    pub fn ok<T>(&mut self, label: impl Into<String>, r: eyre::Result<T>) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                let l = format!("{}: unexpected error: {e}", label.into());
                self.prove(l, Fm::F);
                None
            }
        }
    }
    /// Restricts the inputs. Call before the code that depends on it.
    pub fn assume(&mut self, f: Fm) {
        let holds = f.sim();
        self.assumptions.push(f);
        if !holds {
            std::panic::panic_any(AssumeFailed);
        }
    }
    pub fn refute(
        &mut self,
        label: impl Into<String>,
        asserts: Vec<Fm>,
        replay: impl Fn(&Model) -> Result<bool, String> + Send + Sync + 'static,
    ) {
        self.custom.push(Custom { label: label.into(), asserts, replay: Box::new(replay) });
    }
    /// Claims that a view tells nothing about the secrets beyond the revealed values.
    pub fn private(&mut self, p: Privacy) {
        self.privacy.push(p);
    }
    /// Treat zero-tests that come out nonzero from now on as assumptions about sampled values.
    pub fn generic(&mut self, on: bool) {
        arena().generic = on;
    }
    pub fn oracle(&mut self, on: bool) {
        arena().oracle = on;
    }
    /// From now on the code's randomness is one fixed sample instead of symbolic.
    pub fn fix_randomness(&mut self) {
        self.fix_randomness_after(0);
    }
    /// The first `n` draws are symbolic, the others one fixed sample.
    pub fn fix_randomness_after(&mut self, n: usize) {
        arena().fix_rand = Some(n);
    }
    /// Multiply out products of up to `limit` terms also while couplings are constructed.
    pub fn expand_couplings(&mut self, limit: usize) {
        self.expand_couplings = limit;
    }
    /// Multiply out products of up to `limit` terms; fold powers of at least `degree` of the given
    /// symbols into names.
    pub fn expand(&mut self, limit: usize, degree: usize, marked: &[SymF]) {
        let mut a = arena();
        a.expand = limit;
        a.fold = degree;
        a.mark(&marked.iter().map(|x| x.val()).collect::<Vec<_>>());
    }
    pub fn canon(&mut self, on: bool) {
        arena().canon = on;
    }
}

fn unfolded(x: SymF) -> SymF {
    let mut a = arena();
    match x.val() {
        crate::arena::Val::S(l) if a.fold > 0 => SymF::of(a.unfolded(l)),
        _ => x,
    }
}

#[derive(Debug)]
enum RunEnd {
    Done,
    Panic(String),
    AssumeFailed,
    Unsupported(String),
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn run_once(f: &(dyn Fn(&mut Cx) + Sync), mode: Mode, m: &Model) -> (Cx, RunEnd) {
    arena().begin_run(mode, m.clone());
    crate::entropy::restart();
    *LAST_PANIC.lock().unwrap() = String::new();
    let mut cx = Cx::new();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
    let end = match r {
        Ok(()) => RunEnd::Done,
        Err(p) => {
            if p.is::<AssumeFailed>() {
                RunEnd::AssumeFailed
            } else if let Some(u) = p.downcast_ref::<Unsupported>() {
                RunEnd::Unsupported(u.0.clone())
            } else {
                let s = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                let at = LAST_PANIC.lock().unwrap().clone();
                RunEnd::Panic(format!("{s} ({at})"))
            }
        }
    };
    (cx, end)
}

pub struct Violation {
    pub case: String,
    pub label: String,
    pub model: Model,
    pub detail: String,
}

pub struct Stats {
    pub cases: usize,
    pub paths: usize,
    pub decisions: usize,
    pub obligations: usize,
    pub by_solver: usize,
    pub by_simplification: usize,
    pub coverage_queries: usize,
    pub traces: usize,
    pub terms: usize,
    pub vars: usize,
}

pub struct Session {
    pub property: String,
    pub tier: String,
    pub functions: Vec<String>,
    pub bounds: Vec<String>,
    pub outside: Vec<String>,
    pub assumptions: Vec<String>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub stats: Stats,
    pub timeout: Duration,
    pub only: Option<String>,
    pub replay: Option<Model>,
    pub replay_failed: bool,
    known: Vec<Value>,
    known_hit: Vec<String>,
    start: Instant,
    case_log: Vec<Value>,
    pub max_paths: usize,
}

fn model_json(m: &Model) -> Value {
    let mut o = serde_json::Map::new();
    for (k, v) in m {
        o.insert(key_name(k), json!(v.into_bigint().to_string()));
    }
    Value::Object(o)
}

fn key_of(name: &str) -> VarKey {
    let hex = |s: &str| -> Option<Vec<u8>> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
    };
    if let Some(h) = name.strip_prefix("rand_") {
        if h.len() == 64 {
            if let Some(b) = hex(h) {
                let l: Vec<u64> = b.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
                return VarKey::Rand([l[3], l[2], l[1], l[0]]);
            }
        }
    }
    if let Some(h) = name.strip_prefix("oracle_") {
        if let Ok(b) = h.parse() {
            return VarKey::Oracle(b);
        }
    }
    VarKey::Named(name.to_string())
}

pub fn model_from_json(v: &Value) -> Model {
    let mut m = Model::new();
    if let Some(o) = v.as_object() {
        for (k, x) in o {
            if let Some(s) = x.as_str() {
                if let Ok(n) = s.parse::<num_bigint::BigUint>() {
                    m.insert(key_of(k), Fr::from(n));
                }
            }
        }
    }
    m
}

impl Session {
    pub fn new(property: &str) -> Self {
        std::panic::set_hook(Box::new(|i| {
            let s = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if let Ok(mut g) = LAST_PANIC.lock() {
                if g.is_empty() {
                    *g = s;
                }
            }
            if std::env::var("SYMEX_PANICS").is_ok() {
                eprintln!("{i}");
            }
        }));
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        Session {
            property: property.into(),
            timeout: Duration::from_secs(if tier == "thorough" { 300 } else { 60 }),
            tier,
            functions: vec![],
            bounds: vec![],
            outside: vec![],
            assumptions: vec![],
            samples: vec![],
            violations: vec![],
            inconclusive: vec![],
            stats: Stats {
                cases: 0,
                paths: 0,
                decisions: 0,
                obligations: 0,
                by_solver: 0,
                by_simplification: 0,
                coverage_queries: 0,
                traces: 0,
                terms: 0,
                vars: 0,
            },
            only: None,
            replay: None,
            replay_failed: false,
            known: known_findings(),
            known_hit: vec![],
            start: Instant::now(),
            case_log: vec![],
            max_paths: 64,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn functions(&mut self, fs: &[&str]) {
        self.functions.extend(fs.iter().map(|s| s.to_string()));
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn outside(&mut self, s: impl Into<String>) {
        self.outside.push(s.into());
    }
    pub fn assumption(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }

    /// Records a violation, unless it is one of the listed findings.
    fn violate(&mut self, v: Violation) {
        for k in &self.known {
            let is = |key: &str, s: &str| k[key].as_str() == Some(s);
            if is("property", &self.property) && is("case", &v.case) && is("obligation", &v.label) {
                self.known_hit.push(k["what"].as_str().unwrap_or("").to_string());
                return;
            }
        }
        self.violations.push(v);
    }

    /// Runs one harness over all its paths.
    pub fn case(&mut self, name: impl Into<String>, f: impl Fn(&mut Cx) + Sync) {
        let name = name.into();
        if let Some(o) = &self.only {
            if *o != name {
                return;
            }
        }
        if let Some(m) = self.replay.clone() {
            let (cx, end) = run_once(&f, Mode::Concrete, &m);
            let mut fail = concrete_failure(&cx, &end, &m);
            let alts: Vec<Fr> =
                (0..).map_while(|i| m.get(&VarKey::Named(format!("alt_{i}"))).copied()).collect();
            if fail.is_none() && !alts.is_empty() {
                // a leak is a statement about all paths
                self.replay = None;
                let infos = self.explore(&name, &f);
                self.replay = Some(m.clone());
                fail = privacy::recheck(&infos, &m, &alts, self.timeout);
            }
            if let Some(d) = fail {
                println!("replay of case {name}: {d}");
                self.replay_failed = true;
            } else {
                println!("replay of case {name}: holds");
            }
            return;
        }
        if !self.violations.is_empty() {
            return;
        }
        let t0 = Instant::now();
        let q0 = smt::QUERIES.load(Ordering::SeqCst);
        self.stats.cases += 1;
        let (p0, o0, s0) = (self.stats.paths, self.stats.obligations, self.stats.by_solver);
        let infos = self.explore(&name, &f);
        if self.violations.is_empty() {
            self.discharge_privacy(&name, &infos);
        }
        let (paths, nobl, nsolver) = (self.stats.paths - p0, self.stats.obligations - o0, self.stats.by_solver - s0);
        let q1 = smt::QUERIES.load(Ordering::SeqCst);
        self.case_log.push(json!({
            "case": name, "paths": paths, "obligations": nobl, "discharged_by_solver": nsolver,
            "queries": q1 - q0, "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        }));
        if std::env::var("SYMEX_VERBOSE").is_ok() {
            eprintln!(
                "case {name}: {paths} paths, {nobl} obligations ({nsolver} by solver), {} queries, {:?}",
                q1 - q0,
                t0.elapsed()
            );
        }
    }

    /// All paths of a harness, with their obligations discharged but for the privacy claims.
    fn explore(&mut self, name: &str, f: &(dyn Fn(&mut Cx) + Sync)) -> Vec<PathInfo> {
        let name = name.to_string();
        reset();
        let mut infos = vec![];
        let mut explored: Vec<Fm> = vec![];
        let mut model = Model::new();
        let (mut paths, mut nobl, mut nsolver) = (0usize, 0usize, 0usize);
        let mut base: Vec<Fm> = vec![];
        let mut assume_tries = 0;
        loop {
            let (cx, end) = run_once(f, Mode::Symbolic, &model);
            let path = smt::path_fm();
            let decisions = smt::decisions_fm();
            let assumed = smt::assumed_fm();
            if let RunEnd::AssumeFailed = end {
                assume_tries += 1;
                if assume_tries > 50 {
                    self.inconclusive.push(format!("{name}: cannot meet the assumptions"));
                    break;
                }
                let mut q = cx.assumptions.clone();
                q.extend(explored.iter().map(|e| smt::not(e.clone())));
                match smt::solve(&q, self.timeout) {
                    Verdict::Sat(m) => {
                        model = m;
                        continue;
                    }
                    Verdict::Unsat => {
                        if paths == 0 {
                            self.inconclusive.push(format!("{name}: assumptions unsatisfiable (vacuous)"));
                        }
                        break;
                    }
                    Verdict::Unknown(e) => {
                        self.inconclusive.push(format!("{name}: assumptions undecided: {e}"));
                        break;
                    }
                }
            }
            if let RunEnd::Unsupported(u) = &end {
                self.inconclusive.push(format!("{name}: {u}"));
                break;
            }
            paths += 1;
            let npath = arena().path.len();
            self.stats.decisions += npath;
            let full = current_assignment(&model);
            let sampled = arena().sampled_by.clone();
            let expansions = std::mem::take(&mut arena().expansions);
            // validate the symbolic run against the real code on this path's witness
            let (ccx, cend) = run_once(f, Mode::Concrete, &full);
            let cfail = concrete_failure(&ccx, &cend, &full);
            // back to the symbolic context of this path
            arena().begin_run(Mode::Symbolic, model.clone());
            arena().sampled_by = sampled;
            if let RunEnd::Panic(p) = &end {
                match cfail {
                    Some(d) => self.violate(Violation {
                        case: name.clone(),
                        label: format!("panic: {p}"),
                        model: full.clone(),
                        detail: d,
                    }),
                    None => self.inconclusive.push(format!("{name}: symbolic run panics ({p}) but not the concrete one")),
                }
                break;
            }
            if cx.obligations.is_empty() && cx.custom.is_empty() && cx.privacy.is_empty() {
                self.inconclusive.push(format!("{name}: a path without obligations"));
                break;
            }
            nobl += cx.obligations.len() + cx.custom.len() + cx.privacy.len();
            let mut pre = cx.assumptions.clone();
            pre.push(path.clone());
            let (found, discharged, trivial, unknown) = self.discharge(&name, &cx, &pre, &full, f, &model, &expansions);
            nsolver += discharged;
            self.stats.by_simplification += trivial;
            self.inconclusive.extend(unknown);
            if found {
                break;
            }
            if let Some(d) = cfail {
                // obligations proved but the concrete run disagrees: the encoding is at fault
                self.inconclusive.push(format!("{name}: concrete run disagrees with the proof: {d}"));
                break;
            }
            self.stats.traces += 1;
            infos.push(PathInfo {
                model: model.clone(),
                sampled: arena().sampled_by.clone(),
                assumptions: cx.assumptions.clone(),
                path: path.clone(),
                privacy: cx.privacy.clone(),
                expand: cx.expand_couplings,
            });
            if paths == 1 {
                base = cx.assumptions.clone();
                self.stats.terms += arena().lins.len();
                self.stats.vars += full.len();
                if self.samples.len() < 5 {
                    self.samples.push(json!({
                        "case": name, "obligation": cx.obligations.first().map(|o| o.0.clone())
                            .or(cx.custom.first().map(|c| c.label.clone())).or(cx.privacy.first().map(|c| c.label.clone())),
                        "path_condition_atoms": npath,
                        "symbols": full.len(), "notes": cx.notes,
                        "witness": model_json(&full.iter().take(3).map(|(k, v)| (k.clone(), *v)).collect()),
                    }));
                }
            }
            if decisions == Fm::T {
                break;
            }
            explored.push(smt::implies(assumed.clone(), decisions));
            // inputs outside every explored path (within the assumptions)?
            let mut q = base.clone();
            q.push(assumed);
            q.extend(explored.iter().map(|e| smt::not(e.clone())));
            self.stats.coverage_queries += 1;
            if smt::refuted_propositionally(&q) {
                break;
            }
            let verdict = match nearby_model(&q, &full) {
                Some(m) => Verdict::Sat(m),
                None => smt::solve(&q, self.timeout),
            };
            match verdict {
                Verdict::Unsat => break,
                Verdict::Sat(m) => {
                    if paths >= self.max_paths {
                        self.inconclusive.push(format!("{name}: more than {} paths", self.max_paths));
                        break;
                    }
                    model = m;
                }
                Verdict::Unknown(e) => {
                    self.inconclusive.push(format!("{name}: path coverage undecided: {e}"));
                    break;
                }
            }
        }
        self.stats.paths += paths;
        self.stats.obligations += nobl;
        self.stats.by_solver += nsolver;
        infos
    }

    fn discharge_privacy(&mut self, name: &str, infos: &[PathInfo]) {
        let claims = infos.iter().map(|i| i.privacy.len()).max().unwrap_or(0);
        for j in 0..claims {
            let n = infos.iter().filter(|i| i.privacy.len() > j).count();
            let label = infos.iter().find_map(|i| i.privacy.get(j)).unwrap().label.clone();
            let mut expansions = vec![];
            let outcome = privacy::decide(infos, j, self.timeout, &mut expansions);
            self.inconclusive.extend(confirm_expansions(name, &expansions, self.timeout));
            match outcome {
                Outcome::Private { goals: 0 } => self.stats.by_simplification += n,
                Outcome::Private { .. } => self.stats.by_solver += n,
                Outcome::Unknown(e) => self.inconclusive.push(format!("{name}/{label}: {e}")),
                Outcome::Leak { model, alt, detail } => {
                    let mut m = current_assignment(&model);
                    m.extend(model);
                    for (i, v) in alt.iter().enumerate() {
                        m.insert(VarKey::Named(format!("alt_{i}")), *v);
                    }
                    self.violate(Violation { case: name.into(), label, model: m, detail });
                    return;
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn discharge(
        &mut self,
        name: &str,
        cx: &Cx,
        pre: &[Fm],
        full: &Model,
        f: &(dyn Fn(&mut Cx) + Sync),
        model: &Model,
        expansions: &[(u32, u32, u32)],
    ) -> (bool, usize, usize, Vec<String>) {
        let mut trivial = 0;
        let mut jobs: Vec<(usize, smt::Query)> = vec![];
        let mut candidates: Vec<(String, Model)> = vec![];
        let mut seen: Vec<(String, usize)> = vec![];
        let mut dup: BTreeMap<usize, usize> = BTreeMap::new();
        for (i, (label, ob)) in cx.obligations.iter().enumerate() {
            match ob {
                Fm::T => trivial += 1,
                Fm::F => candidates.push((label.clone(), full.clone())),
                _ => {
                    if !ob.sim() {
                        candidates.push((label.clone(), full.clone()));
                        continue;
                    }
                    let mut q = pre.to_vec();
                    q.push(smt::not(ob.clone()));
                    let r = smt::render(&q, self.timeout, None);
                    if let Some((_, j)) = seen.iter().find(|(t, _)| *t == r.text) {
                        dup.insert(i, *j);
                        continue;
                    }
                    seen.push((r.text.clone(), i));
                    jobs.push((i, r));
                }
            }
        }
        let mut unknown = vec![];
        let mut discharged = 0;
        if candidates.is_empty() && !cx.normal.is_empty() {
            let q = smt::render_distinct(&cx.normal, self.timeout);
            match smt::run(&q, self.timeout) {
                Verdict::Unsat => {}
                Verdict::Sat(_) => unknown.push(format!("{name}: the solver contradicts term normalisation")),
                Verdict::Unknown(e) => unknown.push(format!("{name}: {e}")),
            }
        }
        if candidates.is_empty() {
            let es = expansions.to_vec();
            if std::env::var("SYMEX_VERBOSE").is_ok_and(|v| v == "2") {
                let a = arena();
                let mut n: Vec<usize> = es.iter().map(|e| a.lins[e.2 as usize].t.len()).collect();
                n.sort();
                eprintln!("{name}: {} products multiplied out, terms: sum {}, largest {:?}", n.len(), n.iter().sum::<usize>(), &n[n.len().saturating_sub(5)..]);
            }
            unknown.extend(confirm_expansions(name, &es, self.timeout));
        }
        if candidates.is_empty() {
            let verdicts = run_parallel(&jobs.iter().map(|j| &j.1).collect::<Vec<_>>(), self.timeout);
            for ((i, _), v) in jobs.iter().zip(verdicts) {
                let label = &cx.obligations[*i].0;
                match v {
                    Verdict::Unsat => discharged += 1,
                    Verdict::Sat(m) => candidates.push((label.clone(), m)),
                    Verdict::Unknown(e) => unknown.push(format!("{name}/{label}: {e}")),
                }
            }
            discharged += dup.len();
            let cq: Vec<smt::Query> = cx
                .custom
                .iter()
                .map(|c| {
                    let q: Vec<Fm> = c.asserts.clone();
                    smt::render(&q, self.timeout, None)
                })
                .collect();
            let verdicts = run_parallel(&cq.iter().collect::<Vec<_>>(), self.timeout);
            for (c, v) in cx.custom.iter().zip(verdicts) {
                match v {
                    Verdict::Unsat => discharged += 1,
                    Verdict::Unknown(e) => unknown.push(format!("{name}/{}: {e}", c.label)),
                    Verdict::Sat(m) => match (c.replay)(&m) {
                        Ok(true) => {
                            self.violate(Violation {
                                case: name.into(),
                                label: c.label.clone(),
                                model: m,
                                detail: "reproduced on the real code".into(),
                            });
                            return (true, discharged, trivial, unknown);
                        }
                        Ok(false) => unknown.push(format!("{name}/{}: counterexample does not reproduce", c.label)),
                        Err(e) => unknown.push(format!("{name}/{}: replay: {e}", c.label)),
                    },
                }
            }
        }
        for (label, m) in candidates {
            // concrete replay of the whole harness
            let mut all = full.clone();
            all.extend(m.clone());
            let (ccx, cend) = run_once(f, Mode::Concrete, &all);
            let fail = concrete_failure(&ccx, &cend, &all);
            arena().begin_run(Mode::Symbolic, model.clone());
            match fail {
                Some(d) => {
                    self.violate(Violation { case: name.into(), label, model: all, detail: d });
                    return (true, discharged, trivial, unknown);
                }
                None => unknown.push(format!("{name}/{label}: counterexample does not reproduce concretely")),
            }
        }
        (false, discharged, trivial, unknown)
    }

    /// Writes evidence, prints verdicts, returns the exit code.
    pub fn finish(self) -> i32 {
        if self.replay.is_some() {
            return if self.replay_failed { 1 } else { 0 };
        }
        let dir = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
        let _ = std::fs::create_dir_all(&dir);
        let mut code = 0;
        if let Some(v) = self.violations.first() {
            let path = format!("{dir}/{}.replay.json", self.property);
            let body = json!({
                "property": self.property, "case": v.case, "obligation": v.label, "detail": v.detail,
                "assignment": model_json(&v.model),
                "how": format!("python3 run.py {} --replay <this file>", self.property),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            println!("counterexample in case {}: {}", v.case, v.label);
            println!("  {}", v.detail);
            println!("VIOLATION property={} replay={}", self.property, path);
            code = 1;
        } else if !self.inconclusive.is_empty() {
            for i in &self.inconclusive {
                println!("INCONCLUSIVE {i}");
            }
            code = 2;
        }
        let mut hits = self.known_hit.clone();
        hits.sort();
        hits.dedup();
        for k in &hits {
            println!("KNOWN-FINDING: property={} {k}", self.property);
        }
        let s = &self.stats;
        let ev = json!({
            "property": self.property, "tier": self.tier, "seed": crate::entropy::seed(),
            "level": "model_checking",
            "coverage": {
                "states": s.paths, "transitions": s.decisions, "traces_validated_against_impl": s.traces,
                "samples": self.samples,
                "obligations": s.obligations, "discharged_by_solver": s.by_solver,
                "discharged_by_term_normalisation": s.by_simplification,
                "path_coverage_queries": s.coverage_queries,
                "solver_queries": smt::QUERIES.load(Ordering::SeqCst),
                "solver_time_s": smt::SOLVER_US.load(Ordering::SeqCst) as f64 / 1e6,
                "solver": "z3-new (5.3.2) QF_FF, BN254 scalar field",
                "symbolic_terms": s.terms, "symbols": s.vars,
                "cases": self.case_log,
                "functions_encoded": self.functions, "bounds": self.bounds, "outside_the_claim": self.outside,
                "explanation": "states = execution paths of the real code explored symbolically; transitions = symbolic branch decisions on them; every path's obligations hold for all field values on that path (solver verdict), and the solver showed that no input lies outside the explored paths; traces = concrete runs of the real code on each path's witness that agreed.",
                "inconclusive": self.inconclusive,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
            "known_findings_met": hits,
        });
        let _ = std::fs::write(format!("{dir}/{}.json", self.property), serde_json::to_string_pretty(&ev).unwrap());
        if code == 0 {
            println!(
                "OK {}: {} cases, {} paths, {} obligations ({} by the solver, {} by term normalisation), {} queries, {:.1}s",
                self.property,
                s.cases,
                s.paths,
                s.obligations,
                s.by_solver,
                s.by_simplification,
                smt::QUERIES.load(Ordering::SeqCst),
                self.start.elapsed().as_secs_f64()
            );
        }
        code
    }
}

/// All symbols of the current run with their values.
fn current_assignment(model: &Model) -> Model {
    let a = arena();
    let mut m = Model::new();
    for k in &a.used {
        m.insert(k.clone(), model.get(k).copied().unwrap_or_else(|| crate::arena::default_value(k)));
    }
    m
}

/// Looks for an assignment with the given properties next to a known one: one symbol is changed so
/// that one of the terms in question becomes zero (or stops being zero).
fn nearby_model(q: &[Fm], full: &Model) -> Option<Model> {
    let mut a = arena();
    let mut lins = vec![];
    q.iter().for_each(|f| f.lins(&mut lins));
    lins.sort();
    lins.dedup();
    lins.reverse();
    let saved = a.overrides.clone();
    let mut tries = 0;
    let mut found = None;
    'search: for l in lins {
        a.overrides = full.clone();
        a.reevaluate();
        let now = a.lin_sim[l as usize];
        let linear: Vec<(crate::arena::VarKey, Fr)> = a.lins[l as usize]
            .t
            .iter()
            .filter_map(|(at, k)| match &a.atoms[*at as usize] {
                crate::arena::Atom::Var(key) => Some((key.clone(), *k)),
                _ => None,
            })
            .take(3)
            .collect();
        for (key, k) in linear {
            tries += 1;
            if tries > 60 {
                break 'search;
            }
            let old = full.get(&key).copied().unwrap_or_else(|| crate::arena::default_value(&key));
            let new = if now == Fr::ZERO { old + Fr::ONE } else { old - now * k.inverse().unwrap() };
            let mut m = full.clone();
            m.insert(key, new);
            a.overrides = m.clone();
            a.reevaluate();
            if q.iter().all(|f| f.sim_in(&a)) {
                found = Some(m);
                break 'search;
            }
        }
    }
    a.overrides = saved;
    a.reevaluate();
    found
}

fn expansion_batches(es: &[(u32, u32, u32)]) -> Vec<Vec<(u32, u32, u32)>> {
    let a = arena();
    let mut out: Vec<Vec<_>> = vec![];
    let mut size = usize::MAX;
    for e in es {
        let n = a.lins[e.2 as usize].t.len() + 4;
        if size.saturating_add(n) > 2000 {
            out.push(vec![]);
            size = 0;
        }
        size += n;
        out.last_mut().unwrap().push(*e);
    }
    out
}

/// Every multiplication that was multiplied out is confirmed by the solver.
fn confirm_expansions(name: &str, es: &[(u32, u32, u32)], timeout: Duration) -> Vec<String> {
    let batches: Vec<smt::Query> = expansion_batches(es).iter().map(|b| smt::render_expansions(b, timeout)).collect();
    let mut out = vec![];
    for v in run_parallel(&batches.iter().collect::<Vec<_>>(), timeout) {
        match v {
            Verdict::Unsat => {}
            Verdict::Sat(_) => out.push(format!("{name}: the solver contradicts a multiplication")),
            Verdict::Unknown(e) => out.push(format!("{name}: multiplication: {e}")),
        }
    }
    out
}

fn known_findings() -> Vec<Value> {
    let Ok(p) = std::env::var("VERIF_KNOWN") else { return vec![] };
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known findings file");
    v["known"].as_array().cloned().unwrap_or_default()
}

fn concrete_failure(cx: &Cx, end: &RunEnd, _m: &Model) -> Option<String> {
    match end {
        RunEnd::Panic(p) => return Some(format!("the real code panics: {p}")),
        RunEnd::AssumeFailed => return None,
        RunEnd::Unsupported(_) => return None,
        RunEnd::Done => {}
    }
    for (l, f) in &cx.obligations {
        if !f.sim() {
            return Some(format!("on concrete values: {l} does not hold"));
        }
    }
    None
}

fn run_parallel(qs: &[&smt::Query], timeout: Duration) -> Vec<Verdict> {
    let next = AtomicUsize::new(0);
    let out: Vec<Mutex<Option<Verdict>>> = qs.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..8.min(qs.len()) {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= qs.len() {
                        return;
                    }
                    let v = smt::run(qs[i], timeout);
                    *out[i].lock().unwrap() = Some(v);
                }
            });
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}

/// Entry point of a check binary: `bin PROPERTY [--replay FILE]`.
pub fn main(table: &[(&str, fn(&mut Session))]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(&(_, f)) = table.iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let mut s = Session::new(&id);
    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        let t = std::fs::read_to_string(&args[3]).expect("replay file");
        let v: Value = serde_json::from_str(&t).expect("replay json");
        s.only = v["case"].as_str().map(|s| s.to_string());
        s.replay = Some(model_from_json(&v["assignment"]));
    } else if args.get(2).map(|s| s.as_str()) == Some("--case") {
        s.only = args.get(3).cloned();
    }
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        f(&mut s);
        s.finish()
    });
    let code = h.expect("main thread").join().unwrap_or(2);
    std::process::exit(code);
}
