//! Global hash-consed term DAG over the scalar field of BN254.
//!
//! A term is a linear combination ([`Lin`]) of *atoms*; an atom is a variable, a product of two
//! linear combinations, the inverse of one, or an opaque name for a long one. All terms built by
//! all parties live in one arena, so values can travel between parties as handles.
//!
//! Every atom carries a concrete value for the current run (`sim`): the run is concolic. Branches
//! follow the concrete value and are recorded; the driver asks the solver for inputs outside the
//! explored paths until there are none.
use ark_bn254::Fr;
use ark_ff::{AdditiveGroup, Field, PrimeField};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Mutex, MutexGuard};

pub type AtomId = u32;
pub type LinId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum VarKey {
    /// Declared by a harness.
    Named(String),
    /// Sampled by the code from the RNG: the RNG's own output identifies the symbol.
    Rand([u64; 4]),
    /// Output of a hash function modelled as a random oracle: the n-th new digest of the run.
    Oracle(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(VarKey),
    Prod(LinId, LinId),
    /// Product of two or more atoms (none of them a `Mono`), in ascending order.
    Mono(Vec<AtomId>),
    Inv(LinId),
    Opq(LinId),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub c: Fr,
    pub t: Vec<(AtomId, Fr)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Symbolic,
    Concrete,
}

pub struct Arena {
    pub mode: Mode,
    pub atoms: Vec<Atom>,
    pub atom_sim: Vec<Fr>,
    pub lins: Vec<Lin>,
    pub lin_sim: Vec<Fr>,
    atom_ix: HashMap<Atom, AtomId>,
    lin_ix: HashMap<Lin, LinId>,
    pub overrides: BTreeMap<VarKey, Fr>,
    /// Branch decisions of this run: (monic term, is it zero?).
    pub path: BTreeMap<LinId, bool>,
    /// Terms assumed to be nonzero (generic position of sampled values).
    pub assumed: std::collections::BTreeSet<LinId>,
    /// Variables touched in this run in order of first use.
    pub used: Vec<VarKey>,
    used_set: std::collections::HashSet<VarKey>,
    pub oracle: bool,
    /// Digests met in this run. The oracle is sampled lazily: the n-th new digest is the n-th entry
    /// of its tape, which is what lets a replay program the oracle with a counterexample's values.
    pub digests: HashMap<Vec<u8>, u32>,
    /// Treat "a sampled value hits a zero" as impossible unless the term is identically zero.
    pub generic: bool,
    pub canon: bool,
    canon_reps: HashMap<Fr, Vec<LinId>>,
    canon_map: HashMap<LinId, LinId>,
    pub merges: Vec<(LinId, LinId)>,
    /// Sampled values are the sampled constants instead of symbols.
    /// Draws from here on are concrete.
    pub fix_rand: Option<usize>,
    drawn: std::collections::HashSet<VarKey>,
    /// Products with at most this many terms are multiplied out (0: never).
    pub expand: usize,
    /// Factors with a monomial of at least this degree in marked symbols, or with more than one
    /// marked symbol, have their marked part replaced by a name before they are multiplied (0: never).
    pub fold: usize,
    marked: std::collections::HashSet<AtomId>,
    /// Expansions made: `a * b = r`, to be confirmed by the solver.
    pub expansions: Vec<(LinId, LinId, LinId)>,
    expanded: HashMap<(LinId, LinId), Val>,
    /// Which parties sampled a symbol (0 is the harness).
    pub sampled_by: HashMap<VarKey, std::collections::BTreeSet<u64>>,
}

pub const LIN_CAP: usize = 1 << 13;

static ARENA: Mutex<Option<Arena>> = Mutex::new(None);

pub struct Guard(MutexGuard<'static, Option<Arena>>);
impl std::ops::Deref for Guard {
    type Target = Arena;
    fn deref(&self) -> &Arena {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut Arena {
        self.0.as_mut().unwrap()
    }
}

pub fn arena() -> Guard {
    let mut g = ARENA.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(Arena::new());
    }
    Guard(g)
}

/// Drops all terms. Handles from before become meaningless.
pub fn reset() {
    let mut g = ARENA.lock().unwrap_or_else(|e| e.into_inner());
    *g = Some(Arena::new());
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Val {
    C(Fr),
    S(LinId),
}

impl Arena {
    fn new() -> Self {
        Arena {
            mode: Mode::Symbolic,
            atoms: vec![],
            atom_sim: vec![],
            lins: vec![],
            lin_sim: vec![],
            atom_ix: HashMap::new(),
            lin_ix: HashMap::new(),
            overrides: BTreeMap::new(),
            path: BTreeMap::new(),
            assumed: Default::default(),
            used: vec![],
            used_set: Default::default(),
            oracle: false,
            digests: HashMap::new(),
            generic: false,
            canon: false,
            canon_reps: HashMap::new(),
            canon_map: HashMap::new(),
            merges: vec![],
            fix_rand: None,
            drawn: Default::default(),
            expand: 0,
            fold: 0,
            marked: Default::default(),
            expansions: vec![],
            expanded: HashMap::new(),
            sampled_by: HashMap::new(),
        }
    }

    /// Starts a run with the given variable values; re-evaluates all existing terms.
    pub fn begin_run(&mut self, mode: Mode, overrides: BTreeMap<VarKey, Fr>) {
        self.mode = mode;
        self.overrides = overrides;
        self.path.clear();
        self.assumed.clear();
        self.used.clear();
        self.used_set.clear();
        self.oracle = false;
        self.digests.clear();
        self.generic = false;
        self.canon = false;
        self.canon_reps.clear();
        self.canon_map.clear();
        self.merges.clear();
        self.sampled_by.clear();
        self.fix_rand = None;
        self.drawn.clear();
        self.expand = 0;
        self.fold = 0;
        self.marked.clear();
        self.expansions.clear();
        self.expanded.clear();
        self.reevaluate();
    }

    /// Evaluates all existing terms under the current overrides.
    pub fn reevaluate(&mut self) {
        // atoms and lins refer only to earlier ones of the other kind; evaluate lazily in an
        // order that respects both: lins are created after the atoms they mention, products after
        // the lins they mention.
        let na = self.atoms.len();
        let nl = self.lins.len();
        let mut ai = 0;
        let mut li = 0;
        while ai < na || li < nl {
            let mut progressed = false;
            while li < nl && self.lins[li].t.iter().all(|(a, _)| (*a as usize) < ai) {
                self.lin_sim[li] = self.eval_lin(li);
                li += 1;
                progressed = true;
            }
            while ai < na && self.atom_ready(ai, li) {
                self.atom_sim[ai] = self.eval_atom(ai);
                ai += 1;
                progressed = true;
            }
            assert!(progressed, "cyclic arena");
        }
    }

    fn atom_ready(&self, a: usize, li: usize) -> bool {
        match &self.atoms[a] {
            Atom::Var(_) => true,
            Atom::Prod(x, y) => (*x as usize) < li && (*y as usize) < li,
            Atom::Mono(_) => true, // its factors are older atoms
            Atom::Inv(x) | Atom::Opq(x) => (*x as usize) < li,
        }
    }

    fn eval_lin(&self, l: usize) -> Fr {
        let lin = &self.lins[l];
        let mut s = lin.c;
        for (a, k) in &lin.t {
            s += self.atom_sim[*a as usize] * k;
        }
        s
    }

    fn eval_atom(&self, a: usize) -> Fr {
        match &self.atoms[a] {
            Atom::Var(k) => match self.overrides.get(k) {
                Some(v) => *v,
                None => default_value(k),
            },
            Atom::Prod(x, y) => self.lin_sim[*x as usize] * self.lin_sim[*y as usize],
            Atom::Mono(v) => v.iter().map(|f| self.atom_sim[*f as usize]).product(),
            Atom::Inv(x) => self.lin_sim[*x as usize].inverse().unwrap_or(Fr::ZERO),
            Atom::Opq(x) => self.lin_sim[*x as usize],
        }
    }

    fn atom(&mut self, a: Atom) -> AtomId {
        if let Some(i) = self.atom_ix.get(&a) {
            return *i;
        }
        let i = self.atoms.len() as AtomId;
        self.atoms.push(a.clone());
        self.atom_sim.push(Fr::ZERO);
        let v = self.eval_atom(i as usize);
        self.atom_sim[i as usize] = v;
        self.atom_ix.insert(a, i);
        i
    }

    fn lin(&mut self, l: Lin) -> LinId {
        if let Some(i) = self.lin_ix.get(&l) {
            return *i;
        }
        let i = self.lins.len() as LinId;
        self.lins.push(l.clone());
        self.lin_sim.push(Fr::ZERO);
        let v = self.eval_lin(i as usize);
        self.lin_sim[i as usize] = v;
        self.lin_ix.insert(l, i);
        i
    }

    pub fn mk(&mut self, l: Lin) -> Val {
        if l.t.is_empty() {
            Val::C(l.c)
        } else {
            Val::S(self.lin(l))
        }
    }

    /// A term for which an id is needed even if constant.
    pub fn lin_of(&mut self, v: Val) -> LinId {
        match v {
            Val::S(i) => i,
            Val::C(c) => self.lin(Lin { c, t: vec![] }),
        }
    }

    fn as_lin(&mut self, v: Val) -> Lin {
        match v {
            Val::C(c) => Lin { c, t: vec![] },
            Val::S(i) => {
                if self.lins[i as usize].t.len() > LIN_CAP {
                    let a = self.atom(Atom::Opq(i));
                    Lin { c: Fr::ZERO, t: vec![(a, Fr::ONE)] }
                } else {
                    self.lins[i as usize].clone()
                }
            }
        }
    }

    pub fn sim(&self, v: Val) -> Fr {
        match v {
            Val::C(c) => c,
            Val::S(i) => self.lin_sim[i as usize],
        }
    }

    /// ka*a + kb*b
    pub fn lincomb(&mut self, a: Val, ka: Fr, b: Val, kb: Fr) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(x * ka + y * kb);
        }
        let x = self.as_lin(a);
        let y = self.as_lin(b);
        let mut t = Vec::with_capacity(x.t.len() + y.t.len());
        let (mut i, mut j) = (0, 0);
        while i < x.t.len() || j < y.t.len() {
            let (id, k) = if j == y.t.len() || (i < x.t.len() && x.t[i].0 < y.t[j].0) {
                i += 1;
                (x.t[i - 1].0, x.t[i - 1].1 * ka)
            } else if i == x.t.len() || y.t[j].0 < x.t[i].0 {
                j += 1;
                (y.t[j - 1].0, y.t[j - 1].1 * kb)
            } else {
                i += 1;
                j += 1;
                (x.t[i - 1].0, x.t[i - 1].1 * ka + y.t[j - 1].1 * kb)
            };
            if k != Fr::ZERO {
                t.push((id, k));
            }
        }
        let c = x.c * ka + y.c * kb;
        self.mk(Lin { c, t })
    }

    pub fn scale(&mut self, a: Val, k: Fr) -> Val {
        match a {
            Val::C(x) => Val::C(x * k),
            Val::S(_) if k == Fr::ZERO => Val::C(Fr::ZERO),
            Val::S(_) if k == Fr::ONE => a,
            Val::S(i) => {
                let l = &self.lins[i as usize];
                let l = Lin { c: l.c * k, t: l.t.iter().map(|(a, x)| (*a, *x * k)).collect() };
                self.mk(l)
            }
        }
    }

    /// Splits off the leading coefficient.
    pub fn monic(&mut self, l: LinId) -> (LinId, Fr) {
        let k = self.lins[l as usize].t[0].1;
        if k == Fr::ONE {
            return (l, k);
        }
        let inv = k.inverse().unwrap();
        match self.scale(Val::S(l), inv) {
            Val::S(m) => (m, k),
            Val::C(_) => unreachable!(),
        }
    }

    pub fn mul(&mut self, a: Val, b: Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => Val::C(x * y),
            (Val::C(x), s) | (s, Val::C(x)) => self.scale(s, x),
            (Val::S(x), Val::S(y)) => {
                let (x, y) = if self.fold > 0 { (self.folded(x), self.folded(y)) } else { (x, y) };
                if self.lins[x as usize].t.len() * self.lins[y as usize].t.len() <= self.expand {
                    return self.mul_out(x, y);
                }
                let (x, kx) = self.monic(x);
                let (y, ky) = self.monic(y);
                let p = self.atom(Atom::Prod(x.min(y), x.max(y)));
                self.mk(Lin { c: Fr::ZERO, t: vec![(p, kx * ky)] })
            }
        }
    }

    /// Symbols whose high powers are to be folded.
    pub fn mark(&mut self, vs: &[Val]) {
        for v in vs {
            if let Val::S(l) = v {
                let atoms: Vec<AtomId> = self.lins[*l as usize].t.iter().map(|x| x.0).collect();
                self.marked.extend(atoms);
            }
        }
    }

    fn is_marked(&self, a: AtomId) -> bool {
        match &self.atoms[a as usize] {
            Atom::Mono(v) => v.iter().all(|f| self.marked.contains(f)),
            _ => self.marked.contains(&a),
        }
    }

    fn folded(&mut self, l: LinId) -> LinId {
        let lin = self.lins[l as usize].clone();
        let (m, mut rest): (Vec<_>, Vec<_>) = lin.t.iter().copied().partition(|(a, _)| self.is_marked(*a));
        let deep = |a: &AtomId| matches!(&self.atoms[*a as usize], Atom::Mono(v) if v.len() >= self.fold);
        let mut base = std::collections::BTreeSet::new();
        for (a, _) in &m {
            match &self.atoms[*a as usize] {
                Atom::Mono(v) => base.extend(v.iter().copied()),
                _ => {
                    base.insert(*a);
                }
            }
        }
        if base.len() < 2 && !m.iter().any(|(a, _)| deep(a)) {
            return l;
        }
        let v = self.lin(Lin { c: Fr::ZERO, t: m });
        let Val::S(v) = self.unfolded(v) else { return l };
        let (v, k) = self.monic(v);
        let o = self.atom(Atom::Opq(v));
        self.marked.insert(o);
        rest.push((o, k));
        rest.sort();
        self.lin(Lin { c: lin.c, t: rest })
    }

    /// Replaces names made by folding by their terms where they occur linearly.
    pub fn unfolded(&mut self, l: LinId) -> Val {
        let mut r = Val::S(l);
        for (i, k) in self.lins[l as usize].t.clone() {
            if let (true, Atom::Opq(v)) = (self.marked.contains(&i), &self.atoms[i as usize]) {
                let v = *v;
                let name = self.lin(Lin { c: Fr::ZERO, t: vec![(i, Fr::ONE)] });
                let d = self.lincomb(Val::S(v), Fr::ONE, Val::S(name), -Fr::ONE);
                r = self.lincomb(r, Fr::ONE, d, k);
            }
        }
        r
    }

    fn mul_out(&mut self, x: LinId, y: LinId) -> Val {
        let key = (x.min(y), x.max(y));
        if let Some(v) = self.expanded.get(&key) {
            return *v;
        }
        let (a, b) = (self.lins[x as usize].clone(), self.lins[y as usize].clone());
        let mut acc: BTreeMap<AtomId, Fr> = BTreeMap::new();
        let mut add = |i: AtomId, k: Fr| *acc.entry(i).or_insert(Fr::ZERO) += k;
        for (i, k) in &a.t {
            add(*i, *k * b.c);
        }
        for (i, k) in &b.t {
            add(*i, *k * a.c);
        }
        for (i, k) in &a.t {
            for (j, h) in &b.t {
                let m = self.mono(*i, *j);
                add(m, *k * h);
            }
        }
        let t: Vec<_> = acc.into_iter().filter(|(_, k)| *k != Fr::ZERO).collect();
        let r = self.mk(Lin { c: a.c * b.c, t });
        let rl = self.lin_of(r);
        self.expansions.push((x, y, rl));
        self.expanded.insert(key, r);
        r
    }

    fn mono(&mut self, i: AtomId, j: AtomId) -> AtomId {
        let mut f = vec![];
        for a in [i, j] {
            match &self.atoms[a as usize] {
                Atom::Mono(v) => f.extend(v.iter().copied()),
                _ => f.push(a),
            }
        }
        f.sort();
        self.atom(Atom::Mono(f))
    }

    pub fn inv(&mut self, y: LinId) -> Val {
        let (m, k) = self.monic(y);
        let a = self.atom(Atom::Inv(m));
        self.mk(Lin { c: Fr::ZERO, t: vec![(a, k.inverse().unwrap())] })
    }

    pub fn var(&mut self, k: VarKey) -> Val {
        if let VarKey::Rand(_) = k {
            self.sampled_by.entry(k.clone()).or_default().insert(crate::entropy::party());
        }
        if self.used_set.insert(k.clone()) {
            self.used.push(k.clone());
        }
        let mut fixed = self.mode == Mode::Concrete;
        if let (VarKey::Rand(_), Some(n)) = (&k, self.fix_rand) {
            if !self.drawn.contains(&k) {
                if self.drawn.len() < n {
                    self.drawn.insert(k.clone());
                } else {
                    fixed = true;
                }
            }
        }
        if fixed {
            return Val::C(match self.overrides.get(&k) {
                Some(v) => *v,
                None => default_value(&k),
            });
        }
        let a = self.atom(Atom::Var(k));
        self.mk(Lin { c: Fr::ZERO, t: vec![(a, Fr::ONE)] })
    }

    /// The atom of a symbol that has been used.
    pub fn atom_of(&mut self, k: &VarKey) -> AtomId {
        self.atom(Atom::Var(k.clone()))
    }

    /// Replaces symbols by terms.
    pub fn subst(&mut self, v: Val, map: &HashMap<AtomId, Val>, memo: &mut HashMap<AtomId, Val>) -> Val {
        let Val::S(l) = v else { return v };
        let lin = self.lins[l as usize].clone();
        let mut acc = Val::C(lin.c);
        let mut keep = Lin { c: Fr::ZERO, t: vec![] };
        for (a, k) in lin.t {
            let r = self.subst_atom(a, map, memo);
            match r {
                None => keep.t.push((a, k)),
                Some(x) => acc = self.lincomb(acc, Fr::ONE, x, k),
            }
        }
        let kept = self.mk(keep);
        self.lincomb(acc, Fr::ONE, kept, Fr::ONE)
    }

    /// `None` when nothing in the atom is replaced.
    fn subst_atom(&mut self, a: AtomId, map: &HashMap<AtomId, Val>, memo: &mut HashMap<AtomId, Val>) -> Option<Val> {
        if let Some(v) = map.get(&a) {
            return Some(*v);
        }
        if let Some(v) = memo.get(&a) {
            return if *v == Val::C(Fr::ZERO) { None } else { Some(*v) };
        }
        let r = match self.atoms[a as usize].clone() {
            Atom::Var(_) => None,
            Atom::Prod(x, y) => {
                let x2 = self.subst(Val::S(x), map, memo);
                let y2 = self.subst(Val::S(y), map, memo);
                if x2 == Val::S(x) && y2 == Val::S(y) { None } else { Some(self.mul(x2, y2)) }
            }
            Atom::Mono(v) => {
                let mut changed = false;
                let mut r = Val::C(Fr::ONE);
                for f in v {
                    match self.subst_atom(f, map, memo) {
                        Some(x) => {
                            changed = true;
                            r = self.mul(r, x);
                        }
                        None => {
                            let l = self.mk(Lin { c: Fr::ZERO, t: vec![(f, Fr::ONE)] });
                            r = self.mul(r, l);
                        }
                    }
                }
                if changed { Some(r) } else { None }
            }
            Atom::Inv(x) => match self.subst(Val::S(x), map, memo) {
                x2 if x2 == Val::S(x) => None,
                Val::C(c) => Some(Val::C(c.inverse().unwrap_or(Fr::ZERO))),
                Val::S(x2) => Some(self.inv(x2)),
            },
            Atom::Opq(x) => match self.subst(Val::S(x), map, memo) {
                x2 if x2 == Val::S(x) => None,
                x2 => Some(x2),
            },
        };
        // a replacement that happens to be the constant 0 is not memoised
        match r {
            None => {
                memo.insert(a, Val::C(Fr::ZERO));
            }
            Some(v) if v != Val::C(Fr::ZERO) => {
                memo.insert(a, v);
            }
            _ => {}
        }
        r
    }

    /// All symbols a term depends on.
    pub fn symbols(&self, v: Val) -> std::collections::BTreeSet<AtomId> {
        let mut out = std::collections::BTreeSet::new();
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![];
        if let Val::S(l) = v {
            st.push(l);
        }
        while let Some(l) = st.pop() {
            let mut todo: Vec<AtomId> = self.lins[l as usize].t.iter().map(|x| x.0).collect();
            while let Some(a) = todo.pop() {
                if !seen.insert(a) {
                    continue;
                }
                match &self.atoms[a as usize] {
                    Atom::Var(_) => {
                        out.insert(a);
                    }
                    Atom::Mono(v) => todo.extend(v),
                    Atom::Prod(x, y) => st.extend([*x, *y]),
                    Atom::Inv(x) | Atom::Opq(x) => st.push(*x),
                }
            }
        }
        out
    }

    /// The branch `v == 0`, decided by the concrete value and recorded.
    pub fn branch_zero(&mut self, v: Val) -> bool {
        match v {
            Val::C(c) => c == Fr::ZERO,
            Val::S(i) => {
                let (m, _) = self.monic(i);
                let z = self.lin_sim[m as usize] == Fr::ZERO;
                if self.generic && !z {
                    self.assumed.insert(m);
                } else {
                    self.path.insert(m, z);
                }
                z
            }
        }
    }

    /// Representative of the solver-proved equality class (see `canon`).
    pub fn canon(&mut self, l: LinId) -> CanonStep {
        if let Some(r) = self.canon_map.get(&l) {
            return CanonStep::Rep(*r);
        }
        let s = self.lin_sim[l as usize];
        let reps = self.canon_reps.entry(s).or_default().clone();
        if reps.is_empty() {
            self.canon_add(l);
            return CanonStep::Rep(l);
        }
        CanonStep::Candidates(reps)
    }
    pub fn canon_add(&mut self, l: LinId) {
        let s = self.lin_sim[l as usize];
        self.canon_reps.entry(s).or_default().push(l);
        self.canon_map.insert(l, l);
    }
    pub fn canon_merge(&mut self, l: LinId, rep: LinId) {
        self.canon_map.insert(l, rep);
        self.merges.push((l, rep));
    }
}

pub enum CanonStep {
    Rep(LinId),
    Candidates(Vec<LinId>),
}

/// Concrete value of a variable the solver said nothing about.
pub fn default_value(k: &VarKey) -> Fr {
    match k {
        VarKey::Rand(l) => Fr::from_bigint(ark_ff::BigInt(*l)).expect("canonical"),
        VarKey::Oracle(n) => default_value(&VarKey::Named(format!("oracle_{n}"))),
        VarKey::Named(n) => {
            // any fixed pseudo-random assignment
            let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
            let mut acc = Fr::from(7u64);
            for b in n.bytes() {
                h ^= b as u128;
                h = h.wrapping_mul(0x0000000001000000000000000000013B);
                acc = acc * Fr::from(h) + Fr::from(h >> 64);
            }
            acc * acc + Fr::from(h)
        }
    }
}

pub fn key_name(k: &VarKey) -> String {
    match k {
        VarKey::Named(n) => n.clone(),
        VarKey::Rand(l) => format!("rand_{:016x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0]),
        VarKey::Oracle(b) => format!("oracle_{b}"),
    }
}
