//! Hash-consed multi-terminal decision diagrams over boolean *atoms*.
//!
//! A leaf of the abstract domain is a function from the atoms ("slot 2 is
//! present", "the predicate answered true for entry 1") to a terminal.  Joins
//! are `ite`, so a join at a control-flow merge point loses nothing.
use std::collections::HashMap;
use std::hash::Hash;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Dd(pub u32);
pub const FALSE: Dd = Dd(0);
pub const TRUE: Dd = Dd(1);

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Node {
    Term(u32),
    Br(u32, Dd, Dd), // var, hi, lo
}

pub struct Mgr<T> {
    nodes: Vec<Node>,
    uniq: HashMap<Node, Dd>,
    terms: Vec<T>,
    tidx: HashMap<T, u32>,
    ite_memo: HashMap<(Dd, Dd, Dd), Dd>,
    con_memo: HashMap<(Dd, Dd), Dd>,
    eqt_memo: HashMap<(Dd, u32), Dd>,
}

impl<T: Hash + Eq + Clone> Mgr<T> {
    pub fn new(f: T, t: T) -> Self {
        let mut m = Mgr {
            nodes: vec![],
            uniq: HashMap::new(),
            terms: vec![],
            tidx: HashMap::new(),
            ite_memo: HashMap::new(),
            con_memo: HashMap::new(),
            eqt_memo: HashMap::new(),
        };
        assert!(m.term(f) == FALSE);
        assert!(m.term(t) == TRUE);
        m
    }
    pub fn size(&self) -> usize {
        self.nodes.len()
    }
    fn mk(&mut self, n: Node) -> Dd {
        if let Some(&d) = self.uniq.get(&n) {
            return d;
        }
        let d = Dd(self.nodes.len() as u32);
        self.nodes.push(n);
        self.uniq.insert(n, d);
        d
    }
    pub fn term(&mut self, t: T) -> Dd {
        let i = match self.tidx.get(&t) {
            Some(&i) => i,
            None => {
                let i = self.terms.len() as u32;
                self.terms.push(t.clone());
                self.tidx.insert(t, i);
                i
            }
        };
        self.mk(Node::Term(i))
    }
    pub fn var(&mut self, v: u32) -> Dd {
        self.mk(Node::Br(v, TRUE, FALSE))
    }
    fn br(&mut self, v: u32, hi: Dd, lo: Dd) -> Dd {
        if hi == lo {
            hi
        } else {
            self.mk(Node::Br(v, hi, lo))
        }
    }
    #[inline]
    fn top(&self, d: Dd) -> u32 {
        match self.nodes[d.0 as usize] {
            Node::Term(_) => u32::MAX,
            Node::Br(v, _, _) => v,
        }
    }
    #[inline]
    fn cof(&self, d: Dd, v: u32) -> (Dd, Dd) {
        match self.nodes[d.0 as usize] {
            Node::Br(w, h, l) if w == v => (h, l),
            _ => (d, d),
        }
    }
    pub fn is_term(&self, d: Dd) -> bool {
        matches!(self.nodes[d.0 as usize], Node::Term(_))
    }
    pub fn as_term(&self, d: Dd) -> Option<&T> {
        match self.nodes[d.0 as usize] {
            Node::Term(i) => Some(&self.terms[i as usize]),
            _ => None,
        }
    }
    pub fn ite(&mut self, g: Dd, a: Dd, b: Dd) -> Dd {
        if g == TRUE || a == b {
            return a;
        }
        if g == FALSE {
            return b;
        }
        if a == TRUE && b == FALSE {
            return g;
        }
        if let Some(&r) = self.ite_memo.get(&(g, a, b)) {
            return r;
        }
        let v = self.top(g).min(self.top(a)).min(self.top(b));
        let (g1, g0) = self.cof(g, v);
        let (a1, a0) = self.cof(a, v);
        let (b1, b0) = self.cof(b, v);
        let h = self.ite(g1, a1, b1);
        let l = self.ite(g0, a0, b0);
        let r = self.br(v, h, l);
        self.ite_memo.insert((g, a, b), r);
        r
    }
    pub fn and(&mut self, a: Dd, b: Dd) -> Dd {
        self.ite(a, b, FALSE)
    }
    pub fn or(&mut self, a: Dd, b: Dd) -> Dd {
        self.ite(a, TRUE, b)
    }
    pub fn not(&mut self, a: Dd) -> Dd {
        self.ite(a, FALSE, TRUE)
    }
    pub fn xor(&mut self, a: Dd, b: Dd) -> Dd {
        let nb = self.not(b);
        self.ite(a, nb, b)
    }
    /// Whatever `f` says for some value of the variables `hide` picks.
    pub fn exists(&mut self, f: Dd, hide: &dyn Fn(u32) -> bool, memo: &mut HashMap<Dd, Dd>) -> Dd {
        if self.is_term(f) {
            return f;
        }
        if let Some(&r) = memo.get(&f) {
            return r;
        }
        let v = self.top(f);
        let (h, l) = self.cof(f, v);
        let h = self.exists(h, hide, memo);
        let l = self.exists(l, hide, memo);
        let r = if hide(v) { self.or(h, l) } else { self.br(v, h, l) };
        memo.insert(f, r);
        r
    }
    /// Generalised cofactor of `f` by the care set `g` (`g` not FALSE).
    pub fn constrain(&mut self, f: Dd, g: Dd) -> Dd {
        if g == TRUE || self.is_term(f) || g == FALSE {
            return f;
        }
        if let Some(&r) = self.con_memo.get(&(f, g)) {
            return r;
        }
        let v = self.top(f).min(self.top(g));
        let (f1, f0) = self.cof(f, v);
        let (g1, g0) = self.cof(g, v);
        let r = if g1 == FALSE {
            self.constrain(f0, g0)
        } else if g0 == FALSE {
            self.constrain(f1, g1)
        } else {
            let h = self.constrain(f1, g1);
            let l = self.constrain(f0, g0);
            self.br(v, h, l)
        };
        self.con_memo.insert((f, g), r);
        r
    }
    fn eq_tid(&mut self, f: Dd, t: u32) -> Dd {
        if let Some(&r) = self.eqt_memo.get(&(f, t)) {
            return r;
        }
        let r = match self.nodes[f.0 as usize] {
            Node::Term(i) => {
                if i == t {
                    TRUE
                } else {
                    FALSE
                }
            }
            Node::Br(v, h, l) => {
                let h = self.eq_tid(h, t);
                let l = self.eq_tid(l, t);
                self.br(v, h, l)
            }
        };
        self.eqt_memo.insert((f, t), r);
        r
    }
    fn tids(&self, f: Dd, cap: usize) -> Vec<u32> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut st = vec![f];
        while let Some(d) = st.pop() {
            if !seen.insert(d) {
                continue;
            }
            match self.nodes[d.0 as usize] {
                Node::Term(i) => {
                    out.push(i);
                    if out.len() > cap {
                        break;
                    }
                }
                Node::Br(_, h, l) => {
                    st.push(l);
                    st.push(h);
                }
            }
        }
        out
    }
    pub fn term_count(&self, f: Dd, cap: usize) -> usize {
        self.tids(f, cap).len()
    }
    pub fn all_terms(&self, f: Dd) -> Vec<T> {
        self.tids(f, usize::MAX).into_iter().map(|i| self.terms[i as usize].clone()).collect()
    }
    /// The feasible terminals of `f` under `g`, each with the guard it needs.
    pub fn cases(&mut self, f: Dd, g: Dd) -> Vec<(T, Dd)> {
        let c = self.constrain(f, g);
        let ids = self.tids(c, usize::MAX);
        let mut out = vec![];
        for i in ids {
            let e = self.eq_tid(f, i);
            let g2 = self.and(g, e);
            if g2 != FALSE {
                out.push((self.terms[i as usize].clone(), g2));
            }
        }
        out
    }
    pub fn map(&mut self, f: Dd, op: &mut dyn FnMut(&T) -> T) -> Dd {
        let mut memo = HashMap::new();
        self.map_rec(f, op, &mut memo)
    }
    fn map_rec(&mut self, f: Dd, op: &mut dyn FnMut(&T) -> T, memo: &mut HashMap<Dd, Dd>) -> Dd {
        if let Some(&r) = memo.get(&f) {
            return r;
        }
        let r = match self.nodes[f.0 as usize] {
            Node::Term(i) => {
                let t = op(&self.terms[i as usize]);
                self.term(t)
            }
            Node::Br(v, h, l) => {
                let h = self.map_rec(h, op, memo);
                let l = self.map_rec(l, op, memo);
                self.br(v, h, l)
            }
        };
        memo.insert(f, r);
        r
    }
    pub fn map2(&mut self, f: Dd, g: Dd, op: &mut dyn FnMut(&T, &T) -> T) -> Dd {
        let mut memo = HashMap::new();
        self.map2_rec(f, g, op, &mut memo)
    }
    fn map2_rec(&mut self, f: Dd, g: Dd, op: &mut dyn FnMut(&T, &T) -> T, memo: &mut HashMap<(Dd, Dd), Dd>) -> Dd {
        if let Some(&r) = memo.get(&(f, g)) {
            return r;
        }
        let r = match (self.nodes[f.0 as usize], self.nodes[g.0 as usize]) {
            (Node::Term(i), Node::Term(j)) => {
                let t = op(&self.terms[i as usize], &self.terms[j as usize]);
                self.term(t)
            }
            _ => {
                let v = self.top(f).min(self.top(g));
                let (f1, f0) = self.cof(f, v);
                let (g1, g0) = self.cof(g, v);
                let h = self.map2_rec(f1, g1, op, memo);
                let l = self.map2_rec(f0, g0, op, memo);
                self.br(v, h, l)
            }
        };
        memo.insert((f, g), r);
        r
    }
    /// One satisfying assignment of a (non-FALSE) guard.
    pub fn sat(&self, mut g: Dd) -> Vec<(u32, bool)> {
        let mut out = vec![];
        while let Node::Br(v, h, l) = self.nodes[g.0 as usize] {
            if l != FALSE {
                out.push((v, false));
                g = l;
            } else {
                out.push((v, true));
                g = h;
            }
        }
        out
    }
}
