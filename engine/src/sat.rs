//! Incremental CDCL SAT solver.  Literals are 2*var + sign (1 = negated).  Each query gives the
//! assumptions and the set of variables (the cone of the query) that have to be assigned.

use std::time::Instant;

pub type Lit = u32;

#[derive(Clone, Copy)]
struct Watch {
    c: u32,
    blocker: Lit,
}

const NOREASON: u32 = u32::MAX;

pub struct Sat {
    ca: Vec<u32>,
    wasted: usize,
    learnts: Vec<u32>,
    watches: Vec<Vec<Watch>>,
    /// per literal: 0 undefined, 1 true, 2 false
    val: Vec<u8>,
    level: Vec<u32>,
    reason: Vec<u32>,
    trail: Vec<Lit>,
    lim: Vec<usize>,
    qhead: usize,
    act: Vec<f64>,
    inc: f64,
    heap: Vec<u32>,
    hpos: Vec<u32>,
    phase: Vec<bool>,
    cone: Vec<u32>,
    stamp: u32,
    seen: Vec<u8>,
    pub ok: bool,
    max_learnts: usize,
    pub conflicts: u64,
    pub decisions: u64,
    pub props: u64,
    lbd_mark: Vec<u32>,
    lbd_stamp: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SatRes {
    Sat,
    Unsat,
    Limit,
}

impl Sat {
    pub fn new() -> Sat {
        Sat {
            ca: vec![],
            wasted: 0,
            learnts: vec![],
            watches: vec![],
            val: vec![],
            level: vec![],
            reason: vec![],
            trail: vec![],
            lim: vec![],
            qhead: 0,
            act: vec![],
            inc: 1.0,
            heap: vec![],
            hpos: vec![],
            phase: vec![],
            cone: vec![],
            stamp: 0,
            seen: vec![],
            ok: true,
            max_learnts: 8000,
            conflicts: 0,
            decisions: 0,
            props: 0,
            lbd_mark: vec![],
            lbd_stamp: 0,
        }
    }

    pub fn ensure_vars(&mut self, n: usize) {
        if self.level.len() < n {
            self.watches.resize_with(2 * n, Vec::new);
            self.val.resize(2 * n, 0);
            self.level.resize(n, 0);
            self.reason.resize(n, NOREASON);
            self.act.resize(n, 0.0);
            self.hpos.resize(n, u32::MAX);
            self.phase.resize(n, false);
            self.cone.resize(n, 0);
            self.seen.resize(n, 0);
        }
    }

    pub fn value(&self, l: Lit) -> Option<bool> {
        match self.val[l as usize] {
            0 => None,
            1 => Some(true),
            _ => Some(false),
        }
    }
    /// value after a satisfiable query (unassigned variables count as false)
    pub fn model(&self, l: Lit) -> bool {
        match self.val[l as usize] {
            1 => true,
            2 => false,
            _ => l & 1 == 1,
        }
    }

    pub fn add_clause(&mut self, lits: &[Lit]) {
        if !self.ok {
            return;
        }
        self.cancel(0);
        let mut c: Vec<Lit> = Vec::with_capacity(lits.len());
        for &l in lits {
            match self.val[l as usize] {
                1 => return,
                2 => continue,
                _ => {}
            }
            if c.contains(&l) {
                continue;
            }
            if c.contains(&(l ^ 1)) {
                return;
            }
            c.push(l);
        }
        match c.len() {
            0 => self.ok = false,
            1 => {
                self.enqueue(c[0], NOREASON);
                if self.propagate() != NOREASON {
                    self.ok = false;
                }
            }
            _ => {
                let r = self.alloc(&c, false, 0);
                self.attach(r);
            }
        }
    }

    fn alloc(&mut self, c: &[Lit], learnt: bool, lbd: u32) -> u32 {
        let r = self.ca.len() as u32;
        self.ca.push((c.len() as u32) << 1 | learnt as u32);
        self.ca.push(lbd);
        self.ca.extend_from_slice(c);
        r
    }
    fn attach(&mut self, r: u32) {
        let a = self.ca[r as usize + 2];
        let b = self.ca[r as usize + 3];
        self.watches[a as usize].push(Watch { c: r, blocker: b });
        self.watches[b as usize].push(Watch { c: r, blocker: a });
    }

    fn enqueue(&mut self, l: Lit, r: u32) {
        self.val[l as usize] = 1;
        self.val[(l ^ 1) as usize] = 2;
        let v = (l >> 1) as usize;
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.trail.push(l);
    }

    fn propagate(&mut self) -> u32 {
        let mut confl = NOREASON;
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            self.props += 1;
            let fl = p ^ 1; // now false
            let mut ws = std::mem::take(&mut self.watches[fl as usize]);
            let mut i = 0;
            let mut j = 0;
            'next: while i < ws.len() {
                let w = ws[i];
                i += 1;
                if self.val[w.blocker as usize] == 1 {
                    ws[j] = w;
                    j += 1;
                    continue;
                }
                let base = w.c as usize + 2;
                let n = (self.ca[w.c as usize] >> 1) as usize;
                if self.ca[base] == fl {
                    self.ca.swap(base, base + 1);
                }
                let first = self.ca[base];
                if first != w.blocker && self.val[first as usize] == 1 {
                    ws[j] = Watch { c: w.c, blocker: first };
                    j += 1;
                    continue;
                }
                for k in 2..n {
                    let l = self.ca[base + k];
                    if self.val[l as usize] != 2 {
                        self.ca.swap(base + 1, base + k);
                        self.watches[l as usize].push(Watch { c: w.c, blocker: first });
                        continue 'next;
                    }
                }
                ws[j] = Watch { c: w.c, blocker: first };
                j += 1;
                if self.val[first as usize] == 2 {
                    confl = w.c;
                    self.qhead = self.trail.len();
                    while i < ws.len() {
                        ws[j] = ws[i];
                        i += 1;
                        j += 1;
                    }
                } else {
                    self.enqueue(first, w.c);
                }
            }
            ws.truncate(j);
            self.watches[fl as usize] = ws;
            if confl != NOREASON {
                break;
            }
        }
        confl
    }

    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() <= lvl {
            return;
        }
        let b = self.lim[lvl];
        for i in (b..self.trail.len()).rev() {
            let l = self.trail[i];
            let v = (l >> 1) as usize;
            self.val[l as usize] = 0;
            self.val[(l ^ 1) as usize] = 0;
            self.phase[v] = l & 1 == 0;
            self.reason[v] = NOREASON;
            if self.cone[v] == self.stamp {
                self.hinsert(v as u32);
            }
        }
        self.trail.truncate(b);
        self.lim.truncate(lvl);
        self.qhead = b;
    }

    // ---- order heap
    fn hless(&self, a: u32, b: u32) -> bool {
        self.act[a as usize] > self.act[b as usize]
    }
    fn hup(&mut self, mut i: usize) {
        let x = self.heap[i];
        while i > 0 {
            let p = (i - 1) >> 1;
            if self.hless(x, self.heap[p]) {
                let y = self.heap[p];
                self.heap[i] = y;
                self.hpos[y as usize] = i as u32;
                i = p;
            } else {
                break;
            }
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as u32;
    }
    fn hdown(&mut self, mut i: usize) {
        let x = self.heap[i];
        let n = self.heap.len();
        loop {
            let mut c = 2 * i + 1;
            if c >= n {
                break;
            }
            if c + 1 < n && self.hless(self.heap[c + 1], self.heap[c]) {
                c += 1;
            }
            let y = self.heap[c];
            if self.hless(y, x) {
                self.heap[i] = y;
                self.hpos[y as usize] = i as u32;
                i = c;
            } else {
                break;
            }
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as u32;
    }
    fn hinsert(&mut self, v: u32) {
        if self.hpos[v as usize] == u32::MAX {
            self.heap.push(v);
            let i = self.heap.len() - 1;
            self.hpos[v as usize] = i as u32;
            self.hup(i);
        }
    }
    fn hpop(&mut self) -> u32 {
        let x = self.heap[0];
        self.hpos[x as usize] = u32::MAX;
        let l = self.heap.pop().unwrap();
        if !self.heap.is_empty() {
            self.heap[0] = l;
            self.hpos[l as usize] = 0;
            self.hdown(0);
        }
        x
    }
    fn bump(&mut self, v: usize) {
        self.act[v] += self.inc;
        if self.act[v] > 1e100 {
            for a in self.act.iter_mut() {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.hpos[v] != u32::MAX {
            self.hup(self.hpos[v] as usize);
        }
    }

    fn analyze(&mut self, confl: u32) -> (Vec<Lit>, usize, u32) {
        let mut out: Vec<Lit> = vec![0];
        let mut cnt = 0;
        let mut p = u32::MAX;
        let mut c = confl;
        let mut idx = self.trail.len();
        let cur = self.lim.len() as u32;
        let mut clear: Vec<u32> = vec![];
        loop {
            let n = (self.ca[c as usize] >> 1) as usize;
            let base = c as usize + 2;
            for k in 0..n {
                let q = self.ca[base + k];
                if q == p {
                    continue;
                }
                let v = (q >> 1) as usize;
                if self.seen[v] == 0 && self.level[v] > 0 {
                    self.seen[v] = 1;
                    clear.push(v as u32);
                    self.bump(v);
                    if self.level[v] >= cur {
                        cnt += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[(self.trail[idx] >> 1) as usize] != 0 {
                    break;
                }
            }
            p = self.trail[idx];
            c = self.reason[(p >> 1) as usize];
            self.seen[(p >> 1) as usize] = 0;
            cnt -= 1;
            if cnt == 0 {
                break;
            }
        }
        out[0] = p ^ 1;
        // minimisation
        let mut abs = 0u32;
        for l in &out[1..] {
            abs |= 1 << (self.level[(*l >> 1) as usize] & 31);
        }
        let mut j = 1;
        for i in 1..out.len() {
            let l = out[i];
            if self.reason[(l >> 1) as usize] == NOREASON || !self.redundant(l, abs, &mut clear) {
                out[j] = l;
                j += 1;
            }
        }
        out.truncate(j);
        for v in clear {
            self.seen[v as usize] = 0;
        }
        // backtrack level
        let mut bt = 0;
        if out.len() > 1 {
            let mut m = 1;
            for i in 2..out.len() {
                if self.level[(out[i] >> 1) as usize] > self.level[(out[m] >> 1) as usize] {
                    m = i;
                }
            }
            out.swap(1, m);
            bt = self.level[(out[1] >> 1) as usize] as usize;
        }
        // lbd
        self.lbd_stamp += 1;
        if self.lbd_mark.len() <= self.lim.len() {
            self.lbd_mark.resize(self.lim.len() + 1, 0);
        }
        let mut lbd = 0;
        for l in &out {
            let lv = self.level[(*l >> 1) as usize] as usize;
            if self.lbd_mark[lv] != self.lbd_stamp {
                self.lbd_mark[lv] = self.lbd_stamp;
                lbd += 1;
            }
        }
        (out, bt, lbd)
    }

    fn redundant(&mut self, l: Lit, abs: u32, clear: &mut Vec<u32>) -> bool {
        let mut st = vec![l];
        let top = clear.len();
        while let Some(p) = st.pop() {
            let c = self.reason[(p >> 1) as usize] as usize;
            let n = (self.ca[c] >> 1) as usize;
            for k in 0..n {
                let q = self.ca[c + 2 + k];
                let v = (q >> 1) as usize;
                if v == (p >> 1) as usize {
                    continue;
                }
                if self.seen[v] == 0 && self.level[v] > 0 {
                    if self.reason[v] != NOREASON && (1u32 << (self.level[v] & 31)) & abs != 0 {
                        self.seen[v] = 1;
                        clear.push(v as u32);
                        st.push(q);
                    } else {
                        for x in clear.drain(top..) {
                            self.seen[x as usize] = 0;
                        }
                        return false;
                    }
                }
            }
        }
        true
    }

    fn locked(&self, r: u32) -> bool {
        let l = self.ca[r as usize + 2];
        self.val[l as usize] == 1 && self.reason[(l >> 1) as usize] == r
    }

    fn reduce(&mut self) {
        let mut ls = std::mem::take(&mut self.learnts);
        // keep clauses with small lbd and the most recent half
        let mut key: Vec<(u32, u32)> = ls.iter().map(|r| (self.ca[*r as usize + 1], *r)).collect();
        key.sort_by(|a, b| a.0.cmp(&b.0).then(b.1.cmp(&a.1)));
        let keep = key.len() / 2;
        let mut dead: std::collections::HashSet<u32> = Default::default();
        for (i, (lbd, r)) in key.iter().enumerate() {
            if i >= keep && *lbd > 2 && !self.locked(*r) {
                dead.insert(*r);
            }
        }
        ls.retain(|r| !dead.contains(r));
        self.learnts = ls;
        for w in self.watches.iter_mut() {
            if !w.is_empty() {
                w.retain(|x| !dead.contains(&x.c));
            }
        }
        for r in dead {
            self.wasted += (self.ca[r as usize] >> 1) as usize + 2;
            self.ca[r as usize + 1] = u32::MAX; // dead mark
        }
        if self.wasted > self.ca.len() / 2 && self.wasted > 1_000_000 {
            self.gc();
        }
    }

    fn gc(&mut self) {
        let mut map: std::collections::HashMap<u32, u32> = Default::default();
        let mut nca = Vec::with_capacity(self.ca.len() - self.wasted);
        let mut i = 0;
        while i < self.ca.len() {
            let n = (self.ca[i] >> 1) as usize + 2;
            if self.ca[i + 1] != u32::MAX {
                map.insert(i as u32, nca.len() as u32);
                nca.extend_from_slice(&self.ca[i..i + n]);
            }
            i += n;
        }
        self.ca = nca;
        self.wasted = 0;
        for w in self.watches.iter_mut() {
            for x in w.iter_mut() {
                x.c = map[&x.c];
            }
        }
        for r in self.learnts.iter_mut() {
            *r = map[r];
        }
        for l in &self.trail {
            let v = (*l >> 1) as usize;
            if self.reason[v] != NOREASON {
                self.reason[v] = map[&self.reason[v]];
            }
        }
    }

    fn luby(mut x: u64) -> u64 {
        let mut size = 1u64;
        let mut seq = 0;
        while size < x + 1 {
            seq += 1;
            size = 2 * size + 1;
        }
        while size - 1 != x {
            size = (size - 1) / 2;
            seq -= 1;
            x %= size;
        }
        1 << seq
    }

    /// `cone`: variables to assign.
    pub fn solve(&mut self, assum: &[Lit], cone: &[u32], deadline: Instant) -> SatRes {
        if !self.ok {
            return SatRes::Unsat;
        }
        self.cancel(0);
        self.stamp += 1;
        for v in self.heap.drain(..) {
            self.hpos[v as usize] = u32::MAX;
        }
        for &v in cone {
            self.cone[v as usize] = self.stamp;
            if self.val[2 * v as usize] == 0 {
                // insertion at the end keeps the order close to the cone's own
                self.hinsert(v);
            }
        }
        let mut restarts = 0u64;
        let mut budget = 100 * Self::luby(0);
        let mut nconf = 0u64;
        loop {
            let confl = self.propagate();
            if confl != NOREASON {
                self.conflicts += 1;
                nconf += 1;
                if self.lim.is_empty() {
                    self.ok = false;
                    return SatRes::Unsat;
                }
                // a conflict within the assumption levels is still analysed: the learnt clause
                // either flips an assumption (found below) or moves on
                let (c, bt, lbd) = self.analyze(confl);
                self.cancel(bt);
                if c.len() == 1 {
                    self.enqueue(c[0], NOREASON);
                } else {
                    let r = self.alloc(&c, true, lbd);
                    self.learnts.push(r);
                    self.attach(r);
                    self.enqueue(c[0], r);
                }
                self.inc *= 1.0 / 0.95;
                if nconf & 31 == 0 && Instant::now() > deadline {
                    self.cancel(0);
                    return SatRes::Limit;
                }
                if self.learnts.len() > self.max_learnts + self.trail.len() {
                    self.reduce();
                    self.max_learnts += 300;
                }
                continue;
            }
            if nconf >= budget {
                restarts += 1;
                budget = nconf + 100 * Self::luby(restarts);
                self.cancel(assum.len().min(self.lim.len()));
                continue;
            }
            // assumptions
            let mut next = u32::MAX;
            while self.lim.len() < assum.len() {
                let p = assum[self.lim.len()];
                match self.val[p as usize] {
                    1 => self.lim.push(self.trail.len()),
                    2 => {
                        self.cancel(0);
                        return SatRes::Unsat;
                    }
                    _ => {
                        next = p;
                        break;
                    }
                }
            }
            if next == u32::MAX {
                loop {
                    if self.heap.is_empty() {
                        return SatRes::Sat;
                    }
                    let v = self.hpop();
                    if self.val[2 * v as usize] == 0 {
                        self.decisions += 1;
                        if self.decisions & 4095 == 0 && Instant::now() > deadline {
                            self.cancel(0);
                            return SatRes::Limit;
                        }
                        next = 2 * v + (!self.phase[v as usize]) as u32;
                        break;
                    }
                }
            }
            self.lim.push(self.trail.len());
            self.enqueue(next, NOREASON);
        }
    }
}
