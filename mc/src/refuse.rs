//! C17: invalid requests are refused and leave everything usable.

use crate::engine::*;
use crate::families::*;
use crate::reference::*;
use fast_paths::*;

/// half of the word size: 32, except when compiled for WebAssembly (see w32/)
const HALF: usize = usize::BITS as usize / 2;

/// All node arrays over 0..=n (plus a huge id) of length 0..=n+1 as orderings
pub struct Orders {
    pub fam: Fam,
    pub extra: Vec<usize>,
}

impl Orders {
    fn arrays(&self, n: usize) -> Vec<Vec<usize>> {
        let mut ids: Vec<usize> = (0..=n).collect();
        ids.extend(&self.extra);
        let mut res = vec![vec![]];
        let mut last: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..=n {
            let mut nxt = vec![];
            for l in &last {
                for x in &ids {
                    let mut m = l.clone();
                    m.push(*x);
                    nxt.push(m);
                }
            }
            res.extend(nxt.iter().cloned());
            last = nxt;
        }
        res
    }
}

fn exact(fg: &FastGraph, n: usize, r: &Ref, ctx: &mut Ctx) -> CaseResult {
    if fg.get_num_nodes() != n {
        return Err("wrong node count".into());
    }
    let mut calc = create_calculator(fg);
    let mut h = 0;
    for s in 0..n {
        for t in 0..n {
            let p = calc.calc_path(fg, s, t);
            ctx.calls += 1;
            crate::queries::check_answer(crate::queries::Oracle::Dist, &p, r, &[(s, 0)], &[(t, 0)], ctx, &mut h)
                .map_err(|m| format!("calc_path({}, {}): {}", s, t, m))?;
        }
    }
    ctx.outcome(h);
    Ok(())
}

impl Space for Orders {
    fn name(&self) -> String {
        format!("orders/{}/extra={:?}", self.fam.name(), self.extra)
    }
    fn len(&self) -> u64 {
        self.fam.len()
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        120
    }
    fn bounds(&self) -> String {
        format!(
            "{} graphs x all {} node arrays of length 0..=n+1",
            self.fam.len(),
            self.arrays(self.fam.max_nodes()).len()
        )
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (n, edges) = self.fam.edges(i);
        let input = build_input(&edges);
        let r = Ref::new(n, &edges);
        for order in self.arrays(n) {
            let mut sorted = order.clone();
            sorted.sort();
            let valid = sorted == (0..n).collect::<Vec<_>>();
            ctx.calls += 2;
            ctx.states += 1;
            ctx.traces += 1;
            for with_params in [false, true] {
                let res = attempt(|| {
                    if with_params {
                        prepare_with_order_with_params(&input, &order, &ParamsWithOrder::new(7))
                    } else {
                        prepare_with_order(&input, &order)
                    }
                });
                match res {
                    Ok(Ok(fg)) => {
                        if !valid {
                            return Err(format!("invalid ordering {:?} was accepted", order));
                        }
                        if fg.get_node_ordering() != order {
                            return Err(format!("ordering {:?} is reported as {:?}", order, fg.get_node_ordering()));
                        }
                        exact(&fg, n, &r, ctx).map_err(|m| format!("ordering {:?}: {}", order, m))?;
                    }
                    Ok(Err(m)) => {
                        if valid {
                            return Err(format!("ordering {:?} was refused: {}", order, m));
                        }
                        ctx.nontrivial += 1;
                    }
                    Err(m) => {
                        if valid {
                            return Err(format!("ordering {:?} panics: {}", order, m));
                        }
                        if order.len() != n {
                            return Err(format!(
                                "ordering {:?} of wrong length panics instead of returning an error: {}",
                                order, m
                            ));
                        }
                        ctx.nontrivial += 1;
                    }
                }
            }
        }
        // the input graph is still usable
        exact(&prepare(&input), n, &r, ctx).map_err(|m| format!("after the refused orderings: {}", m))
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i);
        format!("{}// prepare_with_order / prepare_with_order_with_params with each node array", show_input(&edges))
    }
}

/// All invalid queries, each between valid ones, on the calculator and with the stand-alone functions
pub struct Queries {
    pub fam: Fam,
}

impl Space for Queries {
    fn name(&self) -> String {
        format!("invalid-queries/{}", self.fam.name())
    }
    fn len(&self) -> u64 {
        self.fam.len()
    }
    fn bounds(&self) -> String {
        format!("{} graphs x all single queries over ids 0..=n+1 and MAX, all source/target lists up to length 2 over them, other graphs' calculators; valid queries after each", self.fam.len())
    }
    fn chunk(&self) -> u64 {
        4
    }
    fn case_timeout(&self) -> u64 {
        120
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let (n, edges) = self.fam.edges(i);
        let input = build_input(&edges);
        let r = Ref::new(n, &edges);
        let fg = prepare(&input);
        let mut calc = create_calculator(&fg);
        let mut ids: Vec<usize> = (0..n + 2).collect();
        ids.push(usize::MAX);
        let after = |calc: &mut PathCalculator, k: usize, ctx: &mut Ctx| -> CaseResult {
            if n == 0 {
                return Ok(());
            }
            let (s, t) = (k % n, (k / n) % n);
            let mut h = 0;
            ctx.calls += 1;
            let p = calc.calc_path(&fg, s, t);
            crate::queries::check_answer(crate::queries::Oracle::Dist, &p, &r, &[(s, 0)], &[(t, 0)], ctx, &mut h)
                .map_err(|m| format!("calc_path({}, {}) afterwards: {}", s, t, m))?;
            if let Some(p) = &p {
                r.check_path(p, &[(s, 0)], &[(t, 0)])?;
            }
            Ok(())
        };
        let mut k = 0;
        for &s in &ids {
            for &t in &ids {
                let valid = s < n && t < n;
                for alone in [false, true] {
                    let x = attempt(|| if alone { calc_path(&fg, s, t) } else { calc.calc_path(&fg, s, t) });
                    ctx.calls += 1;
                    ctx.states += 1;
                    ctx.traces += 1;
                    match x {
                        Ok(p) if !valid => {
                            return Err(format!("calc_path({}, {}) with {} nodes was answered: {:?}", s, t, n, p))
                        }
                        Err(m) if valid => {
                            return Err(format!("calc_path({}, {}) with {} nodes panics: {}", s, t, n, m))
                        }
                        _ => {}
                    }
                    ctx.nontrivial += !valid as u64;
                }
                k += 1;
                after(&mut calc, k, ctx).map_err(|m| format!("after calc_path({}, {}): {}", s, t, m))?;
            }
        }
        // lists
        let mut lists: Vec<Vec<(usize, usize)>> = vec![vec![]];
        for &a in &ids {
            lists.push(vec![(a, 0)]);
            lists.push(vec![(a, WEIGHT_MAX)]);
            for &b in &ids {
                lists.push(vec![(a, 1), (b, 0)]);
                lists.push(vec![(a, WEIGHT_MAX), (b, 2)]);
            }
        }
        for s in &lists {
            for t in &lists {
                let ok = |l: &Vec<(usize, usize)>| !l.is_empty() && l.iter().all(|x| x.0 < n);
                let valid = ok(s) && ok(t);
                k += 1;
                // valid lists are the subject of C05; here every fourth of them suffices
                if valid && k % 4 != 0 {
                    continue;
                }
                let alone = k % 2 == 1;
                let x = attempt(|| {
                    if alone {
                        calc_path_multiple_sources_and_targets(&fg, s.clone(), t.clone())
                    } else {
                        calc.calc_path_multiple_sources_and_targets(&fg, s.clone(), t.clone())
                    }
                });
                ctx.calls += 1;
                ctx.states += 1;
                ctx.traces += 1;
                match x {
                    Ok(p) if !valid => {
                        return Err(format!("sources {:?}, targets {:?} with {} nodes was answered: {:?}", s, t, n, p))
                    }
                    Err(m) if valid => {
                        return Err(format!("sources {:?}, targets {:?} with {} nodes panics: {}", s, t, n, m))
                    }
                    _ => {}
                }
                ctx.nontrivial += !valid as u64;
                if !alone {
                    after(&mut calc, k, ctx).map_err(|m| format!("after sources {:?}, targets {:?}: {}", s, t, m))?;
                }
            }
        }
        // calculators and graphs of different sizes
        for m in 0..n + 3 {
            if m == n || m == 1 {
                continue;
            }
            let other = if m == 0 { prepare(&build_input(&[])) } else { prepare(&build_input(&chain(m, |_| 1))) };
            let small = n.min(m).saturating_sub(1);
            for (s, t) in [(0, 0), (0, small), (small, 0)] {
                if let Ok(p) = attempt(|| calc.calc_path(&other, s, t)) {
                    return Err(format!(
                        "a calculator for {} nodes answers calc_path({}, {}) on a graph with {}: {:?}",
                        n, s, t, m, p
                    ));
                }
                if let Ok(p) =
                    attempt(|| calc.calc_path_multiple_sources_and_targets(&other, vec![(s, 1)], vec![(t, 0), (s, 0)]))
                {
                    return Err(format!("a calculator for {} nodes answers a query on a graph with {}: {:?}", n, m, p));
                }
                let mut c = create_calculator(&other);
                if let Ok(p) = attempt(|| c.calc_path(&fg, s, t)) {
                    return Err(format!(
                        "a calculator for {} nodes answers calc_path({}, {}) on a graph with {}: {:?}",
                        m, s, t, n, p
                    ));
                }
                ctx.calls += 3;
                ctx.states += 3;
                ctx.nontrivial += 3;
                k += 1;
                after(&mut calc, k, ctx)?;
                if m > 1 {
                    let p = c.calc_path(&other, 0, m - 1);
                    if p.map(|p| p.get_weight()) != Some(m - 1) {
                        return Err("calculator unusable after a refused query".into());
                    }
                }
            }
        }
        // not frozen
        let mut raw = InputGraph::new();
        for e in &edges {
            raw.add_edge(e.0, e.1, e.2);
        }
        let order: Vec<usize> = (0..n).collect();
        for round in 0..2 {
            let answered = [
                attempt(|| prepare(&raw)).is_ok(),
                attempt(|| prepare_with_params(&raw, &Params::default())).is_ok(),
                matches!(attempt(|| prepare_with_order(&raw, &order)), Ok(Ok(_))),
            ];
            if answered.iter().any(|x| *x) {
                return Err(format!("preparing an input graph that is not frozen was accepted: {:?}", answered));
            }
            ctx.calls += 3;
            ctx.nontrivial += 3;
            raw.freeze();
            exact(&prepare(&raw), n, &r, ctx)?;
            if round == 0 {
                raw.thaw();
            }
        }
        exact(&fg, n, &r, ctx)
    }
    fn describe(&self, i: u64) -> String {
        let (_, edges) = self.fam.edges(i);
        format!("{}let fg = prepare(&g); // then invalid queries between valid ones", show_input(&edges))
    }
}

/// Invalid orderings, lists and calculators for larger graphs
pub struct LargeRefusals {
    pub sizes: Vec<usize>,
}

impl LargeRefusals {
    /// positions around which an implementation may change its behaviour
    fn spots(n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = [0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 511, 512, 65535, 65536]
            .iter()
            .flat_map(|x| [*x, n.wrapping_sub(1 + *x)])
            .chain([n / 2, n / 3])
            .filter(|x| *x < n)
            .collect();
        v.sort();
        v.dedup();
        v
    }
}

impl Space for LargeRefusals {
    fn name(&self) -> String {
        format!("large-refusals({} sizes)", self.sizes.len())
    }
    fn len(&self) -> u64 {
        self.sizes.len() as u64
    }
    fn chunk(&self) -> u64 {
        1
    }
    fn case_timeout(&self) -> u64 {
        200
    }
    fn bounds(&self) -> String {
        format!("rings with {:?} nodes: orderings with one entry repeated or replaced at selected positions, lists with one invalid entry at every position, calculators of other sizes", self.sizes)
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let n = self.sizes[i as usize];
        let edges = bidir(&ring(n, |x| 1 + x % 3));
        let input = build_input(&edges);
        let spots = LargeRefusals::spots(n);
        let few: Vec<usize> = spots.iter().cloned().step_by(if n > 2000 { 5 } else { 1 }).collect();
        let base: Vec<usize> = (0..n).map(|x| (x * 2 + (x * 2 >= n) as usize * (1 - n % 2)) % n).collect();
        let mut bad: Vec<(String, Vec<usize>)> = vec![];
        for &a in &few {
            for &b in &few {
                if a != b {
                    let mut o = base.clone();
                    o[a] = o[b];
                    bad.push((format!("entry {} repeats entry {}", a, b), o));
                }
            }
            for v in [n, n + 1, 2 * n, base[a] + n, base[a] + (1 << 16), base[a] + (1 << HALF), usize::MAX] {
                if v >= n {
                    let mut o = base.clone();
                    o[a] = v;
                    bad.push((format!("entry {} is {}", a, v), o));
                }
            }
        }
        // two entries wrong so that the sum and the exclusive or stay the same
        for w in few.windows(4) {
            let mut o = base.clone();
            o[w[0]] = o[w[2]];
            o[w[1]] = o[w[3]];
            bad.push(("two entries repeated".into(), o));
        }
        for (k, (what, o)) in bad.iter().enumerate() {
            ctx.states += 1;
            ctx.calls += 1;
            ctx.traces += 1;
            ctx.nontrivial += 1;
            let r = attempt(|| {
                if k % 2 == 0 {
                    prepare_with_order(&input, o)
                } else {
                    prepare_with_order_with_params(&input, o, &ParamsWithOrder::new(k % 9))
                }
            });
            if let Ok(Ok(_)) = r {
                return Err(format!("an ordering in which {} was accepted ({} nodes)", what, n));
            }
        }
        for d in [1usize, 2, 64, n] {
            for long in [true, false] {
                let o: Vec<usize> =
                    if long { base.iter().cloned().chain(n..n + d).collect() } else { base[..n - d.min(n)].to_vec() };
                ctx.states += 1;
                match attempt(|| prepare_with_order(&input, &o).map(|_| ())) {
                    Ok(Err(_)) => {}
                    x => return Err(format!("an ordering with {} instead of {} entries gives {:?}", o.len(), n, x)),
                }
            }
        }
        let fg = prepare_with_order(&input, &base).map_err(|m| format!("a valid ordering was refused: {}", m))?;
        let r = crate::deep::Big::new(n, &edges);
        let d0 = r.from(0);
        let mut calc = create_calculator(&fg);
        for &x in &[
            n,
            n + 1,
            n + 63,
            n + 64,
            2 * n,
            1 << 16,
            (1 << 16) + n,
            1 << HALF,
            (1 << HALF) + 1,
            usize::MAX - 1,
            usize::MAX,
        ] {
            if x < n {
                continue;
            }
            for len in [1usize, 2, 3, 8, 9, 17, 33, 65, 130] {
                for at in (0..len).filter(|a| len < 20 || spots.contains(a) || *a + 1 == len) {
                    for w in [0, 5, WEIGHT_MAX] {
                        let ok: Vec<(usize, usize)> = (0..len).map(|k| ((k * 3) % n, k)).collect();
                        let mut l = ok.clone();
                        l[at] = (x, w);
                        for target in [false, true] {
                            let (s, t) = if target { (ok.clone(), l.clone()) } else { (l.clone(), ok.clone()) };
                            let q = attempt(|| calc.calc_path_multiple_sources_and_targets(&fg, s, t));
                            ctx.states += 1;
                            ctx.calls += 1;
                            ctx.nontrivial += 1;
                            if let Ok(p) = q {
                                return Err(format!(
                                    "{} list of length {} with {:?} at {} was answered: {:?}",
                                    if target { "target" } else { "source" },
                                    len,
                                    (x, w),
                                    at,
                                    p
                                ));
                            }
                        }
                    }
                }
            }
            for (s, t) in [(x, 0), (0, x), (x, x)] {
                ctx.states += 1;
                if attempt(|| calc.calc_path(&fg, s, t)).is_ok() || n < 5000 && attempt(|| calc_path(&fg, s, t)).is_ok()
                {
                    return Err(format!("calc_path({}, {}) with {} nodes was answered", s, t, n));
                }
            }
        }
        for (s, t) in [(vec![], vec![(0, 0)]), (vec![(0, 0)], vec![]), (vec![], vec![])] {
            if attempt(|| calc.calc_path_multiple_sources_and_targets(&fg, s, t)).is_ok() {
                return Err("an empty list was accepted".into());
            }
        }
        // calculators of other sizes
        for m in [n - 1, n + 1, n + 2, n + 64, n + 256, 2 * n, n + 65536] {
            if m < 2 {
                continue;
            }
            let other = prepare_with_order(&build_input(&chain(m, |_| 1)), &(0..m).collect::<Vec<_>>())?;
            let mut c = create_calculator(&other);
            ctx.states += 2;
            if attempt(|| c.calc_path(&fg, 0, 0)).is_ok() || attempt(|| c.calc_path(&fg, 0, m.min(n) - 1)).is_ok() {
                return Err(format!("a calculator for {} nodes answers a query on a graph with {}", m, n));
            }
            if attempt(|| calc.calc_path(&other, 0, 0)).is_ok() || attempt(|| calc.calc_path(&other, 0, 1)).is_ok() {
                return Err(format!("a calculator for {} nodes answers a query on a graph with {}", n, m));
            }
        }
        for t in 0..n.min(300) {
            let p = calc.calc_path(&fg, 0, t);
            ctx.calls += 1;
            r.check(&p, 0, t, d0[t]).map_err(|m| format!("afterwards: {}", m))?;
        }
        ctx.outcome(n as u64);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        format!("// ring with {} nodes, see the message", self.sizes[i as usize])
    }
}
