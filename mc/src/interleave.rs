//! C15 (one thread): several calculators and graphs used alternately.

use crate::engine::*;
use crate::families::*;
use crate::persist::bytes;
use crate::reference::*;
use crate::reuse::*;
use fast_paths::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Step {
    /// calculator, graph, query
    Ask(usize, usize, Q),
    /// stand-alone query
    Alone(usize, Q),
    Prepare(usize),
    Serialize(usize),
    /// new calculator for the slot
    Renew(usize, usize),
}

pub struct Alternate {
    pub graphs: Vec<Vec<E>>,
    pub steps: Vec<Step>,
    pub depth: u32,
}

struct Data {
    graphs: Vec<FastGraph>,
    bytes: Vec<Vec<u8>>,
    want: Vec<Answer>,
}
thread_local! {
    static DATA: RefCell<HashMap<String, Rc<Data>>> = RefCell::new(HashMap::new());
}

impl Alternate {
    fn decode(&self, mut i: u64) -> Vec<usize> {
        let b = self.steps.len() as u64;
        (0..self.depth)
            .map(|_| {
                let x = (i % b) as usize;
                i /= b;
                x
            })
            .collect()
    }
    fn data(&self) -> Rc<Data> {
        let key = self.name();
        if let Some(d) = DATA.with(|c| c.borrow().get(&key).cloned()) {
            return d;
        }
        let graphs: Vec<FastGraph> = self.graphs.iter().map(|g| prepare(&build_input(g))).collect();
        let want = self
            .steps
            .iter()
            .map(|s| match s {
                Step::Ask(_, g, q) | Step::Alone(g, q) => q.ask(&mut create_calculator(&graphs[*g]), &graphs[*g]),
                _ => None,
            })
            .collect();
        let b = graphs.iter().map(bytes).collect();
        let d = Rc::new(Data { graphs, bytes: b, want });
        DATA.with(|c| c.borrow_mut().insert(key, d.clone()));
        d
    }
}

impl Space for Alternate {
    fn name(&self) -> String {
        format!("alternate({} graphs,{} steps,depth={})", self.graphs.len(), self.steps.len(), self.depth)
    }
    fn len(&self) -> u64 {
        (self.steps.len() as u64).pow(self.depth)
    }
    fn chunk(&self) -> u64 {
        128
    }
    fn bounds(&self) -> String {
        format!("all sequences of {} steps out of {}: two calculators per graph, stand-alone queries, preparations, serializations", self.depth, self.steps.len())
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult {
        let d = self.data();
        // calculators 0 and 1 serve graph 0, calculator 2 serves graph 1
        let mut calcs: Vec<PathCalculator> = [0, 0, 1].iter().map(|g| create_calculator(&d.graphs[*g])).collect();
        let mut h = 0;
        for (pos, k) in self.decode(i).into_iter().enumerate() {
            ctx.calls += 1;
            match &self.steps[k] {
                Step::Ask(c, g, q) => {
                    let a = q.ask(&mut calcs[*c], &d.graphs[*g]);
                    if a != d.want[k] {
                        return Err(format!(
                            "step {}: calculator {}: {} gives {:?}, alone {:?}",
                            pos,
                            c,
                            q.show(),
                            a,
                            d.want[k]
                        ));
                    }
                    h = mix(h, a.map_or(3, |a| a.2 as u64));
                }
                Step::Alone(g, q) => {
                    let a = answer(match q {
                        Q::One(s, t) => calc_path(&d.graphs[*g], *s, *t),
                        Q::Many(s, t) => calc_path_multiple_sources_and_targets(&d.graphs[*g], s.clone(), t.clone()),
                    });
                    if a != d.want[k] {
                        return Err(format!("step {}: {} gives {:?}, alone {:?}", pos, q.show(), a, d.want[k]));
                    }
                }
                Step::Prepare(g) => {
                    if bytes(&prepare(&build_input(&self.graphs[*g]))) != d.bytes[*g] {
                        return Err(format!("step {}: preparing graph {} gives another result", pos, g));
                    }
                }
                Step::Serialize(g) => {
                    if bytes(&d.graphs[*g]) != d.bytes[*g] {
                        return Err(format!("step {}: graph {} changed", pos, g));
                    }
                }
                Step::Renew(c, g) => calcs[*c] = create_calculator(&d.graphs[*g]),
            }
        }
        for (k, g) in d.graphs.iter().enumerate() {
            if bytes(g) != d.bytes[k] {
                return Err(format!("graph {} changed", k));
            }
        }
        ctx.states += self.depth as u64 + 1;
        ctx.traces += 1;
        ctx.nontrivial += 1;
        ctx.outcome(h);
        Ok(())
    }
    fn describe(&self, i: u64) -> String {
        let mut s = String::new();
        for (k, g) in self.graphs.iter().enumerate() {
            s += &format!("// graph {}\n{}", k, show_input(g));
        }
        s += "// prepare all; steps:\n";
        for k in self.decode(i) {
            s += &format!("// {:?}\n", self.steps[k]);
        }
        s
    }
}

pub fn alternate(depth: u32) -> Box<dyn Space> {
    let mut g0 = bidir(&ring(5, |i| 1 + i % 3));
    g0.push((5, 0, 2));
    let mut g1 = chain(4, |i| 1 + i);
    g1.push((3, 0, 2));
    let many = Q::Many(vec![(5, 1), (2, 0)], vec![(4, 0), (0, 3)]);
    Box::new(Alternate {
        graphs: vec![g0, g1],
        steps: vec![
            Step::Ask(0, 0, Q::One(5, 3)),
            Step::Ask(0, 0, Q::One(2, 0)),
            Step::Ask(1, 0, Q::One(0, 5)),
            Step::Ask(1, 0, Q::One(1, 3)),
            Step::Ask(1, 0, many.clone()),
            Step::Ask(2, 1, Q::One(0, 3)),
            Step::Ask(2, 1, Q::One(2, 1)),
            Step::Alone(0, Q::One(3, 1)),
            Step::Alone(0, many),
            Step::Alone(1, Q::One(3, 2)),
            Step::Prepare(0),
            Step::Prepare(1),
            Step::Serialize(0),
            Step::Renew(0, 0),
        ],
        depth,
    })
}
