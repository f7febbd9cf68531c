// Drives the 32-bit explorer: run.js W32.wasm NATIVE quick|thorough OUT.json [--cap SECONDS] [--workers N]
//                             run.js W32.wasm NATIVE quick|thorough case SPACE FROM TO
// exit status: 0 held, 1 violation, 2 engine error; OUT.json has the form of mc's result files.
'use strict';
const fs = require('fs');
const { spawnSync } = require('child_process');
const { Worker, isMainThread, parentPort, workerData } = require('worker_threads');

const OUTCOMES = 32768;
const CASE_SECONDS = 100;

class Machine {
  constructor(module, native, tier) {
    Object.assign(this, { module, native, tier });
    this.restart();
  }
  restart() {
    this.e = new WebAssembly.Instance(this.module, {}).exports;
    this.count = this.e.init(this.tier === 'thorough' ? 1 : 0);
    this.exchanges = this.e.exchange_count();
  }
  bytes() {
    return Buffer.from(this.e.memory.buffer, this.e.text_at() >>> 0, this.e.text_len() >>> 0);
  }
  text() {
    return this.bytes().toString('utf8');
  }
  about(k) {
    const cases = Number(BigInt.asUintN(64, this.e.about(k)));
    const [name, bounds] = this.text().split('\n');
    return { k, name, bounds, cases, chunk: Number(this.e.chunk(k)) };
  }
  describe(k, i) {
    this.e.describe(k, BigInt(i));
    return this.text();
  }
  counters() {
    this.e.counters();
    const b = Buffer.from(this.bytes());
    return new BigUint64Array(b.buffer.slice(b.byteOffset, b.byteOffset + b.length));
  }
  partner(what, k, from, to, input) {
    const r = spawnSync(this.native, [this.tier, what, String(k), String(from), String(to)],
      { input, maxBuffer: 1 << 30 });
    if (r.error) throw r.error;
    return r;
  }
  // -> null or {kind: 1 violation | 2 engine, case, message}
  run(k, from, to) {
    const [a, b] = [BigInt(from), BigInt(to)];
    const at = this.e.case_at() >>> 0;
    const here = () => Number(new DataView(this.e.memory.buffer).getBigUint64(at, true));
    const failed = (kind) => ({ kind, case: here(), message: this.text() });
    try {
      if (k >= this.exchanges) {
        const r = this.e.run(k, a, b);
        return r ? failed(r) : null;
      }
      // 64 -> 32
      let p = this.partner('export', k, from, to);
      if (p.status !== 0) return { kind: p.status === 1 ? 1 : 2, case: from, message: '64 bit: ' + p.stderr };
      const data = p.stdout;
      const room = this.e.input(data.length) >>> 0;
      data.copy(Buffer.from(this.e.memory.buffer), room);
      let r = this.e.import(k, a, b);
      if (r) {
        const f = failed(r);
        f.message = 'stored on 64 bit, loaded on 32 bit: ' + f.message;
        return f;
      }
      // 32 -> 64
      r = this.e.export(k, a, b);
      if (r) return failed(r);
      p = this.partner('import', k, from, to, Buffer.from(this.bytes()));
      if (p.status === 0) return null;
      const m = /^case (\d+): ([^]*)$/.exec(p.stderr.toString());
      return { kind: p.status === 1 ? 1 : 2, case: m ? Number(m[1]) : from,
        message: 'stored on 32 bit, loaded on 64 bit: ' + (m ? m[2] : p.stderr) };
    } catch (x) {
      if (!(x instanceof WebAssembly.RuntimeError) && !(x instanceof RangeError) &&
          !(WebAssembly.Exception && x instanceof WebAssembly.Exception)) throw x;
      const f = { kind: 1, case: here(), message: 'the program dies on the 32-bit platform: ' + x.message };
      this.restart();
      return f;
    }
  }
}

function worker() {
  const { module, native, tier } = workerData;
  const m = new Machine(module, native, tier);
  parentPort.on('message', (job) => {
    let found = null, fatal = null;
    const t0 = Date.now();
    try {
      found = m.run(job.k, job.from, job.to);
    } catch (x) {
      fatal = String(x.stack || x);
    }
    parentPort.postMessage({ job, found, fatal, ms: Date.now() - t0, counters: m.counters() });
  });
}

async function main() {
  const args = process.argv.slice(2);
  const [wasm, native, tier, out] = args;
  const option = (n, d) => (args.includes(n) ? Number(args[args.indexOf(n) + 1]) : d);
  const module = new WebAssembly.Module(fs.readFileSync(wasm));
  const m = new Machine(module, native, tier);
  const spaces = [];
  for (let k = 0; k < m.count; k++) spaces.push(m.about(k));
  if (out === 'case') {
    const s = spaces.find((x) => x.name === args[4]);
    const found = m.run(s.k, Number(args[5]), Number(args[6]));
    console.log(m.describe(s.k, Number(args[5])));
    console.log(found ? found.message : 'held');
    process.exit(found ? found.kind : 0);
  }
  if (new Set(spaces.map((s) => s.name)).size !== spaces.length) throw new Error('two spaces of one name');
  const cap = option('--cap', 400) * 1000;
  const workers = option('--workers', 8);
  const reports = spaces.map((s) => ({ ...s, next: 0, executed: 0, states: 0, calls: 0, traces: 0, nontrivial: 0,
    outcomes: new Set(), t0: 0, t1: 0 }));
  const start = Date.now();
  let violation = null, engine = null, stopped = false, current = 0;
  const jobs = () => {
    while (current < reports.length && reports[current].next >= reports[current].cases) current++;
    if (current >= reports.length || stopped || Date.now() - start > cap) return null;
    const r = reports[current];
    const job = { k: r.k, from: r.next, to: Math.min(r.cases, r.next + r.chunk) };
    r.next = job.to;
    if (!r.t0) r.t0 = Date.now();
    return job;
  };
  await new Promise((done) => {
    let alive = 0;
    const spawn = () => {
      const w = new Worker(__filename, { workerData: { module, native, tier }, resourceLimits: { stackSizeMb: 4 } });
      w.busy = null;
      alive++;
      const end = () => {
        if (w.gone) return;
        w.gone = true;
        w.terminate();
        if (--alive === 0) done();
      };
      w.next = () => {
        w.busy = jobs();
        w.since = Date.now();
        if (w.busy) w.postMessage(w.busy);
        else end();
      };
      w.on('message', (a) => {
        const r = reports[a.job.k];
        if (a.fatal || (a.found && a.found.kind === 2)) {
          engine = engine || a.fatal || `${r.name}#${a.found.case}: ${a.found.message}`;
          stopped = true;
        } else if (a.found) {
          const v = { space: a.job.k, case: a.found.case, message: a.found.message };
          if (!violation || v.space < violation.space || (v.space === violation.space && v.case < violation.case)) violation = v;
          stopped = true;
        } else {
          r.executed += a.job.to - a.job.from;
        }
        const c = a.counters;
        r.states += Number(c[0]);
        r.calls += Number(c[1]);
        r.traces += Number(c[2]);
        r.nontrivial += Number(c[3]);
        for (let i = 4; i < c.length && r.outcomes.size < OUTCOMES; i++) r.outcomes.add(c[i]);
        r.t1 = Date.now();
        w.next();
      });
      w.on('error', (x) => {
        engine = engine || String(x.stack || x);
        stopped = true;
        end();
      });
      w.end = end;
      all.push(w);
      w.next();
    };
    const all = [];
    for (let i = 0; i < workers; i++) spawn();
    const timer = setInterval(() => {
      for (const w of all) {
        if (w.gone || !w.busy) continue;
        const n = w.busy.to - w.busy.from;
        if (Date.now() - w.since > CASE_SECONDS * 1000 * (n > 1 ? 2 : 1)) {
          violation = violation || { space: w.busy.k, case: w.busy.from,
            message: `one of the cases ${w.busy.from}..${w.busy.to} does not terminate on the 32-bit platform` };
          stopped = true;
          w.end();
        }
      }
      if (alive === 0) clearInterval(timer);
    }, 500);
  });
  if (violation) {
    const v = violation;
    v.k = v.space;
    v.space = spaces[v.k].name;
    v.describe = m.describe(v.k, v.case);
  }
  fs.writeFileSync(out, JSON.stringify({
    spaces: reports.map((r) => ({
      space: r.name, bounds: r.bounds, cases: r.cases, executed: r.executed, complete: r.executed === r.cases,
      states: r.states, calls: r.calls, traces: r.traces, nontrivial: r.nontrivial, distinct_outcomes: r.outcomes.size,
      wall_s: Math.max(0, r.t1 - r.t0) / 1000, notes: [], samples: [0, 1, 2].map((q) => Math.floor((r.cases - 1) * q / 2))
        .filter((i) => i >= 0).map((i) => `#${i}: ` + m.describe(r.k, i)),
    })),
    violation, known: [], engine_error: engine,
  }));
  process.exit(engine ? 2 : violation ? 1 : 0);
}

if (isMainThread) {
  main().catch((x) => {
    console.error(x);
    process.exit(2);
  });
} else {
  worker();
}
