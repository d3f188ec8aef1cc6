// Development aid: node sim/survey.mjs <module> <count> [first] — runs seeds in-process, groups violations.
import { Sim, Violation, HarnessError, setCurrent, installGlobals } from "./core.mjs";
import { installSeams } from "./seams.mjs";
import { build } from "./build.mjs";
import { join } from "node:path";
import { rmSync } from "node:fs";
installGlobals(); installSeams();
const [mod, n, first] = process.argv.slice(2);
const { default: prop } = await import(`./props/${mod}.mjs`);
const dir = `/tmp/survey-${process.pid}`;
await build(dir, prop.needs);
const lib = {};
Object.defineProperty(lib, "__dir", { value: dir });
for (const x of prop.needs) lib[x] = await import(join(dir, `${x}.mjs`));
rmSync(dir, { recursive: true });
const groups = new Map();
const counters = {};
const t0 = performance.now();
for (let i = 0; i < +n; i++) {
  const seed = (+first || 1) * 1000000007 + i;
  const sim = new Sim({ seed });
  setCurrent(sim);
  let v = null;
  try { await prop.run(sim, lib); sim.checkUnhandled(); } catch (e) { v = e; }
  setCurrent(null);
  prop.cleanup?.(sim);
  for (const [k, x] of [...sim.counters, ...sim.faults]) counters[k] = (counters[k] ?? 0) + x;
  if (v) {
    const k = v instanceof Violation ? v.kind : v instanceof HarnessError ? "HARNESS" : "unexpected";
    const g = groups.get(k) ?? { n: 0, best: null, len: Infinity };
    g.n++;
    if (sim.recorded.length < g.len) { g.len = sim.recorded.length; g.best = { seed, v }; }
    (g.all ??= []).push({ len: sim.recorded.length, seed, msg: v.message });
    groups.set(k, g);
  }
}
console.log(JSON.stringify(counters), ((performance.now() - t0) / +n).toFixed(3), "ms/run");
for (const [k, g] of groups) {
  console.log(`### ${k}: ${g.n}`);
  g.all.sort((a, b) => a.len - b.len);
  for (const e of g.all.slice(0, +(process.argv[5] ?? 3))) console.log(` seed ${e.seed} len ${e.len}\n ${e.msg}`);
  if (!(g.best.v instanceof Violation)) console.log(g.best.v.stack);
}
process.exit(0);
