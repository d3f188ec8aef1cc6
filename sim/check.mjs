// Check driver: node check.mjs <PROPERTY> <quick|thorough> [--replay FILE]
import { fork } from "node:child_process";
import { mkdirSync, readFileSync, writeFileSync, rmSync, existsSync } from "node:fs";
import { dirname, join } from "node:path";
import { fileURLToPath } from "node:url";
import os from "node:os";
import { build, REPO } from "./build.mjs";

const HERE = dirname(fileURLToPath(import.meta.url));
const ROOT = dirname(HERE);
const argv = process.argv.slice(2);
const replayIdx = argv.indexOf("--replay");
const replayFile = replayIdx >= 0 ? argv[replayIdx + 1] : null;
const id = argv[0];
const tier = argv[1] === "thorough" ? "thorough" : "quick";
const seedBase = Number(process.env.VERIF_SEED ?? "1") || 1;

const { PROPS } = await import("./props/index.mjs");
const spec = PROPS[id];
if (!spec) {
  console.error(`unknown property ${id}`);
  process.exit(2);
}
const prop = (await import(`./props/${spec.module}.mjs`)).default;

const outDir = join(ROOT, ".build", `${id}-${process.pid}`);
const cleanup = () => rmSync(outDir, { recursive: true, force: true });
process.on("exit", cleanup);
for (const s of ["SIGINT", "SIGTERM"]) process.on(s, () => process.exit(2));

const t0 = Date.now();
await build(outDir, prop.needs);

function spawnWorker() {
  const w = fork(join(HERE, "worker.mjs"), [], {
    execArgv: ["--no-warnings", "--max-old-space-size=2500", ...(prop.nodeArgs ?? [])],
    stdio: ["ignore", "pipe", "pipe", "ipc"],
    env: { ...process.env, ...(prop.env ?? {}) },
  });
  w.err = "";
  w.stdout.on("data", () => {});
  w.stderr.on("data", (d) => {
    w.err = (w.err + d).slice(-4000);
  });
  return w;
}

function runWorker(msg, { hangMs = 60000, onBeat } = {}) {
  return new Promise((resolve) => {
    const w = spawnWorker();
    let last = null;
    let done = false;
    let timer;
    const results = [];
    const finish = (r) => {
      if (done) return;
      done = true;
      clearTimeout(timer);
      resolve({ results, lastSeed: last, ...r });
      w.kill("SIGKILL");
    };
    const arm = () => {
      clearTimeout(timer);
      timer = setTimeout(() => finish({ hang: true }), hangMs);
    };
    arm();
    w.on("message", (m) => {
      arm();
      if (m.type === "beat") {
        last = m.seed;
        onBeat?.(m);
      } else if (m.type === "end") finish({ code: 0, signal: null, err: w.err });
      else results.push(m);
    });
    w.on("exit", (code, signal) => finish({ code, signal, err: w.err }));
    w.send(msg);
  });
}

function knownFindings() {
  const f = join(ROOT, "known-findings.json");
  if (!existsSync(f)) return [];
  return JSON.parse(readFileSync(f, "utf8")).findings.filter((x) => x.property === id);
}

if (replayFile) {
  const file = JSON.parse(readFileSync(replayFile, "utf8"));
  const r = await runWorker({ type: "replay", module: spec.module, id, dir: outDir, file }, { hangMs: file.kind === "hang" ? 30000 : 120000 });
  if (r.hang || (r.results.length === 0)) {
    console.log(r.hang ? "run does not terminate" : `worker ended: code=${r.code} signal=${r.signal} ${r.err}`);
    console.log(`VIOLATION property=${id} replay=${replayFile}`);
    process.exit(1);
  }
  const m = r.results[0];
  if (m.harness || m.type === "harness") {
    console.error(m.harness ?? m.message);
    process.exit(2);
  }
  for (const line of m.trace) console.log("  " + line);
  if (m.violated) {
    console.log(`kind: ${m.kind}`);
    console.log(m.message);
    console.log(`digest ${m.digest} (${m.digest === file.digest ? "identical to" : "differs from"} the recorded execution)`);
    console.log(`VIOLATION property=${id} replay=${replayFile}`);
    process.exit(1);
  }
  console.log("no violation on replay");
  process.exit(0);
}

const conf = { ...(prop[tier] ?? {}) };
const workers = Math.max(1, Math.min(conf.workers ?? 6, os.cpus().length));
const ms = tier === "quick" ? 90000 : conf.ms ?? 600000;
const count = tier === "quick" ? 4 * (conf.count ?? 4000) : conf.count ?? 10_000_000;
const base = seedBase * 1_000_000_007;
const known = knownFindings();
const knownKinds = known.map((k) => k.signature);

const jobs = [];
for (let i = 0; i < workers; i++) {
  jobs.push(runWorker({ type: "explore", module: spec.module, id, dir: outDir, base, offset: i, stride: workers, count: Math.ceil(count / workers), ms, knownKinds }, { hangMs: conf.hangMs ?? 60000 }));
}
const outs = await Promise.all(jobs);

const total = { runs: 0, nontrivial: 0, steps: 0, simMs: 0, faults: {}, counters: {} };
const schedules = new Set();
const shapes = new Set();
const samples = [];
let violation = null;
let harness = null;
let detChecked = 0, detMis = 0;
for (const o of outs) {
  for (const m of o.results) {
    if (m.type === "violation" && (!violation || m.index < violation.index)) violation = m;
    if (m.type === "harness") harness = m.message;
    if (m.type === "done") {
      total.runs += m.stats.runs;
      total.nontrivial += m.stats.nontrivial;
      total.steps += m.stats.steps;
      total.simMs += m.stats.simMs;
      for (const [k, n] of Object.entries(m.stats.faults)) total.faults[k] = (total.faults[k] ?? 0) + n;
      for (const [k, n] of Object.entries(m.stats.counters)) total.counters[k] = (total.counters[k] ?? 0) + n;
      for (const s of m.stats.schedules) schedules.add(s);
      for (const s of m.stats.shapes) shapes.add(s);
      samples.push(...m.samples);
      detChecked += m.determinismChecked;
      detMis += m.determinismMismatch;
    }
  }
  if (o.hang && !violation) violation = { index: Infinity, seed: o.lastSeed, kind: "hang", message: "the simulated execution does not terminate (no heartbeat)", choices: null, trace: [], hang: true };
  else if (!o.hang && o.results.length === 0) harness = `worker ended without a result: code=${o.code} signal=${o.signal}\n${o.err}`;
}

let replayPath = null;
if (violation) {
  mkdirSync(join(ROOT, "replays"), { recursive: true });
  replayPath = join(ROOT, "replays", `${id}-${violation.seed}.json`);
  let file = { property: id, seed: violation.seed, kind: violation.kind, message: violation.message, choices: violation.choices, trace: violation.trace, digest: null };
  if (!violation.hang) {
    const m = await runWorker({ type: "minimise", module: spec.module, id, dir: outDir, seed: violation.seed, choices: violation.choices, kind: violation.kind, ms: tier === "quick" ? 15000 : 60000 }, { hangMs: 120000 });
    const res = m.results[0];
    if (res?.type === "minimised") {
      file = { ...file, kind: res.kind, message: res.message, choices: res.choices, labels: res.labels, trace: res.trace, digest: res.digest, stack: res.stack, originalChoices: violation.choices.length, attempts: res.attempts };
    } else if (res?.type === "notreproduced") {
      // depends on earlier executions in the same process: keep them as prelude
      file.prelude = { first: violation.first, stride: violation.stride, count: violation.index };
    }
  }
  writeFileSync(replayPath, JSON.stringify(file, null, 1) + "\n");
  violation.file = file;
}

const wall = (Date.now() - t0) / 1000;
const evidence = {
  property: id, tier, seed: seedBase, level: spec.level ?? "exploration",
  coverage: {
    evaluations: Math.max(total.runs, violation ? 1 : 0),
    distinct_nontrivial: schedules.size,
    rule: prop.rule,
    samples: samples.slice(0, 12).map((s) => (typeof s === "string" ? s : JSON.stringify(s))),
    seeds: { base, count: total.runs },
    runs_per_hour: Math.round(total.runs / Math.max(wall, 0.001) * 3600),
    simulated_ms: total.simMs,
    scheduler_steps: total.steps,
    faults_injected: total.faults,
    counters: total.counters,
    distinct_interleavings: schedules.size,
    distinct_shapes: shapes.size,
    determinism: { executions_run_twice: detChecked, digest_mismatches: detMis },
    real_components: prop.real,
    stubs: prop.stubs,
  },
  assumptions: prop.assumptions ?? [],
  wall_s: wall,
  violations: violation ? 1 : 0,
  ...(violation ? { violation: { kind: violation.kind, message: violation.file?.message ?? violation.message, seed: violation.seed, replay: replayPath } } : {}),
};
mkdirSync(join(ROOT, "evidence"), { recursive: true });
writeFileSync(join(ROOT, "evidence", `${id}.json`), JSON.stringify(evidence, null, 1) + "\n");

console.log(`${id} ${tier}: ${total.runs} simulated runs (${total.nontrivial} nontrivial, ${schedules.size} distinct interleavings, ${shapes.size} shapes), ${total.steps} steps, ${(total.simMs / 1000).toFixed(0)} s simulated, ${wall.toFixed(1)} s wall`);
console.log(`faults: ${JSON.stringify(total.faults)}`);
console.log(`counters: ${JSON.stringify(total.counters)}`);
if (detMis) console.log(`note: ${detMis} of ${detChecked} re-executions differed`);
for (const k of known) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
if (violation) {
  const f = violation.file;
  console.log(`violation kind: ${f.kind}`);
  console.log(f.message);
  for (const line of (f.trace ?? []).slice(-40)) console.log("  " + line);
  if (f.prelude) console.log("(needs earlier executions of the same process; recorded as prelude)");
  console.log(`VIOLATION property=${id} replay=${replayPath}`);
  process.exit(1);
}
if (harness) {
  console.error(`harness error: ${harness}`);
  process.exit(2);
}
if (prop.minimum) {
  for (const [k, n] of Object.entries(prop.minimum)) {
    const have = total.counters[k] ?? total.faults[k] ?? 0;
    // a slow machine explores less: the floor shrinks with the number of runs
    if (have < Math.min(n, Math.floor(n * total.runs / (conf.count || total.runs || 1)))) {
      console.error(`harness error: coverage floor not reached: ${k}=${have} < ${n}`);
      process.exit(2);
    }
  }
}
process.exit(0);
