// Worker process: explores seeds of one property, or reproduces / minimises
// one execution.  Talks to check.mjs over IPC.
import { Sim, Stats, Violation, HarnessError, describeError, setCurrent, installGlobals } from "./core.mjs";
import { installSeams } from "./seams.mjs";
import { pathToFileURL } from "node:url";
import { join } from "node:path";

installGlobals();
installSeams();

async function loadLib(dir, names) {
  const lib = {};
  Object.defineProperty(lib, "__dir", { value: dir });
  for (const n of names) lib[n] = await import(pathToFileURL(join(dir, `${n}.mjs`)).href);
  return lib;
}

async function execute(prop, lib, opts) {
  const sim = new Sim(opts);
  setCurrent(sim);
  let violation = null;
  let info = null;
  let harness = null;
  try {
    info = (await prop.run(sim, lib)) ?? {};
    sim.checkUnhandled();
  } catch (e) {
    if (e instanceof HarnessError) harness = e;
    else if (e instanceof Violation) violation = e;
    else {
      violation = new Violation("unexpected-exception", `unexpected exception: ${describeError(e)}`);
      violation.stack = e?.stack ?? violation.stack;
    }
  } finally {
    setCurrent(null);
    try {
      prop.cleanup?.(sim);
    } catch { /* best effort */ }
  }
  return { sim, violation, info, harness };
}

function accumulate(stats, r) {
  const { sim, info } = r;
  stats.runs++;
  stats.steps += sim.steps;
  stats.simMs += sim.now;
  for (const [k, n] of sim.faults) stats.add(stats.faults, k, n);
  for (const [k, n] of sim.counters) stats.add(stats.counters, k, n);
  if (info?.nontrivial !== false) {
    stats.nontrivial++;
    if (stats.schedules.size < 400000) stats.schedules.add(sim.digest);
    for (const s of sim.shape) if (stats.shapes.size < 50000) stats.shapes.add(s);
  }
}

async function explore(msg) {
  const { default: prop } = await import(`./props/${msg.module}.mjs`);
  const lib = await loadLib(msg.dir, prop.needs);
  const stats = new Stats();
  const samples = [];
  let determinismChecked = 0, determinismMismatch = 0;
  const known = [];
  const deadline = Date.now() + msg.ms;
  for (let i = 0; i < msg.count; i++) {
    const seed = msg.base + msg.offset + i * msg.stride;
    if ((i & 63) === 0) {
      if (Date.now() > deadline) break;
      process.send({ type: "beat", seed });
    }
    const r = await execute(prop, lib, { seed });
    if (r.harness) {
      process.send({ type: "harness", seed, message: r.harness.stack ?? String(r.harness) });
      return;
    }
    accumulate(stats, r);
    if (r.violation) {
      const sig = `${msg.id}:${r.violation.kind}`;
      if (msg.knownKinds.includes(r.violation.signature ?? sig)) {
        known.push(r.violation.signature ?? sig);
        continue;
      }
      process.send({
        type: "violation", seed, kind: r.violation.kind, message: r.violation.message,
        choices: r.sim.recorded, trace: r.sim.trace, first: msg.base + msg.offset, stride: msg.stride, index: i,
      });
      break;
    }
    if (samples.length < 3 && r.info?.sample && (i % 7 === 3)) samples.push({ seed, ...r.info.sample });
    if (i % 97 === 5) {
      const r2 = await execute(prop, lib, { seed });
      determinismChecked++;
      if (r2.sim.digest !== r.sim.digest || !!r2.violation) determinismMismatch++;
    }
  }
  process.send({ type: "done", stats: stats.toJSON(), samples, determinismChecked, determinismMismatch, known });
}

async function minimise(msg) {
  const { default: prop } = await import(`./props/${msg.module}.mjs`);
  const lib = await loadLib(msg.dir, prop.needs);
  let prelude = 0;
  const first = await execute(prop, lib, { seed: msg.seed, choices: msg.choices });
  if (!first.violation || first.violation.kind !== msg.kind) {
    process.send({ type: "notreproduced" });
    return;
  }
  let best = first;
  let bestChoices = first.sim.recorded;
  const deadline = Date.now() + msg.ms;
  let attempts = 0;
  const attempt = async (choices) => {
    if (Date.now() > deadline || attempts > 4000) return false;
    attempts++;
    const r = await execute(prop, lib, { seed: msg.seed, choices });
    if (r.violation && r.violation.kind === msg.kind) {
      const rec = r.sim.recorded;
      // accept only genuine progress
      if (rec.length < bestChoices.length || (rec.length === bestChoices.length && sum(rec) < sum(bestChoices))) {
        best = r;
        bestChoices = rec;
        return true;
      }
    }
    return false;
  };
  const sum = (a) => a.reduce((x, y) => x + y, 0);
  let improved = true;
  while (improved && Date.now() < deadline) {
    improved = false;
    for (let size = Math.max(1, bestChoices.length >> 1); size >= 1; size >>= 1) {
      for (let i = 0; i + size <= bestChoices.length;) {
        if (await attempt([...bestChoices.slice(0, i), ...bestChoices.slice(i + size)])) improved = true;
        else i += size;
        if (Date.now() > deadline) break;
      }
    }
    for (let i = 0; i < bestChoices.length; i++) {
      if (bestChoices[i] === 0) continue;
      const c = [...bestChoices];
      c[i] = 0;
      if (await attempt(c)) { improved = true; continue; }
      const d = [...bestChoices];
      d[i] = d[i] >> 1;
      if (d[i] !== bestChoices[i] && await attempt(d)) improved = true;
    }
  }
  const final = await execute(prop, lib, { seed: msg.seed, choices: bestChoices, verbose: true });
  process.send({
    type: "minimised", choices: bestChoices, trace: final.sim.trace, labels: final.sim.labels, attempts,
    kind: final.violation?.kind ?? best.violation.kind, message: final.violation?.message ?? best.violation.message,
    stack: (final.violation?.stack ?? "").split("\n").slice(0, 12), digest: final.sim.digest, prelude,
  });
}

async function replay(msg) {
  const { default: prop } = await import(`./props/${msg.module}.mjs`);
  const lib = await loadLib(msg.dir, prop.needs);
  const f = msg.file;
  if (f.prelude) {
    for (let i = 0; i < f.prelude.count; i++) {
      await execute(prop, lib, { seed: f.prelude.first + i * f.prelude.stride });
    }
  }
  const r = await execute(prop, lib, { seed: f.seed, choices: f.choices, verbose: true });
  process.send({
    type: "replayed", violated: !!r.violation, kind: r.violation?.kind, message: r.violation?.message,
    trace: r.sim.trace, digest: r.sim.digest, harness: r.harness ? String(r.harness.stack) : undefined,
  });
}

process.on("disconnect", () => process.kill(process.pid, "SIGKILL"));
process.on("message", async (msg) => {
  try {
    if (msg.type === "explore") await explore(msg);
    else if (msg.type === "minimise") await minimise(msg);
    else if (msg.type === "replay") await replay(msg);
  } catch (e) {
    process.send({ type: "harness", message: e?.stack ?? String(e) });
  }
  process.send({ type: "end" }); // the parent ends this process once it has everything
});
