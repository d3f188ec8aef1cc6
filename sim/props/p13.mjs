import { Violation, show, InjectedFault } from "../core.mjs";
import { LAYER_LIBS, genField, genWorld, resolveField, buildLayers, genShape, buildShape, shapeArgv, flatten, fieldText } from "../layers.mjs";

export default {
  needs: LAYER_LIBS,
  rule: "2-4 overlapping runs of one shared parser with one shared set of environment, configuration and derived-default contexts, each run with its own command line, configuration and prompt answers, started at random moments and interleaved at random, some of them failing because their configuration or resolver fails; each run is compared with the reference model of that run alone; non-trivial when two runs overlapped",
  real: ["@optique/core facade, combinators, @optique/env, @optique/config, @optique/derived-defaults, @optique/prompt"],
  stubs: ["configuration loaders, resolvers, asynchronous value parsers and the prompt adapter answer through the scheduler"],
  assumptions: ["a shared prompt adapter gives every run the same answer for one field"],
  minimum: { overlapped: 3000, "failed-run": 500, success: 3000 },
  quick: { count: 8000, ms: 60000 },
  async run(sim, lib) {
    const fields = Array.from({ length: sim.range(1, 3, "fields") }, (_, i) => genField(sim, i, { badOdds: 12 }));
    const shape = genShape(sim, fields);
    const n = sim.range(2, 4, "runs");
    const first = genWorld(sim, fields);
    // sources shared by construction: environment and answers are common to all runs
    const worlds = [first, ...Array.from({ length: n - 1 }, () => ({ ...genWorld(sim, fields), env: first.env, answers: first.answers }))];
    const deriveFromSeed = sim.int(2, "seedresolver") === 1;
    worlds.forEach((w, i) => { w.faultAt = sim.int(5, "fault") === 4 ? sim.pick(["load", "resolver"], "faultat") : null; w.i = i; if (!deriveFromSeed) w.derived = first.derived; });
    const modes = new Map(fields.map((f) => [f, [sim.int(2, "avp") === 1, sim.int(2, "ares") === 1]]));
    const faults = [];
    // the resolver of a run recognises it by the seed value of --run
    const resolvers = {};
    for (const f of fields) {
      if (!f.stack.some((l) => l.t === "derived")) continue;
      resolvers[f.key] = (seed) => {
        const w = worlds[deriveFromSeed ? seed.run ?? 0 : 0];
        const answer = () => {
          if (deriveFromSeed && w.faultAt === "resolver") { const e = new InjectedFault(`resolver of run ${w.i}`); faults.push([w.i, e]); sim.fault("resolver"); throw e; }
          return Object.hasOwn(w.derived, f.key) ? w.derived[f.key] : undefined;
        };
        return modes.get(f)[1] ? sim.op(`resolve ${f.key} run ${w.i}`, answer) : answer();
      };
    }
    const L = buildLayers(sim, lib, fields, first, {
      asyncVp: (f) => modes.get(f)[0],
      execute: (f, answer) => sim.op(`prompt ${f.key}`, answer),
      resolvers,
    });
    const C = lib["core-constructs"], P = lib["core-primitives"], V = lib["core-valueparser"];
    const settings = buildShape(lib, shape, fields, L.make);
    const parser = C.object({ run: P.option("--run", V.integer()), settings });
    const order = sim.shuffle([L.env, L.config, L.derived.context], "contexts");
    let active = 0, overlapped = false;
    const shared = sim.int(2, "sharedload") === 1;
    const desc = `\n fields: ${fields.map(fieldText).join("; ")} as ${shape.kind}@${shape.cut}, seed-dependent resolvers: ${deriveFromSeed}, one load(): ${shared}\n env ${show(first.env)} answers ${show(first.answers)}${worlds.map((w) => `\n run ${w.i}: argv ${show(shapeArgv(shape, w.argv))} config ${show(w.config)} derived ${show(w.derived)}${w.faultAt ? ` failing ${w.faultAt}` : ""}`).join("")}`;
    const loadOf = (w) => sim.op(`load ${w.i}`, () => {
      if (w.faultAt === "load") { const e = new InjectedFault(`load of run ${w.i}`); faults.push([w.i, e]); sim.fault("load"); throw e; }
      return { config: w.config, meta: undefined };
    });
    // one load() for all runs recognises its run by the parsed --run
    const sharedOptions = { load: (parsed) => worlds[parsed?.run] ? loadOf(worlds[parsed.run]) : { config: {}, meta: undefined } };
    const start = async (w) => {
      if (w.i > 0 && sim.int(2, "later") === 1) await sim.op(`start ${w.i}`);
      active++;
      if (active > 1) overlapped = true;
      try {
        const value = await lib["core-facade"].runWith(parser, "prog", order, { args: [...(shape.kind === "command" ? ["--run", String(w.i), ...shapeArgv(shape, w.argv)] : [...shapeArgv(shape, w.argv), "--run", String(w.i)])], contextOptions: shared ? sharedOptions : { load: () => loadOf(w) }, stderr: () => {}, onError: () => ({ failed: true }) });
        return { status: "ok", value };
      } catch (error) {
        return { status: "error", error };
      } finally {
        active--;
      }
    };
    const r = await sim.drive(() => Promise.all(worlds.map(start)), { what: `concurrent runs${desc}` });
    await sim.quiesce();
    if (overlapped) sim.count("overlapped");
    if (overlapped && shared) sim.count("shared-load");
    for (const w of worlds) {
      const o = r.value[w.i];
      const bad = (k, m) => { throw new Violation(k, `run ${w.i}: ${m}${desc}\n outcome ${o.status} ${show(o.status === "ok" ? o.value : o.error)}`); };
      sim.event(`${w.i}: ${o.status} ${show(o.value)}`);
      const mine = faults.filter(([i]) => i === w.i).map(([, e]) => e);
      if (o.status === "error") {
        if (!mine.includes(o.error)) bad("foreign-error", "failed although nothing of its own failed");
        sim.count("failed-run");
        continue;
      }
      if (mine.length > 0) bad("lost-error", `succeeded although ${mine[0]?.message ?? show(mine[0])}`);
      const model = fields.map((f) => [f, resolveField(f, w)]);
      const invalid = model.filter(([, m]) => !m.ok);
      const failed = o.value?.failed === true;
      if (invalid.length) { if (!failed) bad("accepted", `must be refused: ${show(invalid.map(([f, m]) => [f.opt, m.why, m.from]))}`); continue; }
      if (failed) bad("refused", `must succeed with ${show(model.map(([f, m]) => [f.key, m.value, m.from]))}`);
      sim.count("success");
      if (o.value.run !== w.i) bad("value", "reported another run's --run");
      const got = flatten(o.value.settings, fields);
      for (const [f, m] of model) if (show(got[f.key]) !== show(m.value)) bad("value", `${f.opt} should be ${show(m.value)} (from ${m.from}) but is ${show(got[f.key])}`);
      sim.cover(`${shape.kind}:${n}:${fields.map((f) => f.stack.map((l) => l.t).join(">")).join(",")}`);
    }
    return { nontrivial: overlapped, sample: { runs: n, results: show(r.value.map((o) => o.value ?? o.error)) } };
  },
};
