import { Violation, show } from "../core.mjs";
import { LAYER_LIBS, genField, genWorld, resolveField, buildLayers, genShape, buildShape, shapeArgv, flatten, fieldText } from "../layers.mjs";

export default {
  needs: LAYER_LIBS,
  rule: "random settings, each stacked from environment, derived-default, configuration and prompt bindings with random static defaults, random presence and validity of a value in every source, random argv order and random completion order of every asynchronous source; compared field by field with a reference model; non-trivial when some field had values in two or more sources",
  real: ["@optique/core facade (runWith two-phase runner), combinators, @optique/env, @optique/config, @optique/derived-defaults, @optique/prompt"],
  stubs: ["environment source, configuration loader, resolvers and prompt adapter answer through the scheduler"],
  assumptions: ["bindConfig() is the innermost binding and prompt() the outermost, as documented"],
  minimum: { success: 1000, rejected: 300, contested: 1000 },
  quick: { count: 16000, ms: 60000 },
  async run(sim, lib) {
    const n = sim.range(1, 4, "fields");
    const fields = Array.from({ length: n }, (_, i) => genField(sim, i));
    const w = genWorld(sim, fields);
    const shape = genShape(sim, fields);
    // an options terminator supplies no value
    if (sim.int(6, "terminator") === 5) { w.argv.push("--"); sim.count("terminator"); }
    const modes = new Map(fields.map((f) => [f, [sim.int(2, "avp") === 1, sim.int(2, "aevp") === 1, sim.int(2, "ares") === 1]]));
    const asyncLoad = sim.int(2, "aload") === 1;
    const anyLate = sim.int(4, "sched") !== 0;
    const log = [];
    const L = buildLayers(sim, lib, fields, w, {
      log,
      asyncVp: (f) => anyLate && modes.get(f)[0],
      asyncEnvVp: (f) => modes.get(f)[1],
      resolver: (f, answer) => anyLate && modes.get(f)[2] ? sim.op(`resolve ${f.key}`, answer) : answer(),
    });
    const parser = buildShape(lib, shape, fields, L.make);
    const contexts = sim.shuffle([L.env, L.config, L.derived.context], "contexts");
    const load = () => {
      log.push("load");
      const r = { config: w.config, meta: undefined };
      return asyncLoad && anyLate ? sim.op("load", () => r) : r;
    };
    const ctx = `\n fields: ${fields.map(fieldText).join("; ")} as ${shape.kind}@${shape.cut}\n argv:   ${show(shapeArgv(shape, w.argv))}\n env ${show(w.env)} config ${show(w.config)} derived ${show(w.derived)} answers ${show(w.answers)}`;
    const syncOnly = !anyLate && !fields.some((f) => f.stack.some((l) => l.t === "prompt")) && parser.mode === "sync" && sim.int(3, "sync") !== 0;
    const opts = { args: shapeArgv(shape, w.argv), contextOptions: { load }, stderr: () => {}, onError: () => ({ failed: true }) };
    if (syncOnly) sim.count("sync-runner");
    const r = await sim.drive(async () => syncOnly ? lib["core-facade"].runWithSync(parser, "prog", contexts, opts) : await lib["core-facade"].runWith(parser, "prog", contexts, opts), { what: `runWith${ctx}` });
    await sim.quiesce();
    sim.event(`result ${show(r.value)}`);
    if (r.status === "error") throw new Violation("threw", `runWith rejected: ${show(r.error)}${ctx}`);
    const model = fields.map((f) => [f, resolveField(f, w)]);
    const bad = model.filter(([, m]) => !m.ok);
    const failed = r.value?.failed === true;
    const contested = fields.some((f) => ["cli", "env", "config", "derived"].filter((s) => Object.hasOwn(w[s], f.key)).length >= 2);
    if (contested) sim.count("contested");
    if (bad.length > 0) {
      sim.count("rejected");
      if (!failed) throw new Violation("accepted", `parse succeeded with ${show(r.value)} although ${bad.map(([f, m]) => `${f.opt} is ${m.why} (${m.from})`).join(", ")}${ctx}`);
      return { nontrivial: contested };
    }
    if (failed) throw new Violation("refused", `parse failed although every setting has a valid value: ${show(model.map(([f, m]) => [f.key, m.value, m.from]))}${ctx}`);
    sim.count("success");
    const got = flatten(r.value, fields);
    for (const [f, m] of model) {
      if (show(got[f.key]) !== show(m.value)) throw new Violation("value", `${f.opt} should be ${show(m.value)} (from ${m.from}) but is ${show(got[f.key])}${ctx}`);
      sim.count(`from-${m.from}`);
      sim.cover(`${f.stack.map((l) => l.t + (l.dflt !== undefined ? "*" : "")).join(">")}|${f.wrap}|${m.from}`);
    }
    return { nontrivial: contested, sample: { fields: fields.map(fieldText), argv: w.argv, result: show(r.value) } };
  },
};
