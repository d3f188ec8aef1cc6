import { Violation, show, InjectedFault } from "../core.mjs";
import { LAYER_LIBS } from "../layers.mjs";

const VALUES = ["red", "green", "blue"];

export default {
  needs: LAYER_LIBS,
  rule: "2-6 settings spread over nested shapes, some of them derived by resolvers that compute a value from other settings and encode in it what they saw; resolvers answer immediately or later in any order, decline, return invalid values, throw or reject; one or two derived-default contexts, next to environment and configuration contexts; each scenario is executed under two independent schedules; non-trivial when a resolver ran",
  real: ["@optique/derived-defaults, @optique/core facade (two-phase runner) and combinators, @optique/env, @optique/config"],
  stubs: ["resolvers, configuration loader and value parsers answer through the scheduler"],
  assumptions: ["a resolver only looks at settings that have a value on the command line, from a default or from the environment (the seed is documented as best effort for the rest)"],
  minimum: { resolved: 3000, "resolver-failed": 800, declined: 500, invalid: 200 },
  quick: { count: 10000, ms: 60000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], P = lib["core-primitives"], V = lib["core-valueparser"], M = lib["core-modifiers"], DD = lib["derived-defaults"];
    const n = sim.range(2, 6, "fields");
    const fields = Array.from({ length: n }, (_, i) => {
      const kind = i === 0 ? "plain" : sim.weighted([[3, "derived"], [2, "plain"], [1, "default"], [1, "env"], [1, "optional"], [1, "config"]], "kind");
      const f = { i, key: `f${i}`, opt: `--f${i}`, kind, given: sim.int(2, "given") === 1, value: sim.pick(VALUES, "v"), asyncVp: sim.int(4, "avp") === 3 };
      if (kind === "plain") f.given = true;
      if (kind === "env") f.env = sim.int(2, "env") === 1 || !f.given ? sim.pick(VALUES, "ev") : undefined;
      if (kind === "config") f.config = sim.pick(VALUES, "cfg");
      if (kind === "derived") {
        f.ctx = sim.int(3, "ctx") === 2 ? 1 : 0;
        f.late = sim.int(2, "late") === 1;
        f.answer = sim.weighted([[6, "value"], [2, "undefined"], [1, "invalid"], [1, "throw"], [1, "null"]], "answer");
        f.dflt = sim.int(2, "dflt") === 1 ? "fallback" : undefined;
        f.arity = sim.int(4, "arity") === 3 ? 0 : 1;
        f.rkey = sim.int(5, "rkey") === 4 ? Symbol(f.key) : f.key;
      }
      return f;
    });
    // the whole parser may yield a value that has no fields to look at
    const falsy = sim.int(8, "falsy") === 7 ? sim.pick([0, "", false], "falsyv") : undefined;
    // (resolvers that take the parsed value need a first pass that succeeds)
    const seedless = falsy !== undefined && sim.int(2, "seedless") === 1;
    if (falsy !== undefined && !seedless) for (const f of fields) if (f.kind === "derived" || f.kind === "config") f.given = true;
    for (const f of fields) if (f.kind === "derived") f.looks = f.arity === 0 || falsy !== undefined ? [] : fields.filter((g) => g !== f && (g.given || g.kind === "default" || g.kind === "env") && sim.int(2, "looks") === 1);
    const derived = fields.filter((f) => f.kind === "derived");
    // what a setting is worth without derived values
    const worth = (g) => g.given ? g.value : g.kind === "default" ? "dflt" : g.kind === "env" ? g.env : undefined;
    const produced = (f) => `d${f.i}` + f.looks.map((g) => `.${worth(g)}`).join("");
    const shape = sim.pick(["flat", "nested", "merge", "reordered"], "shape");
    const cut = sim.range(1, n, "cut");
    const ordered = shape === "reordered" ? sim.shuffle(fields, "order") : fields;
    const argv = sim.shuffle(fields.filter((f) => f.given), "argv").flatMap((f) => [f.opt, f.value]);
    const ctx = `\n ${shape}@${cut}${falsy === undefined ? "" : ` mapped to ${show(falsy)}`}: ${ordered.map((f) => `${f.key}:${f.kind}${f.given ? `=${f.value}` : ""}${f.kind === "derived" ? `(context ${f.ctx}, looks at ${f.looks.map((g) => g.key)}, ${f.late ? "later " : ""}${f.answer}, default ${f.dflt}, arity ${f.arity}${typeof f.rkey === "symbol" ? " symbol key" : ""})` : ""}${f.asyncVp ? "~" : ""}`).join(" ")}\n env ${show(Object.fromEntries(fields.filter((f) => f.env).map((f) => [f.key, f.env])))} argv ${show(argv)}`;
    const canSync = !fields.some((f) => f.asyncVp || (f.kind === "derived" && f.late));
    const keyOrder = sim.shuffle(derived, "resolverorder");
    const ctxOrder = sim.int(2, "ctxorder");
    const contextShuffle = sim.shuffle([0, 1, 2, 3], "contexts");

    const once = async (round) => {
      const calls = [], raised = [];
      let running = 0;
      const seedOf = (seed, g) => seed?.[g.key] ?? seed?.sub?.[g.key];
      const resolverOf = (f) => {
        const body = (seed) => {
          calls.push({ key: f.key, seed });
          const finish = () => {
            if (f.answer === "throw") { const e = new InjectedFault(`resolver ${f.key}`); sim.fault("resolver"); raised.push(e); throw e; }
            if (f.answer === "undefined") return undefined;
            if (f.answer === "null") return null;
            if (f.answer === "invalid") return "NOT valid!";
            return `d${f.i}` + f.looks.map((g) => `.${seedOf(seed, g)}`).join("");
          };
          if (!f.late) return finish();
          running++;
          return sim.op(`resolver ${f.key}`, () => { running--; return finish(); });
        };
        return f.arity === 0 ? () => body(undefined) : (seed) => body(seed);
      };
      const dds = [0, 1].map((c) => DD.createDerivedDefaults(Object.fromEntries(keyOrder.filter((f) => f.ctx === c).map((f) => [f.rkey, resolverOf(f)]))));
      const env = lib.env.createEnvContext({ source: (k) => fields.find((f) => f.key.toUpperCase() === k)?.env });
      const config = lib.config.createConfigContext({ schema: { "~standard": { version: 1, vendor: "sim", validate: (value) => ({ value }) } } });
      const vp = (f) => {
        const base = f.kind === "derived" ? V.string({ pattern: /^[a-z0-9.]+$/ }) : V.string({ pattern: /^[a-z]+$/ });
        return f.asyncVp ? { ...base, mode: "async", parse: (x) => sim.op(`parse ${f.key}`, () => base.parse(x)), async *suggest() {} } : base;
      };
      const make = (f) => {
        const o = P.option(f.opt, vp(f));
        switch (f.kind) {
          case "plain": return o;
          case "optional": return M.optional(o);
          case "default": return M.withDefault(o, "dflt");
          case "env": return lib.env.bindEnv(o, { context: env, key: f.key.toUpperCase(), parser: V.string() });
          case "config": return lib.config.bindConfig(o, { context: config, key: f.key });
          case "derived": return DD.bindDerivedDefault(o, { context: dds[f.ctx].context, key: f.rkey, ...(f.dflt ? { default: f.dflt } : {}) });
        }
      };
      const obj = (fs) => C.object(Object.fromEntries(fs.map((f) => [f.key, make(f)])));
      let whole;
      const plain = shape === "nested" && cut < n ? C.object({ ...Object.fromEntries(fields.slice(0, cut).map((f) => [f.key, make(f)])), sub: obj(fields.slice(cut)) })
        : shape === "merge" && cut < n ? C.merge(obj(fields.slice(0, cut)), obj(fields.slice(cut))) : obj(ordered);
      const parser = falsy === undefined ? plain : M.map(plain, (v) => { whole = v; return falsy; });
      const all = [dds[ctxOrder].context, dds[1 - ctxOrder].context, env, config];
      const contexts = contextShuffle.map((k) => all[k]);
      const runner = canSync && round === 1 ? "runWithSync" : "runWith";
      let runningAtEnd = 0;
      const start = async () => { try { return await lib["core-facade"][runner](parser, "prog", contexts, { args: argv, contextOptions: { load: () => ({ config: Object.fromEntries(fields.filter((f) => f.config).map((f) => [f.key, f.config])), meta: undefined }) }, stderr: () => {}, onError: () => "FAILED" }); } finally { runningAtEnd = running; } };
      const r = await sim.drive(start, { what: `${runner}${ctx}` });
      const callsAtEnd = calls.length;
      await sim.quiesce();
      const bad = (k, m) => { throw new Violation(k, `${m}${ctx}\n outcome ${r.status} ${show(r.status === "ok" ? r.value : r.error)} calls ${show(calls)}`); };
      if (calls.length !== callsAtEnd) bad("late-call", "a resolver was called after the run had settled");
      if (runningAtEnd > 0) bad("left-running", "the run settled while a resolver was still running");
      for (const f of derived) if (calls.filter((c) => c.key === f.key).length > 1) bad("called-twice", `the resolver of ${f.key} was called more than once`);
      for (const c of calls) {
        const f = fields.find((x) => x.key === c.key);
        for (const g of f.looks) if (seedOf(c.seed, g) !== worth(g)) bad("stale-seed", `the resolver of ${f.key} saw ${g.key}=${show(seedOf(c.seed, g))} instead of ${show(worth(g))}`);
      }
      if (raised.length > 0) {
        sim.count("resolver-failed");
        if (r.status !== "error" || !raised.includes(r.error)) bad("lost-error", `a resolver failed (${raised.map((e) => e.label)}) but the run did not fail with its error`);
        return `error ${r.error.label}`;
      }
      if (r.status === "error") bad("threw", "the run failed although no resolver did");
      // without a first result there is nothing for resolvers that look at it
      const seeded = derived.filter((f) => f.arity === 1);
      const skipped = seedless && seeded.length > 0 && fields.some((f) => !f.given && (f.kind === "config" || f.kind === "derived")) && !calls.some((c) => seeded.some((f) => f.key === c.key));
      if (skipped) sim.count("seedless");
      for (const f of derived) if (!calls.some((c) => c.key === f.key) && !(skipped && f.arity === 1)) bad("not-called", `the resolver of ${f.key} was never called`);
      let fail = false;
      const expect = {};
      for (const f of fields) {
        if (f.given || ["default", "env"].includes(f.kind)) expect[f.key] = worth(f);
        else if (f.kind === "config") expect[f.key] = f.config;
        else if (f.kind === "optional") expect[f.key] = undefined;
        else if (skipped && f.arity === 1) { if (f.dflt === undefined) fail = true; else expect[f.key] = f.dflt; }
        else if (f.answer === "invalid") { sim.count("invalid"); fail = true; }
        else if (f.answer === "undefined") { sim.count("declined"); if (f.dflt === undefined) fail = true; else expect[f.key] = f.dflt; }
        else if (f.answer === "null") { sim.count("null"); expect[f.key] = null; }
        else { sim.count("resolved"); expect[f.key] = produced(f); }
      }
      if (fail) { if (r.value !== "FAILED") bad("accepted", "a derived value is missing or invalid but the parse succeeded"); return "failed"; }
      if (r.value === "FAILED") bad("refused", `the parse failed although every setting has a valid value ${show(expect)}`);
      if (falsy !== undefined && r.value !== falsy) bad("value", "the mapped value got lost");
      const { sub, ...top } = falsy === undefined ? r.value : whole;
      const got = { ...top, ...(sub ?? {}) };
      for (const f of fields) if (got[f.key] !== expect[f.key]) bad("value", `${f.key} should be ${show(expect[f.key])} but is ${show(got[f.key])}`);
      sim.cover(`${shape}:${derived.map((f) => `${f.answer}${f.late}`).sort()}`);
      return show(got);
    };
    const a = await once(0);
    const b = await once(1);
    if (derived.length && a !== b) throw new Violation("schedule-dependent", `two schedules gave different outcomes:\n ${a}\n ${b}${ctx}`);
    return { nontrivial: derived.length > 0, sample: { scenario: ctx, outcome: a } };
  },
};
