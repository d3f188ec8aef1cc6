// Workload + reference model for settings that draw their value from several
// sources: command line, environment, configuration, derived defaults,
// prompts, static defaults.
import { asyncValueParser, CHOICES } from "./gen.mjs";
import { SIMROOT } from "./seams.mjs";

export const LAYER_LIBS = ["core-constructs", "core-modifiers", "core-primitives", "core-valueparser", "core-parser", "core-message", "core-facade", "core-context", "env", "config", "derived-defaults", "prompt"];

export const anySchema = { "~standard": { version: 1, vendor: "sim", validate: (value) => ({ value }) } };

/** domain: every value kind has good values and out-of-constraint values */
const KINDS = {
  string: { good: ["alpha", "beta", "gamma"], bad: ["Bad1", "x y"] },
  integer: { good: [0, 7, 42, 100], bad: [500, -3] },
  choice: { good: CHOICES, bad: ["purple"] },
  flag: { good: [true, false], bad: [] },
};
export const kindOf = (vk) => KINDS[vk];
export const baseVp = (V, vk) => vk === "string" ? V.string({ pattern: /^[a-z]+$/ }) : vk === "integer" ? V.integer({ min: 0, max: 100 }) : V.choice(CHOICES);
/** the same type without the constraints (used for environment values) */
export const looseVp = (V, vk, lib) => vk === "flag" ? lib.env.bool() : vk === "integer" ? V.integer() : V.string();
const conforms = (vk, v) => KINDS[vk].good.includes(v) || (vk === "string" && typeof v === "string" && /^[a-z]+$/.test(v)) || (vk === "integer" && Number.isInteger(v) && v >= 0 && v <= 100);

function value(sim, vk, badOdds) {
  const k = KINDS[vk];
  return k.bad.length > 0 && badOdds > 0 && sim.int(badOdds, "bad") === badOdds - 1 ? sim.pick(k.bad, "badv") : sim.pick(k.good, "goodv");
}

/**
 * A field: { key, opt, vk, stack:[{t,dflt}], wrap, wrapDflt }
 * stack is ordered from the highest-priority wrapper inwards.
 */
export function genField(sim, i, { layers = ["env", "config", "derived", "prompt"], defaults = true, badOdds = 10, wraps = true, flags = true, maxLayers = 4 } = {}) {
  const vk = sim.weighted([[3, "string"], [3, "integer"], [3, "choice"], [flags ? 2 : 0, "flag"]], "vk");
  let chosen = layers.filter(() => sim.int(2, "layer") === 1).slice(0, maxLayers);
  // prompt() must be outermost and bindConfig() innermost: bindConfig() does
  // not consult the parser it wraps, and a derived default does not consult a
  // prompt below it
  const mid = sim.shuffle(chosen.filter((l) => l === "env" || l === "derived"), "order");
  chosen = [...(chosen.includes("prompt") ? ["prompt"] : []), ...mid, ...(chosen.includes("config") ? ["config"] : [])];
  const stack = chosen.map((t) => ({ t, dflt: undefined }));
  const bound = stack.filter((l) => l.t !== "prompt");
  let wrap = "none";
  if (wraps) wrap = sim.weighted([[4, "none"], [1, "group"], [1, "map"], [1, "groupmap"], [1, "optional"], [1, "withDefault"]], "wrap");
  // optional()/withDefault() never suppress a prompt and, by design, swallow
  // values that fail validation; withDefault() leaves a missing two-phase value
  // to prompt(): those combinations have no source-priority question
  if (chosen.includes("prompt") && (wrap === "optional" || wrap === "withDefault")) wrap = "group";
  if (wrap === "withDefault" && chosen.some((l) => l !== "env")) wrap = "map";
  const tolerant = chosen.includes("prompt") || wrap === "optional" || wrap === "withDefault";
  if (defaults && bound.length > 0 && sim.int(2, "dflt?") === 1) sim.pick(bound, "which").dflt = value(sim, vk, tolerant ? 0 : badOdds * 2);
  return { tolerant, keyFn: sim.int(3, "keyfn") === 2, key: `k${i}`, opt: `--f${i}`, vk, stack, wrap, wrapDflt: wrap === "withDefault" ? value(sim, vk, 0) : undefined };
}

/** Which source has what to say about each field. */
export function genWorld(sim, fields, { badOdds = 10 } = {}) {
  const w = { argv: [], cli: {}, env: {}, config: {}, derived: {}, answers: {} };
  for (const f of fields) {
    if (sim.int(3, "cli?") === 2) {
      w.cli[f.key] = f.vk === "flag" ? true : value(sim, f.vk, badOdds);
    }
    for (const l of f.stack) {
      if (l.t === "prompt") {
        w.answers[f.key] = value(sim, f.vk, 0);
        continue;
      }
      if (sim.int(2, "has?") === 1) w[l.t][f.key] = value(sim, f.vk, f.tolerant ? 0 : badOdds);
    }
  }
  const groups = Object.keys(w.cli).map((k) => { const f = fields.find((x) => x.key === k); if (f.vk === "flag") return [f.opt]; return sim.int(3, "eq") === 2 ? [`${f.opt}=${w.cli[k]}`] : [f.opt, String(w.cli[k])]; });
  w.argv = sim.shuffle(groups, "argvorder").flat();
  return w;
}

/** Reference model: {ok,value,from} | {ok:false, why} ; prompts = number of adapter calls. */
export function resolveField(f, w) {
  let prompts = 0;
  const check = (v, from) => conforms(f.vk, v) ? { ok: true, value: v, from } : { ok: false, why: "invalid", from };
  const inner = (i) => {
    if (i === f.stack.length) return { ok: false, why: "missing", from: "none" };
    const l = f.stack[i];
    switch (l.t) {
      case "prompt": {
        const r = inner(i + 1);
        if (r.ok) return r;
        prompts++;
        return { ok: true, value: w.answers[f.key], from: "prompt" };
      }
      case "env": case "config": case "derived": {
        if (Object.hasOwn(w[l.t], f.key)) return check(w[l.t][f.key], l.t);
        if (l.dflt !== undefined) return check(l.dflt, `${l.t}-default`);
        return inner(i + 1);
      }
    }
  };
  let r;
  if (Object.hasOwn(w.cli, f.key)) r = check(w.cli[f.key], "cli");
  else {
    r = inner(0);
    if (!r.ok && r.why === "missing") {
      if (f.wrap === "optional") r = { ok: true, value: undefined, from: "wrapper" };
      if (f.wrap === "withDefault") r = { ok: true, value: f.wrapDflt, from: "wrapper" };
    }
  }
  if (r.ok && r.value !== undefined && (f.wrap === "map" || f.wrap === "groupmap")) r = { ...r, value: { m: r.value } };
  return { ...r, prompts };
}

/**
 * Builds contexts + the parser of every field.
 * hooks: {asyncVp(f)->bool, asyncEnvVp(f), onPrompt(f), onResolve(f), ...}
 */
export function buildLayers(sim, lib, fields, w, hooks = {}) {
  const C = lib["core-constructs"], M = lib["core-modifiers"], P = lib["core-primitives"], V = lib["core-valueparser"];
  const E = lib.env, G = lib.config, DD = lib["derived-defaults"], PR = lib.prompt;
  const log = hooks.log ?? [];
  const env = E.createEnvContext({ prefix: "SIM_", source: hooks.envSource ?? ((k) => { const key = k.slice(4).toLowerCase(); return Object.hasOwn(w.env, key) ? String(w.env[key]) : undefined; }) });
  const config = G.createConfigContext({ schema: hooks.schema ?? anySchema });
  const resolvers = {};
  for (const f of fields) {
    if (!f.stack.some((l) => l.t === "derived")) continue;
    resolvers[f.key] = hooks.resolvers?.[f.key] ?? (() => {
      const answer = () => Object.hasOwn(w.derived, f.key) ? w.derived[f.key] : undefined;
      if (hooks.resolver) return hooks.resolver(f, answer);
      return answer();
    });
  }
  const derived = DD.createDerivedDefaults(resolvers);
  const prompt = PR.createPromptAdapter({
    execute: (cfg) => {
      log.push(`prompt ${cfg.field.key}`);
      if (hooks.execute) return hooks.execute(cfg.field, () => ({ success: true, value: w.answers[cfg.field.key] }));
      return sim.op(`prompt ${cfg.field.key}`, () => ({ success: true, value: w.answers[cfg.field.key] }));
    },
  });
  const make = (f) => {
    let vp = baseVp(V, f.vk);
    if (hooks.asyncVp?.(f)) vp = asyncValueParser(sim, vp, f.opt, hooks.vpEnv ?? {});
    let p = f.vk === "flag" ? P.flag(f.opt) : P.option(f.opt, vp);
    for (const l of [...f.stack].reverse()) {
      if (l.t === "env") {
        let evp = looseVp(V, f.vk, lib);
        if (p.mode === "async" && hooks.asyncEnvVp?.(f)) evp = asyncValueParser(sim, evp, `env ${f.key}`, hooks.vpEnv ?? {});
        p = E.bindEnv(p, { context: env, key: f.key.toUpperCase(), parser: evp, ...(l.dflt !== undefined ? { default: l.dflt } : {}) });
      } else if (l.t === "config") {
        p = G.bindConfig(p, { context: config, key: f.keyFn ? (c) => c[f.key] : f.key, ...(l.dflt !== undefined ? { default: l.dflt } : {}) });
      } else if (l.t === "derived") {
        p = DD.bindDerivedDefault(p, { context: derived.context, key: f.key, ...(l.dflt !== undefined ? { default: l.dflt } : {}) });
      } else p = prompt(p, { field: f });
    }
    if (f.wrap === "optional") p = M.optional(p);
    if (f.wrap === "withDefault") p = M.withDefault(p, f.wrapDflt);
    if (f.wrap === "map" || f.wrap === "groupmap") p = M.map(p, (m) => ({ m }));
    if (f.wrap === "group" || f.wrap === "groupmap") p = C.group("Group", p);
    return p;
  };
  return { env, config, derived, prompt, make, log };
}

/** Nests the fields in objects / merge / tuple-free shapes. */
export function genShape(sim, fields) {
  let kind = sim.weighted([[4, "flat"], [2, "nested"], [2, "merge"], [1, "groupobj"], [1, "command"], [1, "tuple"], [1, "concat"], [1, "inobj"], [1, "inconcat"], [1, "cond"], [1, "mapped"], [1, "mapalt"], [1, "tuplemap"], [1, "optobj"]], "shape");
  // in tuples optional()/withDefault() around a binding are outside the model
  if (["tuple", "concat", "inobj", "inconcat"].includes(kind) && fields.some((f) => f.wrap === "optional" || f.wrap === "withDefault")) kind = "flat";
  const cut = fields.length > 1 ? sim.range(1, fields.length - 1, "cut") : 1;
  return { kind, cut };
}
export function buildShape(lib, shape, fields, make) {
  const C = lib["core-constructs"], P = lib["core-primitives"];
  const obj = (fs) => C.object(Object.fromEntries(fs.map((f) => [f.key, make(f)])));
  const a = fields.slice(0, shape.cut), b = fields.slice(shape.cut);
  switch (shape.kind) {
    case "flat": return obj(fields);
    case "nested": return C.object({ ...Object.fromEntries(a.map((f) => [f.key, make(f)])), sub: b.length ? obj(b) : P.constant("none") });
    case "merge": return b.length ? C.merge(obj(a), obj(b)) : obj(a);
    case "tuple": return C.tuple(fields.map(make));
    case "concat": return b.length ? C.concat(C.tuple(a.map(make)), C.tuple(b.map(make))) : C.tuple(a.map(make));
    case "inobj": return C.object({ sub: C.tuple(fields.map(make)) });
    case "inconcat": return C.object({ sub: b.length ? C.concat(C.tuple(a.map(make)), C.tuple(b.map(make))) : C.tuple(a.map(make)) });
    case "cond": return C.object({ sub: lib["core-modifiers"].map(C.conditional(P.option("--kind", lib["core-valueparser"].choice(["one", "two"])), { one: obj(fields), two: C.object({}) }), (v) => v[1]) });
    case "mapped": return C.object({ sub: lib["core-modifiers"].map(C.object({ in: lib["core-modifiers"].map(obj(fields), (v) => v) }), (v) => v.in) });
    case "mapalt": return C.object({ sub: lib["core-modifiers"].map(C.or(P.command("one", obj(fields)), P.command("two", C.object({}))), (v) => v) });
    case "tuplemap": return C.object({ sub: lib["core-modifiers"].map(C.tuple([lib["core-modifiers"].map(obj(fields), (v) => v)]), (v) => v[0]) });
    case "optobj": return C.object({ sub: C.group("G", C.longestMatch(P.command("one", obj(fields)), P.command("three", C.object({})))) });
    case "groupobj": return C.group("All", obj(fields));
    case "command": return P.command("go", obj(fields));
  }
}
export function shapeArgv(shape, argv) {
  return shape.kind === "command" ? ["go", ...argv] : ["mapalt", "optobj"].includes(shape.kind) ? ["one", ...argv] : shape.kind === "cond" ? ["--kind", "one", ...argv] : argv;
}
export function flatten(value, fields) {
  if (value == null || typeof value !== "object") return value;
  if (Array.isArray(value)) return Object.fromEntries(value.map((v, i) => [fields[i].key, v]));
  const { sub, ...rest } = value;
  return sub && typeof sub === "object" ? { ...rest, ...flatten(sub, fields) } : rest;
}
export const fieldText = (f) => {
  let s = `option(${f.opt},${f.vk})`;
  for (const l of [...f.stack].reverse()) s = `${l.t}${l.dflt !== undefined ? `[default ${l.dflt}]` : ""}(${s})`;
  return f.wrap === "none" ? s : `${f.wrap}${f.wrap === "withDefault" ? `[${f.wrapDflt}]` : ""}(${s})`;
};
