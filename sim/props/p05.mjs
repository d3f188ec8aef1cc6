import { Violation, show } from "../core.mjs";
import { asyncValueParser, CHOICES, tryBuild } from "../gen.mjs";
import { anySchema } from "../layers.mjs";

const srcText = (s) => `${s.wrap}${s.wrap === "withDefault" ? `[${s.lazy ? (s.rotate ? "rotating " : "lazy ") : ""}${s.wdflt}]` : ""}(${s.layer ? `${s.layer}${s.ldflt !== undefined ? `[default ${s.ldflt}]` : ""}(` : ""}${s.opt}${s.isAsync ? "~" : ""}${s.layer ? ")" : ""})`;
const derText = (d) => `${d.wrap}(${d.opt}<-${d.srcs.map((s) => s.opt).join("+")}${d.isAsync ? "~" : ""} default ${d.dflts})`;

export default {
  needs: ["core-constructs", "core-modifiers", "core-primitives", "core-valueparser", "core-dependency", "core-parser", "core-message", "core-facade", "core-context", "env", "config", "derived-defaults"],
  rule: "1-2 dependency sources (plain, grouped, optional, mapped, defaulted, repeated, bound to environment/configuration/derived defaults) and 1-3 derived options declared in random field order and shape, random command line order, random completion order of asynchronous sources, factories and contexts; compared with a model that validates every derived value against the reported source values; non-trivial when a derived value was given",
  real: ["@optique/core dependency runtime, combinators, facade", "@optique/env, @optique/config, @optique/derived-defaults"],
  stubs: ["asynchronous value parsers, environment source, configuration loader and resolvers answer through the scheduler"],
  assumptions: ["a source nested inside a sibling combinator is declared before the options derived from it (a documented-by-behaviour limit, see DESIGN.md)", "prompted values are not dependency sources"],
  minimum: { accepted: 1000, "rejected-derived": 500, "source-from-cli": 1000, "source-from-layer": 200, "source-from-default": 300 },
  quick: { count: 20000, ms: 60000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], M = lib["core-modifiers"], P = lib["core-primitives"], V = lib["core-valueparser"], D = lib["core-dependency"], F = lib["core-facade"], Q = lib["core-parser"];
    const anyAsync = sim.int(4, "async") !== 0;
    const layered = sim.int(3, "layered") === 2;
    const shape = sim.pick(["flat", "merge", "tuple", "command", "group", "derivedNested", "sourceNestedFirst"], "shape");
    const world = { env: {}, config: {}, derived: {} };
    const sources = Array.from({ length: sim.range(1, 2, "nsrc") }, (_, i) => {
      const s = { kind: "src", key: `s${i}`, opt: `--s${i}`, isAsync: anyAsync && sim.int(2, "sasync") === 1, cli: [] };
      s.layer = layered ? sim.pick([null, "env", "config", "derived"], "layer") : null;
      s.wrap = sim.pick(s.layer ? shape === "tuple" ? ["none", "group"] : ["none", "group", "optional"] : ["none", "group", "optional", "map", "withDefault", "multiple", "groupopt", "nonEmptyopt"], "swrap");
      if (s.wrap === "withDefault") { s.wdflt = sim.pick(CHOICES, "wd"); s.lazy = sim.int(2, "lazy") === 1; s.rotate = s.lazy && sim.int(2, "rotate") === 1; }
      if (s.layer) {
        if (sim.int(2, "has") === 1) world[s.layer][s.key] = sim.pick(CHOICES, "lv");
        if (sim.int(3, "ld") === 2) s.ldflt = sim.pick(CHOICES, "ldv");
      }
      if (sim.int(5, "given") >= 2) s.cli = [sim.weighted([[9, sim.pick(CHOICES, "sv")], [1, "purple"]], "bad")];
      if (s.wrap === "multiple" && s.cli.length && sim.int(2, "rep") === 1) s.cli.push(sim.pick(CHOICES, "sv2"));
      return s;
    });
    // model of the sources
    for (const s of sources) {
      if (s.cli.length) {
        s.from = "cli";
        s.fails = s.cli.includes("purple");
        s.dep = s.cli.at(-1);
        s.value = s.wrap === "multiple" ? s.cli : s.wrap === "map" ? { m: s.dep } : s.dep;
      } else if (s.layer && Object.hasOwn(world[s.layer], s.key)) { s.from = "layer"; s.dep = s.value = world[s.layer][s.key]; } else if (s.ldflt !== undefined) { s.from = "layer"; s.dep = s.value = s.ldflt; } else if (s.wrap === "withDefault") { s.from = "default"; s.dep = s.value = s.wdflt; } else if (["optional", "groupopt"].includes(s.wrap)) { s.from = "absent"; s.value = undefined; } else if (s.wrap === "multiple") { s.from = "absent"; s.value = []; } else { s.from = "absent"; s.fails = true; }
    }
    const ders = Array.from({ length: sim.range(1, 3, "nder") }, (_, i) => {
      const srcs = sources.length > 1 && sim.int(2, "both") === 1 ? sim.shuffle(sources, "order") : [sim.pick(sources, "one")];
      const d = { kind: "der", key: `d${i}`, opt: `--d${i}`, srcs, dflts: srcs.map(() => sim.pick(CHOICES, "dd")), isAsync: anyAsync && sim.int(2, "dasync") === 1, wrap: sim.pick(["none", "group", "map", "optional"], "dwrap"), cli: null };
      d.deps = srcs.map((s, j) => s.dep ?? d.dflts[j]);
      const k = sim.int(6, "dk");
      const other = srcs.map(() => sim.pick(CHOICES, "oth")).join("+");
      d.cli = k === 0 ? null : k === 1 ? "common" : k === 2 ? `${other}-x` : k === 3 ? `${d.dflts.join("+")}-x` : `${d.deps.join("+")}-x`;
      if (d.cli == null) {
        d.fails = d.wrap !== "optional";
        d.value = undefined;
      } else {
        d.fails = d.cli !== "common" && d.cli !== `${d.deps.join("+")}-x`;
        d.value = d.wrap === "map" ? { m: d.cli } : d.cli;
      }
      return d;
    });
    const fields = sim.shuffle([...sources, ...ders], "fields");
    const cut = sim.range(1, fields.length, "cut");
    let lazyCalls = 0;
    const build = (A) => {
      const env = lib.env.createEnvContext({ prefix: "SIM_", source: (k) => world.env[k.slice(4).toLowerCase()] });
      const config = lib.config.createConfigContext({ schema: anySchema });
      const dd = lib["derived-defaults"].createDerivedDefaults(Object.fromEntries(sources.map((s) => [s.key, () => A && s.isAsync ? sim.op(`resolve ${s.key}`, () => world.derived[s.key]) : world.derived[s.key]])));
      const dep = new Map(sources.map((s) => [s, D.dependency(A && s.isAsync ? asyncValueParser(sim, V.choice(CHOICES), s.opt) : V.choice(CHOICES))]));
      const mk = (f) => {
        let p;
        if (f.kind === "src") {
          p = P.option(f.opt, dep.get(f));
          const d = f.ldflt !== undefined ? { default: f.ldflt } : {};
          if (f.layer === "env") p = lib.env.bindEnv(p, { context: env, key: f.key.toUpperCase(), parser: V.string(), ...d });
          if (f.layer === "config") p = lib.config.bindConfig(p, { context: config, key: f.key, ...d });
          if (f.layer === "derived") p = lib["derived-defaults"].bindDerivedDefault(p, { context: dd.context, key: f.key, ...d });
        } else {
          const inner = (vals) => { const v = V.choice([`${vals.join("+")}-x`, "common"]); return A && f.isAsync ? asyncValueParser(sim, v, f.opt) : v; };
          const async = A && f.isAsync;
          p = P.option(f.opt, f.srcs.length === 1
            ? dep.get(f.srcs[0])[async ? "deriveAsync" : "deriveSync"]({ metavar: "D", factory: (v) => inner([v]), defaultValue: () => f.dflts[0] })
            : D[async ? "deriveFromAsync" : "deriveFromSync"]({ metavar: "D", dependencies: f.srcs.map((s) => dep.get(s)), factory: (...vs) => inner(vs), defaultValues: () => f.dflts }));
        }
        switch (f.wrap) {
          case "none": return p;
          case "group": return C.group("G", p);
          case "optional": return M.optional(p);
          case "groupopt": return C.group("G", M.optional(p));
          case "map": return M.map(p, (m) => ({ m }));
          case "nonEmptyopt": return M.nonEmpty(p);
          case "multiple": return M.multiple(p);
          case "withDefault": return M.withDefault(p, f.lazy ? () => f.rotate ? CHOICES[(CHOICES.indexOf(f.wdflt) + lazyCalls++) % CHOICES.length] : f.wdflt : f.wdflt);
        }
      };
      const obj = (fs) => C.object(Object.fromEntries(fs.map((f) => [f.key, mk(f)])));
      let parser;
      switch (shape) {
        case "flat": parser = obj(fields); break;
        case "merge": parser = cut < fields.length ? C.merge(obj(fields.slice(0, cut)), obj(fields.slice(cut))) : obj(fields); break;
        case "tuple": parser = C.tuple(fields.map(mk)); break;
        case "command": parser = P.command("go", obj(fields)); break;
        case "group": parser = C.group("All", obj(fields)); break;
        case "derivedNested": parser = C.object({ ...Object.fromEntries(sources.map((f) => [f.key, mk(f)])), sub: obj(ders) }); break;
        case "sourceNestedFirst": parser = C.object({ sub: obj(sources), ...Object.fromEntries(ders.map((f) => [f.key, mk(f)])) }); break;
      }
      return { parser, contexts: layered ? [env, config, dd.context] : [] };
    };
    const groups = fields.flatMap((f) => (f.kind === "src" ? f.cli : f.cli == null ? [] : [f.cli]).map((v) => ({ f, t: sim.int(3, "eq") === 2 ? [`${f.opt}=${v}`] : [f.opt, v] })));
    // repeated values keep their relative order
    const order = sim.shuffle(groups, "argv");
    for (const s of sources) {
      const idx = order.map((g, i) => (g.f === s ? i : -1)).filter((i) => i >= 0);
      const gs = groups.filter((g) => g.f === s);
      idx.forEach((i, j) => { order[i] = gs[j]; });
    }
    const argv = [...(shape === "command" ? ["go"] : []), ...order.flatMap((g) => g.t)];
    const ctx = `\n sources: ${sources.map(srcText).join("; ")}\n derived: ${ders.map(derText).join("; ")}\n declared ${fields.map((f) => f.key).join(",")} as ${shape}@${cut}\n argv: ${show(argv)}${layered ? `\n env ${show(world.env)} config ${show(world.config)} derived ${show(world.derived)}` : ""}`;
    const built = tryBuild(() => build(true));
    if (built.error) throw new Violation("construction", `${show(built.error)}${ctx}`);
    const { parser, contexts } = built.value;
    const plain = (got) => {
      if (shape === "tuple") return Object.fromEntries((layered ? got.value : got).map((v, i) => [fields[i].key, v]));
      if (layered) got = got.value;
      if (!got.sub) return got;
      const { sub, ...rest } = got;
      return { ...rest, ...sub };
    };
    const r = await sim.drive(async () => {
      if (!layered) {
        const x = await Q.parseAsync(parser, argv);
        return x.success ? { value: x.value } : { failed: true, why: lib["core-message"].formatMessage(x.error, { quotes: false }) };
      }
      const x = await F.runWith(C.object({ value: parser }), "prog", contexts, {
        args: argv, contextOptions: { load: () => anyAsync ? sim.op("load", () => ({ config: world.config, meta: undefined })) : { config: world.config, meta: undefined } }, stderr: () => {}, onError: () => "failed",
      });
      return x === "failed" ? { failed: true } : { value: x };
    }, { what: `parse${ctx}` });
    await sim.quiesce();
    sim.event(`result ${show(r.value)}`);
    if (r.status === "error") throw new Violation("threw", `the parse rejected with ${show(r.error)}${ctx}`);
    const rotating = sources.filter((s) => s.rotate && s.from === "default");
    if (rotating.length) {
      // The default answers differently on every call: only the values of one
      // accepted parse have to agree with each other.
      if (r.value.failed) return { nontrivial: false };
      const got = plain(r.value.value);
      for (const s of rotating) { s.dep = s.value = got[s.key]; if (!CHOICES.includes(s.dep)) throw new Violation("value", `${s.opt} is ${show(s.dep)}${ctx}`); }
      for (const d of ders) {
        d.deps = d.srcs.map((s, j) => s.dep ?? d.dflts[j]);
        if (d.cli != null) d.fails = d.cli !== "common" && d.cli !== `${d.deps.join("+")}-x`;
      }
      sim.count("rotating-default");
    }
    const bad = fields.filter((f) => f.fails);
    for (const s of sources) sim.count(`source-from-${s.from}`);
    if (bad.length) {
      if (bad.every((f) => f.kind === "der" && f.cli != null)) sim.count("rejected-derived");
      if (!r.value.failed) throw new Violation("accepted", `accepted ${show(r.value.value)} although ${bad.map((f) => `${f.opt} is invalid${f.kind === "der" ? ` for ${f.deps.join("+")}` : ""}`).join(", ")}${ctx}`);
      return { nontrivial: true };
    }
    if (r.value.failed) throw new Violation("refused", `refused (${r.value.why}) although every value is valid${ctx}`);
    sim.count("accepted");
    const got = plain(r.value.value);
    for (const f of fields) if (show(got[f.key]) !== show(f.value)) throw new Violation("value", `${f.opt} should be ${show(f.value)} but is ${show(got[f.key])}${ctx}`);
    for (const s of sources) sim.cover(`${s.wrap}:${s.layer}:${s.from}:${shape}`);
    return { nontrivial: ders.some((d) => d.cli != null), sample: { sources: sources.map(srcText), derived: ders.map(derText), argv, result: show(got) } };
  },
};
