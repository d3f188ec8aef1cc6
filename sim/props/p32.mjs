import { Violation, show, InjectedFault } from "../core.mjs";
import { LAYER_LIBS } from "../layers.mjs";
import { asyncValueParser, CHOICES } from "../gen.mjs";

const KEYS = ["a", "b", "c"];

function genLeaf(sim, st) {
  const i = st.n++;
  const need = sim.weighted([[3, "required"], [2, "optional"], [2, "default"], [2, "flag"], [1, "multiple"], [2, "prompt"], [1, "env"]], "need");
  const vk = need === "flag" ? "flag" : sim.pick(["string", "choice"], "vk");
  return { i, key: `f${i}`, opt: `--f${i}`, need, vk, async: need !== "flag" && sim.int(3, "asy") === 2, envv: need === "env" && sim.int(2, "env?") === 1 ? pickValue(sim, vk) : undefined, answer: pickValue(sim, vk === "flag" ? "string" : vk) };
}
const pickValue = (sim, vk) => vk === "choice" ? sim.pick(CHOICES, "v") : sim.pick(["alpha", "beta"], "v");
function genNode(sim, st, depth, siblings = []) {
  const leaves = Array.from({ length: sim.range(0, 2, "leaves") }, () => {
    // now and then two branches accept the same option
    const other = siblings.flatMap((s) => s.leaves);
    const l = other.length && sim.int(6, "share") === 5 ? sim.pick(other, "shared") : genLeaf(sim, st);
    return l;
  });
  const uniq = [...new Set(leaves)];
  const sub = depth > 0 && sim.int(3, "nest") === 2 ? genCond(sim, st, depth - 1) : null;
  return { leaves: uniq, sub };
}
function genCond(sim, st, depth) {
  const i = st.conds++;
  const keys = KEYS.slice(0, sim.range(2, 3, "keys"));
  const kind = sim.weighted([[4, "prompt"], [3, "env"], [2, "config"], [2, "derived"], [2, "default"], [1, "bare"]], "disc");
  const branches = {};
  for (const k of keys) branches[k] = genNode(sim, st, depth, Object.values(branches));
  const dflt = sim.int(2, "dflt?") ? { leaves: Array.from({ length: sim.range(0, 2, "dl") }, () => genLeaf(sim, st)), sub: null } : null;
  const disc = { kind, opt: `--kind${i}`, async: sim.int(2, "dasync") === 1, wrap: sim.weighted([[3, null], [1, "map"], [1, "group"]], "dwrap") };
  const what = kind === "bare" ? "missing" : sim.weighted([[8, "key"], [1, "unknown"], [kind === "prompt" || kind === "default" ? 0 : 1, "missing"]], "dwhat");
  disc.value = what === "key" ? sim.pick(keys, "dv") : what === "unknown" ? "zz" : undefined;
  // on the command line
  disc.cli = sim.int(5, "dcli") === 4 ? sim.pick(keys, "dcv") : undefined;
  const v = disc.cli ?? disc.value;
  const target = sim.weighted([[6, "own"], [1, "other"], [dflt ? 2 : 0, "default"], [1, "none"]], "target");
  const t = target === "none" ? null : target === "default" ? "default" : target === "own" && keys.includes(v) ? v : sim.pick(keys, "t");
  return { i, disc, keys, branches, dflt, t };
}
const optsOf = (node) => new Set([...node.leaves.map((l) => l.opt), ...(node.sub ? condOpts(node.sub) : [])]);
const condOpts = (c) => [c.disc.opt, ...c.keys.flatMap((k) => [...optsOf(c.branches[k])]), ...(c.dflt ? [...optsOf(c.dflt)] : [])];

/** what is given on the command line: opt -> list of values; returns token groups in order */
function genTokens(sim, c, given) {
  const groups = [];
  const node = c.t === null ? null : c.t === "default" ? c.dflt : c.branches[c.t];
  if (node) {
    for (const l of node.leaves) {
      const p = l.need === "required" ? 8 : 4;
      if (sim.int(8, "give") >= p) continue;
      if (l.need === "flag") { given.set(l.opt, [true]); groups.push([l.opt]); continue; }
      const vs = Array.from({ length: l.need === "multiple" ? sim.range(1, 2, "mult") : 1 }, () => pickValue(sim, l.vk));
      given.set(l.opt, vs);
      for (const v of vs) groups.push(sim.int(3, "eq") === 2 ? [`${l.opt}=${v}`] : [l.opt, v]);
    }
    if (node.sub && sim.int(4, "subgive") !== 3) {
      const sub = genTokens(sim, node.sub, given);
      const at = sim.int(groups.length + 1, "at");
      const order = sim.shuffle(groups, "gorder");
      groups.splice(0, groups.length, ...order.slice(0, at), ...sub, ...order.slice(at));
    }
  }
  if (c.disc.cli !== undefined) { given.set(c.disc.opt, [c.disc.cli]); groups.unshift([c.disc.opt, c.disc.cli]); }
  return groups;
}

// ---- model: list of acceptable outcomes; an outcome is {value, prompts} or null (refused) ----
const REFUSE = [null];
function evalNode(node, given, wrapValue) {
  let outs = [{ value: {}, prompts: [] }];
  for (const l of node.leaves) {
    let v, prompts = [], bad = false;
    if (given.has(l.opt)) v = l.need === "multiple" ? given.get(l.opt) : given.get(l.opt)[0];
    else if (l.need === "required") bad = true;
    else if (l.need === "env") { if (l.envv === undefined) bad = true; else v = l.envv; }
    else if (l.need === "optional") v = undefined;
    else if (l.need === "default") v = "dflt";
    else if (l.need === "flag") v = false;
    else if (l.need === "multiple") v = [];
    else if (l.need === "prompt") { v = l.answer; prompts = [l.key]; }
    if (bad) return REFUSE;
    outs = outs.map((o) => ({ value: { ...o.value, [l.key]: v }, prompts: o.prompts && [...o.prompts, ...prompts] }));
  }
  if (node.sub) {
    const mine = new Set(condOpts(node.sub));
    const subs = evalCond(node.sub, new Map([...given].filter(([k]) => mine.has(k))));
    outs = outs.flatMap((o) => subs.map((s) => s && { value: { ...o.value, sub: s.value }, prompts: o.prompts && s.prompts && [...o.prompts, ...s.prompts] }));
  }
  return outs.map((o) => o && { value: wrapValue(o.value), prompts: o.prompts });
}
function evalCond(c, given) {
  const mine = new Map([...given].filter(([k]) => k !== c.disc.opt));
  const T = [...mine.keys()];
  const within = (node) => { const o = optsOf(node); return T.every((t) => o.has(t)); };
  const explicit = given.has(c.disc.opt);
  const asked = c.disc.kind === "prompt" && !explicit;
  const v = explicit ? given.get(c.disc.opt)[0] : c.disc.value;
  const named = (k) => within(c.branches[k]) ? evalNode(c.branches[k], mine, (x) => [k, x]).map((o) => o && { ...o, prompts: o.prompts && [...(asked ? [`kind${c.i}`] : []), ...o.prompts] }) : REFUSE;
  const deflt = () => c.dflt && within(c.dflt) ? evalNode(c.dflt, mine, (x) => [undefined, x]).map((o) => o && { ...o, prompts: null }) : REFUSE;
  if (explicit) return named(v);
  const hits = c.keys.filter((k) => { const o = optsOf(c.branches[k]); return T.some((t) => o.has(t)); });
  const key = c.keys.includes(v);
  if (c.disc.isAsync) {
    if (T.length === 0) return key ? named(v) : deflt();
    if (hits.length === 0) return key ? [...deflt(), null] : deflt();
    if (!key || !hits.includes(v)) return REFUSE;
    return hits.length === 1 ? named(v) : [...named(v), null];
  }
  if (!key) return deflt();
  if (T.length && hits.length === 0) return [...deflt(), null];
  return named(v);
}

export default {
  needs: [...LAYER_LIBS],
  rule: "conditional() parsers (two or three named branches, often a default branch, nested up to two deep; options, flags, repeated, defaulted, prompted and environment-bound fields; now and then an option that two branches share) inside objects, merges, tuples, groups, map() and commands, whose discriminators draw their value from a prompt, the environment, a configuration, a derived default, a static default or the command line, synchronously or not; command lines written for the branch of that value, for another branch, for the default branch or for none; prompts and value parsers that answer at random moments and throw at a random call; non-trivial when a discriminator is not on the command line",
  real: ["@optique/core conditional() and the other combinators, parser, facade; @optique/env, @optique/config, @optique/derived-defaults, @optique/prompt bindings"],
  stubs: ["prompt adapter and asynchronous value parsers answer through the scheduler", "environment, configuration and resolvers"],
  assumptions: ["options accepted by several named branches may be refused, and options of the default branch may be refused, when the discriminator is not on the command line (documented)"],
  minimum: { deferred: 9000, accepted: 6000, mismatch: 400, "default-branch": 900, nested: 2500, failed: 500 },
  quick: { count: 12000, ms: 60000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], P = lib["core-primitives"], V = lib["core-valueparser"], M = lib["core-modifiers"], F = lib["core-facade"];
    const st = { n: 0, conds: 0 };
    const top = genCond(sim, st, sim.weighted([[2, 0], [2, 1], [1, 2]], "depth"));
    const conds = [], leaves = new Map();
    (function walk(c) {
      conds.push(c);
      for (const n of [...c.keys.map((k) => c.branches[k]), ...(c.dflt ? [c.dflt] : [])]) { for (const l of n.leaves) leaves.set(l.key, l); if (n.sub) walk(n.sub); }
    })(top);
    const outer = sim.weighted([[2, "plain"], [3, "field"], [1, "merge"], [1, "tuple"], [1, "group"], [1, "map"], [1, "command"]], "outer");
    const given = new Map();
    let groups = genTokens(sim, top, given);
    // repeated values in the order of the command line
    for (const l of leaves.values()) if (given.has(l.opt) && l.need === "multiple") given.set(l.opt, groups.flatMap((g) => g[0] === l.opt ? [g[1]] : g[0].startsWith(`${l.opt}=`) ? [g[0].slice(l.opt.length + 1)] : []));
    const x = ["field", "merge", "tuple"].includes(outer) && sim.int(2, "x?") ? pickValue(sim, "string") : undefined;
    if (x !== undefined) { const at = sim.int(groups.length + 1, "xat"); groups = [...groups.slice(0, at), ["--x", x], ...groups.slice(at)]; }
    const argv = [...(outer === "command" ? ["go"] : []), ...groups.flat()];
    const fault = sim.int(8, "fault") === 7 ? { at: sim.int(3, "at") } : null;
    const raised = [];
    let ops = 0, settled = false, open = 0;
    const hit = (what) => {
      if (fault && ops++ === fault.at) { sim.fault(what); const e = new InjectedFault(what); raised.push(e); throw e; }
    };
    const asked = [];
    const prompt = lib.prompt.createPromptAdapter({
      execute: (cfg) => {
        asked.push(cfg.name);
        if (settled) throw new Violation("late-prompt", `${cfg.name} was prompted after the run had settled`);
        open++;
        return sim.op(`prompt ${cfg.name}`, () => { open--; hit("prompt-throw"); return { success: true, value: cfg.answer }; });
      },
    });
    const env = lib.env.createEnvContext({ source: (k) => {
      const c = conds.find((q) => `KIND${q.i}` === k);
      if (c) return c.disc.kind === "env" ? c.disc.value : undefined;
      return [...leaves.values()].find((l) => l.key.toUpperCase() === k)?.envv;
    } });
    const config = lib.config.createConfigContext({ schema: { "~standard": { version: 1, vendor: "sim", validate: (value) => ({ value }) } } });
    const dd = lib["derived-defaults"].createDerivedDefaults(Object.fromEntries(conds.filter((c) => c.disc.kind === "derived").map((c) => [`kind${c.i}`, () => sim.maybeOp(`resolve kind${c.i}`, () => c.disc.value)])));
    const slow = (vp, label) => ({ ...asyncValueParser(sim, { ...vp, parse: (s) => { hit("valueparser-throw"); return vp.parse(s); } }, label) });
    const made = new Map();
    const make = (l) => {
      let vp = l.vk === "choice" ? V.choice(CHOICES) : V.string();
      if (l.async) vp = slow(vp, l.opt);
      switch (l.need) {
        case "flag": return P.option(l.opt);
        case "optional": return M.optional(P.option(l.opt, vp));
        case "default": return M.withDefault(P.option(l.opt, vp), "dflt");
        case "multiple": return M.multiple(P.option(l.opt, vp));
        case "prompt": return prompt(P.option(l.opt, vp), { name: l.key, answer: l.answer });
        case "env": return lib.env.bindEnv(P.option(l.opt, vp), { context: env, key: l.key.toUpperCase(), parser: V.string() });
        default: return P.option(l.opt, vp);
      }
    };
    const buildNode = (n) => C.object({ ...Object.fromEntries(n.leaves.map((l) => [l.key, make(l)])), ...(n.sub ? { sub: buildCond(n.sub) } : {}) });
    const buildCond = (c) => {
      let vp = V.choice([...c.keys, "zz"]);
      if (c.disc.async) vp = slow(vp, c.disc.opt);
      let d = P.option(c.disc.opt, vp);
      switch (c.disc.kind) {
        case "prompt": d = prompt(d, { name: `kind${c.i}`, answer: c.disc.value }); break;
        case "env": d = lib.env.bindEnv(d, { context: env, key: `KIND${c.i}`, parser: c.disc.async && c.disc.wrap !== "map" ? slow(V.string(), "env kind") : V.string() }); break;
        case "config": d = lib.config.bindConfig(d, { context: config, key: `kind${c.i}` }); break;
        case "derived": d = lib["derived-defaults"].bindDerivedDefault(d, { context: dd.context, key: `kind${c.i}` }); break;
        case "default": d = M.withDefault(d, c.disc.value); break;
      }
      if (c.disc.wrap === "map") d = M.map(d, (v) => v);
      if (c.disc.wrap === "group") d = C.group("Kind", d);
      c.disc.isAsync = d.mode === "async";
      return C.conditional(d, Object.fromEntries(c.keys.map((k) => [k, buildNode(c.branches[k])])), c.dflt ? buildNode(c.dflt) : undefined);
    };
    const inner = buildCond(top);
    const parser = outer === "field" ? C.object({ x: M.optional(P.option("--x", V.string())), sub: inner })
      : outer === "merge" ? C.merge(C.object({ x: M.optional(P.option("--x", V.string())) }), C.object({ sub: inner }))
      : outer === "tuple" ? C.tuple([M.optional(P.option("--x", V.string())), inner])
      : outer === "group" ? C.group("G", inner)
      : outer === "map" ? M.map(inner, (v) => ({ v }))
      : outer === "command" ? P.command("go", inner) : inner;
    const wrap = (v) => outer === "field" || outer === "merge" ? { x, sub: v } : outer === "tuple" ? [x, v] : outer === "map" ? { v } : v;
    const kinds = new Set(conds.map((c) => c.disc.kind));
    const twoPass = kinds.has("config") || kinds.has("derived");
    const usesEnv = kinds.has("env") || [...leaves.values()].some((l) => l.need === "env");
    const contexts = sim.shuffle([...(usesEnv || sim.int(2, "ctx") ? [env] : []), ...(kinds.has("config") ? [config] : []), ...(kinds.has("derived") ? [dd.context] : [])], "contexts");
    const leafText = (l) => `${l.opt}:${l.need}${l.async ? "~" : ""}${l.envv !== undefined ? `=${l.envv}` : ""}`;
    const nodeText = (n) => `{${[...n.leaves.map(leafText), ...(n.sub ? [condText(n.sub)] : [])].join(", ")}}`;
    const condText = (c) => `conditional(${c.disc.kind}(${c.disc.opt}${c.disc.async ? "~" : ""})=${show(c.disc.value)}${c.disc.wrap ? ` ${c.disc.wrap}` : ""}, ${c.keys.map((k) => `${k}: ${nodeText(c.branches[k])}`).join(", ")}${c.dflt ? `, default ${nodeText(c.dflt)}` : ""})`;
    const allowed = evalCond(top, given);
    const ctx = `\n parser: ${outer} of ${condText(top)}\n argv:   ${show(argv)}\n contexts: ${contexts.map((c) => c === env ? "env" : c === config ? "config" : "derived")}`;
    let refused = null;
    const REFUSED = new Error("PARSE REFUSED");
    const start = async () => {
      try {
        const opts = { stderr: (s) => { refused = (refused ?? "") + s; }, stdout() {}, onError: () => { throw REFUSED; } };
        if (contexts.length === 0 && sim.int(2, "runner")) return await F.runParser(parser, "prog", argv, { ...opts, aboveError: "none" });
        return await F.runWith(parser, "prog", contexts, { ...opts, aboveError: "none", args: argv, contextOptions: { load: () => ({ config: Object.fromEntries(conds.filter((c) => c.disc.kind === "config" && c.disc.value !== undefined).map((c) => [`kind${c.i}`, c.disc.value])), meta: undefined }) } });
      } finally { settled = true; }
    };
    const r = await sim.drive(start, { what: `run${ctx}` });
    const stillOpen = open;
    await sim.quiesce();
    const outcome = r.status === "ok" ? `ok ${show(r.value)}` : r.error === REFUSED ? `refused: ${(refused ?? "").trim()}` : `error ${show(r.error)}`;
    sim.event(outcome);
    const bad = (k, m) => { throw new Violation(k, `${m}${ctx}\n outcome: ${outcome}\n prompts: ${show(asked)}\n allowed: ${allowed.map((o) => o ? show(wrap(o.value)) : "refused").join(" | ")}`); };
    if (raised.length === 0 && stillOpen) bad("left-open", "the run settled while a prompt was still open");
    const deferred = conds.some((c) => !given.has(c.disc.opt));
    if (conds.length > 1) sim.count("nested");
    sim.cover(`${outer}:${conds.map((c) => `${c.disc.kind}${c.disc.isAsync ? "~" : ""}${c.disc.cli !== undefined ? "!" : ""}${c.t}`).join("/")}`);
    if (raised.length) {
      sim.count("failed");
      if (r.status !== "error" || r.error !== raised[0]) bad("lost-error", `the error raised by ${raised[0].message} was not the one reported`);
      return { nontrivial: deferred, sample: { parser: condText(top), argv, outcome } };
    }
    if (r.status !== "ok" && r.error !== REFUSED) bad("crashed", "the run failed with an error that nothing raised");
    if (deferred) sim.count("deferred");
    // prompts of a branch that the discriminator does not name are never shown
    for (const c of conds) {
      const v = given.has(c.disc.opt) ? c.disc.cli : c.disc.value;
      if (twoPass || !c.keys.includes(v)) continue;
      for (const k of c.keys) {
        if (k === v) continue;
        const own = new Set(c.branches[v].leaves.map((l) => l.key));
        const wrong = c.branches[k].leaves.filter((l) => !own.has(l.key) && asked.includes(l.key));
        if (wrong.length) bad("wrong-prompt", `${wrong.map((l) => l.opt)} of branch ${k} was prompted although the discriminator is ${v}`);
      }
    }
    if (!twoPass) for (const k of new Set(asked)) if (asked.filter((a) => a === k).length > 1) bad("repeated", `${k} was prompted more than once`);
    if (r.status === "ok") {
      sim.count("accepted");
      const match = allowed.find((o) => o && show(wrap(o.value)) === show(r.value));
      if (!match) bad("value", allowed.every((o) => o === null) ? "a command line that contradicts the discriminator was accepted" : "the result is not the discriminator's value with the result of its branch");
      const flat = show(r.value);
      if (flat.includes("[undefined, {")) sim.count("default-branch");
      if (match.prompts && !twoPass) for (const p of match.prompts) if (!asked.includes(p)) bad("not-asked", `${p} was not prompted`);
    } else {
      if (!allowed.includes(null)) bad("refused", "a command line that belongs to the discriminator's branch was refused");
      if (deferred && /Branch mismatch/.test(refused ?? "")) sim.count("mismatch");
    }
    return { nontrivial: deferred, sample: { parser: condText(top), argv, outcome } };
  },
};
