import { Violation, show } from "../core.mjs";
import { genTree, buildTree, genArgv, treeText, tryBuild, walk, CHOICES } from "../gen.mjs";
import { anySchema } from "../layers.mjs";

const SOURCES = ["env", "config", "derived"];

/** value kinds: [good values, a value the parser refuses] */
const values = { string: [["alpha", "beta"], undefined], file: [["alpha"], undefined], integer: [[0, 7, 42], 500], choice: [CHOICES, "purple"] };

export default {
  needs: ["core-constructs", "core-modifiers", "core-primitives", "core-valueparser", "core-dependency", "core-parser", "core-message", "core-facade", "core-context", "env", "config", "derived-defaults", "prompt"],
  rule: "random parser tree x random command line; options, flags and arguments of it are bound to random stacks of environment, configuration, derived-default and prompt bindings, whose sources either supply nothing or a valid or refused value, random order of the contexts and random completion order of loaders, resolvers, prompts and value parsers; the outcome is compared with the same tree without bindings, given the supplied values on the command line, and so are completions and help; non-trivial when something was bound",
  real: ["@optique/core facade (runWith), combinators, suggest and documentation machinery", "@optique/env, @optique/config, @optique/derived-defaults, @optique/prompt"],
  stubs: ["environment, configuration loader, resolvers, prompts and asynchronous value parsers answer through the scheduler"],
  assumptions: ["optional structures turn on what the command line touches, the first token decides between alternatives, and sequences take bindings for matches: such trees are only compared while the sources supply nothing (or not bound)"],
  minimum: { "absent-ok": 4000, "absent-refused": 4000, "supplied-ok": 700, "supplied-refused": 300, looked: 4000, asked: 40, static: 80 },
  quick: { count: 16000, ms: 60000 },
  async run(sim, lib) {
    let { tree } = genTree(sim, { depth: sim.range(1, 3, "depth") });
    tree = { t: "object", c: [["root", tree]] };
    const argv = genArgv(sim, tree);
    const F = lib["core-facade"], V = lib["core-valueparser"];
    const async = sim.int(2, "async") === 1;
    const aset = new Map();
    const isAsync = (n) => { if (!async) return false; if (!aset.has(n)) aset.set(n, sim.int(4, "isasync") !== 3); return aset.get(n); };
    // ---- what surrounds each node
    const above = new Map(), parent = new Map();
    const all = new Set();
    (function mark(n, up) {
      above.set(n, up);
      all.add(n.t);
      const sub = new Set([...up, n.t]);
      for (const c of n.t === "object" ? n.c.map(([, c]) => c) : Array.isArray(n.c) ? n.c : n.c ? [n.c] : []) { parent.set(c, n); mark(c, sub); }
      if (n.dflt && typeof n.dflt === "object") mark(n.dflt, sub);
    })(tree, new Set());
    const inside = (n, ...ts) => ts.some((t) => above.get(n).has(t));
    // optional structures turn on what the command line touches, and the first token decides
    // between alternatives, and positional values take what options leave
    const holder = (n) => { let p = parent.get(n); while (p && ["group", "map"].includes(p.t)) p = parent.get(p); return p; };
    const LEAF = ["option", "flag", "bool", "negflag", "argument", "source", "derived"];
    let touchy = ["pass", "constant", "fail", "or", "longestMatch", "conditional", "argument"].some((t) => all.has(t));
    walk(tree, (n) => { if (["optional", "withDefault"].includes(n.t) && !LEAF.includes(n.c.t)) touchy = true; });
    // ---- bindings: kinds from the innermost outwards
    const bindings = new Map();
    const given = { env: {}, config: {}, derived: {}, prompt: {} };
    const ask = lib.prompt.createPromptAdapter({ execute: ({ n }) => {
      if (!Object.hasOwn(given.prompt, `k${n.id}`)) throw new Violation("asked", `the user is asked for ${n.name}, which a source supplies${ctx}`);
      return sim.op(`ask ${n.name}`, () => ({ success: true, value: given.prompt[`k${n.id}`] }));
    } });
    const extra = [];
    let sourced = false; // a default of a dependency source shows in completions
    let changed = false; // defaults and prompts show in usage lines
    walk(tree, (n) => {
      if (!["option", "argument", "flag", "negflag", "source", "bool"].includes(n.t) || n.t === "bool" && inside(n, "optional") || inside(n, "withDefault", "multiple", "nonEmpty") || sim.int(2, "bind") === 0) return;
      // what a sequence or a bare alternative takes depends on what matches
      if (all.has("seq") || ["or", "longestMatch"].includes(holder(n)?.t)) return;
      let kinds = n.t === "bool" ? ["env"] : sim.pick([["env"], ["config"], ["derived"], ["env", "derived"], ["config", "env"], ["config", "env", "derived"]], "bindings");
      const b = { n, kinds };
      bindings.set(n, b);
      if ((n.t === "option" || n.t === "source") && sim.int(3, "supply") && !touchy && !(n.short && argv.some((x) => /^-[a-z]{2,}$/.test(x) && x.includes(n.short[1]))) && !(n.t === "source" && inside(n, "map")) && !inside(n, "or", "longestMatch", "conditional", "command", "seq")) {
        for (let i = argv.length - 1; i >= 0; i--) {
          if (argv[i] === n.name || argv[i] === n.short) argv.splice(i, 2);
          else if (argv[i].startsWith(`${n.name}=`) || argv[i].startsWith(`${n.name}:`)) argv.splice(i, 1);
        }
        const [good, refused] = values[n.vk ?? "choice"];
        b.value = refused !== undefined && !inside(n, "optional") && sim.int(6, "refused") === 5 ? refused : sim.pick(good, "value");
        if (b.value !== refused && n.t === "option" && sim.int(4, "asked") === 3) b.kinds = kinds = [...kinds, "prompt"];
        if (!kinds.includes("prompt") && sim.int(5, "static") === 4) { b.from = "default"; b.dflt = sim.pick(kinds, "of"); }
        else given[b.from = sim.pick(kinds, "from")][`k${n.id}`] = b.value;
        if (b.from === "default" && n.t === "source") sourced = true;
        changed ||= b.from === "default" || kinds.includes("prompt");
        extra.push(n.name, String(b.value));
      }
    });
    if (bindings.size === 0) return { nontrivial: false };
    const wrap = (n, p) => {
      const b = bindings.get(n);
      for (const k of b?.kinds ?? []) {
        const key = `k${n.id}`, o = b.dflt === k ? { default: b.value } : {};
        p = k === "env" ? lib.env.bindEnv(p, { context: ctxs.env, key: key.toUpperCase(), parser: n.vk === "integer" ? V.integer() : V.string(), ...o })
          : k === "config" ? lib.config.bindConfig(p, { context: ctxs.config, key: n.id % 2 ? key : (c) => c[key], ...o })
          : k === "prompt" ? ask(p, { n })
          : lib["derived-defaults"].bindDerivedDefault(p, { context: ctxs.derived.context, key, ...o });
      }
      return p;
    };
    const contexts = () => ({
      env: lib.env.createEnvContext({ prefix: "SIM_", source: (k) => { const v = given.env[k.slice(4).toLowerCase()]; return v === undefined ? undefined : String(v); } }),
      config: lib.config.createConfigContext({ schema: anySchema }),
      derived: lib["derived-defaults"].createDerivedDefaults(Object.fromEntries([...bindings.values()].filter((b) => b.kinds.includes("derived")).map((b) => [`k${b.n.id}`, () => async ? sim.maybeOp(`derive k${b.n.id}`, () => given.derived[`k${b.n.id}`]) : given.derived[`k${b.n.id}`]]))),
    });
    const ctxs = contexts();
    const configured = Object.keys(given.config).length > 0 || sim.int(2, "emptyconfig") === 1;
    const build = (w) => tryBuild(() => buildTree(tree, lib, { sim, mode: async ? "async" : "sync", isAsync, ...(w ? { wrap } : {}) }));
    const plain = build(false), bound = build(true);
    const ctx = `\n parser: ${treeText(tree)}\n bound:  ${[...bindings.values()].map((b) => `${b.n.name ?? `arg${b.n.id}`}:${b.kinds.join("<")}${b.from ? ` ${b.from}=${show(b.value)}` : ""}`).join(", ")}\n argv:   ${show(argv)}${extra.length ? ` and ${extra.join(" ")}` : ""}`;
    if (plain.error || bound.error) {
      if (!plain.error !== !bound.error) throw new Violation("construct", `construction: ${plain.error?.message ?? "ok"} / ${bound.error?.message ?? "ok"}${ctx}`);
      return { nontrivial: false };
    }
    if (sim.int(2, "look") === 1 && !sourced) {
      const K = lib["core-parser"];
      const look = async (f) => { const r = await sim.drive(f, { what: `suggestions or help${ctx}` }); await sim.quiesce(); return r.status === "error" ? `throws ${show(r.error)}` : show(r.value); };
      const args = argv.slice(0, sim.int(argv.length + 1, "cut"));
      const names = [];
      walk(tree, (n) => { if (n.name) names.push(n.name); });
      const prefix = sim.pick(["", "-", "--", "g", ...names, ...names.map((x) => `${x}=`)], "prefix");
      sim.count("looked");
      for (const [what, f] of [["suggestions", (p) => K.suggestAsync(p, [...args, prefix])], ["help page", (p) => changed ? null : K.getDocPageAsync(p, args)]]) {
        const x = await look(() => f(plain.value)), y = await look(() => f(bound.value));
        if (x !== y) throw new Violation(what, `bindings change the ${what}${ctx}\n for ${show(args)} ${show(prefix)}\n without: ${x}\n with:    ${y}`);
      }
    }
    const list = sim.shuffle([ctxs.env, ctxs.config, ctxs.derived.context], "contexts");
    let said = "";
    const run = async (parser, args, what) => {
      said = "";
      const options = { args, contextOptions: { load: () => { const c = { config: configured ? { ...given.config } : undefined, meta: undefined }; return async ? sim.maybeOp("load", () => c) : c; } }, onError: (c) => { throw Object.assign(new Error("exit"), { exit: c }); }, stderr: (t) => { said = t; }, stdout() {} };
      const r = await sim.drive(() => F.runWith(parser, "prog", list, options), { what: `${what}${ctx}` });
      await sim.quiesce();
      if (r.status === "error") { if (r.error?.exit === undefined) throw new Violation("threw", `${what} threw ${r.error?.stack}${ctx}`); return "refused"; }
      return `ok ${show(r.value)}`;
    };
    const a = await run(plain.value, [...extra, ...argv], "the parser without bindings");
    const sa = said;
    const b = await run(bound.value, argv, "the parser with bindings");
    if (a !== b) throw new Violation(extra.length ? "supplied" : "absent", `${extra.length ? "values of sources do not act like the same values on the command line" : "bindings whose sources supply nothing change the outcome"}${ctx}\n without: ${a} ${sa}\n with:    ${b} ${said}`);
    sim.count(`${extra.length ? "supplied" : "absent"}-${a.slice(0, 2) === "ok" ? "ok" : "refused"}`);
    for (const b of bindings.values()) {
      if (b.from === "prompt") sim.count("asked");
      if (b.from === "default") sim.count("static");
      sim.cover(`${b.n.t}:${b.kinds.join("<")}:${b.from ?? "none"}:${above.get(b.n).size}`);
    }
    return { nontrivial: true, sample: { parser: treeText(tree), argv, extra, outcome: b.slice(0, 200) } };
  },
};
