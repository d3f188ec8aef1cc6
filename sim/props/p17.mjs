import { Violation, show, InjectedFault } from "../core.mjs";
import { LAYER_LIBS } from "../layers.mjs";
import { CHOICES } from "../gen.mjs";

/** leaves + a random tree over them, all reachable (no alternatives) or under a chosen alternative */
function genTree(sim, st, depth) {
  const kind = depth <= 0 ? "leaf" : sim.weighted([[3, "object"], [2, "leaf"], [1, "merge"], [1, "tuple"], [1, "concat"], [1, "group"], [1, "map"], [1, "command"], [1, "or"], [1, "conditional"]], "node");
  if (kind === "leaf" || st.leaves.length >= 5) return leaf(sim, st);
  const kids = (lo, hi) => Array.from({ length: sim.range(lo, hi, "kids") }, () => genTree(sim, st, depth - 1));
  const objs = (n) => Array.from({ length: n }, () => ({ t: "object", kids: Array.from({ length: sim.range(1, 2, "okids") }, () => genTree(sim, st, depth - 2)) }));
  switch (kind) {
    case "object": case "tuple": return { t: kind, kids: kids(1, 3) };
    case "merge": return { t: kind, kids: objs(2) };
    case "concat": return { t: kind, kids: [{ t: "tuple", kids: kids(1, 2) }, { t: "tuple", kids: kids(1, 1) }] };
    case "group": case "map": return { t: kind, kids: kids(1, 1) };
    case "command": if (st.shared.cmds++ > 0) return leaf(sim, st); return { t: kind, name: "go", kids: [{ t: "object", kids: kids(1, 2) }] };
    case "or": {
      if (st.shared.cmds++ > 0) return leaf(sim, st);
      const chosen = sim.int(2, "chosen");
      const branch = (live) => { const sub = live ? st : { ...st, leaves: st.dead, dead: st.dead }; const k = { t: "object", kids: [genTree(sim, sub, depth - 2), genTree(sim, sub, depth - 2)] }; return k; };
      const one = branch(chosen === 0), two = branch(chosen === 1);
      return { t: "or", chosen, kids: [{ t: "command", name: "one", kids: [one] }, { t: "command", name: "two", kids: [two] }] };
    }
    case "conditional": {
      if (st.shared.conds++ > 0) return leaf(sim, st);
      const chosen = sim.int(2, "cchosen");
      const branch = (live) => { const sub = live ? st : { ...st, leaves: st.dead, dead: st.dead }; const k = { t: "object", kids: [genTree(sim, sub, depth - 2)] }; return k; };
      return { t: "conditional", chosen, kids: [branch(chosen === 0), branch(chosen === 1)] };
    }
  }
}
function leaf(sim, st) {
  const i = st.shared.n++;
  const f = { t: "leaf", i, key: `p${i}`, opt: `--p${i}`, kind: sim.weighted([[5, "prompt"], [1, "plain"]], "leafkind"), vk: sim.pick(["choice", "string", "integer"], "vk"), below: null, above: null };
  f.given = f.kind === "plain" || sim.int(3, "given") === 2;
  const good = f.vk === "choice" ? CHOICES : f.vk === "integer" ? [1, 2, 0, -3] : ["alpha", "beta", ""];
  f.value = sim.pick(good, "v");
  f.answer = sim.int(10, "odd") === 9 ? sim.pick([undefined, null, false], "oddanswer") : sim.pick(good, "a");
  if (f.kind === "prompt") {
    f.below = st.shared.twoPass ? sim.pick(["config", "derived"], "below") : sim.weighted([[4, null], [1, "optional"], [1, "default"], [1, "env"]], "below");
    f.src = ["env", "config", "derived"].includes(f.below) && sim.int(2, "src") === 1 ? sim.pick(good, "sv") : undefined;
    f.inner = sim.weighted([[6, null], [1, "map"], [1, "group"]], "inner");
    // a value that the option could not have parsed is a value all the same
    if (f.inner === "map" && f.src !== undefined && f.below !== "env" && sim.int(3, "oddsrc") === 2) f.src = sim.pick([null, false], "oddsrcv");
    f.above = sim.weighted([[6, null], [1, "map"], [1, "group"]], "above");
    f.late = sim.int(3, "late") !== 0;
  }
  st.leaves.push(f);
  return f;
}

export default {
  needs: [...LAYER_LIBS, "run"],
  rule: "random parser trees whose options are wrapped in prompts (over optional, default, environment, configuration or derived bindings), some given on the command line, asked through a simulated prompt adapter that answers at random moments and fails (thrown, rejected or failed result) at a random call; executed by parseAsync, runParser, runWith or run; non-trivial when at least one prompt was due",
  real: ["@optique/prompt createPromptAdapter, @optique/core combinators, parser and facade, @optique/run runAsync, source bindings"],
  stubs: ["prompt adapter answers through the scheduler", "environment, configuration and resolvers"],
  assumptions: [],
  minimum: { due: 6000, skipped: 2000, "two-due": 1500, "prompt-failed": 400, "other-suggest": 150, "other-help": 80 },
  quick: { count: 14000, ms: 60000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], P = lib["core-primitives"], V = lib["core-valueparser"], M = lib["core-modifiers"], F = lib["core-facade"];
    const st = { leaves: [], dead: [], shared: { n: 0, cmds: 0, conds: 0, twoPass: sim.int(4, "twopass") === 3 } };
    const tree = { t: "object", kids: Array.from({ length: sim.range(1, 3, "top") }, () => genTree(sim, st, 3)) };
    const leaves = st.leaves, all = [...st.leaves, ...st.dead];
    const due = leaves.filter((f) => f.kind === "prompt" && !f.given && f.src === undefined);
    const fault = due.length && sim.int(5, "fault") === 4 ? { at: sim.int(due.length, "at"), how: sim.pick(["throw", "reject", "result"], "how") } : null;
    const usesSources = all.some((f) => ["env", "config", "derived"].includes(f.below));
    const runner = usesSources ? sim.pick(["runWith", "runAsync"], "runner") : sim.pick(["parseAsync", "runParser", "runWith", "runAsync"], "runner");
    const withContexts = usesSources || (["runWith", "runAsync"].includes(runner) && sim.int(2, "ctx") === 1);
    const calls = [];
    let active = 0, maxActive = 0, settled = false;
    const raised = [];
    const adapter = lib.prompt.createPromptAdapter({
      execute: (cfg) => {
        const f = cfg.leaf;
        const k = calls.length;
        calls.push(f.key);
        sim.event(`prompt ${f.key}`);
        if (settled) throw new Violation("late-prompt", `${f.key} was prompted after the run had settled`);
        active++;
        maxActive = Math.max(maxActive, active);
        const finish = () => {
          active--;
          if (fault && k === fault.at) {
            sim.fault(`prompt-${fault.how}`);
            if (fault.how === "result") return { success: false, error: lib["core-message"].message`prompt said no` };
            const e = new InjectedFault(`prompt ${f.key}`);
            raised.push(e);
            throw e;
          }
          return { success: true, value: f.answer };
        };
        if (fault && k === fault.at && fault.how === "throw") return finish();
        return f.late ? sim.op(`answer ${f.key}`, finish) : new Promise((resolve) => resolve(finish()));
      },
    });
    const env = lib.env.createEnvContext({ source: (k) => { const f = all.find((x) => x.key.toUpperCase() === k); return f?.below === "env" && f.src !== undefined ? String(f.src) : undefined; } });
    const config = lib.config.createConfigContext({ schema: { "~standard": { version: 1, vendor: "sim", validate: (value) => ({ value }) } } });
    const dd = lib["derived-defaults"].createDerivedDefaults(Object.fromEntries(all.filter((f) => f.below === "derived").map((f) => [f.key, () => f.src])));
    const make = (f) => {
      const vp = f.vk === "choice" ? V.choice(CHOICES) : f.vk === "integer" ? V.integer() : V.string();
      let p = P.option(f.opt, vp);
      if (f.kind === "plain") return p;
      if (f.inner === "map") p = M.map(p, (v) => v);
      if (f.inner === "group") p = C.group("I", p);
      switch (f.below) {
        case "optional": p = M.optional(p); break;
        case "default": p = M.withDefault(p, f.vk === "integer" ? 99 : f.vk === "choice" ? "red" : "dflt"); break;
        case "env": p = lib.env.bindEnv(p, { context: env, key: f.key.toUpperCase(), parser: f.vk === "integer" ? V.integer() : V.string() }); break;
        case "config": p = lib.config.bindConfig(p, { context: config, key: f.key }); break;
        case "derived": p = lib["derived-defaults"].bindDerivedDefault(p, { context: dd.context, key: f.key }); break;
      }
      p = adapter(p, { leaf: f });
      if (f.above === "map") p = M.map(p, (v) => v);
      if (f.above === "group") p = C.group("G", p);
      return p;
    };
    let uid = 0;
    const build = (t) => {
      switch (t.t) {
        case "leaf": return make(t);
        case "object": return C.object(Object.fromEntries(t.kids.map((k) => [k.t === "leaf" ? k.key : `n${uid++}`, build(k)])));
        case "merge": return C.merge(...t.kids.map(build));
        case "tuple": return C.tuple(t.kids.map(build));
        case "concat": return C.concat(...t.kids.map(build));
        case "group": return C.group("Group", build(t.kids[0]));
        case "map": return M.map(build(t.kids[0]), (v) => v);
        case "command": return P.command(t.name, build(t.kids[0]));
        case "or": return C.or(...t.kids.map(build));
        case "conditional": return C.conditional(P.option("--cond", V.choice(["x", "y"])), { x: build(t.kids[0]), y: build(t.kids[1]) });
      }
    };
    // tokens: options of leaves under a command follow its name
    const tokens = (t) => {
      switch (t.t) {
        case "leaf": return t.given ? [[t.opt, String(t.value)]] : [];
        case "or": return [["\0cmd", t.kids[t.chosen].name, ...tokens(t.kids[t.chosen].kids[0]).flat()]];
        case "command": return [["\0cmd", t.name, ...t.kids.flatMap(tokens).flat()]];
        case "conditional": { const inner = tokens(t.kids[t.chosen]); return [["--cond", t.chosen === 0 ? "x" : "y", ...inner.filter((g) => g[0] !== "\0cmd").flat()], ...inner.filter((g) => g[0] === "\0cmd")]; }
        default: return t.kids.flatMap(tokens);
      }
    };
    const groups = tokens(tree);
    const isCmd = (g) => g[0] === "\0cmd";
    const argv = [...sim.shuffle(groups.filter((g) => !isCmd(g)), "argv").flat(), ...groups.filter(isCmd).flatMap((g) => g.slice(1))].filter((x) => x !== "\0cmd");
    const text = (t) => t.t === "leaf" ? `${t.above ?? ""}${t.kind === "plain" ? t.opt : `prompt(${t.below ? `${t.below}(${t.opt})${t.src !== undefined ? `=${t.src}` : ""}` : t.opt})`}` : `${t.t}${t.chosen !== undefined ? `[${t.chosen}]` : ""}(${t.kids.map(text).join(", ")})`;
    const ctx = `\n ${text(tree)}\n argv ${show(argv)} runner ${runner}${withContexts ? " with contexts" : ""} fault ${show(fault)}`;
    const parser = build(tree);
    if (parser.mode !== "async" && all.some((f) => f.kind === "prompt")) throw new Violation("mode", `the parser is not asynchronous${ctx}`);
    const contexts = !withContexts ? [] : st.shared.twoPass ? sim.shuffle([env, config, dd.context], "contexts") : [env];
    const contextOptions = { load: () => ({ config: Object.fromEntries(all.filter((f) => f.below === "config" && f.src !== undefined).map((f) => [f.key, f.src])), meta: undefined }) };
    const failures = [];
    // an options terminator answers no prompt
    const terminated = sim.int(6, "terminator") === 5;
    // now and then the request is for help, completion or documentation instead
    // (help for a command inside a conditional branch is not found upstream, sync or async: DESIGN.md)
    const other = sim.int(6, "other") === 5 ? sim.pick([...(st.shared.conds ? [] : ["help"]), "suggest", "doc", "completion", "version"], "which") : null;
    if (!other && terminated) { argv.push("--"); sim.count("terminator"); }
    if (other) {
      const text = [];
      const opts = { stdout: (x) => { text.push(x); }, stderr: (x) => { text.push(x); } };
      const startOther = async () => {
        try {
          switch (other) {
            case "suggest": return await lib["core-parser"].suggestAsync(parser, [...argv, sim.pick(["", "--"], "prefix")]);
            case "doc": return await lib["core-parser"].getDocPageAsync(parser, argv);
            case "help": return await F.runParser(parser, "prog", [...argv, "--help"], { ...opts, help: { option: true, onShow: () => "SHOWN" } });
            case "version": return await F.runParser(parser, "prog", ["--version", ...argv], { ...opts, version: { value: "1", option: true, onShow: () => "SHOWN" } });
            case "completion": return await F.runParser(parser, "prog", ["completion", "bash", ...argv, ""], { ...opts, completion: { command: true, onShow: () => "SHOWN" } });
          }
        } finally { settled = true; }
      };
      const r = await sim.drive(startOther, { what: `${other}${ctx}` });
      await sim.quiesce();
      sim.count(`other-${other}`);
      if (calls.length) throw new Violation("prompted-meta", `${calls} prompted while serving ${other}${ctx}`);
      if (r.status !== "ok") throw new Violation("meta-failed", `${other} failed: ${show(r.error)}${ctx}`);
      if (["help", "version", "completion"].includes(other) && r.value !== "SHOWN") throw new Violation("meta-failed", `${other} was not served: ${show(r.value)}${ctx}`);
      return { nontrivial: due.length > 0, sample: { tree: text.join("").slice(0, 40), argv, other } };
    }
    const start = async () => {
      try {
        switch (runner) {
          case "parseAsync": return await lib["core-parser"].parseAsync(parser, argv);
          case "runParser": return { success: true, value: await F.runParser(parser, "prog", argv, { stderr: () => {}, onError: () => { failures.push(1); throw new Error("PARSE FAILED"); } }) };
          case "runWith": return { success: true, value: await F.runWith(parser, "prog", contexts, { args: argv, contextOptions, stderr: () => {}, onError: () => { failures.push(1); throw new Error("PARSE FAILED"); } }) };
          case "runAsync": return { success: true, value: await lib.run.runAsync(parser, { programName: "prog", args: argv, ...(withContexts ? { contexts, ...(st.shared.twoPass ? { contextOptions } : {}) } : {}), stdout() {}, stderr() {}, onExit: () => { failures.push(1); throw new Error("PARSE FAILED"); } }) };
        }
      } finally { settled = true; }
    };
    const r = await sim.drive(start, { what: `${runner}${ctx}` });
    const stillActive = active;
    await sim.quiesce();
    const bad = (k, m) => { throw new Violation(k, `${m}${ctx}\n prompts ${show(calls)} due ${show(due.map((f) => f.key))} outcome ${r.status} ${show(r.status === "ok" ? r.value : r.error)}`); };
    if (new Set(calls).size !== calls.length) bad("repeated", "a prompt was shown twice in one run");
    const unneeded = calls.filter((k) => !due.some((f) => f.key === k));
    if (unneeded.length) bad("unneeded", `${unneeded} was prompted although it has a value or is not part of the chosen alternative`);
    if (maxActive > 1) bad("overlap", "two prompts were open at the same time");
    if (stillActive) bad("left-open", "the run settled while a prompt was still open");
    sim.count("due", due.length ? 1 : 0);
    if (due.length > 1) sim.count("two-due");
    if (all.some((f) => f.kind === "prompt" && !due.includes(f))) sim.count("skipped");
    // fields of one combinator are asked in its order
    const walk = (node) => {
      const keys = node.kids?.filter((k) => k.t === "leaf").map((k) => k.key).filter((k) => calls.includes(k)) ?? [];
      const asked = calls.filter((k) => keys.includes(k));
      if (show(keys) !== show(asked)) bad("order", `the prompts ${keys} were not shown in the order of the parser`);
      node.kids?.forEach(walk);
    };
    walk(tree);
    if (fault && calls.length > fault.at + 1) bad("continued", "another prompt was shown after one had failed");
    sim.cover(`${runner}:${text(tree).replace(/\d+/g, "")}`);
    if (fault) {
      if (calls.length <= fault.at) bad("not-asked", "the prompts that were due were not all asked");
      sim.count("prompt-failed");
      if (fault.how === "result") {
        const failed = runner === "parseAsync" ? r.status === "ok" && r.value.success === false : r.status === "error" && failures.length === 1 && /PARSE FAILED/.test(String(r.error?.message));
        if (!failed) bad("not-failed", "a failed prompt result was not reported as a parse failure");
      } else if (r.status !== "error" || r.error !== raised[0]) bad("lost-error", "the error thrown by the prompt was not the one reported");
      return { nontrivial: true, sample: { tree: text(tree), argv, calls, fault: show(fault) } };
    }
    if (r.status !== "ok" || !r.value.success) bad("refused", "the parse failed although every prompt was answered");
    if (calls.length !== due.length) bad("not-asked", "not every prompt that was due was shown");
    // values
    const flat = [];
    const collect = (t, v) => {
      if (t.t === "leaf") { flat.push([t, v]); return; }
      if (v == null && t.t !== "group" && t.t !== "map") bad("value", `no value for ${text(t)}`);
      switch (t.t) {
        case "or": return collect(t.kids[t.chosen].kids[0], v);
        case "command": return collect(t.kids[0], v);
        case "conditional": return collect(t.kids[t.chosen], v[1]);
        case "group": case "map": return collect(t.kids[0], v);
        case "tuple": return t.kids.forEach((k, i) => collect(k, v[i]));
        case "concat": { let i = 0; for (const k of t.kids) for (const kk of k.kids) collect(kk, v[i++]); return; }
        case "merge": case "object": {
          const ks = t.t === "merge" ? t.kids.flatMap((k) => k.kids) : t.kids;
          const names = Object.keys(v);
          // nested keys appear in declaration order
          const nested = names.filter((n) => n.startsWith("n")).sort((a, b) => Number(a.slice(1)) - Number(b.slice(1)));
          let ni = 0;
          for (const k of ks) collect(k, k.t === "leaf" ? v[k.key] : v[nested[ni++]]);
          return;
        }
      }
    };
    collect(tree, r.value.value);
    for (const [f, v] of flat) {
      const want = f.given ? f.value : f.src !== undefined ? f.src : f.answer;
      if (v !== want) bad("value", `${f.opt} should be ${show(want)} but is ${show(v)}`);
    }
    return { nontrivial: due.length > 0, sample: { tree: text(tree), argv, calls } };
  },
};
