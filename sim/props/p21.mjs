import { Violation, show, InjectedFault, describeError } from "../core.mjs";
import { ExitSignal } from "../seams.mjs";
import { NAMES } from "../discover.mjs";

export default {
  needs: ["core-constructs", "core-primitives", "core-modifiers", "core-valueparser", "core-context", "core-annotations", "config", "discover"],
  rule: "1-3 overlapping runProgram() calls over random static command trees whose program hooks, command hooks and handlers run synchronously or asynchronously, return contexts, nothing or null, and fail at random calls (also inside onError); some command lines ask for help, a version or do not parse; some programs use a two-pass source context; the recorded call history is compared with a reference interpreter of hook nesting; non-trivial when a handler was due",
  real: ["@optique/discover runProgram, createProgramParser", "@optique/run runAsync", "@optique/core facade"],
  stubs: ["hooks and handlers complete through the scheduler", "configuration loader"],
  assumptions: [],
  minimum: { completed: 4000, failed: 3000, "onerror-threw": 300, "no-invocation": 1000, overlapped: 1500, "two-pass": 1000 },
  quick: { count: 14000, ms: 60000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], P = lib["core-primitives"], M = lib["core-modifiers"], V = lib["core-valueparser"], D = lib.discover;
    const nruns = sim.weighted([[2, 1], [2, 2], [1, 3]], "runs");
    const shared = sim.int(2, "shared") === 1; // one command list for all runs, or one each
    let serial = 0;
    const runs = [];
    const byId = new Map();
    // every callback: logs, waits, then returns or throws what the plan says
    const plan = (scope, name) => ({ scope, name, style: sim.weighted([[2, "async"], [1, "sync"]], "style"), fail: sim.int(7, "fail") === 6, oddFail: sim.int(4, "oddfail") === 3 ? sim.pick([undefined, null, "text", 0], "thrown") : "no", result: name === "run" ? sim.pick(["text", "text", undefined, null, 0, false, ""], "result") : undefined, ret: name === "before" ? sim.weighted([[4, "ctx"], [1, "undefined"], [1, "null"]], "ret") : null });
    // overlapping runs of one command list are told apart by what hooks are
    // given, so only the others use values that carry no trace of their run
    const traced = (pl, run) => pl.oddFail === "no" || shared && nruns > 1;
    const fire = (pl, run, args, produce) => {
      const entry = { what: `${pl.scope}.${pl.name}`, args, done: false };
      run.log.push(entry);
      run.open++;
      run.maxOpen = Math.max(run.maxOpen, run.open);
      if (run.settled) throw new Violation("late", `${entry.what} was called after runProgram() had settled`);
      sim.event(`${run.id} ${entry.what}`);
      const end = () => {
        run.open--;
        entry.done = true;
        if (pl.fail) { sim.fault(`${pl.name}-threw`); entry.error = traced(pl, run) ? new InjectedFault(`${run.id} ${entry.what}`) : pl.oddFail; throw entry.error; }
        entry.result = produce();
        return entry.result;
      };
      return pl.style === "sync" ? end() : sim.op(`${run.id} ${entry.what}`, end);
    };
    const genHooks = (scope) => {
      if (sim.int(3, `${scope}hooks`) === 0) return null;
      const h = { scope };
      for (const n of ["before", "after", "error"]) if (sim.int(3, `${scope}${n}`) !== 0) h[n] = plan(scope, n);
      return h;
    };
    const makeHooks = (h, runOf) => h && {
      ...(h.before ? { beforeEach: (inv) => { const run = runOf(inv.value); return fire(h.before, run, [inv], () => h.before.ret === "ctx" ? { resource: `${h.scope}${run.id}` } : h.before.ret === "null" ? null : undefined); } } : {}),
      ...(h.after ? { afterEach: (ctx, result) => fire(h.after, runOf(result, ctx), [ctx, result], () => undefined) } : {}),
      ...(h.error ? { onError: (ctx, error) => fire(h.error, runOf(null, ctx, error), [ctx, error], () => undefined) } : {}),
    };
    const genCommands = () => {
      const n = sim.range(1, 4, "commands");
      const list = [];
      for (let i = 0; i < n; i++) {
        const path = Array.from({ length: sim.range(1, 2, "plen") }, () => sim.pick(NAMES, "name"));
        if (list.some((c) => c.path.join(" ") === path.join(" "))) continue;
        list.push({ path, hooks: genHooks("C"), handler: plan("H", "run"), bound: false, id: serial++ });
      }
      return list;
    };
    const common = genCommands();
    const config = lib.config.createConfigContext({ schema: { "~standard": { version: 1, vendor: "sim", validate: (value) => ({ value }) } } });
    const twoPass = sim.int(3, "twopass") === 2;
    // a run is recognised by the tag every command line carries; hooks of a
    // run are otherwise told apart by what they are given
    const runOfCommon = (value, ctx, error) => {
      const tag = value?.tag ?? value?.value?.tag ?? (typeof value === "string" ? /^R\d+/.exec(value)?.[0] : undefined);
      if (tag !== undefined && byId.has(tag)) return byId.get(tag);
      const m = /R\d+/.exec(ctx?.resource ?? "") ?? /R\d+/.exec(error?.message ?? "") ;
      if (m && byId.has(m[0])) return byId.get(m[0]);
      if (runs.length === 1) return runs[0];
      throw new Violation("untraceable", `a hook was called with ${show(value)} ${show(ctx)} ${describeError(error)}, which belong to no run`);
    };
    const build = (cmds, hook) => cmds.map((c) => D.defineCommand({
      path: c.path,
      parser: C.object({ tag: P.option("--tag", V.string()), ...(twoPass ? { cfg: lib.config.bindConfig(P.option("--cfg", V.string()), { context: config, key: "cfg", default: "none" }) } : {}) }),
      ...(c.hooks ? { hooks: makeHooks(c.hooks, hook) } : {}),
      handler: (...args) => { const run = byId.get(args[0].tag); return fire(c.handler, run, args, () => c.handler.result === "text" || shared && nruns > 1 ? `${run.id} result` : c.handler.result); },
    }));
    const commonBuilt = build(common, runOfCommon);
    for (let i = 0; i < nruns; i++) {
      const id = `R${i}`;
      const run = { id, log: [], open: 0, maxOpen: 0, exits: [], settled: false, contexts: [] };
      byId.set(id, run);
      run.cmds = shared ? common : genCommands();
      run.program = genHooks("P");
      const mine = () => run;
      run.built = shared ? commonBuilt : build(run.cmds, mine);
      run.target = sim.pick(run.cmds, "target");
      run.kind = sim.weighted([[8, "run"], [1, "help"], [1, "version"], [1, "bad"], [1, "nocommand"]], "kind");
      run.args = run.kind === "run" ? [...run.target.path, "--tag", id] : run.kind === "help" ? [...run.target.path, "--help"] : run.kind === "version" ? ["--version"] : run.kind === "bad" ? [...run.target.path, "--nope"] : ["zzz"];
      run.hooks = makeHooks(run.program, mine);
      if (twoPass) {
        run.seen = [];
        run.disposed = 0;
        run.contexts = [config, {
          id: Symbol("probe"), phase: "two-pass",
          getAnnotations: (req) => { if (req?.phase === "phase2") run.seen.push(req.parsed); return {}; },
          [Symbol.dispose]: () => { run.disposed++; },
        }];
      }
      run.start = async () => {
        try {
          return await D.runProgram({
            commands: run.built, metadata: { name: "prog", version: "1.0.0" }, ...(run.hooks ? { hooks: run.hooks } : {}),
            args: run.args, stdout() {}, stderr() {}, onExit: (code) => { run.exits.push(code); throw new ExitSignal(code); },
            ...(twoPass ? { contexts: run.contexts, contextOptions: { load: () => ({ config: { cfg: id }, meta: undefined }) } } : {}),
          });
        } finally { run.settled = true; run.openAtEnd = run.open; }
      };
      runs.push(run);
    }
    const outs = [];
    const r = await sim.drive(async () => {
      const ps = runs.map((run) => sim.op(`start ${run.id}`, () => {}).then(() => run.start()).then((v) => { outs.push(1); return { status: "ok", value: v }; }, (e) => ({ status: "error", error: e })));
      return await Promise.all(ps);
    }, { what: "programs" });
    await sim.quiesce();
    if (nruns > 1) sim.count("overlapped");
    if (twoPass) sim.count("two-pass");
    let due = 0;
    runs.forEach((run, i) => {
      const out = r.value[i];
      const c = run.target;
      const text = (h) => h ? show(Object.fromEntries(["before", "after", "error"].filter((n) => h[n]).map((n) => [n, `${h[n].style}${h[n].fail ? " fails" : ""}${h[n].ret ? ` ${h[n].ret}` : ""}`]))) : "none";
      const bad = (k, m) => { throw new Violation(k, `${m}\n commands ${show(run.cmds.map((x) => x.path))}\n run ${run.id} of ${nruns} args ${show(run.args)}\n program hooks ${text(run.program)}\n command hooks ${text(c.hooks)}\n handler ${c.handler.style}${c.handler.fail ? " fails" : ""}\n history ${show(run.log.map((e) => e.what))}\n outcome ${out.status} ${out.status === "ok" ? show(out.value) : describeError(out.error)}`); };
      if (run.maxOpen > 1) bad("overlap", "two hooks or handlers of one run were active at once");
      if (run.openAtEnd) bad("left-open", "runProgram() settled while a hook or handler was still running");
      if (twoPass && run.disposed !== 1) bad("dispose", `the source context was disposed ${run.disposed} times`);
      if (run.kind !== "run") {
        if (run.log.length) bad("hooks-ran", "hooks or handlers ran although no command was invoked");
        const want = run.kind === "help" || run.kind === "version" ? 0 : 1;
        if (out.status !== "error" || !(out.error instanceof ExitSignal) || show(run.exits) !== show([want])) bad("exit", `expected one exit with code ${want}, saw ${show(run.exits)}`);
        sim.count("no-invocation");
        return;
      }
      due++;
      if (run.exits.length) bad("exit", "the process was asked to exit although a command was invoked");
      if (twoPass && (run.seen.length !== 1 || run.seen[0]?.tag !== run.id || "handler" in Object(run.seen[0]))) bad("phase2", `the context saw ${show(run.seen)} instead of the parsed value`);
      // reference interpreter of the nesting
      const want = [];
      const next = (pl, args) => {
        want.push({ what: `${pl.scope}.${pl.name}`, args });
        const e = run.log[want.length - 1];
        if (!e || e.what !== want.at(-1).what) bad("sequence", `expected ${want.at(-1).what} as call ${want.length}`);
        for (let k = 0; k < Math.max(args.length, e.args.length); k++) if (k >= args.length || k >= e.args.length || !args[k](e.args[k])) bad("arguments", `${e.what} was called with ${show(e.args)}`);
        if (pl.fail) throw e.error; // (may be any value)
        return e.result;
      };
      const same = (x) => (y) => Object.is(x, y);
      const empty = (y) => y != null && typeof y === "object" && Object.keys(y).length === 0;
      const ctxTest = (ctx) => ctx.value === undefined ? empty : same(ctx.value);
      const isInv = (inv) => inv?.value?.tag === run.id && inv.path.join(" ") === c.path.join(" ") && inv.command != null;
      const isValue = (v) => v?.tag === run.id && (!twoPass || v.cfg === run.id);
      const scope = (h, inner, fallback) => {
        let ctx = h?.before ? { value: undefined } : fallback;
        try {
          if (h?.before) { const v = next(h.before, [isInv]); ctx = { value: v ?? undefined }; }
          const result = inner(ctx);
          if (h?.after) next(h.after, [ctxTest(ctx), same(result)]);
          return result;
        } catch (e) {
          if (e instanceof Violation) throw e;
          if (h?.error) {
            try { next(h.error, [ctxTest(ctx), same(e)]); } catch (x) { if (x instanceof Violation) throw x; sim.count("onerror-threw"); }
          }
          throw e;
        }
      };
      let error = null, failed = false;
      try {
        scope(run.program, (pctx) => scope(c.hooks, (cctx) => next(c.handler, c.hooks?.before ? [isValue, ctxTest(cctx)] : run.program?.before ? [isValue, ctxTest(pctx)] : [isValue]), pctx), { value: undefined });
      } catch (e) {
        if (e instanceof Violation) throw e;
        error = e;
        failed = true;
      }
      if (run.log.length > want.length) bad("extra", `${run.log[want.length].what} was called although nothing was left to do`);
      if (failed) {
        sim.count("failed");
        if (out.status !== "error" || !Object.is(out.error, error)) bad("outcome", `runProgram() should reject with ${describeError(error)}`);
      } else {
        sim.count("completed");
        if (out.status !== "ok" || out.value !== undefined) bad("outcome", "runProgram() should resolve without a value");
      }
      sim.cover(`${text(run.program)}|${text(c.hooks)}`);
    });
    return { nontrivial: due > 0, sample: { runs: runs.map((x) => ({ args: x.args, history: x.log.map((e) => e.what) })) } };
  },
};
