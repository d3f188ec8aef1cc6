import { getEventListeners } from "node:events";
import { Violation, show, describeError, InjectedFault } from "../core.mjs";
import { VFS } from "../seams.mjs";
import { genTree, modelFiles, key, NAMES } from "../discover.mjs";

const READ = ["EACCES", "EIO", "EMFILE", "ESTALE"], WRITE = ["ENOSPC", "EIO", "EACCES", "EROFS"];

export default {
  needs: ["core-constructs", "core-primitives", "discover", "discover-generator"],
  rule: "watchCommandsModule() polling a simulated directory tree while commands are added, removed, renamed and edited, with read errors, failed and torn writes of the output, throwing callbacks, crashes of the watcher at random points (also between truncation and write of the output) followed by a restart, and an abort at a random moment; once changes and faults stop the output must become what generateCommandsModule() yields and then stay untouched; non-trivial when something changed or failed while watching",
  real: ["@optique/discover/generator watchCommandsModule, generateCommandsModule"],
  stubs: ["file system (in memory, latency, faults, two-step writes)", "timers and clock", "watcher process (crash = all its pending operations and timers vanish)"],
  assumptions: [],
  minimum: { converged: 3000, changed: 3000, "write-failed": 500, crashed: 1000, aborted: 3000, "abort-idle": 300, "abort-busy": 300 },
  quick: { count: 6000, ms: 45000 },
  async run(sim, lib) {
    const G = lib["discover-generator"];
    const vfs = sim.vfs = new VFS(sim);
    const t = genTree(sim, lib, vfs, { bad: false, links: sim.int(3, "links") === 2 });
    const run = t.root.slice(0, t.root.lastIndexOf("/"));
    const where = sim.pick(["beside", "inside", "deep", "inside-sub"], "output");
    const output = { beside: `${run}/generated.mjs`, inside: `${t.root}/_all.mjs`, deep: `${run}/out/gen/all.ts`, "inside-sub": `${t.root}/zz/all.mjs` }[where];
    if (sim.int(3, "stale") === 2) vfs.put(output, sim.pick(["", "stale text", "// Generated by optique-discover. Do not edit.\n"], "staletext"));
    const intervalMs = sim.pick([1, 50, 250, 1000], "interval");
    const options = {
      dir: t.root, outputFile: output,
      ...(t.exts ? { extensions: t.exts } : {}), ...(t.entryFileName !== undefined ? { entryFileName: t.entryFileName } : {}),
      ...(sim.int(3, "base") === 2 ? { base: "./commands" } : {}),
    };
    let faulty = true, changes = 0, failed = 0, calm = false;
    const rate = sim.pick([0, 0, 4, 10, 25], "rate");
    vfs.readdirOrder = (names) => sim.shuffle(names, "listing");
    vfs.policy = (op) => {
      if (!faulty || rate === 0) return undefined;
      if (sim.int(rate, "fault") !== rate - 1) return undefined;
      if (["readdir", "realpath", "stat"].includes(op)) { failed++; return { code: sim.pick(READ, "rcode") }; }
      if (op === "mkdir" || op === "open") { failed++; sim.count("write-failed"); return { code: sim.pick(WRITE, "wcode") }; }
      if (op === "writeFile") { failed++; sim.count("write-failed"); return { partial: sim.int(4096, "torn"), code: sim.pick(WRITE, "wcode") }; }
      return undefined;
    };
    // ---- the outside world changes the tree ------------------------------
    const env = new Set();
    const exts = t.effective;
    const change = () => {
      const files = modelFiles(vfs, t, output);
      const what = sim.weighted([[3, "add"], [2, "remove"], [2, "rename"], [1, "edit"], [1, "adddir"], [1, "rmall"]], "change");
      changes++;
      const dirs = [t.root, ...new Set(files.map((f) => f.file.slice(0, f.file.lastIndexOf("/"))))];
      const fresh = () => `${sim.pick(dirs, "cdir")}/${sim.pick(NAMES, "cname")}${sim.pick(exts, "cext")}`;
      sim.event(`change ${what}`);
      if (what === "add") { const f = fresh(); if (!vfs.has(f)) vfs.put(f, "export default 1;"); }
      else if (what === "remove" && files.length) vfs.del(sim.pick(files, "rm").file);
      else if (what === "rename" && files.length) { const f = sim.pick(files, "mv"), to = fresh(); if (!vfs.has(to)) { vfs.put(to, "export default 1;"); vfs.del(f.file); } }
      else if (what === "edit" && files.length) vfs.put(sim.pick(files, "ed").real, `export default ${changes};`);
      else if (what === "adddir") { const d = `${sim.pick(dirs, "cdir")}/${sim.pick(NAMES, "dname")}`; if (!vfs.has(d)) { vfs.mkdirp(d); vfs.put(`${d}/${sim.pick(NAMES, "cname")}${sim.pick(exts, "cext")}`, "export default 2;"); } }
      else if (what === "rmall" && sim.int(3, "rmall") === 0) for (const f of files) vfs.del(f.file);
    };
    const horizon = intervalMs * 8;
    for (let i = 0, n = sim.int(6, "changes"); i < n; i++) env.add(sim.setTimer(() => change(), sim.int(horizon, "when") + 1));
    // ---- the watcher -----------------------------------------------------
    const history = [];
    let epoch = 0, w = null;
    const bad = (k, m) => { throw new Violation(k, `${m}\n output ${where} interval ${intervalMs} fault rate ${rate}\n tree ${show(modelFiles(vfs, t, output).map((f) => f.file.slice(t.root.length + 1)))}\n watcher history ${show(history.slice(-12))}\n file ${show(vfs.has(output) ? String(vfs.get(output)) : null)}`); };
    const cbRate = sim.int(3, "cbfaults") === 2 ? 4 : 0;
    const start = () => {
      const me = ++epoch;
      const ac = new AbortController();
      w = { me, ac, settled: null, generated: 0, errors: 0, sinceAbort: 0 };
      const mine = w;
      history.push("start");
      const p = G.watchCommandsModule({
        ...options, intervalMs, signal: ac.signal,
        onGenerate(result) {
          if (me !== epoch) return;
          mine.generated++;
          history.push(`generated ${result.files.length}`);
          sim.event(`generated ${result.files.length}`);
          if (mine.settled) bad("late", "onGenerate was called after the watcher had ended");
          if (ac.signal.aborted && ++mine.sinceAbort > 1) bad("after-abort", "more than the poll in progress was completed after the abort");
          if (String(vfs.get(output)) !== result.code) bad("early-callback", "onGenerate was called although the output file does not hold the generated module");
          if (faulty && cbRate && sim.int(cbRate, "cb") === 0) { failed++; sim.fault("callback"); throw new InjectedFault("onGenerate"); }
        },
        onError(error) {
          if (me !== epoch) return;
          mine.errors++;
          history.push(`error ${describeError(error)}`);
          sim.event("error");
          if (calm) bad("spurious-error", `a poll failed although nothing is wrong: ${describeError(error)}`);
        },
      });
      p.then(() => { mine.settled = "ok"; }, (e) => { mine.settled = e; });
    };
    const stepUntil = async (cond, max) => {
      for (let n = 0; ; n++) {
        await sim.macrotick();
        sim.checkUnhandled();
        if (w?.settled && w.settled !== "ok") bad("rejected", `the watcher ended with ${describeError(w.settled)}`);
        if (w?.settled && !w.ac.signal.aborted) bad("stopped", "the watcher ended although it was not aborted");
        if (cond()) return true;
        if (n >= max) return false;
        if (!sim.step()) return cond();
      }
    };
    const crash = () => {
      sim.count("crashed");
      sim.fault("watcher-crash");
      epoch++;
      history.push("crash");
      const writing = sim.pending.some((p) => p.label.startsWith("fs.writeFile"));
      if (writing) { sim.count("crash-in-write"); if (sim.int(2, "tornc")) vfs.put(output, "// Generated by optique-disc"); }
      sim.pending.length = 0;
      sim.timers = sim.timers.filter((x) => env.has(x.id));
      w = null;
    };
    start();
    const crashes = sim.weighted([[3, 0], [2, 1], [1, 2]], "crashes");
    for (let i = 0; i < crashes; i++) {
      await stepUntil(() => false, 1 + sim.int(60, "crashat"));
      crash();
      start();
    }
    const end = sim.now + horizon;
    await stepUntil(() => sim.now > end && !sim.timers.some((x) => env.has(x.id)), 3000);
    if (changes) sim.count("changed");
    // ---- faults and changes stop: progress in a bounded number of polls --
    faulty = false;
    const shuffleOrder = vfs.readdirOrder;
    const files = modelFiles(vfs, t, output);
    const paths = files.map((f) => key(f.path));
    const legal = new Set(paths).size === paths.length && !files.some((f) => f.stemless);
    const quietFrom = sim.now;
    const polls = () => vfs.ops.filter((o) => o.op === "readdir" && o.path === t.root).length;
    const rootPolls = polls();
    await stepUntil(() => polls() >= rootPolls + 3, 4000);
    if (polls() < rootPolls + 3) bad("stalled", `the watcher does not poll any more (${sim.now - quietFrom} ms)`);
    const want = files.length === 0 ? null : await (async () => {
      // the one-shot generator on the same tree, run without the watcher
      const saved = [sim.pending, sim.timers];
      sim.pending = []; sim.timers = [];
      const g = await sim.drive(() => G.generateCommandsModule(options), { what: "one-shot generator" });
      [sim.pending, sim.timers] = saved;
      return g;
    })();
    const now = vfs.has(output) ? String(vfs.get(output)) : null;
    if (legal) {
      if (want && want.status !== "ok") bad("generator", `the one-shot generator fails: ${describeError(want.error)}`);
      if (want && now !== want.value.code) bad("not-converged", `three polls after the last change and fault the output is not the generated module:\n${want.value.code}`);
      if (!want && !/export default \[\] satisfies/.test(now ?? "")) bad("not-converged", "three polls after the last command was removed the output is not the empty module");
      sim.count("converged");
      // stable: untouched from now on
      calm = true;
      const writes = vfs.writes, generated = w.generated;
      const again = polls();
      await stepUntil(() => polls() >= again + 2, 2000);
      if (vfs.writes !== writes) bad("rewrite", "the output was written again although nothing changed");
      if (w.generated !== generated) bad("regenerated", "onGenerate was called although nothing changed");
    } else {
      if (want && want.status === "ok") bad("generator", "the one-shot generator accepts a tree with duplicate command paths");
      if (w.errors === 0) bad("silent", "a tree with duplicate command paths was not reported");
      sim.count("illegal-tree");
    }
    // ---- abort at a random moment ---------------------------------------
    await stepUntil(() => false, sim.int(12, "abortat"));
    calm = false;
    const busy = sim.pending.length > 0;
    sim.count(busy ? "abort-busy" : "abort-idle");
    if (sim.int(3, "chab") === 0) change();
    w.ac.abort();
    history.push("abort");
    await stepUntil(() => w.settled != null, 600);
    if (w.settled !== "ok") bad("abort-ignored", "the watcher did not end after the abort");
    const ops = vfs.ops.length;
    await sim.quiesce();
    if (vfs.ops.length !== ops || sim.timers.length) bad("after-end", "the watcher left work behind");
    if (getEventListeners(w.ac.signal, "abort").length) bad("listener", "an abort listener was left behind");
    sim.count("aborted");
    sim.cover(`${where}:${crashes}:${rate}:${changes}:${legal}:${busy}`);
    return { nontrivial: changes + failed + crashes > 0, sample: { output: where, interval: intervalMs, changes, failed, crashes } };
  },
};
