import { Violation, show, describeError, InjectedFault } from "../core.mjs";
import { VFS, ExitSignal, SIMROOT, errno } from "../seams.mjs";
import { installLoader } from "../discover.mjs";
import { genTree, buildTree, tryBuild, treeText } from "../gen.mjs";

const FILES = ["prog.mjs", "prog.js", "my-tool.v2.mjs", ".hidden.mjs", "prog.ts", "prog.mts", "prog.cts", "prog.tsx", "prog.jsx", "prog.mjsx", "prog.cjs", "it's.js"];
const NOTPROG = { null: null, number: 3, array: [], function: () => {}, empty: {}, string: "text", noparser: { metadata: { name: "x" }, parser: {} }, nometa: { parser: {}, metadata: null }, evil: new Proxy({}, { has() { throw new Error("evil"); }, get() { throw new Error("evil"); } }) };
let serial = 0;

export default {
  needs: ["core-constructs", "core-modifiers", "core-primitives", "core-valueparser", "core-dependency", "core-parser", "core-message", "core-program", "man", "man-cli"],
  rule: "one or two overlapping runs of the optique-man command line over random program modules (parser trees with synchronous or asynchronous value parsers, programs with metadata, several exports, non-programs, modules that load slowly, throw, are torn, vanish, need or import files that need a loader), random options, output to stdout or to files, with failing file system calls, torn writes, a missing or broken loader, two Node.js versions and a running clock; non-trivial when a module was loaded",
  real: ["@optique/man command line main() and generator", "@optique/run runSync, printError", "@optique/core documentation of parsers", "Node.js module loader"],
  stubs: ["file system (in memory, latency, faults, two-step writes)", "tsx loader", "process.argv, versions, cwd, exit, stdout, stderr, clock"],
  assumptions: [],
  minimum: { page: 5000, "exit-1": 400, "exit-2": 400, "exit-3": 400, "exit-4": 400, "exit-5": 200, "exit-6": 400, "load-failed": 400, usage: 500, help: 200, overlapped: 3000 },
  quick: { count: 12000, ms: 60000 },
  async run(sim, lib) {
    installLoader(lib);
    const C = lib["core-constructs"], P = lib["core-primitives"], V = lib["core-valueparser"], { message } = lib["core-message"];
    const vfs = sim.vfs = new VFS(sim);
    const dir = `${SIMROOT}/man${serial++}-${process.pid}`;
    sim.alias = dir;
    sim.cwd = dir;
    vfs.mkdirp(dir);
    vfs.mkdirp(`${dir}/out`);
    sim.now = sim.pick([0, 86400000 * 31, 86400000 * 400, 1e10], "clock");
    const native = sim.int(2, "native") === 1;
    sim.tsx = { state: sim.weighted([[3, "ok"], [2, "missing"], [1, "broken"], [1, "unregisterable"]], "tsx"), error: new InjectedFault("tsx"), registered: false, native, asked: 0 };
    const registry = globalThis.__simMan = new Map();
    globalThis.__simManSlow = () => sim.op("module", () => {});
    const io = { stdout: [], stderr: [] };
    const nruns = sim.range(1, 2, "runs");
    const runs = [];
    for (let i = 0; i < nruns; i++) {
      const run = { i, exits: [], dir: `${dir}/r${i}` };
      vfs.mkdirp(run.dir);
      const file = run.file = sim.pick(FILES, "file");
      run.path = `${run.dir}/${file}`;
      // exports
      run.exports = {};
      const names = ["default", "prog", "other"].filter(() => sim.int(4, "has") !== 3);
      for (const n of names) {
        const kind = sim.weighted([[4, "parser"], [4, "program"], [1, "notprog"], [1, "undefined"], [1, "fake"], [1, "docthrows"]], "export");
        const x = run.exports[n] = { kind };
        if (kind === "parser" || kind === "program" || kind === "docthrows") {
          const { tree } = genTree(sim, { depth: 2, maxLeaves: 5 });
          const isAsync = sim.int(2, "async") === 1;
          const s = tryBuild(() => buildTree(tree, lib, { sim, mode: "sync" }));
          const a = tryBuild(() => buildTree(tree, lib, { sim, mode: isAsync ? "async" : "sync", isAsync: () => true }));
          x.twin = s.error ? C.object({}) : s.value;
          let p = a.error || s.error ? C.object({}) : a.value;
          x.text = treeText(tree);
          if (kind === "docthrows") { x.error = sim.pick([new InjectedFault("doc"), "text", null], "docerr"); p = { ...p, getDocFragments() { throw x.error; } }; }
          x.meta = { name: sim.pick(["tool", "x y", " tool ", "tool\t", "it's", "Tool\\-x", ".TH"], "mname"), ...(sim.int(2, "mv") ? { version: sim.pick(["3.1", " 3.1 ", "v0"], "mver") } : {}), ...(sim.int(2, "mb") ? { brief: message`Brief` } : {}), ...(sim.int(3, "ma") === 2 ? { author: message`Me`, bugs: message`none`, footer: message`end` } : {}) };
          x.value = kind === "program" || kind === "docthrows" && sim.int(2, "dprog") ? { parser: p, metadata: x.meta } : p;
          x.isProgram = x.value !== p;
        } else if (kind === "notprog") {
          x.what = sim.pick([...Object.keys(NOTPROG), "almost", "almost"], "np");
          x.value = NOTPROG[x.what];
          if (x.what === "almost") {
            x.value = { parse() {}, mode: "sync", usage: [], getDocFragments() { return { fragments: [] }; } };
            const k = sim.pick(Object.keys(x.value), "member");
            if ((k === "parse" || k === "getDocFragments") && sim.int(2, "nofn")) x.value[k] = {}; else delete x.value[k];
            x.text = `without a proper ${k}`;
            if (sim.int(3, "wrap") === 2) x.value = { parser: x.value, metadata: { name: "x" } };
          }
        }
        else if (kind === "fake") x.value = { parse() {}, mode: "sync", usage: [], getDocFragments() { return { fragments: [] }; } };
      }
      // module file
      run.state = sim.weighted([[12, "ok"], [2, "slow"], [1, "throws"], [1, "torn"], [1, "missing"], [1, "dir"], [1, "dep-jsx"], [1, "dep-missing"], [1, "link"], [1, "dangling"]], "state");
      registry.set(run.path, run);
      run.thrown = sim.pick([new InjectedFault(`module ${i}`), "thrown text", null], "thrown");
      const body = `const R = globalThis.__simMan.get(${JSON.stringify(run.path)});\n${names.map((n, k) => `const x${k} = R.exports[${JSON.stringify(n)}].value;\nexport { x${k} as ${n} };`).join("\n")}\n`;
      const text = { throws: "throw globalThis.__simMan.get(" + JSON.stringify(run.path) + ").thrown;\n" + body, torn: body + "export default (", slow: "await globalThis.__simManSlow();\n" + body, "dep-jsx": `import "./part.${sim.pick(["jsx", "tsx", "mtsx"], "depext")}";\n` + body, "dep-missing": `import "./gone.mjs";\n` + body }[run.state] ?? body;
      if (run.state === "dir") vfs.mkdirp(run.path);
      else if (run.state === "link") { vfs.put(`${run.dir}/real-${file}`, text); vfs.link(run.path, `${run.dir}/real-${file}`); }
      else if (run.state === "dangling") vfs.link(run.path, `${run.dir}/nowhere`);
      else if (run.state !== "missing") vfs.put(run.path, text);
      if (run.state === "dep-jsx") vfs.put(/\.\/(part[^"]*)/.exec(text) ? `${run.dir}/${/\.\/(part[^"]*)/.exec(text)[1]}` : "", "export default 1;\n");
      // command line
      run.exportName = sim.weighted([[3, undefined], [2, "prog"], [1, "other"], [1, "default"], [1, "absent"]], "ename");
      run.section = sim.range(1, 8, "section");
      run.name = sim.int(3, "name") === 2 ? sim.pick(["given", "given.name"], "nm") : undefined;
      run.date = sim.int(2, "date") === 1 ? sim.pick(["2024-01-02", "May 1", " May 1 "], "dt") : undefined;
      run.version = sim.int(3, "version") === 2 ? sim.pick(["9.9", " 9.9", "-1"], "vs") : undefined;
      run.manual = sim.int(3, "manual") === 2 ? "The Manual" : undefined;
      const out = sim.weighted([[3, null], [3, "new"], [1, "exists"], [1, "noparent"], [1, "isdir"]], "out");
      run.output = out && { new: `${run.dir}/page.1`, exists: `${run.dir}/old.1`, noparent: `${run.dir}/no/such/page.1`, isdir: `${dir}/out` }[out];
      run.out = out;
      if (out === "exists") vfs.put(run.output, "the old page, which is rather long\n".repeat(50));
      const rel = (p) => sim.int(2, "rel") === 1 ? p.slice(dir.length + 1) : p;
      const opt = (long, short, v) => v === undefined || v === null ? [] : sim.int(2, "form") === 1 ? [`${long}=${v}`] : [short && sim.int(2, "short") === 1 ? short : long, String(v)];
      run.argv = sim.shuffle([[rel(run.path)], opt("--section", "-s", run.section), opt("--export", "-e", run.exportName), opt("--name", null, run.name), opt("--date", null, run.date), opt("--version-string", null, run.version), opt("--manual", null, run.manual), opt("--output", "-o", run.output === null ? null : rel(run.output))], "argv").flat();
      run.usage = sim.weighted([[20, null], [1, "nosection"], [1, "section"], [1, "nofile"], [1, "emptyname"], [1, "extra"], [1, "help"], [1, "version"]], "usage");
      if (run.usage === "nosection") run.argv = [rel(run.path)];
      if (run.usage === "section") run.argv = [rel(run.path), "-s", sim.pick(["0", "9", "x", ""], "badsection")];
      if (run.usage === "nofile") run.argv = ["-s", "1"];
      if (run.usage === "emptyname") run.argv.push(sim.pick(["--name=", "--date=", "--manual=", "--version-string="], "empty"));
      if (run.usage === "extra") run.argv.push("extra");
      if (run.usage === "help") run.argv.push("--help");
      if (run.usage === "version") run.argv = ["--version"];
      runs.push(run);
    }
    // faults
    const plan = sim.int(3, "fsfault") === 2 ? { op: sim.pick(["access", "readFile", "open", "writeFile"], "fop"), code: sim.pick(["EACCES", "EIO", "ENOSPC", "EMFILE"], "fcode"), run: sim.int(nruns, "frun") } : null;
    const vanish = !plan && sim.int(12, "vanish") === 11 ? runs[0] : null;
    vfs.policy = (op, path) => {
      if (vanish && op === "readFile" && path === vanish.path) { vanish.vanished = vfs.del(path) || vanish.vanished; sim.fault("file-vanished"); }
      if (!plan || op !== plan.op) return undefined;
      const run = runs[plan.run];
      if (!path.startsWith(`${run.dir}/`) && path !== run.output || run.injected) return undefined;
      if (runs.some((x) => x !== run && x.output === path)) return undefined; // whose call it is cannot be told
      run.injected = { op, path, code: plan.code };
      return op === "writeFile" ? { code: plan.code, partial: sim.int(3000, "torn") } : { code: plan.code };
    };
    const before = vfs.snapshot();
    const start = Date.now();
    sim.captureExit = (c) => { throw new ExitSignal(c); };
    sim.captureOut = (n, text) => { io[n].push(text); };
    const versions = Object.getOwnPropertyDescriptor(process, "versions");
    Object.defineProperty(process, "versions", { value: { ...process.versions, node: native ? sim.pick(["25.2.0", "26.0.0"], "node") : sim.pick(["22.18.0", "25.1.9", "24.9.0"], "node") }, configurable: true, writable: false, enumerable: true });
    const saved = process.argv;
    let r;
    try {
      r = await sim.drive(() => Promise.all(runs.map(async (run) => {
        await sim.op(`start ${run.i}`, () => {});
        process.argv = [saved[0], "optique-man", ...run.argv];
        const mark = vfs.ops.length;
        try {
          const p = lib["man-cli"].main();
          run.syncOps = vfs.ops.length - mark;
          run.value = await p;
          run.status = "ok";
        } catch (e) { run.status = "error"; run.error = e; }
      })), { what: `optique-man ${show(runs.map((x) => x.argv))}` });
      await sim.quiesce();
    } finally {
      process.argv = saved;
      Object.defineProperty(process, "versions", versions);
      sim.captureOut = sim.captureExit = null;
    }
    if (r.status === "error") throw r.error;
    vfs.policy = () => undefined;
    const end = Date.now();
    const after = vfs.snapshot();
    if (nruns > 1) sim.count("overlapped");
    const expectOut = [];
    let loaded = 0, errors = 0;
    for (const run of runs) {
      const bad = (k, m) => { throw new Violation(k, `${m}\n run ${run.i} of ${nruns}: optique-man ${show(run.argv)}\n module ${run.state}${run.vanished ? ", vanished" : ""} exports ${show(Object.fromEntries(Object.entries(run.exports).map(([n, x]) => [n, `${x.kind} ${x.what ?? x.text ?? ""}`])))}\n loader ${sim.tsx.state}, ${native ? "native" : "no"} TypeScript, fault ${show(run.injected)}\n outcome ${run.status} ${run.status === "error" ? describeError(run.error) : show(run.value)}\n stdout ${show(io.stdout)}\n stderr ${show(io.stderr)}`); };
      const written = run.output && before.get(run.output) !== after.get(run.output);
      const exits = (code, ...mention) => {
        if (!(run.error instanceof ExitSignal) || run.error.code !== code) bad("exit", `exit status ${code} was expected`);
        errors++;
        const all = io.stderr.join("");
        if (all === "" || mention.some((m) => !all.replaceAll(/\s+/g, " ").includes(m))) bad("message", `stderr should mention ${show(mention)}`);
        sim.count(`exit-${code}`);
      };
      const untouched = () => { if (written) bad("written", "the output was written although nothing was generated"); };
      sim.cover(`${run.state}:${run.usage}:${run.out}:${sim.tsx.state}:${native}:${run.injected?.op}`);
      if (run.usage) {
        untouched();
        if (run.syncOps) bad("usage", "a command line that asks for nothing was acted upon");
        if (run.usage === "help" || run.usage === "version") {
          if (!(run.error instanceof ExitSignal) || run.error.code !== 0) bad("exit", "exit status 0 was expected");
          expectOut.push(null);
          sim.count("help");
        } else { exits(1); sim.count("usage"); }
        continue;
      }
      const ext = /\.[^./]*$/.exec(run.file)[0];
      const jsx = /^\.[mc]?[jt]sx$/.test(ext), ts = /^\.[mc]?ts$/.test(ext);
      if (run.injected?.op === "access" || ["missing", "dangling"].includes(run.state)) { exits(1, run.file); untouched(); continue; }
      const needs = jsx || ts && !native;
      if (needs && sim.tsx.state === "missing") { exits(4, run.file); untouched(); continue; }
      if (needs && sim.tsx.state !== "ok") {
        if (run.error !== sim.tsx.error) bad("loader", "the run must fail with the error of the broken loader");
        untouched();
        sim.count("load-failed");
        continue;
      }
      loaded++;
      const depJsx = run.state === "dep-jsx" && !sim.tsx.registered;
      if (run.injected?.op === "readFile" || run.vanished || ["throws", "torn", "dir", "dep-missing"].includes(run.state) || depJsx) {
        untouched();
        if (depJsx && !run.injected && !run.vanished) { exits(4, "part."); continue; }
        if (run.status === "ok" || run.error instanceof ExitSignal) bad("load", "a module that cannot be loaded was not reported");
        if (run.state === "throws" && !run.injected && !run.vanished && run.error !== run.thrown) bad("load", "the run must fail with the error the module threw");
        if (run.state === "torn" && !run.injected && !run.vanished && !(run.error instanceof SyntaxError)) bad("load", "a SyntaxError was expected");
        if (run.injected && run.error?.code !== run.injected.code) bad("load", "the error is not the file system's");
        sim.count("load-failed");
        continue;
      }
      const ename = run.exportName ?? "default";
      const x = run.exports[ename];
      if (!x || x.kind === "undefined") {
        exits(2, ename === "default" ? "default export" : ename, ...Object.keys(run.exports).filter((k) => k !== "default" && run.exports[k].kind !== "undefined"));
        untouched();
        continue;
      }
      if (x.kind === "notprog") { exits(3, run.file, x.value === null ? "null" : Array.isArray(x.value) ? "array" : typeof x.value); untouched(); continue; }
      if (x.kind === "fake" || x.kind === "docthrows") {
        exits(5, ...(x.error instanceof Error ? [x.error.message] : []));
        untouched();
        continue;
      }
      // the page
      const page = (date) => lib.man.generateManPageSync(x.isProgram ? { parser: x.twin, metadata: x.meta } : x.twin, {
        section: run.section, date: run.date ?? date, manual: run.manual, version: run.version,
        name: run.name ?? (x.isProgram ? undefined : run.file.slice(0, -ext.length)),
      });
      const pages = [new Date(start), new Date(end)].map((d) => page(d));
      if (run.output) {
        const failure = run.out === "noparent" ? "ENOENT" : run.out === "isdir" ? "EISDIR" : null;
        if (run.injected || failure) {
          exits(6, run.injected?.op === "open" || !failure ? run.injected.code : failure);
          if (written && run.injected?.op !== "writeFile") bad("written", "the output changed although it could not be opened");
          continue;
        }
        if (run.status !== "ok") bad("failed", "the page was not written although nothing is wrong");
        if (!pages.includes(Buffer.from(after.get(run.output) ?? "", "latin1").toString("utf8"))) bad("page", `the written page is not the generated one:\n${show(after.get(run.output))}\nexpected ${show(pages[0])}`);
      } else {
        if (run.status !== "ok") bad("failed", "no page was printed although nothing is wrong");
        expectOut.push(pages.map((t) => `${t}\n`));
      }
      const name = run.name ?? (x.isProgram ? x.meta.name : run.file.slice(0, -ext.length));
      if (!pages[0].includes(`.TH `) || !pages[0].toUpperCase().includes(name.toUpperCase().replace(/'/g, "").slice(0, 2))) bad("page", "the page does not name the program");
      if (run.status !== "ok" || run.value !== undefined) bad("failed", "main() should resolve without a value");
      sim.count("page");
    }
    const fail = (k, m) => { throw new Violation(k, `${m}\n runs ${show(runs.map((x) => x.argv))}\n stdout ${show(io.stdout)}\n stderr ${show(io.stderr)}`); };
    // nothing but the outputs changes, nothing else is printed
    const outputs = runs.filter((x) => x.output).map((x) => x.output);
    for (const p of new Set([...before.keys(), ...after.keys()])) if (before.get(p) !== after.get(p) && !outputs.includes(p) && !runs.some((x) => x.vanished && x.path === p)) fail("modified", `${p} changed`);
    if (!errors && io.stderr.length) fail("stderr", "something was printed to stderr although no run failed");
    const rest = [...io.stdout];
    for (const want of expectOut.filter((w) => w)) {
      const k = rest.findIndex((t) => want.includes(t));
      if (k < 0) fail("stdout", `the page ${show(want[0])} was not printed`);
      rest.splice(k, 1);
    }
    if (!expectOut.includes(null) && rest.length) fail("stdout", "something else was printed to stdout");
    return { nontrivial: loaded > 0, sample: { argv: runs.map((x) => x.argv), states: runs.map((x) => x.state) } };
  },
};
