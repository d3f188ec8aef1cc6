import { join } from "node:path";
import { Violation, show, describeError } from "../core.mjs";
import { VFS, ExitSignal } from "../seams.mjs";
import { installLoader, genTree, modelFiles, key, pathToFileURL } from "../discover.mjs";

const CODES = { readdir: ["EACCES", "EIO", "EMFILE"], realpath: ["EACCES", "EIO"], stat: ["EACCES", "EIO", "ESTALE"], mkdir: ["EACCES", "ENOSPC", "EROFS", "ENOTDIR"], open: ["EACCES", "EISDIR", "EROFS", "EMFILE"], writeFile: ["ENOSPC", "EIO"] };

export default {
  needs: ["core-constructs", "core-primitives", "core-parser", "discover", "discover-generator", "discover-cli"],
  rule: "random command trees (exotic file names, links, entry files, duplicates, none at all) generated into a module through generateCommandsModule(), writeCommandsModule() or the optique-discover command line with a random output place and options, while file system calls fail or writes are torn; a successful generation is loaded and compared with run-time discovery of the same tree; non-trivial when a module was generated or a fault was hit",
  real: ["@optique/discover/generator, @optique/discover/cli main(), discoverCommands, commandsFromModules", "@optique/run runSync, printError", "Node.js module loader"],
  stubs: ["file system (in memory, latency, faults, two-step writes)", "process.argv, cwd, exit, stdout and stderr"],
  assumptions: ["Node.js resolves the generated import specifiers as URLs (simulated loader)"],
  minimum: { generated: 2000, "same-commands": 1200, "fault-reported": 800, rejected: 400, cli: 2000, usage: 100 },
  quick: { count: 9000, ms: 50000 },
  async run(sim, lib) {
    installLoader(lib);
    globalThis.__simDiscoverUrl = pathToFileURL(join(lib.__dir, "discover.mjs")).href;
    const G = lib["discover-generator"];
    const vfs = sim.vfs = new VFS(sim);
    const t = genTree(sim, lib, vfs, { bad: sim.int(4, "bad") === 3, exotic: true });
    const run = t.root.slice(0, t.root.lastIndexOf("/"));
    if (sim.int(20, "empty") === 19) for (const n of [...vfs.resolve(t.root).node.children.keys()]) vfs.resolve(t.root).node.children.delete(n);
    const where = sim.pick(["beside", "inside", "deep", "exists", "inside-sub"], "output");
    const output = { beside: `${run}/generated.mjs`, inside: `${t.root}/_all.mjs`, deep: `${run}/out #1/gen/all.mjs`, exists: `${run}/old.mjs`, "inside-sub": `${t.root}/zz/all.mjs` }[where];
    if (where === "exists") vfs.put(output, "// Generated by optique-discover. Do not edit.\nexport default [];\n");
    const files = modelFiles(vfs, t, output);
    const kinds = new Map(t.entries.map((e) => [e.file, e.kind]));
    const kindOf = (f) => kinds.get(f.real) ?? "ok";
    const paths = files.map((f) => key(f.path));
    const legal = files.length > 0 && new Set(paths).size === paths.length && !files.some((f) => f.stemless);
    vfs.readdirOrder = (names) => sim.shuffle(names, "listing");
    const faultAt = sim.int(3, "fsfault") === 2 ? sim.int(14, "fsat") : -1;
    const faultWrite = sim.int(6, "wfault") === 5;
    let ops = 0, injected = null;
    const policy = (op, path) => {
      const write = op === "mkdir" || op === "open" || op === "writeFile";
      if (injected || !CODES[op]) return undefined;
      if (!(write ? faultWrite && sim.int(2, "wf") === 1 : ops++ === faultAt)) return undefined;
      injected = { op, path, code: sim.pick(CODES[op], "code") };
      return op === "writeFile" ? { code: injected.code, partial: sim.int(5000, "torn") } : { code: injected.code };
    };
    const options = {
      dir: t.root, outputFile: output,
      ...(t.exts ? { extensions: t.exts } : {}), ...(t.entryFileName !== undefined ? { entryFileName: t.entryFileName } : {}),
      ...(sim.int(4, "base") === 3 ? { base: sim.pick(["./commands", "commands/", "src/cmds", "./src/cmds/", ".", "./", "/", "/abs/cmds", "../up/cmds/", "..", "a//b/", "a/../b", "C:\\cmds\\", "@scope/cmds", "a b#c?d"], "basev") } : {}),
    };
    const how = sim.weighted([[1, "generate"], [2, "write"], [3, "cli"]], "how");
    const before = vfs.snapshot();
    const io = { stdout: "", stderr: "", exits: [] };
    let start, usage = false, argv = null;
    sim.cwd = run;
    if (how === "cli") {
      sim.count("cli");
      const rel = (p) => sim.int(2, "rel") && p.startsWith(run + "/") ? (sim.int(2, "dot") ? `./${p.slice(run.length + 1)}` : p.slice(run.length + 1)) : p;
      const out = sim.int(2, "oform") ? ["-o", rel(output)] : ["--output", rel(output)];
      const rest = [
        ...(t.exts ? t.exts.flatMap((e) => ["--extension", e]) : []),
        ...(t.entryFileName === false ? ["--no-entry-file-name"] : t.entryFileName ? ["--entry-file-name", t.entryFileName] : []),
        ...(options.base ? ["--base", options.base] : []),
      ];
      argv = sim.int(2, "argorder") ? [rel(t.root), ...out, ...rest] : [...rest, ...out, rel(t.root)];
      const odd = sim.int(14, "odd");
      if (odd === 13) { argv = argv.filter((a) => !out.includes(a)); usage = true; }
      else if (odd === 12 && t.entryFileName !== false) { argv.push("--no-entry-file-name"); if (t.entryFileName == null) argv.push("--entry-file-name", "x"); usage = 2; }
      const saved = process.argv;
      sim.captureExit = (c) => { io.exits.push(c); throw new ExitSignal(c); };
      sim.captureOut = (n, text) => { io[n] += text; };
      start = () => { process.argv = [saved[0], "optique-discover", ...argv]; try { return lib["discover-cli"].main(); } finally { process.argv = saved; } };
    } else start = () => how === "generate" ? G.generateCommandsModule(options) : G.writeCommandsModule(options);
    vfs.policy = policy;
    const r = await sim.drive(start, { what: `generation by ${how}` });
    await sim.quiesce();
    vfs.policy = () => undefined;
    sim.captureOut = sim.captureExit = null;
    const after = vfs.snapshot();
    const text = vfs.has(output) ? String(vfs.get(output)) : null;
    const bad = (k, m) => { throw new Violation(k, `${m}\n by ${how} ${show(argv ?? options)} output ${where}\n files ${show(files.map((f) => f.file.slice(t.root.length + 1)))}\n fault ${show(injected)}\n outcome ${r.status} ${r.status === "ok" ? "" : describeError(r.error)} io ${show(io)}\n file ${show(text)}`); };
    // only the output (and its parents) may change
    for (const p of new Set([...before.keys(), ...after.keys()])) {
      if (before.get(p) === after.get(p) || p === output || (output.startsWith(p + "/") && after.get(p) === "dir" && before.get(p) === undefined)) continue;
      bad("modified", `${p} changed`);
    }
    const untouched = before.get(output) === after.get(output);
    if (how === "generate" && !untouched) bad("modified", "generateCommandsModule() wrote the output");
    const failed = how === "cli" ? io.exits.length > 0 : r.status !== "ok";
    if (how === "cli") {
      if (failed ? !(r.error instanceof ExitSignal) || io.exits.length !== 1 : r.status !== "ok") bad("cli-outcome", "the command line neither finished nor exited exactly once");
      if (failed && (io.exits[0] === 0 || io.stderr === "" || io.stdout !== "")) bad("cli-error", "a failure must be reported on stderr with a nonzero exit");
      if (!failed && (io.stderr !== "" || io.stdout !== `Generated ${files.length} ${files.length === 1 ? "command module" : "command modules"}.\n`)) bad("cli-message", "success is not reported as documented");
    }
    sim.cover(`${how}:${where}:${files.length}:${legal}:${injected?.op}:${usage}`);
    if (usage) {
      sim.count("usage");
      if (!failed || !untouched || vfs.ops.length) bad("usage", "a wrong command line was acted upon");
      if (usage === 2 && io.exits[0] !== 2) bad("usage", "contradictory options must exit with status 2");
      return { nontrivial: true };
    }
    if (injected && injected.op === "stat" && injected.code === "ELOOP") return { nontrivial: false };
    if (injected) {
      if (!failed) bad("fault-swallowed", `${injected.op} failed with ${injected.code} but success was reported`);
      if (how !== "cli" && r.error?.code !== injected.code) bad("wrong-error", "the error is not the file system's");
      if (how === "cli" && (!io.stderr.includes(injected.code) || io.exits[0] !== 1)) bad("wrong-error", `the exit status must be 1 and stderr name ${injected.code}`);
      if (injected.op !== "writeFile" && !untouched) bad("modified", "the output changed although writing never started");
      sim.count("fault-reported");
      return { nontrivial: true };
    }
    if (!legal) {
      if (!failed) bad("accepted", "a tree without or with duplicate commands was accepted");
      if (how !== "cli" && !(r.error instanceof TypeError)) bad("wrong-error", "TypeError was expected");
      if (how === "cli" && io.exits[0] !== 1) bad("wrong-error", "exit status 1 was expected");
      if (!untouched) bad("modified", "the output changed although generation failed");
      sim.count("rejected");
      return { nontrivial: files.length > 0 };
    }
    if (failed) bad("refused", "generation failed although nothing is wrong with the tree");
    sim.count("generated");
    if (how === "write" && text !== r.value.code) bad("partial", "the output is not the returned code");
    const code = how === "generate" ? r.value.code : text;
    if (how === "cli") {
      const ref = await sim.drive(() => G.generateCommandsModule(options), { what: "generateCommandsModule" });
      if (ref.status !== "ok" || ref.value.code !== text) bad("partial", `the output is not the generated module: ${show(ref.value?.code ?? describeError(ref.error))}`);
    } else if (show(r.value.files.map((f) => f.filePath).sort()) !== show(files.map((f) => f.file).sort())) bad("files", `reported files ${show(r.value.files.map((f) => f.filePath))}`);
    // the generated module is equivalent to run-time discovery
    const broken = files.some((f) => !["ok", "slow", "mismatch"].includes(kindOf(f)));
    const at = how === "generate" ? output : output;
    if (how === "generate") vfs.put(output, code);
    const discovered = await sim.drive(() => lib.discover.discoverCommands({ dir: t.root, ...(t.exts ? { extensions: t.exts } : {}), ...(t.entryFileName !== undefined ? { entryFileName: t.entryFileName } : {}) }), { what: "discovery" });
    const url = new URL(pathToFileURL(at).href);
    url.search = `?v=${vfs.serial = (globalThis.__simSerial = (globalThis.__simSerial ?? 0) + 1)}`;
    const inTree = modelFiles(vfs, t).length !== files.length;
    const loaded = await sim.drive(() => import(pathToFileURL(at).href), { what: "loading the generated module" });
    await sim.quiesce();
    if (broken || files.some((f) => kindOf(f) === "mismatch")) {
      if (loaded.status === "ok") bad("load", "the generated module loads although a command module is broken");
      return { nontrivial: true };
    }
    if (loaded.status !== "ok") bad("load", `the generated module cannot be loaded: ${describeError(loaded.error)}`);
    const got = loaded.value.default;
    const want = new Map(files.map((f) => [key(f.path), t.registry.get(t.idOf(f.real))]));
    if (!Array.isArray(got) || got.length !== files.length) bad("commands", `the module exports ${got?.length} commands`);
    for (const e of got) if (want.get(key(e.path)) !== e.command) bad("commands", `${show(e.path)} is not the command discovery finds there`);
    if (!inTree) {
      if (discovered.status !== "ok") bad("discovery", `run-time discovery fails: ${describeError(discovered.error)}`);
      if (show(discovered.value.map((e) => e.path)) !== show(got.map((e) => e.path))) bad("commands", `run-time discovery gives ${show(discovered.value.map((e) => e.path))}, the module ${show(got.map((e) => e.path))}`);
    }
    sim.count("same-commands");
    return { nontrivial: true, sample: { by: how, argv, output: where, files: files.map((f) => f.file.slice(t.root.length + 1)) } };
  },
};
