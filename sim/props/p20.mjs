import { Violation, show, InjectedFault, describeError } from "../core.mjs";
import { VFS } from "../seams.mjs";
import { installLoader, genTree, modelFiles, key } from "../discover.mjs";
import { pathToFileURL } from "node:url";

const FSFAULTS = ["EACCES", "EIO", "EMFILE", "ESTALE", "ELOOP"];

export default {
  needs: ["core-constructs", "core-primitives", "core-parser", "discover"],
  rule: "random command trees (nested directories, entry files, declaration and test files, special files, symbolic links to files, directories, ancestors and nowhere) on a simulated file system with random listing order and latency, modules that load slowly, throw, are torn or export no command, file system errors at random operations, files vanishing during the scan; compared with an independent walk of the tree and with a second scan in another order; non-trivial when the tree held a command",
  real: ["@optique/discover discoverCommands, commandsFromModules, createProgramParser", "Node.js module loader"],
  stubs: ["file system (in memory, with faults)"],
  assumptions: [],
  minimum: { discovered: 2000, "fs-failed": 1000, "module-failed": 300, duplicate: 200, vanished: 100 },
  quick: { count: 12000, ms: 60000 },
  async run(sim, lib) {
    installLoader(lib);
    const D = lib.discover;
    const vfs = sim.vfs = new VFS(sim);
    const t = genTree(sim, lib, vfs);
    const files = modelFiles(vfs, t);
    const before = vfs.snapshot();
    const shuffled = () => { vfs.readdirOrder = (names) => sim.shuffle(names, "listing"); };
    shuffled();
    const faultAt = sim.int(4, "fsfault") === 3 ? { n: sim.int(12, "fsat"), code: sim.pick(FSFAULTS, "fscode") } : null;
    const vanish = !faultAt && sim.int(8, "vanish") === 7 && files.length ? { n: sim.int(12, "vat"), file: sim.pick(files, "vfile").file } : null;
    let ops = 0, injected = null, gone = false;
    vfs.policy = (op, path) => {
      const k = ops++;
      if (vanish && k === vanish.n) { gone = vfs.del(vanish.file); sim.fault("file-vanished"); }
      if (faultAt && k === faultAt.n && ["readdir", "realpath", "stat", "readFile"].includes(op)) { injected = { op, path, code: faultAt.code }; return { code: faultAt.code }; }
      return undefined;
    };
    const options = {
      dir: sim.pick([t.root, pathToFileURL(t.root), pathToFileURL(`${t.root}/`)], "dirform"),
      ...(t.exts ? { extensions: t.exts } : {}),
      ...(t.entryFileName !== undefined ? { entryFileName: t.entryFileName } : {}),
    };
    const ctx = `\n files ${show(files.map((f) => f.file.slice(t.root.length + 1)))}\n extensions ${show(t.exts)} entry ${show(t.entryFileName)} fault ${show(injected ?? faultAt)} vanish ${show(vanish)}`;
    const r = await sim.drive(() => D.discoverCommands(options), { what: "discovery" });
    await sim.quiesce();
    const bad = (k, m) => { throw new Violation(k, `${m}${ctx}\n outcome ${r.status} ${r.status === "ok" ? show(r.value.map((x) => [x.path, x.filePath.slice(t.root.length + 1)])) : describeError(r.error)}`); };
    // nothing is written
    const after = vfs.snapshot();
    const vanished = vanish && files.find((f) => f.file === vanish.file);
    for (const [p, v] of before) if (after.get(p) !== v && p !== vanished?.file && p !== vanished?.real) bad("modified", `${p} changed during discovery`);
    if (after.size > before.size) bad("modified", "discovery created files");
    if (new Set(t.loads).size !== t.loads.length) {
      // one module may be reachable through several links, but each file is evaluated once per URL
      const dup = t.loads.filter((x, i) => t.loads.indexOf(x) !== i);
      const reachable = (id) => files.filter((f) => t.idOf(f.real) === id).length;
      for (const id of dup) if (t.loads.filter((x) => x === id).length > reachable(id)) bad("reloaded", `${id} was evaluated more often than it can be reached`);
    }
    const kinds = new Map(t.entries.map((e) => [e.file, e.kind]));
    const kindOf = (f) => kinds.get(f.real) ?? "ok";
    const paths = files.map((f) => key(f.path));
    const duplicate = new Set(paths).size !== paths.length;
    const broken = files.filter((f) => !["ok", "slow"].includes(kindOf(f)));
    const stemless = files.filter((f) => f.stemless);
    if (injected && injected.code === "ELOOP" && injected.op === "stat") {
      // an unresolvable link is no command
      sim.count("loop-link");
      return { nontrivial: false };
    }
    if (injected) {
      if (r.status === "ok") bad("fault-swallowed", `${injected.op} ${injected.path} failed with ${injected.code} but discovery reported success`);
      sim.count("fs-failed");
      if (!duplicate && !broken.length && r.error?.code !== injected.code) bad("wrong-error", "discovery failed with an error other than the file system's");
      return { nontrivial: true, sample: { files: files.map((f) => f.name), fault: injected.code } };
    }
    if (gone) {
      sim.count("vanished");
      if (r.status === "ok") {
        const got = r.value.map((x) => key(x.path)).sort();
        const without = files.filter((f) => f.file !== vanish.file && f.real !== vanish.file).map((f) => key(f.path)).sort();
        const mid = files.filter((f) => f.file !== vanish.file).map((f) => key(f.path)).sort();
        if (![paths.slice().sort(), without, mid].some((x) => show(x) === show(got)) && !files.some((f) => f.file !== f.real)) bad("vanished", "the result is neither the tree before nor after the file vanished");
      }
      return { nontrivial: true };
    }
    if (files.length === 0) {
      if (r.status === "ok" || !(r.error instanceof TypeError)) bad("empty", "a tree without commands was accepted");
      return { nontrivial: false };
    }
    if (duplicate || broken.length || stemless.length) {
      if (r.status === "ok") bad("accepted", `discovery succeeded although ${duplicate ? "a command path is duplicated" : `${broken.map((f) => f.file)} cannot be a command`}`);
      if (duplicate) sim.count("duplicate");
      if (broken.length) sim.count("module-failed");
      const acceptable = [];
      if (duplicate) acceptable.push((e) => e instanceof TypeError && /Duplicate/.test(e.message));
      for (const f of broken) {
        const k = kindOf(f);
        if (k === "throws") acceptable.push((e) => e instanceof InjectedFault);
        else if (k === "torn") acceptable.push((e) => e instanceof SyntaxError);
        else acceptable.push((e) => e instanceof TypeError && e.message.includes(f.file.split("/").at(-1)));
      }
      if (!stemless.length && !acceptable.some((a) => a(r.error))) bad("wrong-error", "the error does not describe the problem");
    } else {
      if (r.status !== "ok") bad("refused", "discovery failed although nothing is wrong with the tree");
      sim.count("discovered");
      const want = new Map(files.map((f) => [key(f.path), f]));
      if (r.value.length !== files.length) bad("missing", `${files.length} commands exist, ${r.value.length} were discovered`);
      for (const e of r.value) {
        const f = want.get(key(e.path));
        if (!f) bad("path", `${show(e.path)} is not the path of any command file`);
        if (e.filePath !== f.file) bad("path", `${show(e.path)} comes from ${e.filePath} instead of ${f.file}`);
        if (e.command !== t.registry.get(t.idOf(f.real))) bad("command", `${show(e.path)} has the command of another file`);
      }
      const joined = r.value.map((e) => key(e.path));
      if (show(joined) !== show([...joined].sort((a, b) => a.localeCompare(b)))) bad("order", "the commands are not sorted by path");
      // the static module map gives the same commands
      const modules = Object.fromEntries(sim.shuffle(files, "modmap").map((f) => [`./commands${f.file.slice(t.root.length)}`, sim.int(2, "wrap") ? { default: r.value.find((e) => e.filePath === f.file).command } : r.value.find((e) => e.filePath === f.file).command]));
      const fixed = D.commandsFromModules(modules, { base: "./commands", extensions: t.effective, ...(t.entryFileName !== undefined ? { entryFileName: t.entryFileName } : {}) });
      if (show(fixed.map((e) => e.path)) !== show(r.value.map((e) => e.path))) bad("static", `the static module map gives ${show(fixed.map((e) => e.path))}`);
      if (fixed.some((e, i) => e.command !== r.value[i].command)) bad("static", "the static module map gives other commands");
      // every command can be reached by its path
      const parser = D.createProgramParser(r.value, {});
      const target = sim.pick(r.value, "target");
      const pr = await sim.drive(async () => lib["core-parser"].parseAsync(parser, [...target.path]), { what: "dispatch" });
      if (pr.status !== "ok" || !pr.value.success) bad("dispatch", `${show(target.path)} cannot be invoked: ${show(pr.value ?? pr.error)}`);
      if (pr.value.value.command !== target.command || show(pr.value.value.path) !== show(target.path)) bad("dispatch", `${show(target.path)} invokes ${show(pr.value.value.path)}`);
    }
    // another scan in another order ends the same way
    vfs.policy = () => undefined;
    shuffled();
    const r2 = await sim.drive(() => D.discoverCommands(options), { what: "second discovery" });
    const outcome = (x) => x.status === "ok" ? x.value.map((e) => `${key(e.path)}=${e.filePath}`).join(";") : describeError(x.error);
    if (outcome(r) !== outcome(r2)) bad("unstable", `a second scan in another listing order gave ${outcome(r2)}`);
    sim.cover(`${files.length}:${r.status}:${duplicate}:${broken.length}`);
    return { nontrivial: true, sample: { files: files.map((f) => f.file.slice(t.root.length + 1)), outcome: outcome(r).replaceAll("\0", " ").slice(0, 200) } };
  },
};
