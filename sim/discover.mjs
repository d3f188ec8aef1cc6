// Shared machinery of the discovery properties: simulated command trees, a
// module loader reading the simulated file system, and an independent model of
// which files are commands.
import { registerHooks } from "node:module";
import { dirname, resolve as presolve } from "node:path";
import { fileURLToPath, pathToFileURL } from "node:url";
import { getCurrent, InjectedFault } from "./core.mjs";
import { SIMROOT, errno } from "./seams.mjs";

const PREFIX = `file://${SIMROOT}/`;
let installed = false;
let libUrl = null;
/** Serves file:///simfs/... modules from the simulated file system. */
export function installLoader(lib) {
  libUrl = lib.__urls ?? libUrl;
  if (installed) return;
  installed = true;
  registerHooks({
    resolve(spec, ctx, next) {
      if (ctx.parentURL?.startsWith(PREFIX) && spec === "@optique/discover" && globalThis.__simDiscoverUrl) return { url: globalThis.__simDiscoverUrl, shortCircuit: true, format: "module" };
      if (spec === "tsx/esm/api" && getCurrent()?.tsx) {
        const { tsx } = getCurrent();
        tsx.asked++;
        if (tsx.state === "missing") throw Object.assign(new Error("Cannot find package 'tsx'"), { code: "ERR_MODULE_NOT_FOUND" });
        if (tsx.state === "broken") throw tsx.error;
        globalThis.__simTsx = tsx;
        return { url: `file://${SIMROOT}/tsx-${globalThis.__simTsxSerial = (globalThis.__simTsxSerial ?? 0) + 1}.mjs`, shortCircuit: true, format: "module" };
      }
      if (spec === "@logtape/file" && getCurrent()?.logFile) {
        const { logFile } = getCurrent();
        logFile.asked++;
        const error = logFile.importError?.();
        if (error) throw error;
        globalThis.__simLogFile = logFile;
        return { url: `file://${SIMROOT}/logfile-${globalThis.__simLogSerial = (globalThis.__simLogSerial ?? 0) + 1}.mjs`, shortCircuit: true, format: "module" };
      }
      const url = spec.startsWith(PREFIX) ? spec : ctx.parentURL?.startsWith(PREFIX) && /^\.{1,2}\//.test(spec) ? new URL(spec, ctx.parentURL).href : null;
      if (url == null) return next(spec, ctx);
      return { url, shortCircuit: true, format: "module" };
    },
    load(url, ctx, next) {
      if (!url.startsWith(PREFIX)) return next(url, ctx);
      const path = fileURLToPath(url);
      const sim = getCurrent();
      if (path.startsWith(`${SIMROOT}/tsx-`)) return { format: "module", shortCircuit: true, source: "const t = globalThis.__simTsx; export function register() { if (t.state === 'unregisterable') throw t.error; t.registered = true; }" };
      if (path.startsWith(`${SIMROOT}/logfile-`)) return { format: "module", shortCircuit: true, source: "const f = globalThis.__simLogFile; export function getFileSink(...a) { return f.open(...a); }" };
      if (sim.tsx) {
        // what Node.js does with the extension when no loader is registered
        const ext = /\.[^./]*$/.exec(path)?.[0] ?? "";
        if (!sim.tsx.registered && (/^\.[mc]?[jt]sx$/.test(ext) || !sim.tsx.native && /^\.[mc]?ts$/.test(ext))) throw Object.assign(new TypeError(`Unknown file extension "${ext}" for ${path}`), { code: "ERR_UNKNOWN_FILE_EXTENSION" });
      }
      return { format: "module", shortCircuit: true, source: String(sim.vfs.run("readFile", path, "utf8")) };
    },
  });
}

export const NAMES = ["add", "build", "clean", "init", "remote", "stash"];
let serial = 0;

/**
 * A random tree of command modules below a directory unique to this run.
 * Returns the root plus every entry created, so the model can be computed.
 */
export function genTree(sim, lib, vfs, { links = true, bad = true, exotic = false } = {}) {
  const run = `${SIMROOT}/run${serial++}-${process.pid}`;
  sim.alias = run;
  const root = `${run}/commands`;
  const registry = globalThis.__simCommands = new Map();
  const loads = [];
  globalThis.__simLoaded = (id) => { loads.push(id); getCurrent()?.event(`load ${id}`); };
  globalThis.__simSlow = (id) => getCurrent().op(`module ${id}`, () => {});
  const entries = [];
  const idOf = (file) => file.slice(run.length + 1);
  const exts = sim.weighted([[3, undefined], [2, [".mjs"]], [1, [".js", ".mjs"]], [1, [".cmd.mjs"]], [1, [".mjs", ".cmd.mjs"]]], "exts");
  const effective = exts ?? lib.discover.getDefaultExtensions();
  const ext = () => sim.weighted([[5, ".mjs"], [2, ".js"], [1, ".cmd.mjs"], [1, ".ts"]], "ext");
  const problems = [];
  const moduleText = (id, kind) => {
    const head = `globalThis.__simLoaded(${JSON.stringify(id)});\n`;
    switch (kind) {
      case "ok": return `${head}export default globalThis.__simCommands.get(${JSON.stringify(id)});\n`;
      case "slow": return `${head}await globalThis.__simSlow(${JSON.stringify(id)});\nexport default globalThis.__simCommands.get(${JSON.stringify(id)});\n`;
      case "throws": return `${head}throw globalThis.__simCommands.get(${JSON.stringify(id)});\n`;
      case "torn": return `${head}export default globalThis.__simCommands.get(`;
      case "notcommand": return `${head}export default { parser: 1 };\n`;
      case "empty": return "";
      case "nodefault": return `${head}export const command = 1;\n`;
    }
  };
  const define = (path, file, good = false) => {
    const kind = good ? "ok" : bad ? sim.weighted([[30, "ok"], [6, "slow"], [1, "throws"], [1, "torn"], [1, "notcommand"], [1, "nodefault"], [1, "empty"], [1, "mismatch"]], "module") : sim.weighted([[5, "ok"], [1, "slow"]], "module");
    const id = idOf(file);
    if (kind === "throws") registry.set(id, new InjectedFault(`module ${id}`));
    else {
      const declared = kind === "mismatch" ? ["elsewhere"] : undefined;
      registry.set(id, lib.discover.defineCommand({ parser: lib["core-constructs"].object({ id: lib["core-primitives"].constant(id) }), ...(declared ? { path: declared } : {}), handler: () => {} }));
    }
    vfs.put(file, moduleText(id, kind === "mismatch" ? "ok" : kind));
    entries.push({ file, id, kind });
  };
  const nameOf = () => exotic && sim.int(6, "exotic") === 5 ? sim.pick(["a#b", "a%b", "a b", "q?x", "é", ".hid", "__proto__", "toString", `q"t`, "it's", "10"], "ename") : sim.pick(NAMES, "name");
  const fill = (dir, depth) => {
    const n = sim.range(depth === 0 ? 1 : 0, 4, "files");
    for (let i = 0; i < n; i++) {
      const what = sim.weighted([[7, "cmd"], [1, "index"], [1, "decl"], [1, "test"], [1, "other"], [1, "special"]], "entry");
      const base = nameOf();
      if (what === "cmd") { const f = `${dir}/${base}${ext()}`; if (!vfs.has(f)) define(null, f); }
      else if (what === "index") { const f = `${dir}/${sim.pick(["index", "main"], "idx")}${ext()}`; if (!vfs.has(f)) define(null, f); }
      else if (what === "decl") vfs.put(`${dir}/${base}.d.ts`, "export {};");
      else if (what === "test") vfs.put(`${dir}/${base}.${sim.pick(["test", "spec"], "t")}${sim.pick(effective.filter((e) => e.length <= 4 || effective.length === 1 || e === ".cmd.mjs"), "text")}`, "throw new Error('a test file was loaded');");
      else if (what === "other") vfs.put(`${dir}/${sim.pick(["README.md", "data.json", ".hidden"], "other")}`, "x");
      else vfs.special(`${dir}/${base}.fifo.mjs`);
    }
    if (depth < 2) for (let i = 0, k = sim.range(0, 2, "dirs"); i < k; i++) {
      const d = `${dir}/${nameOf()}`;
      if (vfs.has(d)) continue;
      vfs.mkdirp(d);
      fill(d, depth + 1);
    }
    if (links && sim.int(4, "link") === 3) {
      const target = sim.weighted([[2, "file"], [2, "dir"], [1, "up"], [1, "dangling"], [1, "self"]], "target");
      const l = `${dir}/${nameOf()}${["file", "dangling", "self"].includes(target) ? ext() : ""}`;
      if (!vfs.has(l)) {
        if (target === "file") { const o = entries.filter((e) => e.kind === "ok" || e.kind === "slow" || e.kind === "empty"); if (o.length) vfs.link(l, sim.pick(o, "linked").file); }
        else if (target === "dir") { vfs.mkdirp(`${run}/shared`); const f = `${run}/shared/${sim.pick(NAMES, "sname")}.mjs`; if (!vfs.has(f)) { define(null, f, true); } if (sim.int(2, "deep") === 1) { const g = `${run}/shared/${sim.pick(["lib", "more"], "sub")}`; if (!vfs.has(g)) { vfs.mkdirp(g); define(null, `${g}/${sim.pick(NAMES, "gname")}.mjs`, true); } } vfs.link(l, sim.pick([`${run}/shared`, "../shared"], "ltype").replace(/^\.\./, run)); }
        else if (target === "up") vfs.link(l, sim.pick([root, dir, run], "upto"));
        else if (target === "dangling") vfs.link(l, `${run}/nowhere`);
        else vfs.link(l, l);
      }
    }
  };
  vfs.mkdirp(root);
  fill(root, 0);
  const entryFileName = sim.weighted([[4, undefined], [1, "main"], [1, false]], "entryName");
  return { run, root, idOf, registry, loads, entries, exts, effective, entryFileName };
}

/** Files that are command modules, by walking the simulated tree directly. */
export function modelFiles(vfs, t, exclude = null) {
  const out = [];
  let excluded = exclude;
  if (exclude) {
    try { excluded = vfs.resolve(exclude).real; } catch {
      try { excluded = vfs.resolve(dirname(exclude)).real + exclude.slice(exclude.lastIndexOf("/")); } catch { /* not there yet */ }
    }
  }
  const longest = [...t.effective].sort((a, b) => b.length - a.length);
  const walk = (path, active) => {
    const { node, real } = vfs.resolve(path);
    if (active.includes(real)) return;
    for (const [name, child] of node.children) {
      const p = `${path}/${name}`;
      let target = child;
      if (child.type === "link") {
        try { target = vfs.resolve(p).node; } catch { continue; }
      }
      if (target.type === "dir") { walk(p, [...active, real]); continue; }
      if (target.type !== "file" || p === exclude || (exclude && vfs.resolve(p).real === excluded)) continue;
      const e = longest.find((x) => name.endsWith(x));
      if (!e || /\.d\.[cm]?ts$/.test(name)) continue;
      const stem = name.slice(0, -e.length);
      if (/\.(test|spec)$/.test(stem)) continue;
      const seg = p.slice(t.root.length + 1).slice(0, -e.length).split("/").filter((s) => s !== "");
      out.push({ file: p, real: vfs.resolve(p).real, name: `${seg.join("/")}`, seg, ext: e, stemless: stem === "" });
    }
  };
  walk(t.root, []);
  const entry = t.entryFileName === undefined ? "index" : t.entryFileName;
  for (const f of out) f.path = entry !== false && f.seg.at(-1) === entry ? f.seg.slice(0, -1) : f.seg;
  return out;
}
export const key = (p) => p.join("\0");
export { presolve, dirname, pathToFileURL, errno };
