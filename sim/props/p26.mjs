import { Violation, show, describeError } from "../core.mjs";
import { VFS, SIMROOT, ExitSignal } from "../seams.mjs";

const CODES = ["EACCES", "EIO", "ELOOP", "ESTALE", "ENOTDIR", "ENAMETOOLONG"];

export default {
  needs: ["core-constructs", "core-primitives", "core-modifiers", "core-parser", "core-message", "env", "run"],
  rule: "path() values with random requirements (must exist, must not exist, file, directory, creatable, extensions) given by argument, option or environment while other processes create, remove and replace entries between any two file system calls of the parser and calls fail; compared with the states the file system went through during the parse; non-trivial when the tree changed or a call failed",
  real: ["@optique/run path(), run()", "@optique/core parsing", "@optique/env"],
  stubs: ["file system (in memory), other processes changing it"],
  assumptions: [],
  minimum: { stable: 2000, raced: 1200, "fs-failed": 400, accepted: 2500, refused: 2500 },
  quick: { count: 14000, ms: 40000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], P = lib["core-primitives"], R = lib.run;
    const vfs = sim.vfs = new VFS(sim);
    const base = `${SIMROOT}/work`;
    vfs.mkdirp(base);
    const names = ["a.json", "b.txt", "dir", "dir/in.json", "dir/sub", "link.json", "gone/x.json", "broken.json", "fifo.json"];
    const make = (n) => {
      const p = `${base}/${n}`;
      if (vfs.has(p)) return;
      const kind = sim.weighted([[3, "file"], [2, "dir"], [1, "special"], [1, "link"], [1, "dangling"]], "mk");
      try {
        if (n.includes("/") && !vfs.has(`${base}/${n.split("/")[0]}`)) return;
        if (kind === "file") vfs.put(p, "x"); else if (kind === "dir") vfs.mkdirp(p); else if (kind === "special") vfs.special(p);
        else vfs.link(p, kind === "link" ? `${base}/${sim.pick(["a.json", "dir"], "to")}` : `${base}/nowhere`);
      } catch { /* below a file */ }
    };
    for (const n of names) if (sim.int(2, "have")) make(n);
    const opt = { type: sim.pick(["file", "directory", "either", undefined], "type") };
    const need = sim.weighted([[3, "mustExist"], [2, "mustNotExist"], [2, "none"]], "need");
    if (need !== "none") opt[need] = true;
    if (sim.int(2, "create")) opt.allowCreate = true;
    if (sim.int(4, "exts") === 3) opt.extensions = sim.pick([[".json"], [".json", ".txt"]], "ext");
    for (const k of Object.keys(opt)) if (opt[k] === undefined) delete opt[k];
    if (sim.int(4, "msgs") === 3) opt.errors = { pathNotFound: (p) => lib["core-message"].message`custom ${p}`, notAFile: (p) => lib["core-message"].message`custom file ${p}` };
    const name = sim.pick(names, "target");
    const rel = sim.int(2, "rel") === 1;
    const input = rel ? name : `${base}/${name}`;
    sim.cwd = base;
    const target = `${base}/${name}`, parent = target.slice(0, target.lastIndexOf("/"));
    const look = (p) => { try { const n = vfs.resolve(p, { syscall: "stat" }).node; return n ? n.type : null; } catch { return null; } };
    const states = [];
    const note = () => states.push({ self: look(target), parent: look(parent) });
    const racy = sim.int(2, "racy") === 1, failing = sim.int(3, "failing") === 2;
    let changed = 0, failed = 0;
    vfs.beforeSync = () => {
      if (racy && sim.int(2, "race")) {
        const victim = sim.int(4, "vpar") === 3 ? parent : target;
        changed++;
        sim.fault("concurrent-change");
        sim.event(`world changes ${victim.slice(base.length)}`);
        if (victim === base) vfs.put(`${base}/other`, "");
        else if (vfs.has(victim) || look(victim)) { vfs.del(victim); if (sim.int(3, "repl") === 0) make(victim.slice(base.length + 1)); }
        else if (victim !== base) make(victim.slice(base.length + 1));
      }
      note();
    };
    vfs.policy = () => { if (failing && sim.int(3, "f") === 0) { failed++; return { code: sim.pick(CODES, "code") }; } };
    note();
    const vp = R.path(opt);
    const via = sim.pick(["argument", "option", "multiple", "env", "run"], "via");
    const arg = via === "argument" || via === "run" ? P.argument(vp) : P.option("--path", vp);
    const parser = via === "env" ? C.object({ p: lib.env.bindEnv(P.option("--path", vp), { context: lib.env.createEnvContext({ source: (k) => (k === "P" ? input : undefined) }), key: "P", parser: vp }) }) : via === "multiple" ? lib["core-modifiers"].map(lib["core-modifiers"].multiple(arg, { min: 1 }), (x) => ({ p: x[0] })) : C.object({ p: arg });
    const exits = [], err = [];
    const ctxs = via === "env" ? [lib.env.createEnvContext({ source: (k) => (k === "P" ? input : undefined) })] : [];
    let r;
    const argv = via === "argument" || via === "run" ? [input] : ["--path", input];
    const start = () => {
      if (via === "run") return R.run(parser, { programName: "p", args: argv, stderr: (t) => err.push(t), stdout() {}, onExit: (c) => { exits.push(c); throw new ExitSignal(c); } });
      return lib["core-parser"].parse(parser, via === "env" ? ["--path", input] : argv);
    };
    try { r = { status: "ok", value: start() }; } catch (e) { r = { status: "error", error: e }; }
    void ctxs;
    note();
    const bad = (k, m) => { throw new Violation(k, `${m}\n path(${show({ ...opt, errors: undefined })}) ${via} ${show(input)}\n states ${show(states)} failed calls ${failed}\n outcome ${r.status} ${show(r.value)} ${r.error ? describeError(r.error) : ""} exits ${show(exits)}`); };
    let ok;
    if (via === "run") {
      if (r.status === "error" && !(r.error instanceof ExitSignal)) bad("threw", "run() threw instead of reporting a usage error");
      if (r.status === "error" && (show(exits) !== "[1]" || err.length === 0)) bad("exit", "the failure must be printed and exit with status 1");
      ok = r.status === "ok";
      if (ok && r.value.p !== input) bad("value", "the path was altered");
    } else {
      if (r.status === "error") bad("threw", "the parse threw instead of reporting a failure");
      ok = r.value.success;
      if (ok && r.value.value.p !== input) bad("value", "the path was altered");
    }
    sim.event(ok ? "accepted" : "refused");
    if (vfs.writes) bad("wrote", "validation wrote to the file system");
    // could the answer have been right at some instant?
    const fits = (s) => opt.type === "file" ? s.self === "file" : opt.type === "directory" ? s.self === "dir" : s.self != null;
    const exists = (s) => s.self != null;
    const extOk = opt.type === "directory" || !opt.extensions || opt.extensions.some((e) => name.split("/").at(-1).endsWith(e));
    const rule = need === "mustExist" ? fits : need === "mustNotExist" ? (s) => !exists(s) && (!opt.allowCreate || s.parent != null) : (s) => !opt.allowCreate || s.parent != null;
    const ever = (f) => states.some(f);
    if (!changed && !failed) {
      sim.count("stable");
      if (ok !== (extOk && rule(states[0]))) bad("verdict", `the path was ${ok ? "accepted" : "refused"}`);
    } else {
      if (ok && !extOk) bad("verdict", "a wrong extension was accepted");
      if (need === "mustExist" && ok && !ever(fits)) bad("verdict", "a path that never existed with the right type was accepted");
      if (need === "mustNotExist" && ok && !failed && !ever((s) => !exists(s))) bad("verdict", "a path that existed all along was accepted");
      if (!failed && !ok && extOk && states.every(rule)) bad("verdict", "a path that was acceptable all along was refused");
      sim.count(changed ? "raced" : "fs-failed");
    }
    sim.count(ok ? "accepted" : "refused");
    sim.cover(`${via}:${show({ ...opt, errors: undefined })}:${states.map((s) => s.self?.[0] ?? "-").join("")}:${failed}`);
    return { nontrivial: changed + failed > 0, sample: { options: show(opt), input, via, accepted: ok } };
  },
};
