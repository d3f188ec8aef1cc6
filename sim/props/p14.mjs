import { Violation, show, InjectedFault } from "../core.mjs";
import { VFS, SIMROOT, errno } from "../seams.mjs";
import { LAYER_LIBS } from "../layers.mjs";

const KEYS = ["A", "B", "C", "D"];

// ---- independent reference of the documented .env syntax
class RefSyntax extends Error { constructor(line) { super(`line ${line}`); this.line = line; } }
function refExpand(raw, lookup, substitute, line) {
  return raw.replace(/\\([\s\S]?)|`([^`]*)`|\$\(([^)]*)\)|\$\{([^}]*)\}|\$([A-Za-z_][A-Za-z0-9_]*)|`|\$[({]/g, (all, esc, tick, paren, brace, bare) => {
    if (all[0] === "\\") return esc === "" ? "\\" : { n: "\n", r: "\r", t: "\t" }[esc] ?? esc;
    if (tick !== undefined) return substitute(tick) ?? "";
    if (paren !== undefined) return substitute(paren) ?? "";
    if (brace !== undefined) return lookup(brace) ?? "";
    if (bare !== undefined) return lookup(bare) ?? "";
    throw new RefSyntax(line);
  });
}
function refExpandUnescaped(raw, lookup, substitute, line) {
  // outside quotes a backslash is an ordinary character
  return raw.replace(/`([^`]*)`|\$\(([^)]*)\)|\$\{([^}]*)\}|\$([A-Za-z_][A-Za-z0-9_]*)|`|\$[({]/g, (all, tick, paren, brace, bare) => {
    if (tick !== undefined) return substitute(tick) ?? "";
    if (paren !== undefined) return substitute(paren) ?? "";
    if (brace !== undefined) return lookup(brace) ?? "";
    if (bare !== undefined) return lookup(bare) ?? "";
    throw new RefSyntax(line);
  });
}
function refParse(text, source, outer, substitute) {
  const values = new Map();
  if (text[0] === "\ufeff") text = text.slice(1);
  let pos = 0, lastLine = 1;
  const take = (re) => { re.lastIndex = pos; const m = re.exec(text); if (m) pos = re.lastIndex; return m; };
  while (pos < text.length) {
    const line = text.slice(0, pos).split(/\r\n|\r|\n/).length;
    lastLine = line;
    take(/[ \t]*/y);
    if (pos >= text.length) break;
    if (take(/\r\n|\r|\n/y)) continue;
    if (take(/#[^\r\n]*(?:\r\n|\r|\n|$)/y)) continue;
    const k = take(/(?:export\s[ \t]*)?([A-Za-z_][A-Za-z0-9_]*)[ \t]*=[ \t]*/y);
    if (!k) throw new RefSyntax(line);
    const lookup = (n) => source(n) ?? values.get(n) ?? outer.get(n);
    let v;
    if (text[pos] === "'") {
      const m = take(/'([^']*)'/y);
      if (!m) throw new RefSyntax(line);
      v = m[1];
    } else if (text[pos] === '"') {
      const m = take(/"((?:[^"\\]|\\[\s\S])*)"/y);
      if (!m) throw new RefSyntax(line);
      v = refExpand(m[1], lookup, substitute, line);
    } else {
      const m = take(/[^\r\n]*/y)[0];
      const cut = m.search(/(?:^|(?<=\s))#/);
      v = refExpandUnescaped((cut < 0 ? m : m.slice(0, cut)).trimEnd(), lookup, substitute, line);
    }
    values.set(k[1], v);
    take(/[ \t]*(?:#[^\r\n]*)?/y);
    if (pos < text.length && !take(/\r\n|\r|\n/y)) throw new RefSyntax(line);
  }
  void lastLine;
  return values;
}

export default {
  needs: LAYER_LIBS,
  rule: "0-3 .env files of random syntax (quotes, escapes, expansion, substitution, comments, line endings), torn at a random byte, missing, unreadable or being directories, under a random process environment; several runs with the environment and the files changing in between; substitution hook and source failing at a random call; compared with an independent reference parser and priority model; non-trivial when a file existed",
  real: ["@optique/env createEnvContext (file loading), bindEnv, @optique/core facade and combinators"],
  stubs: ["file system (in memory, with faults)", "environment source and substitution hook"],
  assumptions: [],
  minimum: { "file-value": 1500, "env-value": 1500, syntax: 500, unreadable: 500, "hook-failed": 60, "source-failed": 100 },
  quick: { count: 12000, ms: 60000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], P = lib["core-primitives"], V = lib["core-valueparser"], M = lib["core-modifiers"], E = lib.env;
    const vfs = sim.vfs = new VFS(sim);
    sim.cwd = `${SIMROOT}/app`;
    vfs.mkdirp(sim.cwd);
    const prefix = sim.pick(["", "APP_"], "prefix");
    const piece = () => sim.weighted([[4, "abc"], [2, "x y"], [2, "$VAR"], [2, "${VAR}"], [1, "$(cmd)"], [1, "`cmd`"], [1, "\\n"], [1, "\\$VAR"], [1, " # c"], [1, "#c"], [1, "$"], [1, "}"], [1, "{"], [1, ")"], [1, "$$"], [1, "${"], [1, "$("], [1, "\\\\"], [1, "é"]], "piece").replace("VAR", `${prefix}${sim.pick(KEYS, "ref")}`);
    const assignment = () => {
      const key = prefix + sim.pick(KEYS, "key");
      const body = Array.from({ length: sim.range(0, 3, "pieces") }, piece).join("");
      const q = sim.weighted([[3, ""], [2, '"'], [1, "'"]], "quote");
      const nl = q && sim.int(5, "multi") === 4 ? "\n" : "";
      return `${sim.int(5, "export") === 4 ? "export " : ""}${key}${sim.pick(["=", " = ", "= "], "eq")}${q}${q === "'" ? body.replaceAll("'", "") : body.replaceAll('"', "")}${nl}${nl ? "z" : ""}${q}${sim.int(6, "trail") === 5 ? " # note" : ""}`;
    };
    const line = () => sim.weighted([[8, 0], [1, 1], [1, 2], [1, 3]], "line");
    const makeText = () => Array.from({ length: sim.range(0, 4, "lines") }, () => { const k = line(); return k === 0 ? assignment() : k === 1 ? "# comment" : k === 2 ? "" : sim.pick(["broken line", "=x", `${prefix}A`, `${prefix}B="x" y`], "badline"); }).map((l) => l + sim.weighted([[6, "\n"], [1, "\r\n"], [1, "\r"]], "nl")).join("");
    const nfiles = sim.range(0, 3, "files");
    const files = Array.from({ length: nfiles }, (_, i) => {
      const f = { path: nfiles === 1 && sim.int(3, "default") === 2 ? ".env" : `.env.${i}`, state: sim.weighted([[8, "ok"], [2, "missing"], [2, "torn"], [1, "EACCES"], [1, "EIO"], [1, "directory"], [1, "dangling"]], "state") };
      f.abs = `${sim.cwd}/${f.path}`;
      f.text = makeText();
      if (f.state === "torn") f.text = f.text.slice(0, sim.int(f.text.length + 1, "tear"));
      if (f.state === "directory") vfs.mkdirp(f.abs);
      else if (f.state === "dangling") vfs.link(f.abs, "/simfs/nowhere");
      else if (f.state !== "missing") vfs.put(f.abs, f.text);
      if (f.state !== "ok") sim.fault(`envfile:${f.state}`);
      return f;
    });
    vfs.policy = (op, path) => { const f = files.find((x) => x.abs === path); return f && /^E/.test(f.state) ? { code: f.state } : undefined; };
    const value = (tag) => sim.weighted([[4, `${tag}1`], [3, `${tag}2`], [1, ""], [1, "NO!"]], "envv");
    const genEnv = (tag) => Object.fromEntries(KEYS.filter(() => sim.int(3, "inenv") === 2).map((k) => [prefix + k, value(tag)]));
    let environment = genEnv("e");
    const creationEnv = { ...environment };
    const useProcess = sim.int(3, "processenv") === 2;
    const hookFault = sim.int(3, "hookfault") === 2 ? { at: sim.weighted([[3, 0], [1, 1], [1, 2]], "hookat"), code: sim.pick(["ENOENT", "EACCES", null], "hookcode") } : null;
    const hasHook = sim.int(3, "hook") !== 0;
    const sourceFault = !useProcess && sim.int(8, "sourcefault") === 7 ? { at: sim.int(12, "sourceat"), code: sim.pick(["ENOENT", null], "sourcecode") } : null;
    const made = [];
    const raise = (label, code) => { const e = code ? errno(code, "spawn", label) : new InjectedFault(label); made.push(e); sim.fault(label); throw e; };
    let hookCalls = 0, sourceCalls = 0;
    const answer = (cmd) => cmd === "cmd" ? "out" : undefined;
    const substitute = hasHook ? (cmd) => { const k = hookCalls++; if (hookFault && k === hookFault.at) raise("substitute", hookFault.code); return answer(cmd); } : undefined;
    const source = (key) => { const k = sourceCalls++; if (sourceFault && k === sourceFault.at) raise("source", sourceFault.code); return environment[key]; };
    const paths = files.map((f) => f.path);
    const forms = [paths, { paths }];
    if (nfiles === 1) forms.push(paths[0], { paths: paths[0] });
    if (nfiles === 1 && paths[0] === ".env") forms.push(true, {}, { paths: true });
    let envFile = nfiles === 0 ? sim.pick([undefined, false, []], "form0") : sim.pick(forms, "form");
    if (substitute && nfiles > 0) envFile = typeof envFile === "object" && !Array.isArray(envFile) ? { ...envFile, substitute } : { paths: envFile, substitute };
    const ctx = () => `\n files ${files.map((f) => `${f.path} (${f.state}) ${show(f.text)}`).join("; ") || "none"}\n prefix ${show(prefix)} environment ${show(environment)}${useProcess ? " (process.env)" : ""} hook ${hasHook} faults ${show({ hookFault, sourceFault })}`;
    const bad = (k, m, extra = "") => { throw new Violation(k, `${m}${ctx()}${extra}`); };
    const touched = () => KEYS.map((k) => prefix + k);
    const saved = Object.fromEntries(touched().map((k) => [k, process.env[k]]));
    const install = () => { for (const k of touched()) { if (useProcess && environment[k] !== undefined) process.env[k] = environment[k]; else delete process.env[k]; } };
    try {
      install();
      const before = show(Object.fromEntries(touched().map((k) => [k, process.env[k]])));
      // ---- creation
      let context, error = null;
      try {
        context = E.createEnvContext({ prefix, ...(useProcess ? {} : { source }), ...(envFile === undefined ? {} : { envFile }) });
      } catch (e) { error = e; }
      if (before !== show(Object.fromEntries(touched().map((k) => [k, process.env[k]])))) bad("leaked", "creating the context changed process.env");
      // reference
      const values = new Map();
      let expected = null;
      let hc = 0;
      class Raised extends Error {}
      const refHook = (cmd) => { if (!hasHook) return undefined; const k = hc++; if (hookFault && k === hookFault.at) throw new Raised(); return answer(cmd); };
      let sc = 0;
      const refSource = (key) => { const k = sc++; if (sourceFault && k === sourceFault.at) throw new Raised(); return creationEnv[key]; };
      for (const f of files) {
        if (["missing", "dangling"].includes(f.state)) continue;
        if (/^E/.test(f.state) || f.state === "directory") { expected = { code: f.state === "directory" ? "EISDIR" : f.state }; break; }
        try {
          for (const [k, v] of refParse(f.text, refSource, values, refHook)) values.set(k, v);
        } catch (e) {
          expected = e instanceof RefSyntax ? { syntax: f.abs, line: e.line } : { raised: true };
          break;
        }
      }
      if (expected) {
        if (!error) bad("swallowed", `creating the context must fail: ${show(expected)}`);
        if (expected.code) { sim.count("unreadable"); if (error.code !== expected.code || made.includes(error)) bad("wrong-error", `expected ${expected.code}, got ${show(error)}`); }
        else if (expected.raised) { sim.count("hook-failed"); if (!made.includes(error)) bad("wrong-error", `the error of the failing callback was replaced by ${show(error)}`); }
        else { sim.count("syntax"); if (!(error instanceof SyntaxError) || !error.message.includes(expected.syntax) || !new RegExp(`line ${expected.line}\\b`).test(error.message)) bad("wrong-error", `expected a syntax error in ${expected.syntax} at line ${expected.line}, got ${show(error)}`); }
        return { nontrivial: true, sample: { files: show(files.map((f) => f.text)), error: show(error) } };
      }
      if (error) bad("threw", `creating the context failed with ${show(error)} although every file is readable and well formed`);
      const reads = vfs.ops.length;
      // ---- runs
      const parser = () => C.object(Object.fromEntries(KEYS.map((k) => [k, M.optional(P.option(`--${k.toLowerCase()}`, V.string()))].map((x) => x)).map(([k]) => [k, M.optional(E.bindEnv(P.option(`--${k.toLowerCase()}`, V.string()), { context, key: k, parser: V.string() }))])));
      const shared = parser();
      const runs = sim.range(1, 3, "runs");
      for (let i = 0; i < runs; i++) {
        if (i > 0) {
          if (sim.int(2, "changeenv") === 1) { environment = genEnv("f"); install(); }
          if (sim.int(2, "changefile") === 1) for (const f of files) if (f.state === "ok") { vfs.put(f.abs, `${prefix}A=changed\n`); sim.fault("envfile:changed-after-load"); }
        }
        const cli = KEYS.filter(() => sim.int(4, "cli") === 3);
        const argv = cli.flatMap((k) => [`--${k.toLowerCase()}`, "cli"]);
        const at = sourceCalls;
        const r = await sim.drive(() => lib["core-facade"].runWith(shared, "prog", [context], { args: argv, stderr: () => {}, onError: () => "FAILED" }), { what: `run${ctx()}` });
        const seen = `\n run ${i}: argv ${show(argv)} outcome ${r.status} ${show(r.status === "ok" ? r.value : r.error)}`;
        if (vfs.ops.length !== reads) bad("reread", "a run read the .env files again", seen);
        if (sourceFault && at <= sourceFault.at && sourceCalls > sourceFault.at) {
          sim.count("source-failed");
          if (r.status !== "error" || !made.includes(r.error)) bad("swallowed", "the environment source failed but the run did not fail with its error", seen);
          continue;
        }
        if (r.status === "error") bad("threw", "the run failed", seen);
        if (r.value === "FAILED") bad("refused", "the parse failed", seen);
        for (const k of KEYS) {
          const want = cli.includes(k) ? "cli" : environment[prefix + k] !== undefined ? environment[prefix + k] : values.get(prefix + k);
          sim.count(cli.includes(k) ? "cli-value" : environment[prefix + k] !== undefined ? "env-value" : values.has(prefix + k) ? "file-value" : "no-value");
          if (r.value[k] !== want) bad("value", `${prefix}${k} should be ${show(want)} (file values ${show(values)})`, seen);
        }
      }
      sim.event(show(values));
      sim.cover(files.map((f) => `${f.state}${f.text.length}`).join() + show([...values.keys()]));
      return { nontrivial: nfiles > 0, sample: { files: show(files.map((f) => f.text)), values: show(values) } };
    } finally {
      for (const [k, v] of Object.entries(saved)) { if (v === undefined) delete process.env[k]; else process.env[k] = v; }
    }
  },
};
