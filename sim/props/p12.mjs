import { Violation, show, InjectedFault } from "../core.mjs";
import { VFS, SIMROOT, errno } from "../seams.mjs";
import { LAYER_LIBS, baseVp } from "../layers.mjs";

const DIR = `${SIMROOT}/etc`, PATH = `${DIR}/app.conf`;

/** key=value lines; `include x` pulls in another file like a real format would */
function lineParser(readInclude) {
  return (bytes) => {
    const out = {};
    for (const line of new TextDecoder().decode(bytes).split("\n")) {
      if (line === "") continue;
      if (line.startsWith("include ")) { Object.assign(out, readInclude(line.slice(8))); continue; }
      const i = line.indexOf("=");
      if (i < 0) throw new SyntaxError(`bad line ${line}`);
      out[line.slice(0, i)] = JSON.parse(line.slice(i + 1));
    }
    return out;
  };
}

export default {
  needs: LAYER_LIBS,
  rule: "1-3 settings bound to one configuration context, loaded from a file (JSON or a custom format with includes) or by a load() callback; the file is missing, dangling, torn at a random byte, unreadable, not a file, short-read or fine, and getConfigPath(), fileParser, schema and load() fail in random ways, synchronously or later; compared with a reference model of what must be reported; non-trivial when a fault was injected",
  real: ["@optique/config createConfigContext/bindConfig, @optique/core facade and combinators"],
  stubs: ["file system (in memory, with faults)", "schema, fileParser and load() callbacks"],
  assumptions: ["an injected short read delivers a prefix of the file"],
  minimum: { loaded: 1000, absent: 500, error: 1500 },
  quick: { count: 16000, ms: 60000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], P = lib["core-primitives"], V = lib["core-valueparser"], M = lib["core-modifiers"], G = lib.config;
    const vks = ["string", "integer", "choice"];
    const good = { string: ["alpha", "beta", "gamma"], integer: [0, 7, 42], choice: ["red", "green", "blue"] };
    const fields = Array.from({ length: sim.range(1, 3, "fields") }, (_, i) => {
      const vk = sim.pick(vks, "vk");
      return { key: `k${i}`, vk, keyFn: sim.int(3, "keyfn") === 2, dflt: sim.int(2, "dflt") === 1 ? sim.pick(good[vk], "dv") : undefined, optional: sim.int(4, "opt") === 3, cli: sim.int(4, "cli") === 3 ? sim.pick(good[vk], "cv") : undefined };
    });
    let data = {};
    for (const f of fields) if (sim.int(3, "has") !== 0) data[f.key] = sim.pick(good[f.vk], "v");
    const mode = sim.pick(["json", "custom", "load"], "mode");
    // the whole configuration may also be a single value
    const scalar = mode !== "custom" && sim.int(5, "scalar") === 4;
    if (scalar) data = sim.pick([0, "", false, true, 42, [1], ...good[fields[0].vk]], "whole");
    // what goes wrong
    const state = mode === "load"
      ? sim.weighted([[3, "ok"], [1, "throws"], [1, "rejects"], [1, "null"], [1, "undefined"], [1, "no-config"], [1, "array"], [1, "string"], [1, "config-null"]], "state")
      : sim.weighted([[3, "ok"], [1, "missing"], [1, "dangling"], [1, "symlink"], [2, "torn"], [1, "garbage"], [1, "short"], [1, "EACCES"], [1, "EIO"], [1, "EMFILE"], [1, "ELOOP"], [1, "directory"], [1, "notdir"], [1, "path-undefined"], [1, "path-empty"], [1, "path-throws"], [1, "path-number"]], "state");
    const parserFault = mode === "custom" ? sim.weighted([[5, null], [1, "RangeError"], [1, "SyntaxError"], [1, "ENOENT"], [1, "EACCES"]], "parserfault") : null;
    const schemaKind = sim.weighted([[12, "identity"], [6, "transform"], [1, "issues"], [1, "throws"], [1, "throws-ENOENT"], [1, "throws-Syntax"], [1, "issues-path"]], "schema");
    const schemaAsync = sim.int(2, "schemaasync") === 1;
    const loadAsync = sim.int(2, "loadasync") === 1;
    const keyFault = sim.int(8, "keyfault") === 7 ? { field: sim.int(fields.length, "keyfield"), kind: sim.pick(["throws", "thenable"], "keykind") } : null;
    const relative = mode !== "load" && sim.int(3, "relative") === 2;
    const cliPath = mode !== "load" && sim.int(2, "clipath") === 1;
    // world
    const vfs = sim.vfs = new VFS(sim);
    vfs.mkdirp(DIR);
    let bytes = mode === "json" ? JSON.stringify(data) : Object.entries(data).map(([k, v]) => `${k}=${JSON.stringify(v)}\n`).join("");
    const include = mode === "custom" && state === "ok" && sim.int(3, "include") === 2 ? sim.pick(["present", "missing"], "inc") : null;
    if (include) {
      bytes = `include ${DIR}/extra.conf\n${bytes}`;
      if (include === "present") vfs.put(`${DIR}/extra.conf`, "zz=1\n");
      else sim.fault("include:missing");
    }
    let short = null;
    if (state === "torn") bytes = bytes.slice(0, sim.int(bytes.length + 1, "tearat"));
    if (state === "garbage") bytes = "%%% not a config {";
    if (state === "directory") vfs.mkdirp(PATH);
    else if (state === "dangling") vfs.link(PATH, `${DIR}/gone.conf`);
    else if (state === "symlink") { vfs.put(`${DIR}/real.conf`, bytes); vfs.link(PATH, `${DIR}/real.conf`); }
    else if (state === "notdir") { vfs.del(DIR); vfs.put(DIR, "a file"); }
    else if (state !== "missing") vfs.put(PATH, bytes);
    if (state === "short") short = sim.int(bytes.length + 1, "short");
    vfs.policy = (op, path) => path !== PATH || op !== "readFile" ? undefined : /^E/.test(state) ? { code: state } : short != null ? { partial: short } : undefined;
    if (relative) sim.cwd = DIR;
    if (!["ok", "symlink"].includes(state)) sim.fault(`config:${state}`);
    if (parserFault) sim.fault(`fileParser:${parserFault}`);
    if (schemaKind.startsWith("throws") || schemaKind.startsWith("issues")) sim.fault(`schema:${schemaKind}`);
    const made = [];
    const raise = (kind, where) => {
      const e = kind === "RangeError" ? new RangeError(`bad range in ${where}`) : kind === "SyntaxError" ? new SyntaxError(`bad syntax in ${where}`) : /^E[A-Z]+$/.test(kind) ? errno(kind, "open", `${DIR}/other`) : new InjectedFault(where);
      made.push(e);
      throw e;
    };
    const calls = { load: 0, path: 0, schema: 0, parse: 0 };
    const schemaArgs = [];
    const validate = (value) => {
      if (schemaKind === "throws") raise("x", "schema");
      if (schemaKind === "throws-ENOENT") raise("ENOENT", "schema");
      if (schemaKind === "throws-Syntax") raise("SyntaxError", "schema");
      if (schemaKind === "issues") return { issues: [{ message: "not acceptable" }] };
      if (schemaKind === "issues-path") return { issues: [{ message: "not acceptable", path: ["server", { key: "port" }] }, { message: "second" }] };
      if (schemaKind === "transform") return { value: value && typeof value === "object" ? Object.fromEntries(Object.entries(value).map(([k, v]) => [k, typeof v === "number" ? v + 1 : v])) : value };
      return { value };
    };
    const schema = { "~standard": { version: 1, vendor: "sim", validate: (v) => { calls.schema++; schemaArgs.push(show(v)); return schemaAsync ? sim.op("schema", () => validate(v)) : validate(v); } } };
    const parseLines = lineParser((p) => { if (include !== "present") raise("ENOENT", "include"); return { zz: 1, from: p }; });
    const context = G.createConfigContext({ schema, ...(mode === "custom" ? { fileParser: (b) => { calls.parse++; if (parserFault) raise(parserFault, "fileParser"); return parseLines(b); } } : {}) });
    const loadValue = () => {
      if (state === "throws") raise("x", "load");
      return { "null": null, "undefined": undefined, "no-config": { other: 1 }, array: [1], string: "x", "config-null": { config: null } }[state === "ok" || state === "rejects" ? "-" : state] ?? (["null", "undefined"].includes(state) ? (state === "null" ? null : undefined) : { config: data, meta: { tag: "m" } });
    };
    const given = relative ? "app.conf" : PATH;
    const contextOptions = mode === "load" ? {
      load: () => {
        calls.load++;
        if (state === "rejects") return sim.op("load", () => raise("x", "load"));
        return loadAsync ? sim.op("load", loadValue) : loadValue();
      },
    } : {
      getConfigPath: (parsed) => {
        calls.path++;
        if (state === "path-throws") raise("x", "getConfigPath");
        if (state === "path-undefined") return undefined;
        if (state === "path-empty") return "";
        if (state === "path-number") return 42;
        return cliPath ? parsed.config : given;
      },
    };
    const parser = C.object({
      config: M.optional(P.option("--config", V.string())),
      where: M.optional(G.bindConfig(P.option("--where", V.string()), { context, key: (_, meta) => meta === undefined ? "nometa" : meta.configPath ?? meta.tag })),
      ...Object.fromEntries(fields.map((f) => {
        const b = G.bindConfig(P.option(`--${f.key}`, baseVp(V, f.vk)), { context, key: keyFault && fields[keyFault.field] === f ? (c) => { if (keyFault.kind === "throws") raise("x", "key"); return { then() {} }; } : scalar ? (c) => c : f.keyFn ? (c) => c[f.key] : f.key, ...(f.dflt !== undefined ? { default: f.dflt } : {}) });
        return [f.key, f.optional ? M.optional(b) : b];
      })),
    });
    const argv = sim.shuffle([...(cliPath ? [["--config", given]] : []), ...fields.filter((f) => f.cli !== undefined).map((f) => [`--${f.key}`, String(f.cli)])], "argv").flat();
    // ---- model
    const lines = (text) => lineParser(() => { if (include !== "present") throw errno("ENOENT", "open", "x"); return { zz: 1 }; })(new TextEncoder().encode(text));
    let m; // {err: predicate text} | {data, meta} | {absent}
    const isPrefix = (p) => (e) => e instanceof Error && e.message.startsWith(p);
    const isCode = (c) => (e) => e instanceof Error && e.code === c && e !== undefined && !made.includes(e);
    const isMade = (e) => made.includes(e);
    const isType = (e) => e instanceof TypeError && !made.includes(e);
    const afterRaw = (raw, meta) => {
      if (schemaKind === "throws" || schemaKind === "throws-ENOENT") return { err: isMade, why: "the schema threw" };
      if (schemaKind === "throws-Syntax") return { err: (e) => isMade(e) || isPrefix("Failed to parse config file")(e), why: "the schema threw" };
      if (schemaKind.startsWith("issues")) return { err: (e) => e instanceof Error && /not acceptable/.test(e.message), why: "the schema rejected the configuration" };
      const v = validate(raw).value;
      return v == null ? { absent: true } : { data: v, meta };
    };
    if (mode === "load") {
      if (state === "throws" || state === "rejects") m = { err: isMade, why: "load() failed" };
      else if (state === "null" || state === "undefined") m = { absent: true };
      else if (["no-config", "array", "string"].includes(state)) m = { err: isType, why: "load() returned something else" };
      else m = afterRaw(state === "config-null" ? null : data, state === "config-null" ? undefined : "m");
    } else if (state === "path-throws") m = { err: isMade, why: "getConfigPath() failed" };
    else if (state === "path-number") m = { err: isType, why: "getConfigPath() returned a number" };
    else if (["path-undefined", "path-empty", "missing", "dangling"].includes(state)) m = { absent: true };
    else if (/^E/.test(state)) m = { err: isCode(state), why: "the file could not be read" };
    else if (state === "directory") m = { err: isCode("EISDIR"), why: "the path is a directory" };
    else if (state === "notdir") m = { err: isCode("ENOTDIR"), why: "the directory is a file" };
    else {
      const text = short != null ? bytes.slice(0, short) : bytes;
      if (mode === "custom" && parserFault) m = parserFault === "SyntaxError" ? { err: isPrefix(`Failed to parse config file ${PATH}`), why: "fileParser rejected the file" } : { err: isMade, why: "fileParser failed" };
      else if (include === "missing") m = { err: isMade, why: "an included file is missing" };
      else {
        let raw, failed = false;
        try { raw = mode === "json" ? JSON.parse(text) : lines(text); } catch { failed = true; }
        m = failed ? { err: isPrefix(`Failed to parse config file ${PATH}`), why: "the file is malformed" } : afterRaw(raw, PATH);
      }
    }
    const ctx = `\n fields ${show(fields)}\n mode ${mode} state ${state}${short != null ? `@${short}` : ""} file ${show(bytes)} fileParser ${parserFault} include ${include} keyFault ${show(keyFault)} schema ${schemaKind}${schemaAsync ? " (async)" : ""} argv ${show(argv)} cwd ${sim.cwd}`;
    // ---- run
    const canSync = !schemaAsync && !loadAsync && state !== "rejects";
    const runner = canSync ? sim.pick(["runWith", "runWithSync"], "runner") : "runWith";
    let errors = 0;
    const r = await sim.drive(() => lib["core-facade"][runner](parser, "prog", [context], { args: argv, contextOptions, stderr: () => {}, onError: () => { errors++; return "FAILED"; } }), { what: `${runner}${ctx}` });
    await sim.quiesce();
    const bad = (k, t) => { throw new Violation(k, `${t}${ctx}\n outcome ${r.status} ${show(r.status === "ok" ? r.value : r.error)}`); };
    const reads = vfs.ops.filter((o) => o.path === PATH && o.op === "readFile").length;
    if (reads > 1 || calls.load > 1 || calls.path > 1 || calls.schema > 1 || calls.parse > 1) bad("repeated", `loaded more than once: ${show({ reads, ...calls })}`);
    if (vfs.writes) bad("wrote", "loading a configuration wrote to the file system");
    const faulty = !["ok", "symlink"].includes(state) || parserFault != null || !["identity", "transform"].includes(schemaKind) || include != null;
    sim.cover(`${mode}:${state}:${parserFault}:${schemaKind}:${schemaAsync}:${runner}`);
    const conforms = (f, v) => f.vk === "integer" ? Number.isInteger(v) && v >= 0 && v <= 100 : f.vk === "string" ? typeof v === "string" && /^[a-z]+$/.test(v) : good.choice.includes(v);
    // a value of another type than the setting's is the schema's business
    if (scalar && !m.err && !m.absent && fields.some((f) => f.cli === undefined && typeof m.data !== (f.vk === "integer" ? "number" : "string"))) {
      if (r.status === "ok" && r.value !== "FAILED") {
        for (const f of fields) if (f.cli === undefined && !f.optional && show(r.value[f.key]) === show(f.dflt) && show(f.dflt) !== show(m.data)) bad("ignored", `--${f.key} took its default although there is a configuration`);
        sim.count("other-type");
      }
      return { nontrivial: false };
    }
    if (!m.err && !m.absent && keyFault && fields[keyFault.field].cli === undefined) {
      sim.fault(`key:${keyFault.kind}`);
      // another setting without a valid value may be reported instead
      const d = m.data;
      if (r.value === "FAILED" && fields.some((f, i) => i !== keyFault.field && f.cli === undefined && !f.optional && (v => v === undefined || scalar && !conforms(f, v))((scalar ? d : d?.[f.key]) ?? f.dflt))) return { nontrivial: true };
      m = { err: keyFault.kind === "throws" ? isMade : isType, why: `the key callback of --${fields[keyFault.field].key} ${keyFault.kind === "throws" ? "failed" : "returned a thenable"}` };
    }
    if (m.err) {
      sim.count("error");
      if (r.status !== "error") bad("swallowed", `the run must fail because ${m.why}`);
      if (!m.err(r.error)) bad("wrong-error", `the run failed with another error although ${m.why}`);
      return { nontrivial: faulty, sample: { mode, state, error: show(r.error) } };
    }
    if (r.status === "error") bad("threw", "the run failed although the configuration is fine");
    sim.count(m.absent ? "absent" : "loaded");
    const own = (d, k) => scalar ? d : d[k];
    const expect = {};
    let fail = false;
    for (const f of fields) {
      if (f.cli !== undefined) expect[f.key] = f.cli;
      else {
        const v = m.absent ? undefined : own(m.data, f.key);
        const x = v !== undefined ? v : f.dflt;
        if (x === undefined) { if (f.optional) expect[f.key] = undefined; else fail = true; }
        else if (!conforms(f, x)) { if (f.optional) return { nontrivial: false }; fail = true; }
        else expect[f.key] = x;
      }
    }
    if (fail) {
      if (r.value !== "FAILED" || errors !== 1) bad("accepted", "a required setting has no valid value but the parse succeeded");
      return { nontrivial: faulty };
    }
    if (r.value === "FAILED") bad("refused", `the parse failed although every setting has a value: ${show(expect)}`);
    for (const f of fields) if (show(r.value[f.key]) !== show(expect[f.key])) bad("value", `--${f.key} should be ${show(expect[f.key])}`);
    const where = m.absent ? undefined : m.meta ?? "nometa";
    if (r.value.where !== where) bad("meta", `the key callback should have produced ${show(where)}`);
    return { nontrivial: faulty, sample: { mode, state, value: show(r.value) } };
  },
};
