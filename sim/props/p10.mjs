import { Violation, show, InjectedFault } from "../core.mjs";
import { VFS, SIMROOT, ExitSignal } from "../seams.mjs";
import { LAYER_LIBS, genField, genWorld, buildLayers, genShape, buildShape, shapeArgv, fieldText } from "../layers.mjs";

const PATH = `${SIMROOT}/etc/app.json`;

export default {
  needs: [...LAYER_LIBS, "run"],
  rule: "a layered parser (environment, configuration file, derived defaults, prompts) whose configuration file is broken in a random way and whose resolvers, prompts, schema and getConfigPath() fail, asked for help, version, a completion script or completions in a random position; compared with the same parser run without any context; non-trivial when something was broken",
  real: ["@optique/run run/runAsync, @optique/core facade, @optique/env, @optique/config (file loading), @optique/derived-defaults, @optique/prompt"],
  stubs: ["file system (in memory, with faults)", "prompt adapter, resolvers and schema fail or never answer"],
  assumptions: [],
  minimum: { help: 1500, version: 800, script: 400, suggest: 400 },
  quick: { count: 8000, ms: 60000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], R = lib.run;
    const fields = Array.from({ length: sim.range(1, 4, "fields") }, (_, i) => genField(sim, i));
    const w = genWorld(sim, fields);
    const shape = genShape(sim, fields);
    const broken = {
      config: sim.pick(["ok", "missing", "garbage", "torn", "EACCES", "EIO", "EMFILE", "directory", "schema", "schema-throws", "path-throws", "path-later"], "broken"),
      resolver: sim.pick(["ok", "throws", "rejects", "hangs"], "bresolver"),
      prompt: sim.pick(["ok", "throws", "hangs"], "bprompt"),
    };
    const calls = [];
    const vfs = sim.vfs = new VFS(sim);
    const json = JSON.stringify(w.config);
    if (broken.config === "directory") vfs.mkdirp(PATH);
    else if (broken.config !== "missing") vfs.put(PATH, broken.config === "garbage" ? "{nope" : broken.config === "torn" ? json.slice(0, -1) : json);
    if (/^E/.test(broken.config)) vfs.policy = () => ({ code: broken.config });
    if (broken.config !== "ok") sim.fault(`config:${broken.config}`);
    let reference = true;
    const never = new Promise(() => {});
    const boom = (l) => { sim.fault(l); throw new InjectedFault(l); };
    const schema = { "~standard": { version: 1, vendor: "sim", validate: (value) => { calls.push("schema"); if (broken.config === "schema-throws") boom("schema"); return broken.config === "schema" ? { issues: [{ message: "no good" }] } : { value }; } } };
    const L = buildLayers(sim, lib, fields, w, {
      schema,
      resolver: (f, answer) => { calls.push(`resolver ${f.key}`); if (broken.resolver === "throws") boom("resolver"); if (broken.resolver === "rejects") return sim.op("resolver", () => boom("resolver")); if (broken.resolver === "hangs") return never; return answer(); },
      execute: (f, answer) => { calls.push(`prompt ${f.key}`); if (broken.prompt === "throws") boom("prompt"); if (reference) throw new Error("not a request"); if (broken.prompt === "hangs") return never; return Promise.resolve(answer()); },
    });
    // settings, or one of several commands
    const P = lib["core-primitives"];
    // settings alone, or under one of several (possibly nested) commands
    const M = lib["core-modifiers"];
    const inner = buildShape(lib, shape, fields, L.make);
    const base = shapeArgv(shape, w.argv);
    const depth = shape.kind === "command" ? 0 : sim.weighted([[4, 0], [4, 1], [3, 2], [1, 3]], "depth");
    const names = ["work", "group", "top"];
    const groups = [];
    let parser = inner;
    for (let d = 0; d < depth; d++) {
      const group = sim.pick(["or", "or", "longestMatch", "single", "optional", "withDefault", "object", "tuple", "merge", "multiple"], `group${d}`);
      groups.unshift(group);
      const mine = P.command(names[d], parser, sim.int(3, `brief${d}`) === 0 ? { description: lib["core-message"].message`Does ${names[d]}.` } : {});
      const other = P.command(`other${d}`, sim.int(2, `oth${d}`) ? C.object({ x: P.flag("--x") }) : C.or(P.command("one", P.constant(1)), P.command("two", P.constant(2))));
      const pair = sim.int(2, `ord${d}`) ? [mine, other] : [other, mine];
      parser = group === "single" ? mine : group === "longestMatch" ? C.longestMatch(...pair) : C.or(...pair);
      if (group === "optional") parser = M.optional(parser);
      else if (group === "withDefault") parser = M.withDefault(parser, { none: true });
      else if (group === "object") parser = C.object({ v: M.optional(P.option(`-${"vwy"[d]}`)), cmd: parser });
      else if (group === "tuple") parser = C.tuple([parser]);
      else if (group === "merge") parser = C.merge(C.object({ v: M.optional(P.option(`-${"vwy"[d]}`)) }), C.object({ cmd: parser }));
      else if (group === "multiple") parser = M.multiple(parser, { max: 1 });
    }
    const wrapCmd = depth > 0;
    const path = names.slice(0, depth).reverse();
    const full = [...path, ...base];
    // half the time stop short: only part of the command path is given
    const given = depth > 0 && sim.int(2, "short") === 1 ? path.slice(0, 1 + sim.int(depth, "stop")) : full;
    // how the three requests are configured; the one asked for always is
    const NAMES = { help: ["help", "--help", "-?", "aide"], version: ["version", "--version", "-V", "release"], completion: ["completion", "--completion", "--complete", "complete"] };
    const kind = sim.weighted([[4, "help"], [2, "version"], [1, "script"], [1, "suggest"]], "meta");
    const how = sim.int(2, "how") === 1 ? "option" : "command";
    const what = kind === "script" || kind === "suggest" ? "completion" : kind;
    const meta = {}, word = {}, flagName = {};
    for (const k of ["help", "version", "completion"]) {
      const form = k === what ? sim.pick(["both", how], `form-${k}`) : sim.pick(["none", "option", "command", "both"], `form-${k}`);
      const renamed = sim.int(4, `renamed-${k}`) === 3;
      word[k] = renamed ? NAMES[k][3] : NAMES[k][0];
      flagName[k] = renamed ? NAMES[k][2] : NAMES[k][1];
      if (form === "none") continue;
      const extra = renamed ? { hidden: sim.pick([undefined, true, "usage", "doc", "help"], `hidden-${k}`), group: sim.pick([undefined, "Meta"], `mgroup-${k}`) } : {};
      const full = { ...(k === "version" ? { value: "9.8.7" } : {}), ...(form !== "command" ? { option: renamed ? { names: [flagName[k]], ...extra } : true } : {}), ...(form !== "option" ? { command: renamed ? { names: [word[k]], ...extra } : true } : {}) };
      meta[k] = !renamed && k === "version" && form === "option" ? sim.pick(["9.8.7", full], "vshort") : !renamed && k !== "version" ? sim.pick([form, full], "short") : full;
    }
    const cut = sim.int(given.length + 1, "cut");
    // keep option/value pairs together
    const pairs = [];
    for (let i = 0; i < given.length; i++) { if (given[i].startsWith("--") && !given[i].includes("=") && i + 1 < given.length && !given[i + 1].startsWith("--")) { pairs.push([given[i], given[++i]]); } else pairs.push([given[i]]); }
    const at = Math.min(cut, pairs.length);
    const put = (tok) => [...pairs.slice(0, at).flat(), tok, ...pairs.slice(at).flat()];
    let argv;
    if (kind === "help") argv = how === "option" ? put(flagName.help) : [word.help, ...(wrapCmd ? path.slice(0, sim.int(depth + 1, "hc")) : [])];
    else if (kind === "version") argv = how === "option" ? (sim.int(2, "vp") === 1 ? [flagName.version] : put(flagName.version)) : [word.version];
    else if (kind === "script") argv = how === "option" ? [`${flagName.completion}=${sim.pick(["bash", "zsh", "fish"], "sh")}`] : [word.completion, sim.pick(["bash", "zsh", "fish"], "sh")];
    else argv = [...(how === "option" ? [`${flagName.completion}=bash`] : [word.completion, "bash"]), ...path.slice(0, sim.int(depth + 1, "sc")), sim.pick(["", "--", "--f0"], "prefix")];
    // now and then the line holds something wrong or a second request as well
    if (sim.int(4, "junk") === 3) argv.splice(sim.int(argv.length + 1, "junkat"), 0, sim.pick(["--nope", "extra", "--", "--f0", "--f1=", flagName.help, flagName.version, word.help, word.version, "-x"], "junktok"));
    const runner = sim.pick(["run", "runAsync", "runSync"], "runner");
    const contexts = sim.shuffle([L.env, L.config, L.derived.context], "contexts");
    const options = (rec) => ({
      programName: "prog", args: argv, stdout: (t) => rec.out.push(t), stderr: (t) => rec.err.push(t),
      onExit: (c) => { rec.exits.push(c); throw new ExitSignal(c); }, colors: false, maxWidth: 80,
      ...meta,
    });
    const rec = () => ({ out: [], err: [], exits: [] });
    const plain = rec(), real = rec();
    const ctx = `\n fields: ${fields.map(fieldText).join("; ")} as ${shape.kind}@${shape.cut}${wrapCmd ? ` under ${path.join(" ")} (${groups.join(" ")})` : ""} env ${show(w.env)}\n argv ${show(argv)} runner ${runner}\n broken ${show(broken)} requests ${show(meta)}`;
    // reference: no contexts at all
    const r0 = await sim.drive(() => R.runAsync(parser, options(plain)), { what: "plain run" });
    if (plain.exits.length !== 1 || plain.exits[0] !== 0 || !(r0.error instanceof ExitSignal)) return { nontrivial: false }; // e.g. the token was an option value
    reference = false;
    calls.length = 0;
    vfs.ops.length = 0;
    const sync = runner === "runSync" && parser.mode !== "sync" ? "run" : runner;
    const getConfigPath = (parsed) => { calls.push("getConfigPath"); if (broken.config === "path-throws") boom("getConfigPath"); return broken.config === "path-later" ? "relative/../" : PATH; };
    const r = await sim.drive(() => R[sync](parser, { ...options(real), contexts, contextOptions: { getConfigPath } }), { what: `${sync}${ctx}` });
    await sim.quiesce();
    sim.count(kind);
    sim.event(`out ${real.out.length} exits ${show(real.exits)}`);
    const bad = (k, m) => { throw new Violation(k, `${m}${ctx}\n outcome ${r.status} ${show(r.error ?? r.value)}\n stderr ${show(real.err)}`); };
    if (!(r.error instanceof ExitSignal) || real.exits.length !== 1 || real.exits[0] !== 0) bad("not-answered", `the ${kind} request did not exit with status 0 (exits: ${show(real.exits)})`);
    if (real.err.length) bad("stderr", `the ${kind} request wrote to stderr`);
    if (real.out.join("\n") !== plain.out.join("\n")) bad("output", `the ${kind} output differs from the output without contexts:\n${real.out.join("\n")}\n--- expected\n${plain.out.join("\n")}`);
    if (vfs.ops.length) bad("read", `the ${kind} request touched the file system: ${show(vfs.ops)}`);
    if (calls.length) bad("called", `the ${kind} request called ${show(calls)}`);
    sim.cover(`${kind}:${how}:${broken.config}:${shape.kind}:${groups.join(".")}:${given.length}`);
    return { nontrivial: broken.config !== "ok" || broken.resolver !== "ok" || broken.prompt !== "ok", sample: { argv, broken: show(broken), fields: fields.map(fieldText) } };
  },
};
