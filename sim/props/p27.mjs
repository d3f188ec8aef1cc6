import { Violation, show, describeError, InjectedFault } from "../core.mjs";
import { ExitSignal } from "../seams.mjs";
import { genTree, buildTree, genArgv, treeText, resultText, zeroInputAlternatives, tryBuild, walk } from "../gen.mjs";

const SHELLS = ["bash", "zsh", "fish", "nu", "pwsh"];

/** How help, version and completion are switched on, and under which names. */
function genMeta(sim) {
  const forms = (n) => sim.weighted([[2, "none"], [2, "option"], [2, "command"], [3, "both"]], n);
  const help = forms("help"), version = forms("version"), completion = forms("completion");
  const custom = sim.int(5, "custom") === 4;
  const opt = (dflt, alt) => custom ? { names: alt } : dflt;
  const has = (f, k) => f === k || f === "both";
  const cfg = {};
  if (help !== "none") cfg.help = custom || sim.int(2, "hobj") ? { ...(has(help, "option") ? { option: opt(true, ["--assist", "-?"]) } : {}), ...(has(help, "command") ? { command: opt(true, ["assist"]) } : {}) } : help;
  if (version !== "none") cfg.version = version === "option" && !custom && sim.int(2, "vstr") ? "9.8.7" : { value: "9.8.7", ...(has(version, "option") ? { option: opt(true, ["--ver"]) } : {}), ...(has(version, "command") ? { command: opt(true, ["ver"]) } : {}) };
  if (completion !== "none") cfg.completion = custom || sim.int(2, "cobj") ? { ...(has(completion, "option") ? { option: opt(true, ["--complete"]) } : {}), ...(has(completion, "command") ? { command: opt(true, ["complete"]) } : {}) } : completion;
  const tokens = {
    help: [...(has(help, "option") ? (custom ? ["--assist", "-?"] : ["--help"]) : []), ...(has(help, "command") ? [custom ? "assist" : "help"] : [])],
    version: [...(has(version, "option") ? [custom ? "--ver" : "--version"] : []), ...(has(version, "command") ? [custom ? "ver" : "version"] : [])],
    completion: [...(has(completion, "option") ? [custom ? "--complete" : "--completion"] : []), ...(has(completion, "command") ? [custom ? "complete" : "completion"] : [])],
  };
  return { cfg, tokens };
}

function metaArgv(sim, meta, argv) {
  const kind = sim.pick(["help", "version", "completion"], "metakind");
  const t = meta.tokens[kind].length ? sim.pick(meta.tokens[kind], "metatoken") : sim.pick(["--help", "help", "version", "--completion=bash"], "stray");
  const cut = argv.slice(0, sim.int(argv.length + 1, "metacut"));
  if (kind === "completion") {
    const shell = sim.int(8, "badshell") === 7 ? "tcsh" : sim.pick(SHELLS, "shell");
    const rest = sim.int(3, "script") === 0 ? [] : [...cut, sim.pick(["", "-", "--", "re", "cmd"], "cprefix")];
    if (!t.startsWith("-")) return sim.int(8, "noshell") === 7 ? [t] : [t, shell, ...rest];
    return sim.int(2, "ceq") ? [`${t}=${shell}`, ...rest] : [t, shell, ...rest];
  }
  if (t.startsWith("-")) return sim.int(2, "metapos") ? [...cut, t] : [...cut, t, ...argv.slice(cut.length)];
  return [t, ...(sim.int(2, "metarest") ? cut : [])];
}

export default {
  needs: ["core-constructs", "core-modifiers", "core-primitives", "core-valueparser", "core-dependency", "core-parser", "core-message", "core-facade", "core-program", "run"],
  rule: "random parser x help/version/completion configuration x runner (run, runAsync, runSync, runParser, runParserAsync, runParserSync) x one or two overlapping runs with their own command lines; value parsers answer on the scheduler and may throw or reject, output sinks may throw, exit handlers throw, return or are process.exit; each run is compared with the synchronous twin run alone; non-trivial when something was scheduled or a fault fired",
  real: ["@optique/run run/runAsync/runSync, @optique/core runParser family, combinators, help, version, completion"],
  stubs: ["asynchronous value parsers: the real ones behind a scheduler-controlled promise", "stdout, stderr, exit handler, process.exit, terminal size"],
  assumptions: ["an asynchronous value parser returns the same result as its synchronous twin"],
  minimum: { value: 1000, shown: 1000, refused: 1000, "sink-failed": 100, "parser-failed": 100, "bare-request": 500, "core-compared": 2000, "settings-of-the-process": 100 },
  quick: { count: 12000, ms: 60000 },
  async run(sim, lib) {
    const { tree } = genTree(sim, { depth: sim.range(1, 3, "depth") });
    const P = lib["core-parser"], R = lib.run, F = lib["core-facade"];
    const anyAsync = sim.int(4, "anyasync") !== 3;
    const parserS = tryBuild(() => buildTree(tree, lib, { sim, mode: "sync" }));
    const aset = new Map();
    const isAsync = (n) => { if (!anyAsync) return false; if (!aset.has(n)) aset.set(n, sim.int(4, "isasync") !== 3); return aset.get(n); };
    let fault = null;
    const env = { sim, mode: "async", isAsync, faultFor: (label, input) => {
      if (!fault || fault.armed <= 0) return undefined;
      if (--fault.armed > 0) return undefined;
      fault.fired = true;
      return { kind: fault.kind, error: fault.error };
    } };
    // an entirely synchronous parser must not be built with schedulable leaves
    const parserA = anyAsync ? tryBuild(() => buildTree(tree, lib, env)) : tryBuild(() => buildTree(tree, lib, { sim, mode: "sync" }));
    if (parserS.error || parserA.error) return { nontrivial: false };
    const isSync = parserA.value.mode === "sync";
    const hasDerived = /derived\(/.test(treeText(tree));
    const meta = genMeta(sim);
    const pkg = sim.weighted([[3, "run"], [1, "core"]], "pkg");
    const runner = sim.pick(isSync ? ["", "Async", "Sync"] : ["", "Async"], "runner");
    const names = pkg === "run" ? `run${runner}` : `runParser${runner}`;
    const common = {
      ...(sim.int(3, "above") ? { aboveError: sim.pick(["help", "usage", "none"], "abovek") } : {}),
      colors: sim.int(4, "colors") === 3, maxWidth: sim.pick([undefined, 40, 80], "width"),
      ...(sim.int(3, "showd") === 2 ? { showDefault: true, showChoices: true } : {}),
    };
    const errorExitCode = pkg === "run" && sim.int(2, "eec") ? sim.pick([2, 64, 0, 255], "eecv") : undefined;
    const exitCode = errorExitCode ?? 1;
    const sinks = pkg === "run" && sim.int(3, "procsinks") === 2 ? "process" : "custom";
    const exitKind = pkg === "core" ? "core" : sim.weighted([[3, "throws"], [2, "returns"], [sinks === "process" ? 3 : 1, "process"]], "exit");
    const asProgram = sim.int(4, "program") === 3;
    // contexts that supply nothing any parser reads: the run must not change
    const contexts = pkg === "run" && sim.int(3, "contexts") === 2 ? Array.from({ length: sim.range(1, 2, "ncontexts") }, (_, i) => {
      const phase = sim.pick(["single-pass", "two-pass"], "phase");
      const annotations = sim.int(2, "anything") ? { [Symbol.for(`@sim/unrelated${i}`)]: { data: i } } : {};
      const slow = runner !== "Sync" && sim.int(2, "slow") === 1;
      return { id: Symbol(`inert${i}`), phase, getAnnotations: () => slow ? sim.op("context", () => annotations) : annotations, text: `${phase}${slow ? " (slow)" : ""} ${Reflect.ownKeys(annotations).length}` };
    }) : null;
    const overlap = sinks === "custom" && exitKind !== "process" && sim.int(3, "overlap") === 2;
    const { message } = lib["core-message"];
    // texts of the program's pages: in the program's metadata, in the options or in both
    const FIELDS = ["brief", "description", "examples", "author", "bugs", "footer"];
    const texts = (where) => Object.fromEntries(FIELDS.filter((f) => sim.int(5, `${where}-${f}`) === 4).map((f) => [f, message`The ${f} of the ${where}.`]));
    const metadata = { name: "prog", version: "1.2.3", ...(asProgram ? texts("program") : {}) };
    Object.assign(common, texts("options"));
    // settings taken from the process: command line, program name, terminal
    const fromProcess = sinks === "process" && pkg === "run" && exitKind === "process" && sim.int(2, "fromprocess") === 1;
    const terminal = fromProcess ? { isTTY: sim.pick([true, false, undefined], "tty"), columns: sim.pick([undefined, 50, 72], "columns") } : null;
    if (fromProcess) {
      sim.count("settings-of-the-process");
      if (terminal.isTTY !== undefined) common.colors = terminal.isTTY; else common.colors = false;
      common.maxWidth = terminal.columns;
    }
    const pageTexts = { ...(asProgram ? Object.fromEntries(FIELDS.filter((f) => metadata[f]).map((f) => [f, metadata[f]])) : {}), ...common };

    const record = () => ({ out: [], err: [], exits: [], after: 0, failSink: null, sinkError: null });
    const optionsFor = (rec, argv, kinds = { sinks, exitKind, contexts, fromProcess }) => {
      const sink = (name) => (text) => {
        if (rec.exits.length) rec.after++;
        if (rec.failSink && rec.failSink.name === name && rec.failSink.at-- === 0) { rec.sinkError = new InjectedFault(`${name} closed`); sim.fault(`sink:${name}`); throw rec.sinkError; }
        rec[name === "stdout" ? "out" : "err"].push(text);
      };
      const exit = (code) => {
        rec.exits.push(code);
        if (kinds.exitKind === "returns") return `exit ${code}`;
        throw new ExitSignal(code);
      };
      const o = { ...common, ...meta.cfg };
      if (kinds.sinks === "custom") { o.stdout = sink("stdout"); o.stderr = sink("stderr"); }
      if (pkg === "run") {
        if (kinds.contexts) o.contexts = contexts;
        if (errorExitCode !== undefined) o.errorExitCode = errorExitCode;
        if (kinds.fromProcess) { delete o.colors; delete o.maxWidth; } else {
          o.args = argv;
          if (!asProgram) o.programName = "prog";
        }
        if (kinds.exitKind !== "process") o.onExit = exit;
      } else {
        for (const k of ["help", "version", "completion"]) {
          if (typeof o[k] === "string") o[k] = k === "version" ? { value: o[k], option: true } : { ...(o[k] !== "command" ? { option: true } : {}), ...(o[k] !== "option" ? { command: true } : {}) };
          if (o[k]) o[k] = { ...o[k], onShow: (c) => { rec.exits.push(c ?? 0); return `shown ${c}`; } };
        }
        o.onError = (c) => { rec.exits.push(c); return `failed ${c}`; };
      }
      return o;
    };
    const program = (p) => asProgram ? { parser: p, metadata: metadata } : p;
    const call = (fn, parser, rec, argv, kinds) => {
      const o = optionsFor(rec, argv, kinds);
      return pkg === "run" ? R[fn](program(parser), o) : asProgram ? F[fn.replace(/Async|Sync/, "")]({ parser, metadata: metadata }, argv, o) : F[fn](parser, "prog", argv, o);
    };

    const inProcess = (argv, fn) => {
      if (!fromProcess) return fn();
      const saved = process.argv, keys = ["isTTY", "columns"], old = keys.map((k) => Object.getOwnPropertyDescriptor(process.stdout, k));
      process.argv = [saved[0], "/opt/tools/prog", ...argv];
      for (const k of keys) Object.defineProperty(process.stdout, k, { value: terminal[k], configurable: true, writable: true });
      try { return fn(); } finally {
        process.argv = saved;
        keys.forEach((k, i) => { delete process.stdout[k]; if (old[i]) Object.defineProperty(process.stdout, k, old[i]); });
      }
    };
    const requests = Array.from({ length: overlap ? 2 : 1 }, () => {
      let argv = genArgv(sim, tree);
      if (sim.int(2, "meta") === 1) argv = metaArgv(sim, meta, argv);
      return { argv, rec: record() };
    });
    // the synchronous twin, alone and with recording sinks
    for (const q of requests) {
      q.ref = record();
      let r;
      try {
        r = { status: "ok", value: call(pkg === "run" ? "runSync" : "runParserSync", parserS.value, q.ref, q.argv, { sinks: "custom", exitKind: exitKind === "process" ? "throws" : exitKind }) };
      } catch (e) { r = { status: "error", error: e }; }
      q.twin = r;
      // the same request answered by the core runner, with every setting spelled out
      q.core = { out: [], err: [], shown: [], failed: [] };
      try {
        const o = { ...pageTexts, ...meta.cfg, stdout: (t) => q.core.out.push(t), stderr: (t) => q.core.err.push(t), onError: (c) => { q.core.failed.push(c); } };
        for (const k of ["help", "version", "completion"]) {
          if (typeof o[k] === "string") o[k] = k === "version" ? { value: o[k], option: true } : { ...(o[k] !== "command" ? { option: true } : {}), ...(o[k] !== "option" ? { command: true } : {}) };
          if (o[k]) o[k] = { ...o[k], onShow: (c) => { q.core.shown.push(c ?? 0); } };
        }
        if (o.aboveError === undefined && pkg === "run") o.aboveError = "usage";
        F.runParserSync(parserS.value, "prog", q.argv, o);
      } catch { q.core = null; }
      try { q.plain = P.parseSync(parserS.value, q.argv); } catch (e) { q.plain = { error: e, threw: true }; }
    }
    const faulty = sim.weighted([[6, null], [2, "parser"], [2, "sink"]], "fault");
    if (faulty === "parser" && !isSync) fault = { armed: sim.range(1, 3, "armed"), kind: sim.pick(["reject", "sync-throw"], "fk"), error: new InjectedFault("value parser"), fired: false };
    if (faulty === "sink" && sinks === "custom") requests[0].rec.failSink = { name: sim.pick(["stdout", "stderr"], "sinkname"), at: sim.int(2, "sinkat") };
    const ctx = `\n ${names}${asProgram ? " of a program" : ""} ${isSync ? "synchronous" : "asynchronous"} ${treeText(tree)}\n options ${show({ ...common, ...meta.cfg, errorExitCode })} exit ${exitKind} sinks ${sinks} contexts ${show(contexts?.map((c) => c.text))}${requests.map((q) => `\n argv ${show(q.argv)}`).join("")}\n fault ${show(faulty)}`;
    sim.event(`${names} ${treeText(tree)} ${requests.map((q) => show(q.argv)).join(" | ")}`);

    if (sinks === "process") sim.captureOut = (n, text) => { const rec = requests[0].rec; if (rec.exits.length) rec.after++; rec[n === "stdout" ? "out" : "err"].push(text.replace(/\n$/, "")); };
    else sim.captureOut = (n, text) => { throw new Violation("stray-output", `text was written to the process's ${n} instead of the given sink: ${show(text)}${ctx}`); };
    sim.captureExit = (c) => {
      if (exitKind !== "process") throw new Violation("stray-exit", `process.exit(${c}) was called although an exit handler was given${ctx}`);
      requests[0].rec.exits.push(c);
      throw new ExitSignal(c);
    };
    const one = (q) => {
      let p;
      try {
        p = inProcess(q.argv, () => call(names, parserA.value, q.rec, q.argv));
      } catch (e) {
        if (e instanceof Violation) throw e;
        q.threw = true;
        return Promise.resolve({ status: "error", error: e });
      }
      q.promise = p instanceof Promise;
      return Promise.resolve(p).then((value) => ({ status: "ok", value }), (error) => ({ status: "error", error }));
    };
    if (contexts) sim.count("inert-contexts");
    const all = await sim.drive(() => Promise.all(requests.map(one)), { what: `${names}${ctx}` });
    const atEnd = requests.map((q) => q.rec.out.length + q.rec.err.length + q.rec.exits.length);
    await sim.quiesce();
    sim.captureOut = sim.captureExit = null;
    if (all.status !== "ok") throw all.error;
    requests.forEach((q, i) => {
      const r = all.value[i], { rec, ref, twin } = q;
      const bad = (k, m) => { throw new Violation(k, `${m}${ctx}\n this run ${show(q.argv)}: ${r.status} ${r.status === "ok" ? show(r.value) : describeError(r.error)}\n exits ${show(rec.exits)}\n stdout ${show(rec.out)}\n stderr ${show(rec.err)}\n twin ${twin.status} ${show(twin.value ?? twin.error)} exits ${show(ref.exits)}\n twin stdout ${show(ref.out)}\n twin stderr ${show(ref.err)}`); };
      if (atEnd[i] !== rec.out.length + rec.err.length + rec.exits.length) bad("late", "something was written or exited after the run had settled");
      if (rec.after) bad("after-exit", "something was written after the exit handler had been called");
      if (rec.exits.length > 1) bad("exits", "the exit handler was called more than once");
      if (rec.out.length && rec.err.length) bad("streams", "one run wrote to both standard output and standard error");
      if (rec.exits.length && exitKind !== "core") {
        if (rec.out.length && rec.exits[0] !== 0) bad("status", "an answered request did not exit with status 0");
        if (rec.err.length && rec.exits[0] !== exitCode) bad("status", `a refused command line did not exit with status ${exitCode}`);
      }
      if (names.endsWith("Async") && !(asProgram && pkg === "core") && q.threw) bad("threw", `${names}() threw instead of returning a promise`);
      if (names.endsWith("Sync") && q.promise) bad("promise", `${names}() returned a promise`);
      if (rec.sinkError) {
        sim.count("sink-failed");
        if (r.status !== "error" || r.error !== rec.sinkError) bad("sink", "an output that could not be written was not reported");
        if (rec.exits.length) bad("sink", "the run exited although its output could not be written");
        return;
      }
      if (fault?.fired) {
        // one fault: it belongs to one of the overlapping runs
        if (r.status === "error" && r.error === fault.error) {
          sim.count("parser-failed");
          if (rec.exits.length || rec.out.length || rec.err.length) bad("fault", "a run that failed also reported an outcome");
          fault.seen = (fault.seen ?? 0) + 1;
          return;
        }
        if (requests.length === 1 && !hasDerived) bad("fault", "an asynchronous value parser failed, but the run reports an outcome");
      }
      // exactly one outcome
      const valueLike = rec.exits.length === 0 && r.status === "ok";
      if (valueLike) {
        if (rec.out.length || rec.err.length) bad("outcome", "the run returned a value and also wrote output");
      } else if (rec.exits.length === 1) {
        const expected = exitKind === "returns" ? r.status === "ok" && r.value === `exit ${rec.exits[0]}` : exitKind === "core" ? r.status === "ok" && /^(shown|failed)/.test(r.value) : r.status === "error" && r.error instanceof ExitSignal && r.error.code === rec.exits[0];
        if (!expected) bad("outcome", "the run did not end with what its exit handler did");
      } else if (twin.status !== "error" || describeError(twin.error) !== describeError(r.error)) bad("outcome", "the run failed although nothing failed");
      // a command line the parser accepts is a value; help and friends only for a request
      const p = q.plain;
      const comparable = isSync || !zeroInputAlternatives(tree, q.argv, isAsync);
      const loose = /multiple\(/.test(treeText(tree));
      if (comparable && !p.threw) {
        if (p.success !== valueLike && !(r.status === "error" && !rec.exits.length)) bad("verdict", p.success ? "the command line is valid, but no value was returned" : "the command line is invalid, but a value was returned");
        if (valueLike && resultText({ status: "ok", value: { success: true, value: r.value } }, lib, show) !== resultText({ status: "ok", value: p }, lib, show)) bad("value", "the returned value is not the parsed one");
      }
      if (comparable) {
        if (twin.status !== r.status || show(rec.exits) !== show(ref.exits)) bad("twin", "the outcome differs from that of the synchronous twin");
        if (rec.out.join("\n") !== ref.out.join("\n")) bad("twin-output", "standard output differs from that of the synchronous twin");
        if (!loose && rec.err.join("\n") !== ref.err.join("\n")) bad("twin-error", "standard error differs from that of the synchronous twin");
      }
      if (comparable && q.core && !hasDerived && (exitKind !== "returns" || !q.core.failed.length)) {
        const c = q.core;
        const how = c.shown.length ? "shown" : c.failed.length ? "refused" : "value";
        const mine = valueLike ? "value" : rec.exits.length ? (rec.err.length || !rec.out.length ? "refused" : "shown") : "failed";
        if (mine !== "failed") {
          if (how !== mine && !(how === "shown" && mine === "refused" && !c.out.length)) bad("core-outcome", `the same request and settings given to the core runner are ${how}, here ${mine}`);
          if (rec.out.join("\n") !== c.out.join("\n")) bad("core-output", `standard output differs from that of the core runner with the same settings ${show(c.out)}`);
          if (!loose && rec.err.join("\n") !== c.err.join("\n")) bad("core-error", `standard error differs from that of the core runner with the same settings ${show(c.err)}`);
          sim.count("core-compared");
        }
      }
      // a bare request is answered whatever the parser is
      const [first, second] = q.argv;
      const wants = q.argv.length === 1 && meta.tokens.help.includes(first) ? "help" : q.argv.length === 1 && meta.tokens.version.includes(first) ? "version"
        : q.argv.length === 1 && SHELLS.some((s) => meta.tokens.completion.some((t) => t.startsWith("-") && first === `${t}=${s}`)) || q.argv.length === 2 && meta.tokens.completion.includes(first) && SHELLS.includes(second) ? "completion" : null;
      const taken = /passThrough/.test(treeText(tree)) || !/^--?[a-z0-9-]+$/i.test(first ?? "") && /argument/.test(treeText(tree));
      const narrow = r.status === "error" && r.error instanceof RangeError && /maxWidth/.test(r.error.message);
      if (wants && !taken && !narrow && !(rec.exits.length && rec.out.length && !rec.err.length)) bad("meta", `the request for ${wants} was not answered`);
      if (wants === "version" && !taken && rec.out.join("\n") !== "9.8.7") bad("meta", "the version shown is not the configured one");
      if (wants && !taken) sim.count("bare-request");
      sim.count(valueLike ? "value" : rec.exits.length && rec.err.length === 0 ? "shown" : "refused");
    });
    if (fault?.fired && !hasDerived && !(fault.seen > 0)) throw new Violation("fault", `an asynchronous value parser failed, but no run reports it${ctx}`);
    if (overlap) sim.count("overlap");
    sim.cover(`${names}:${sinks}:${exitKind}:${requests.map((q) => (q.rec.exits.length ? (q.rec.out.length ? "shown" : "refused") : "value")).join("+")}:${tree.t}`);
    return { nontrivial: sim.steps > 0 || !!faulty, sample: { runner: names, argv: requests.map((q) => q.argv), options: show(meta.cfg) } };
  },
};
