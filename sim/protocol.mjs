// A run of the context runners (runWith, runWithAsync, runWithSync) with
// simulated source contexts, recorded call by call, plus the reference
// expectations shared by the properties about the runner's protocol.
import { asyncValueParser, CHOICES } from "./gen.mjs";
import { InjectedFault, show } from "./core.mjs";

export const PROTOCOL_LIBS = ["core-constructs", "core-modifiers", "core-primitives", "core-valueparser", "core-parser", "core-message", "core-facade", "core-context", "core-annotations", "core-extension"];

const KEYS = [0, 1, 2].map((i) => Symbol(`shared${i}`));
const keyName = (k) => `k${KEYS.indexOf(k)}`;

export const HELP = Symbol("HELP"), VERSION = Symbol("VERSION"), COMPLETION = Symbol("COMPLETION"), FAILED = Symbol("FAILED");

/**
 * Draws one scenario.  opts: faults (probability switch), meta (bool), runner.
 */
export function genProtocol(sim, opts = {}) {
  const s = {};
  s.runner = opts.runner ?? sim.weighted([[4, "runWith"], [2, "runWithAsync"], [3, "runWithSync"]], "runner");
  s.sync = s.runner === "runWithSync";
  s.asyncParser = !s.sync && sim.int(2, "asyncparser") === 1;
  const nfaults = opts.faults === false ? 0 : sim.weighted([[2, 0], [3, 1], [2, 2], [1, 3]], "nfaults");
  const n = sim.weighted([[2, 1], [3, 2], [3, 3], [1, 4]], "ncontexts");
  s.contexts = Array.from({ length: n }, (_, i) => {
    const c = { i, phase: sim.int(2, "phase") === 1 ? "two-pass" : "single-pass" };
    c.async = s.sync ? [false, false] : [sim.int(2, "async1") === 1, sim.int(2, "async2") === 1];
    c.values = [0, 1].map((p) => {
      const v = {};
      for (const k of KEYS) if (sim.int(3, "contributes") === 2) v[keyName(k)] = `c${i}p${p + 1}`;
      return v;
    });
    c.internal = sim.int(4, "internal") === 3 ? [0, 1].map((p) => (sim.int(2, "iv") === 1 ? { [keyName(sim.pick(KEYS, "ik"))]: `i${i}p${p + 1}` } : null)) : null;
    c.dispose = sim.pick(s.sync ? ["none", "sync", "both", "async-now"] : ["none", "sync", "async", "both", "async-now"], "dispose");
    c.thenable = sim.int(3, "thenable") === 2;
    c.faults = {};
    return c;
  });
  s.options = Array.from({ length: sim.range(0, 3, "noptions") }, (_, i) => ({
    name: `--o${i}`, wrap: sim.pick(["optional", "default", "required"], "wrap"), given: sim.int(3, "given") !== 0, value: sim.weighted([[8, sim.pick(CHOICES, "v")], [1, "purple"]], "badv"),
  }));
  s.argv = sim.shuffle(s.options.filter((o) => o.given), "argorder").flatMap((o) => [o.name, o.value]);
  if (sim.int(10, "unknown") === 9) s.argv.push("--unknown");
  s.metaConfigured = sim.int(2, "metacfg") === 1 || opts.meta === true;
  s.meta = null;
  if (s.metaConfigured && (opts.meta === true || sim.int(5, "meta") === 4)) {
    s.meta = sim.pick(["help", "helpcmd", "version", "versioncmd", "completion"], "metakind");
    const given = s.argv.filter((a) => a !== "--unknown");
    s.argv = { help: sim.int(2, "mpos") === 1 ? ["--help", ...given] : [...given, "--help"], helpcmd: ["help"], version: sim.int(2, "mpos") === 1 ? ["--version", ...given] : [...given, "--version"], versioncmd: ["version"], completion: ["completion", "bash"] }[s.meta];
  }
  // faults
  const points = [];
  for (const c of s.contexts) {
    points.push([c, "phase1"]);
    if (c.phase === "two-pass") points.push([c, "phase2"]);
    if (c.internal) points.push([c, "internal"]);
    if (c.dispose !== "none") points.push([c, "dispose"], [c, "dispose"]);
  }
  points.push([s, "valueparser"], [s, "complete"], [s, "onError"]);
  if (s.meta) points.push([s, "onShow"]);
  s.faults = {};
  for (let k = 0; k < nfaults; k++) {
    const [owner, where] = sim.pick(points, "faultpoint");
    owner.faults[where] ??= { label: owner === s ? where : `${where} of context ${owner.i}`, late: sim.int(2, "late") === 1, at: sim.int(3, "at"), value: sim.int(6, "odd") === 5 ? { thrown: sim.pick([undefined, null, 0, "", "text", false], "thrown") } : undefined };
  }
  s.badIds = opts.badIds && n > 1 && sim.int(12, "badids") === 11;
  s.badPhase = opts.badIds && sim.int(12, "badphase") === 11;
  s.syncViolation = null;
  if (opts.syncViolations && s.sync) {
    s.syncViolation = sim.pick(["none", "phase1", "phase2", "dispose", "parser"], "syncviolation");
    s.violator = sim.int(n, "violator");
    if (s.syncViolation === "phase2") s.contexts[s.violator].phase = "two-pass";
    if (s.syncViolation === "dispose") s.contexts[s.violator].dispose = "async";
    // The abandoned promise itself never rejects: that rejection would be the
    // context author's, not the runner's.
    for (const c of s.contexts) for (const f of Object.values(c.faults)) f.late = false;
  }
  return s;
}

export const scenarioText = (s) => `\n ${s.runner} ${s.asyncParser ? "asynchronous" : "synchronous"} parser, options ${s.options.map((o) => `${o.wrap}(${o.name})`).join(" ") || "(none)"}, argv ${show(s.argv)}${s.metaConfigured ? ", help/version/completion configured" : ""}${s.badIds ? ", duplicate ids" : ""}${s.badPhase ? ", invalid phase" : ""}${s.syncViolation && s.syncViolation !== "none" ? `, asynchronous ${s.syncViolation}${s.syncViolation === "parser" ? "" : ` of context ${s.violator}`}` : ""}${s.contexts.map((c) => `\n context ${c.i}: ${c.phase}${c.async[0] ? " async1" : ""}${c.phase === "two-pass" && c.async[1] ? " async2" : ""}, values ${show(c.values[0])}${c.phase === "two-pass" ? ` then ${show(c.values[1])}` : ""}${c.internal ? `, internal ${show(c.internal)}` : ""}, disposal ${c.dispose}${c.thenable ? " (thenable)" : ""}`).join("")}\n faults: ${[...Object.values(s.faults), ...s.contexts.flatMap((c) => Object.values(c.faults))].map((f) => `${f.label}@${f.at}${f.late ? " (late)" : ""}`).join(", ") || "none"}`;

/** Runs the scenario; returns { r, log, ... }. */
export async function runProtocol(sim, lib, s) {
  const C = lib["core-constructs"], M = lib["core-modifiers"], P = lib["core-primitives"], V = lib["core-valueparser"], F = lib["core-facade"], A = lib["core-annotations"];
  const log = [];
  const fired = []; // faults in firing order (primary candidates)
  const disposeFired = [];
  const st = { running: 0, open: 0 };
  const put = (e) => { log.push(e); sim.event(`${e.t}${e.i ?? ""}${e.phase ?? ""}`); return e; };
  const fire = (f, list = fired) => {
    // anything can be thrown, not only errors
    const e = f.value === undefined ? new InjectedFault(f.label) : f.value.thrown;
    sim.fault(f.label.replace(/ of context.*/, "") + (f.value === undefined ? "" : " (not an Error)"));
    list.push(e);
    return e;
  };
  const contextOptions = { marker: 1 };
  const sharedId = Symbol("dup");
  const contexts = s.contexts.map((c) => {
    const perform = (what, phase, compute, f, isAsync) => {
      const entry = put({ t: `${what}-start`, i: c.i, phase });
      const end = () => { entry.ended = true; st.open--; put({ t: `${what}-end`, i: c.i, phase }); };
      st.open++;
      if (f && !(isAsync && f.late)) { entry.faulted = true; end(); throw fire(f); }
      if (!isAsync) { const v = compute(); end(); return v; }
      return sim.op(`${what}${c.i}${phase}`, () => { if (f) { entry.faulted = true; end(); throw fire(f); } end(); return compute(); });
    };
    const toAnn = (v) => Object.fromEntries(Object.entries(v).map(([k, x]) => [KEYS[+k[1]], x]));
    const ctx = {
      id: s.badIds && c.i < 2 ? sharedId : Symbol(`ctx${c.i}`),
      phase: s.badPhase && c.i === 0 ? "later" : c.phase,
      getAnnotations(request, options) {
        const p = request?.phase === "phase2" ? 1 : 0;
        const phase = p ? "phase2" : "phase1";
        const forced = s.syncViolation === phase && s.violator === c.i;
        put({ t: "request", i: c.i, phase, requestPhase: request?.phase, parsed: request?.parsed, options });
        return perform("annotations", phase, () => toAnn(c.values[p]), c.faults[phase], c.async[p] || forced);
      },
    };
    if (c.internal) {
      ctx.getInternalAnnotations = (request, annotations) => {
        const p = request.phase === "phase2" ? 1 : 0;
        put({ t: "internal", i: c.i, phase: request.phase, annotations });
        const f = c.faults.internal;
        if (f && f.at % 2 === p) throw fire(f);
        return c.internal[p] == null ? undefined : toAnn(c.internal[p]);
      };
    }
    const f = c.faults.dispose;
    const now = (kind) => () => { put({ t: "dispose", i: c.i, kind }); put({ t: "dispose-end", i: c.i, kind }); if (f) throw fire(f, disposeFired); };
    const later = (kind) => () => {
      put({ t: "dispose", i: c.i, kind });
      if (f && !f.late) { put({ t: "dispose-end", i: c.i, kind }); throw fire(f, disposeFired); }
      const p = sim.op(`dispose${c.i}`, () => { put({ t: "dispose-end", i: c.i, kind }); if (f) throw fire(f, disposeFired); });
      // AsyncDisposable only promises a PromiseLike
      return c.thenable ? { then: (a, b) => p.then(a, b) } : p;
    };
    if (c.dispose === "sync" || c.dispose === "both") ctx[Symbol.dispose] = now("sync");
    if (c.dispose === "async" || c.dispose === "both") ctx[Symbol.asyncDispose] = later("async");
    if (c.dispose === "async-now") ctx[Symbol.asyncDispose] = now("async");
    return ctx;
  });
  let vpCalls = 0;
  const vpFault = s.faults.valueparser;
  const vp = (name, useAsync) => {
    const base = V.choice(CHOICES);
    const faultFor = () => { const k = vpCalls++; return vpFault && k === vpFault.at ? vpFault : null; };
    if (!useAsync) {
      return { ...base, parse(input) { put({ t: "value", name }); const f = faultFor(); if (f) throw fire(f); return base.parse(input); } };
    }
    return {
      ...base, mode: "async",
      parse(input) {
        put({ t: "value", name });
        const f = faultFor();
        if (f && !f.late) throw fire(f);
        st.running++;
        return sim.op(`parse ${name}`, () => { st.running--; put({ t: "value-end", name }); if (f) throw fire(f); return base.parse(input); });
      },
      async *suggest() {},
    };
  };
  const buildInner = (useAsync, simulated) => C.object(Object.fromEntries(s.options.map((o, i) => {
    const opt = P.option(o.name, simulated ? vp(o.name, useAsync) : V.choice(CHOICES));
    return [`o${i}`, o.wrap === "optional" ? M.optional(opt) : o.wrap === "default" ? M.withDefault(opt, "blue") : opt];
  })));
  let inner = buildInner(s.asyncParser || s.syncViolation === "parser", true);
  if ((s.asyncParser || s.syncViolation === "parser") && s.options.length === 0) inner = { ...inner, mode: "async", parse: (...a) => Promise.resolve(inner0.parse(...a)), complete: (...a) => Promise.resolve(inner0.complete(...a)) };
  const inner0 = buildInner(false, true);
  let completes = 0;
  const root = {
    ...inner,
    initialState: { inner: inner.initialState },
    parse(context) {
      put({ t: "parse" });
      const done = (r) => (r.success ? { ...r, next: { ...r.next, state: { ...context.state, inner: r.next.state } } } : r);
      const r = inner.parse({ ...context, state: context.state.inner });
      return r instanceof Promise ? r.then(done) : done(r);
    },
    complete(state, exec) {
      const ann = A.getAnnotations(state);
      const seen = Object.fromEntries(KEYS.filter((k) => ann?.[k] !== undefined).map((k) => [keyName(k), ann[k]]));
      const entry = put({ t: "complete", seen });
      const f = s.faults.complete;
      const k = completes++;
      if (f && k === f.at % 2) throw fire(f);
      const done = (r) => { entry.success = r.success; if (r.success) { entry.value = { inner: r.value, seen }; return { success: true, value: entry.value }; } return r; };
      const r = inner.complete(state.inner, exec);
      return r instanceof Promise ? r.then(done) : done(r);
    },
    suggest: (context, prefix) => inner.suggest({ ...context, state: context.state.inner }, prefix),
    getDocFragments: (state, v) => inner.getDocFragments(state.kind === "available" ? { kind: "available", state: state.state.inner } : state, v?.inner),
  };
  for (const k of Object.getOwnPropertySymbols(root)) delete root[k];
  delete root.shouldDeferCompletion;
  delete root.canSkip;
  const shown = [];
  const show1 = (what, value) => () => {
    put({ t: "shown", what });
    shown.push(what);
    const f = s.faults.onShow;
    if (f) throw fire(f);
    return value;
  };
  const options = {
    args: s.argv, contextOptions, stdout: () => {}, stderr: () => {},
    onError: () => { put({ t: "onError" }); const f = s.faults.onError; if (f) throw fire(f); return FAILED; },
    ...(s.metaConfigured ? {
      help: { option: true, command: true, onShow: show1("help", HELP) },
      version: { value: "1.2.3", option: true, command: true, onShow: show1("version", VERSION) },
      completion: { command: true, option: true, onShow: show1("completion", COMPLETION) },
    } : {}),
  };
  const expected = lib["core-parser"].parseSync(buildInner(false, false), s.argv);
  const r = await sim.drive(() => F[s.runner](root, "prog", contexts, options), { what: `${s.runner}${scenarioText(s)}` });
  st.runningAtEnd = st.running;
  const atEnd = log.length;
  await sim.quiesce();
  return { r, log, atEnd, fired, disposeFired, shown, contextOptions, expected, KEYS, keyName, st, disposedKinds: null };
}

/** Expected annotations of the final parse, given which phases completed. */
export function expectedSeen(s, final) {
  const out = {};
  for (let i = s.contexts.length - 1; i >= 0; i--) {
    const c = s.contexts[i];
    const p = final && c.phase === "two-pass" ? 1 : 0;
    if (c.internal?.[p]) Object.assign(out, c.internal[p]);
    Object.assign(out, c.values[p]);
  }
  return Object.fromEntries(["k0", "k1", "k2"].filter((k) => k in out).map((k) => [k, out[k]]));
}
