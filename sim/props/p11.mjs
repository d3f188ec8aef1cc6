import { Violation, show, InjectedFault } from "../core.mjs";
import { genProtocol, runProtocol, scenarioText, PROTOCOL_LIBS } from "../protocol.mjs";

export default {
  needs: [...PROTOCOL_LIBS, "run"],
  rule: "runWithSync scenarios in which a context, a disposal method or the parser answers asynchronously at a random point, and fully synchronous scenarios (with faults) executed by runWithSync and by runWith and compared call by call; non-trivial when an asynchronous answer was reached or both runners were compared",
  real: ["@optique/core facade (runWith, runWithSync, runParserSync), @optique/run runSync, combinators"],
  stubs: ["source contexts and value parsers answer through the scheduler"],
  assumptions: [],
  minimum: { compared: 1500, "async-phase1": 1000, "async-phase2": 200, "async-dispose": 1000, "async-parser": 1000 },
  quick: { count: 16000, ms: 60000 },
  async run(sim, lib) {
    const s = genProtocol(sim, { runner: "runWithSync", syncViolations: true });
    const ctx = scenarioText(s);
    const v = s.syncViolation;
    const x = await runProtocol(sim, lib, s);
    const { r, log } = x;
    const bad = (kind, msg) => { throw new Violation(kind, `${msg}${ctx}\n outcome: ${r.status} ${show(r.status === "ok" ? r.value : r.error)}\n log: ${log.map((e) => `${e.t}${e.i ?? ""}`).join(" ")}`); };
    if (r.status === "ok" && r.value instanceof Promise) bad("promise", "a synchronous runner returned a promise");
    if (r.status === "error" && !r.sync) bad("late-error", "the error was not thrown synchronously");
    sim.cover(`${v}:${r.status}:${s.contexts.length}`);
    const isType = (e) => e instanceof TypeError && !(e instanceof InjectedFault);
    if (v === "none") {
      // the asynchronous runner makes the same calls and reports the same outcome
      const y = await runProtocol(sim, lib, { ...s, runner: "runWith", sync: false });
      sim.count("compared");
      const calls = (l) => l.filter((e) => e.t !== "dispose-end" && !/-end$/.test(e.t)).map((e) => `${e.t}${e.i ?? ""}${e.phase ?? ""}${show(e.parsed ?? null)}${show(e.seen ?? null)}`).join(" ");
      if (calls(log) !== calls(y.log)) bad("calls-differ", `runWith makes different calls:\n ${calls(y.log)}`);
      const said = (e) => (e instanceof Error ? `${e.name} ${e.message}` : show(e));
      const outcome = (o) => (o.status === "ok" ? show(o.value) : `${said(o.error)} ${said(o.error?.suppressed)} ${said(o.error?.error)} ${o.error?.errors?.map(said)}`);
      if (r.status !== y.r.status || outcome(r) !== outcome(y.r)) bad("outcome-differs", `runWith reports ${outcome(y.r)}`);
      return { nontrivial: true, sample: { scenario: ctx, outcome: outcome(r) } };
    }
    if (v === "parser") {
      sim.count("async-parser");
      if (r.status !== "error" || !isType(r.error)) bad("async-parser", "an asynchronous parser was not rejected with a TypeError");
      if (log.some((e) => e.t !== "dispose" && e.t !== "dispose-end")) bad("async-parser-used", "an asynchronous parser was rejected only after work had been done");
      return { nontrivial: true, sample: { scenario: ctx, outcome: show(r.error) } };
    }
    for (const c of s.contexts) {
      const n = log.filter((e) => e.t === "dispose" && e.i === c.i).length;
      if (n !== (c.dispose === "none" ? 0 : 1)) bad("not-disposed", `context ${c.i} was disposed ${n} times`);
    }
    if (v === "dispose") {
      const reached = log.some((e) => e.t === "dispose" && e.i === s.violator && e.kind === "async");
      if (!reached) return { nontrivial: false };
      sim.count("async-dispose");
      const all = [];
      const collect = (e) => { if (e == null) return; all.push(e); collect(e.error); collect(e.suppressed); if (Array.isArray(e.errors)) e.errors.forEach(collect); };
      if (r.status === "error") collect(r.error);
      const f = s.contexts[s.violator].faults.dispose;
      if (!(f && !f.late) && !all.some(isType)) bad("async-dispose", "an asynchronous disposal was abandoned without a TypeError");
      return { nontrivial: true, sample: { scenario: ctx, outcome: show(r.error) } };
    }
    const start = log.findIndex((e) => e.t === "annotations-start" && e.i === s.violator && e.phase === v);
    if (start < 0 || log[start].faulted && !s.contexts[s.violator].faults[v]?.late) return { nontrivial: false };
    sim.count(`async-${v}`);
    const after = log.slice(start + 1, x.atEnd).find((e) => !["dispose", "dispose-end"].includes(e.t));
    if (after) bad("continued", `${after.t}${after.i ?? ""} happened after context ${s.violator} had answered with a promise`);
    const primary = r.status === "error" ? r.error?.suppressed ?? r.error : null;
    if (!isType(primary)) bad("async-context", `context ${s.violator} answered ${v} with a promise but the run did not fail with a TypeError`);
    return { nontrivial: true, sample: { scenario: ctx, outcome: show(r.error) } };
  },
};
