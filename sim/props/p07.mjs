import { Violation, show } from "../core.mjs";
import { genProtocol, runProtocol, scenarioText, expectedSeen, PROTOCOL_LIBS, FAILED } from "../protocol.mjs";

export default {
  needs: PROTOCOL_LIBS,
  rule: "1-4 simulated source contexts (single-pass or two-pass, synchronous or asynchronous, overlapping annotation keys, internal annotations) x parser x argv x runner x schedule, with up to three injected faults; every call is recorded and checked against the documented protocol; non-trivial when at least two contexts took part",
  real: ["@optique/core facade (runWith, runWithAsync, runWithSync), combinators, annotations"],
  stubs: ["source contexts and value parsers answer through the scheduler", "a recording root parser around the real object() parser"],
  assumptions: [],
  minimum: { "phase2-run": 1500, "phase2-skipped": 100, "context-fault": 500, success: 3000 },
  quick: { count: 20000, ms: 60000 },
  async run(sim, lib) {
    const s = genProtocol(sim, { badIds: true });
    const ctx = scenarioText(s);
    const x = await runProtocol(sim, lib, s);
    const { r, log, fired, contextOptions } = x;
    const bad = (kind, msg) => { throw new Violation(kind, `${msg}${ctx}\n log: ${log.map((e) => `${e.t}${e.i ?? ""}${e.phase === "phase2" ? "''" : e.phase === "phase1" ? "'" : ""}`).join(" ")}`); };
    const requests = log.filter((e) => e.t === "request");
    if (s.badIds || s.badPhase) {
      if (requests.length || log.some((e) => e.t === "parse")) bad("invalid-contexts-used", "contexts with duplicate ids or an invalid phase were queried or the parser was run");
      if (r.status !== "error" || !(r.error instanceof TypeError || r.error.suppressed instanceof TypeError)) bad("invalid-contexts-accepted", `expected a TypeError, got ${r.status === "error" ? show(r.error) : show(r.value)}`);
      sim.count("invalid-contexts");
      return { nontrivial: true };
    }
    const p1 = requests.filter((e) => e.phase === "phase1"), p2 = requests.filter((e) => e.phase === "phase2");
    for (const e of requests) {
      if (e.options !== contextOptions) bad("options", `context ${e.i} did not receive the caller's contextOptions`);
      if (e.requestPhase !== e.phase) bad("request", `context ${e.i} was asked with phase ${show(e.requestPhase)}`);
    }
    // phase 1: each context once, in order, one after the other, before any parsing
    const order = p1.map((e) => e.i);
    if (order.some((i, k) => i !== k)) bad("phase1-order", `phase 1 was requested in the order ${order}`);
    const firstFault = log.findIndex((e) => e.faulted);
    if (firstFault < 0 && fired.length === 0 && p1.length !== s.contexts.length) bad("phase1-missing", `phase 1 was requested from ${p1.length} of ${s.contexts.length} contexts`);
    let open = null;
    for (const e of log) {
      if (e.t === "annotations-start") { if (open) bad("overlap", `context ${e.i} was queried while context ${open.i} had not answered`); open = e; }
      if (e.t === "annotations-end") open = null;
      if (open && ["parse", "complete", "dispose", "shown", "onError"].includes(e.t)) bad("early", `${e.t} happened while context ${open.i} had not answered`);
    }
    const firstParse = log.findIndex((e) => e.t === "parse");
    const lastP1 = log.findLastIndex((e) => e.phase === "phase1");
    if (firstParse >= 0 && firstParse < lastP1) bad("parse-before-phase1", "parsing started before all contexts had answered phase 1");
    // nothing is asked after a failure
    const failure = log.findIndex((e) => e.faulted);
    if (failure >= 0) {
      sim.count("context-fault");
      const after = log.slice(failure + 1).find((e) => ["request", "parse", "complete", "value", "shown", "onError", "internal"].includes(e.t));
      if (after) bad("after-failure", `${after.t}${after.i ?? ""} happened after a context failed`);
      if (r.status !== "error") bad("failure-ignored", `a context failed but the run reported ${show(r.value)}`);
    }
    // phase 2
    if (p2.some((e) => s.contexts[e.i].phase !== "two-pass")) bad("single-pass-asked-twice", "a single-pass context was asked for phase 2");
    if (new Set(p2.map((e) => e.i)).size !== p2.length) bad("phase2-repeated", "a context was asked for phase 2 more than once");
    const two = s.contexts.filter((c) => c.phase === "two-pass").map((c) => c.i);
    if (p2.some((e, k) => e.i !== two[k])) bad("phase2-order", `phase 2 was requested in the order ${p2.map((e) => e.i)}`);
    if (fired.length === 0) {
      const at = log.findIndex((e) => e.phase === "phase2");
      const before = log.slice(0, at < 0 ? log.length : at);
      const seedEntry = before.findLast((e) => e.t === "complete");
      if (p2.length) {
        if (x.shown.length) bad("phase2-for-meta", "phase 2 was requested although the run answered a help, version or completion request");
        if (p2.length !== two.length) bad("phase2-missing", `phase 2 was requested from ${p2.length} of ${two.length} two-pass contexts`);
        if (!seedEntry?.success) bad("phase2-without-seed", "phase 2 was requested although the first pass had no value");
        for (const e of p2) if (show(e.parsed) !== show(seedEntry.value)) bad("phase2-parsed", `phase 2 received ${show(e.parsed)}, the first pass produced ${show(seedEntry.value)}`);
        if (show(seedEntry.seen) !== show(expectedSeen(s, false))) bad("phase1-annotations", `the first pass saw ${show(seedEntry.seen)}, expected ${show(expectedSeen(s, false))}`);
        sim.count("phase2-run");
      } else if (two.length && !x.shown.length) {
        if (x.expected.success) bad("phase2-skipped", "phase 2 was not requested although the command line is complete and valid");
        sim.count("phase2-skipped");
      }
      if (!s.meta) {
        if (x.expected.success) {
          if (r.status !== "ok" && x.disposeFired.length === 0) bad("failed", `the run failed with ${show(r.error)} although the command line is valid and nothing failed`);
          if (r.status === "ok") {
            const want = { inner: x.expected.value, seen: expectedSeen(s, true) };
            if (show(r.value) !== show(want)) bad("result", `the run returned ${show(r.value)}, expected ${show(want)}`);
            sim.count("success");
          }
        } else if (r.status === "ok" && r.value !== FAILED) bad("accepted", `an invalid command line produced ${show(r.value)}`);
      }
    }
    // the value that is returned is the value of the last completion
    if (r.status === "ok" && typeof r.value === "object" && r.value !== log.findLast((e) => e.t === "complete")?.value) bad("stale-result", "the returned value is not the one the final parse completed with");
    for (const e of log.slice(x.atEnd)) bad("outlives", `${e.t}${e.i ?? ""} happened after the run had settled`);
    sim.cover(`${s.runner}:${s.contexts.map((c) => c.phase[0]).join("")}:${p2.length}:${r.status}:${x.shown.length}`);
    return { nontrivial: s.contexts.length > 1, sample: { scenario: ctx, result: r.status === "ok" ? show(r.value) : show(r.error) } };
  },
};
