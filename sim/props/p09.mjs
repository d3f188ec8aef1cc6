import { Violation, show } from "../core.mjs";
import { genProtocol, runProtocol, scenarioText, PROTOCOL_LIBS } from "../protocol.mjs";

export default {
  needs: PROTOCOL_LIBS,
  rule: "the runner scenarios of P07 with up to three faults injected into contexts, value parsers, completion, callbacks and disposal; the outcome of the run is compared with the documented combination of the errors that were thrown; non-trivial when a fault fired",
  real: ["@optique/core facade (runWith, runWithAsync, runWithSync), combinators"],
  stubs: ["source contexts and value parsers answer through the scheduler"],
  assumptions: [],
  minimum: { "one-error": 3000, "dispose-only": 1000, suppressed: 300, aggregate: 30 },
  quick: { count: 20000, ms: 60000 },
  async run(sim, lib) {
    const s = genProtocol(sim, {});
    const ctx = scenarioText(s);
    const { r, log, fired, disposeFired } = await runProtocol(sim, lib, s);
    const bad = (kind, msg) => { throw new Violation(kind, `${msg}${ctx}\n outcome: ${r.status} ${show(r.status === "ok" ? r.value : r.error)}\n errors thrown: ${show([...fired, ...disposeFired].map((e) => e?.label ?? e))}`); };
    if (fired.length > 1) bad("continued", "the run went on after the first error");
    const disposal = (e) => (disposeFired.length === 1 ? e === disposeFired[0] : e instanceof AggregateError && e.errors.length === disposeFired.length && e.errors.every((x, k) => x === disposeFired[k]));
    const primary = fired[0], failed = fired.length > 0;
    if (!failed && !disposeFired.length) {
      if (r.status !== "ok") bad("spurious", "the run failed although nothing threw");
      return { nontrivial: false };
    }
    if (r.status !== "error") bad("lost", "an error was thrown but the run succeeded");
    if (failed && !disposeFired.length) {
      sim.count("one-error");
      if (r.error !== primary) bad("replaced", "the run did not fail with the error that was thrown");
    } else if (!failed) {
      sim.count(disposeFired.length > 1 ? "aggregate" : "dispose-only");
      if (!disposal(r.error)) bad("disposal-lost", "the disposal errors are not reported as documented");
    } else {
      sim.count("suppressed");
      if (disposeFired.length > 1) sim.count("aggregate");
      if (r.error?.name !== "SuppressedError" || r.error.suppressed !== primary || !disposal(r.error.error)) bad("suppressed-lost", "the run error and the disposal error are not both reported by a SuppressedError");
    }
    sim.cover(`${s.runner}:${fired.map((e) => String(e?.label).replace(/\d/g, "")).join()}:${disposeFired.length}:${log.some((e) => e.t === "shown")}`);
    return { nontrivial: true, sample: { scenario: ctx, outcome: show(r.error) } };
  },
};
