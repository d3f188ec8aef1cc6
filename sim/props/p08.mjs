import { Violation, show } from "../core.mjs";
import { genProtocol, runProtocol, scenarioText, PROTOCOL_LIBS } from "../protocol.mjs";

export default {
  needs: PROTOCOL_LIBS,
  rule: "1-4 simulated source contexts with synchronous, asynchronous, both or no disposal methods x parser x argv x runner x schedule, with up to three injected faults in contexts, value parsers, callbacks and disposal itself; non-trivial when at least one context is disposable",
  real: ["@optique/core facade (runWith, runWithAsync, runWithSync), combinators"],
  stubs: ["source contexts and value parsers answer through the scheduler"],
  assumptions: ["a synchronous runner that is given an asynchronous parser rejects it before it takes over the contexts"],
  minimum: { disposed: 20000, "disposed-after-failure": 2000, "dispose-fault": 1000 },
  quick: { count: 20000, ms: 60000 },
  async run(sim, lib) {
    const s = genProtocol(sim, { badIds: true });
    const ctx = scenarioText(s);
    let violation = null;
    const x = await runProtocol(sim, lib, s);
    const { r, log } = x;
    const bad = (kind, msg) => { throw new Violation(kind, `${msg}${ctx}\n log: ${log.map((e) => `${e.t}${e.i ?? ""}${e.kind ? `(${e.kind})` : ""}`).join(" ")}`); };
    const disposals = log.filter((e) => e.t === "dispose");
    for (const c of s.contexts) {
      const mine = disposals.filter((e) => e.i === c.i);
      if (mine.length !== (c.dispose === "none" ? 0 : 1)) bad("count", `context ${c.i} was disposed ${mine.length} times`);
      if (mine.length) {
        const want = s.sync ? (c.dispose === "sync" || c.dispose === "both" ? "sync" : "async") : c.dispose === "sync" ? "sync" : "async";
        if (mine[0].kind !== want) bad("method", `context ${c.i} was disposed through its ${mine[0].kind} method, expected the ${want} one`);
        sim.count("disposed");
        if (r.status === "error" || x.fired.length) sim.count("disposed-after-failure");
      }
    }
    const order = disposals.map((e) => e.i);
    if (order.some((i, k) => k > 0 && order[k - 1] > i)) bad("order", `contexts were disposed in the order ${order}`);
    const first = log.findIndex((e) => e.t === "dispose");
    if (first >= 0) {
      const late = log.slice(first).find((e) => e.t !== "dispose" && e.t !== "dispose-end");
      if (late) bad("too-early", `${late.t}${late.i ?? ""} happened after disposal had begun`);
    }
    let open = null;
    for (const e of log) {
      if (e.t === "dispose") { if (open) bad("overlap", `context ${e.i} was disposed while the disposal of context ${open.i} was running`); open = e; }
      if (e.t === "dispose-end") open = null;
    }
    if (log.length > x.atEnd) bad("outlives", `${log[x.atEnd].t}${log[x.atEnd].i ?? ""} happened after the run had settled`);
    if (x.disposeFired.length) sim.count("dispose-fault");
    sim.cover(`${s.runner}:${s.contexts.map((c) => c.dispose).join()}:${r.status}`);
    return { nontrivial: order.length > 0, sample: { scenario: ctx, disposals: order } };
  },
};
