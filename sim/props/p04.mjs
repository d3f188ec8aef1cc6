import { Violation, InjectedFault, show } from "../core.mjs";
import { genTree, buildTree, genArgv, treeText, tryBuild, resultText, walk } from "../gen.mjs";

export default {
  needs: ["core-constructs", "core-modifiers", "core-primitives", "core-valueparser", "core-dependency", "core-parser", "core-message"],
  rule: "one random parser object shared by 2-4 overlapping parse / suggest / documentation requests with different command lines, interleaved by the scheduler, optionally with a rejecting value parser in one of them; every request that no fault hit is compared with the same request alone on a fresh parser; non-trivial when two requests overlapped",
  real: ["@optique/core parser combinators, primitives, modifiers, dependency runtime, suggest and doc machinery"],
  stubs: ["asynchronous value parsers: the real value parsers behind a scheduler-controlled promise that can reject"],
  assumptions: ["application callbacks (value parsers, factories, map functions) are themselves pure"],
  minimum: { overlapped: 500, "fault-fired": 100 },
  quick: { count: 16000, ms: 60000 },
  async run(sim, lib) {
    const { tree } = genTree(sim);
    const P = lib["core-parser"];
    const n = sim.range(2, 4, "requests");
    const reqs = [];
    for (let i = 0; i < n; i++) {
      const kind = sim.weighted([[5, "parse"], [2, "suggest"], [1, "doc"]], "req");
      let argv = genArgv(sim, tree);
      if (kind !== "parse") argv = argv.slice(0, sim.int(argv.length + 1, "cut"));
      if (kind === "suggest") argv = [...argv, sim.pick(["", "--", "g", "re"], "prefix")];
      const alike = reqs.filter((r) => r.kind === kind);
      const twin = alike.length && sim.int(4, "repeat") === 3 ? sim.pick(alike, "twin") : undefined;
      if (twin) argv = twin.argv;
      reqs.push({ kind, argv, opts: sim.int(3, "annotate") === 2 ? [{ annotations: { [Symbol.for("@sim/unrelated")]: { data: i } } }] : [] });
    }
    const aset = new Map();
    const isAsync = (nd) => { if (!aset.has(nd)) aset.set(nd, sim.int(5, "isasync") !== 4); return aset.get(nd); };
    const derivedNames = new Set();
    walk(tree, (nd) => { if (nd.t === "derived") derivedNames.add(nd.name); });
    const call = async (parser, rq) => {
      if (rq.kind === "parse") return await P.parseAsync(parser, rq.argv, ...rq.opts);
      if (rq.kind === "suggest") return [...await P.suggestAsync(parser, rq.argv, ...rq.opts)];
      return await P.getDocPageAsync(parser, rq.argv, ...rq.opts);
    };
    const text = (rq, r) => rq.kind === "parse" ? resultText(r, lib, show) : r.status === "error" ? `throws ${show(r.error)}` : show(r.value);
    const ctxOf = () => `\n parser: ${treeText(tree)}\n requests: ${reqs.map((r) => `${r.kind} ${show(r.argv)}${r.opts.length ? " (annotated)" : ""}`).join(" ; ")}`;
    const alone = [];
    for (const rq of reqs) {
      const b = tryBuild(() => buildTree(tree, lib, { sim, mode: "async", isAsync }));
      if (b.error) return { nontrivial: false };
      const r = await sim.drive(() => call(b.value, rq), { what: `${rq.kind} alone${ctxOf()}` });
      await sim.quiesce();
      alone.push(text(rq, r));
    }
    // shared
    const fired = [];
    let calls = 0;
    const at = sim.int(3, "fault?") === 2 ? sim.int(5, "faultat") : -1;
    const env = {
      sim, mode: "async", isAsync,
      faultFor(label) {
        if (derivedNames.has(label)) return null;
        if (calls++ === at) {
          const error = new InjectedFault(`${label}#${at}`);
          fired.push(error);
          return { kind: "throw", error };
        }
        return null;
      },
    };
    const shared = tryBuild(() => buildTree(tree, lib, env)).value;
    const results = new Array(n).fill(null);
    const started = new Array(n).fill(false);
    let overlapped = 0;
    const launch = (i) => {
      started[i] = true;
      overlapped += started.filter((s, j) => s && j !== i && results[j] == null).length;
      sim.event(`start ${i}`);
      const p = new Promise((r) => r(call(shared, reqs[i])));
      return p.then((value) => { results[i] = { status: "ok", value }; }, (error) => { results[i] = { status: "error", error }; }).then(() => sim.event(`end ${i}`));
    };
    await sim.drive(() => Promise.all(reqs.map((_, i) => i === 0 || sim.int(2, "late") === 0 ? launch(i) : sim.op(`launch ${i}`).then(() => launch(i)))), { what: `overlapping requests${ctxOf()}` });
    await sim.quiesce();
    let faulted = 0;
    for (let i = 0; i < n; i++) {
      const r = results[i];
      if (r.status === "error" && fired.includes(r.error)) { faulted++; continue; }
      const t = text(reqs[i], r);
      sim.event(`result ${i} ${t}`);
      // a suggestion request is best-effort: a failing value parser may
      // silently narrow it
      if (fired.length > 0 && reqs[i].kind !== "parse") continue;
      if (t !== alone[i]) throw new Violation(`interference-${reqs[i].kind}`, `${reqs[i].kind} request ${i} gives a different answer when it shares the parser with other requests${ctxOf()}\n alone:  ${alone[i]}\n shared: ${t}`);
    }
    if (faulted > fired.length) throw new Violation("fault-spread", `one failing value parser failed ${faulted} requests${ctxOf()}`);
    if (fired.length) sim.count("fault-fired");
    if (overlapped) sim.count("overlapped");
    sim.cover(`${tree.t}:${reqs.map((r) => r.kind[0]).sort().join("")}:${fired.length}`);
    return { nontrivial: overlapped > 0, sample: { parser: treeText(tree), requests: reqs, results: alone } };
  },
};
