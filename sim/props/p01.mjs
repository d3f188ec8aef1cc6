import { Violation, show } from "../core.mjs";
import { genTree, buildTree, genArgv, treeText, resultText, zeroInputAlternatives, tryBuild } from "../gen.mjs";

export default {
  needs: ["core-constructs", "core-modifiers", "core-primitives", "core-valueparser", "core-dependency", "core-parser", "core-message"],
  rule: "random parser tree (objects, tuples, seq, merge, concat, or, longestMatch, conditional, commands, modifiers, dependencies) x random argv x random completion schedule of every asynchronous value parser; each case runs once synchronously and twice asynchronously under different schedules; non-trivial when at least one asynchronous operation was scheduled",
  real: ["@optique/core parser combinators, primitives, modifiers, value parsers, dependency runtime"],
  stubs: ["asynchronous value parsers: the real value parsers behind a scheduler-controlled promise"],
  assumptions: [
    "an asynchronous value parser returns the same result as its synchronous twin for the same input",
    "discriminators of conditional() are synchronous in the twin comparison (asynchronous discriminators are specified to be deferred)",
    "alternatives that receive no token of their own are compared across schedules only: the code deliberately does not complete asynchronous candidates while probing",
  ],
  minimum: { multiop: 100, "twin-compared": 1000 },
  quick: { count: 24000, ms: 60000 },
  async run(sim, lib) {
    const asyncDiscriminator = sim.int(8, "asyncdisc") === 7;
    const { tree } = genTree(sim);
    const argv = genArgv(sim, tree);
    sim.event(`tree ${treeText(tree)} argv ${show(argv)}`);
    const P = lib["core-parser"];
    const parserS = tryBuild(() => buildTree(tree, lib, { sim, mode: "sync" }));
    const aset = new Map();
    const isAsync = (n) => { if (!aset.has(n)) aset.set(n, sim.int(4, "isasync") !== 3); return aset.get(n); };
    const parserA = tryBuild(() => buildTree(tree, lib, { sim, mode: "async", isAsync, asyncDiscriminator }));
    if (parserS.error || parserA.error) {
      if (show(parserS.error) !== show(parserA.error)) throw new Violation("construction", `construction differs: sync ${show(parserS.error)} / async ${show(parserA.error)} for ${treeText(tree)}`);
      sim.count("construction-rejected");
      return { nontrivial: false };
    }
    let sync;
    try {
      sync = { status: "ok", value: P.parseSync(parserS.value, argv) };
    } catch (e) {
      sync = { status: "error", error: e };
    }
    const ctx = `\n parser: ${treeText(tree)}\n argv:   ${show(argv)}\n async leaves: ${[...aset].filter(([, a]) => a).map(([n]) => n.name ?? `arg${n.id}`).join(" ")}`;
    const once = async (k, opts) => {
      const a = await sim.drive(() => P.parseAsync(parserA.value, argv, ...(opts ? [opts] : [])), { what: `parseAsync #${k}${ctx}` });
      await sim.quiesce();
      const t = resultText(a, lib, show);
      sim.event(`result ${t}`);
      return [a, t];
    };
    const [a, ta] = await once(1);
    const before = sim.steps;
    const [, tb] = await once(2);
    if (ta !== tb) throw new Violation("schedule", `the same parse gives different results under two schedules${ctx}\n first:  ${ta}\n second: ${tb}`);
    const ts = resultText(sync, lib, show);
    // annotations that no parser reads change nothing
    if (sim.int(2, "annotate") === 1) {
      const opts = { annotations: { [Symbol.for("@sim/unrelated")]: { data: 1 } } };
      const [, tc] = await once(3, opts);
      // which of several errors is reported may depend on the bookkeeping
      const vague = /multiple\(|or\(|longestMatch\(/.test(treeText(tree));
      const same = (x, y) => x === y || vague && x.startsWith("fail ") && y.startsWith("fail ");
      if (!same(tc, ta)) throw new Violation("annotated", `annotations that no parser reads change the result${ctx}\n without: ${ta}\n with:    ${tc}`);
      let s2;
      try { s2 = { status: "ok", value: P.parseSync(parserS.value, argv, opts) }; } catch (e) { s2 = { status: "error", error: e }; }
      const td = resultText(s2, lib, show);
      if (!same(td, ts)) throw new Violation("annotated-sync", `annotations that no parser reads change the synchronous result${ctx}\n without: ${ts}\n with:    ${td}`);
      sim.count("annotated");
    }
    const hasCond = asyncDiscriminator && /conditional\(/.test(treeText(tree));
    if (!hasCond && !zeroInputAlternatives(tree, argv, isAsync)) {
      sim.count("twin-compared");
      if (ts !== ta) {
        const kind = sync.value?.success !== a.value?.success ? "outcome" : sync.value?.success ? "value" : "error-message";
        // with two independent errors either may be reported: a repeated
        // dependency source that is absent fails during source collection
        if (kind !== "error-message" || !/multiple\(/.test(treeText(tree))) throw new Violation(kind, `asynchronous parse differs from its synchronous twin${ctx}\n sync:   ${ts}\n async:  ${ta}`);
      }
    }
    sim.count(a.value?.success ? "parse-ok" : "parse-failed");
    if (before > 1) sim.count("multiop");
    sim.cover(tree.t + ":" + (a.value?.success ? "ok" : "fail"));
    return { nontrivial: sim.steps > 0, sample: { parser: treeText(tree), argv, result: ta } };
  },
};
