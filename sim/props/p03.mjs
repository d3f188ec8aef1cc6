import { Violation, show, InjectedFault } from "../core.mjs";
import { genTree, buildTree, genArgv, treeText, tryBuild, resultText, walk } from "../gen.mjs";

export default {
  needs: ["core-constructs", "core-modifiers", "core-primitives", "core-valueparser", "core-dependency", "core-parser", "core-message"],
  rule: "random parser tree x random argv x random schedule, with one or two faults (rejection, synchronous throw) injected into asynchronous value parsers at random call indices; non-trivial when a fault fired",
  real: ["@optique/core parser combinators, primitives, modifiers, dependency runtime"],
  stubs: ["asynchronous value parsers: the real value parsers behind a scheduler-controlled promise that can reject or throw"],
  assumptions: ["faults are injected into value parsers that are not dependency-derived (a derived value parser may be tried with provisional dependency values, whose failure is specified not to matter)"],
  minimum: { "fault-fired": 500 },
  quick: { count: 24000, ms: 60000 },
  async run(sim, lib) {
    const { tree } = genTree(sim);
    const argv = genArgv(sim, tree);
    const P = lib["core-parser"];
    const at = sim.int(4, "faultat");
    const kind = sim.pick(["throw", "sync-throw"], "faultkind");
    const second = sim.int(3, "second") === 2;
    let calls = 0;
    const fired = [];
    const derivedNames = new Set();
    walk(tree, (n) => { if (n.t === "derived") derivedNames.add(n.name); });
    const env = {
      sim, mode: "async", alwaysAsync: true, asyncDiscriminator: true,
      faultFor(label) {
        if (derivedNames.has(label)) return null;
        const i = calls++;
        if (i === at || (second && i === at + 1)) {
          const error = new InjectedFault(`${label}#${i}`);
          fired.push(error);
          return { kind, error };
        }
        return null;
      },
    };
    const b = tryBuild(() => buildTree(tree, lib, env));
    if (b.error) return { nontrivial: false };
    const ctx = `\n parser: ${treeText(tree)}\n argv:   ${show(argv)}\n fault:  ${kind} at value-parser call ${at}${second ? ` and ${at + 1}` : ""}`;
    // the same must hold when source contexts annotate the parse
    const opts = sim.int(2, "annotate") ? [{ annotations: { [Symbol.for("@sim/unrelated")]: { data: 1 } } }] : [];
    const r = await sim.drive(() => P.parseAsync(b.value, argv, ...opts), { what: `parseAsync${ctx}` });
    const running = (env.started ?? 0) - (env.settled ?? 0);
    const text = resultText(r, lib, show);
    sim.event(`result ${text} fired=${fired.length}`);
    if (running !== 0) throw new Violation("outlives", `${running} asynchronous value parser(s) still running after the parse settled (${text})${ctx}`);
    if (fired.length > 0) {
      sim.count("fault-fired");
      if (r.status !== "error") throw new Violation("swallowed", `a value parser ${kind === "throw" ? "rejected" : "threw"} but the parse reported: ${text}${ctx}`);
      if (!fired.includes(r.error)) throw new Violation("other-error", `the parse rejected with a different error than the injected one: ${text}${ctx}`);
    } else if (r.status === "error") {
      throw new Violation("unexpected-rejection", `parse rejected without any fault: ${text}${ctx}`);
    }
    await sim.quiesce();
    sim.cover(`${tree.t}:${fired.length}:${kind}`);
    return { nontrivial: fired.length > 0, sample: { parser: treeText(tree), argv, fault: `${kind}@${at}`, result: text } };
  },
};
