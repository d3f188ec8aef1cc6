import { Violation, show } from "../core.mjs";
import { genTree, buildTree, genArgv, treeText, tryBuild, walk } from "../gen.mjs";

function prefixFor(sim, tree) {
  const names = [];
  walk(tree, (n) => { if (n.name) names.push(n.name); if (n.neg) names.push(n.neg); });
  const k = sim.int(5, "prefixkind");
  if (k === 0) return "";
  if (k === 1) return sim.pick(["--", "-", "g", "c", "r"], "prefix");
  if (k === 2 && names.length) { const n = sim.pick(names, "nm"); return n.slice(0, sim.range(1, n.length, "cut")); }
  if (k === 3 && names.length) return `${sim.pick(names, "nm")}=${sim.pick(["", "g", "re", "green-"], "val")}`;
  return sim.pick(["green", "red-", "blue-a", "x"], "word");
}

const text = (r) => r.status === "error" ? `throws ${show(r.error)}` : show(r.value);

export default {
  needs: ["core-constructs", "core-modifiers", "core-primitives", "core-valueparser", "core-dependency", "core-parser", "core-message"],
  rule: "random parser tree x random partial command line x random completion schedule of asynchronous value parsers and suggesters; each case asks for suggestions (and in half of the cases for the help page) once synchronously and twice asynchronously, and again with annotations nobody reads; non-trivial when at least one asynchronous operation was scheduled",
  real: ["@optique/core suggest machinery, combinators, dependency runtime"],
  stubs: ["asynchronous value parsers/suggesters: the real ones behind scheduler-controlled promises"],
  assumptions: ["an asynchronous value parser yields the same suggestions as its synchronous twin"],
  minimum: { multiop: 100, "non-empty": 500 },
  quick: { count: 24000, ms: 60000 },
  async run(sim, lib) {
    const { tree } = genTree(sim);
    let argv = genArgv(sim, tree);
    argv = argv.slice(0, sim.int(argv.length + 1, "cutargv"));
    const prefix = prefixFor(sim, tree);
    // often ask for the values of an option, most of all of a derived one
    const derived = [], valued = [];
    walk(tree, (n) => { if (n.t === "derived") derived.push(n.name); if (["option", "source"].includes(n.t)) valued.push(n.name); });
    const wanted = derived.length && sim.int(3, "wantderived") ? derived : valued;
    if (wanted.length && sim.int(3, "wantvalue") === 2) argv = [...argv, sim.pick(wanted, "wanted")];
    const args = [...argv, prefix];
    const P = lib["core-parser"];
    const parserS = tryBuild(() => buildTree(tree, lib, { sim, mode: "sync" }));
    const aset = new Map();
    const isAsync = (n) => { if (!aset.has(n)) aset.set(n, sim.int(4, "isasync") !== 3); return aset.get(n); };
    const parserA = tryBuild(() => buildTree(tree, lib, { sim, mode: "async", isAsync }));
    if (parserS.error || parserA.error) {
      sim.count("construction-rejected");
      return { nontrivial: false };
    }
    let sync;
    try {
      sync = { status: "ok", value: [...P.suggestSync(parserS.value, args)] };
    } catch (e) {
      sync = { status: "error", error: e };
    }
    const ctx = `\n parser: ${treeText(tree)}\n args:   ${show(args)}\n async leaves: ${[...aset].filter(([, a]) => a).map(([n]) => n.name ?? `arg${n.id}`).join(" ")}`;
    const once = async (k, ...opts) => {
      const a = await sim.drive(async () => {
        const r = await P.suggestAsync(parserA.value, args, ...opts);
        return [...r];
      }, { what: `suggestAsync #${k}${ctx}` });
      await sim.quiesce();
      sim.event(`result ${text(a)}`);
      return text(a);
    };
    const ta = await once(1);
    if (sim.steps > 1) sim.count("multiop");
    const tb = await once(2);
    if (ta !== tb) throw new Violation("schedule", `suggestions differ between two schedules${ctx}\n first:  ${ta}\n second: ${tb}`);
    const ts = text(sync);
    if (ts !== ta) throw new Violation("twin", `asynchronous suggestions differ from the synchronous twin${ctx}\n sync:  ${ts}\n async: ${ta}`);
    // annotations that no parser reads change nothing
    if (sim.int(3, "annotate") === 2) {
      const opts = { annotations: { [Symbol.for("@sim/unrelated")]: { data: 1 } } };
      const tc = await once(3, opts);
      if (tc !== ta) throw new Violation("annotated", `annotations that no parser reads change the suggestions${ctx}\n without: ${ta}\n with:    ${tc}`);
      let s2;
      try { s2 = { status: "ok", value: [...P.suggestSync(parserS.value, args, opts)] }; } catch (e) { s2 = { status: "error", error: e }; }
      if (text(s2) !== ts) throw new Violation("annotated-sync", `annotations that no parser reads change the synchronous suggestions${ctx}\n without: ${ts}\n with:    ${text(s2)}`);
      sim.count("annotated");
    }
    // the help page for the same partial command line
    if (sim.int(2, "page") === 1) {
      const args0 = sim.int(2, "whole") ? argv : args;
      const page = async (k, opts) => {
        const r = await sim.drive(() => P.getDocPageAsync(parserA.value, args0, ...opts), { what: `getDocPageAsync #${k}${ctx}` });
        await sim.quiesce();
        return text(r);
      };
      const pageS = (opts) => { try { return text({ status: "ok", value: P.getDocPageSync(parserS.value, args0, ...opts) }); } catch (e) { return text({ status: "error", error: e }); } };
      const ps = pageS([]);
      const compare = (kind, what, got) => { if (got !== ps) throw new Violation(kind, `${what}${ctx}
 for ${show(args0)}
 sync:  ${ps}
 other: ${got}`); };
      compare("page-twin", "the asynchronous help page differs from the synchronous twin's", await page(1, []));
      compare("page-schedule", "the help page depends on the schedule", await page(2, []));
      const opts = [{ annotations: { [Symbol.for("@sim/unrelated")]: { data: 1 } } }];
      compare("page-annotated-sync", "annotations that no parser reads change the synchronous help page", pageS(opts));
      compare("page-annotated", "annotations that no parser reads change the help page", await page(3, opts));
      sim.count("page");
    }
    if (sync.value?.length) sim.count("non-empty");
    sim.cover(`${tree.t}:${Math.min(4, sync.value?.length ?? -1)}`);
    return { nontrivial: sim.steps > 0, sample: { parser: treeText(tree), args, suggestions: ta.slice(0, 300) } };
  },
};
