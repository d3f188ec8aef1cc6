// Regenerates properties.jsonl and MANIFEST.json from the metadata.
import { writeFileSync } from "node:fs";
import { join, dirname } from "node:path";
import { fileURLToPath } from "node:url";
import { META } from "./props/meta.mjs";
import { NA } from "./props/not-applicable.mjs";
import { PROPS } from "./props/index.mjs";
const ROOT = dirname(dirname(fileURLToPath(import.meta.url)));
const line = (id, m) => JSON.stringify({
  id, title: m.title, statement: m.statement, quantifier: { over: m.over, text: m.text }, why_tests_cant: m.why,
  anchors: { files: m.files, mechanism: m.mechanism, ...(m.observe ? { observe_at: m.observe } : {}), hook_needed: null },
});
const lines = [];
const checks = [];
for (const [id, m] of Object.entries(META)) {
  if (m.title.length > 80) throw new Error(`${id}: title ${m.title.length}`);
  if (!PROPS[id]) throw new Error(`${id} has no module`);
  lines.push(line(id, m));
  checks.push({
    property: id, quick_cmd: `./check.sh ${id} quick`, thorough_cmd: `./check.sh ${id} thorough`,
    technique: "deterministic simulation with seeded scheduling and fault injection", level: "exploration", level_note: m.note,
  });
}
for (const n of NA) lines.push(line(n.id, n));
writeFileSync(join(ROOT, "properties.jsonl"), lines.join("\n") + "\n");
writeFileSync(join(ROOT, "MANIFEST.json"), JSON.stringify({
  version: 1,
  setup_cmd: "node --no-warnings sim/build.mjs .build/setup",
  checks,
  not_applicable: NA.map((n) => ({ property: n.id, reason: n.reason })),
  notes: "Every check bundles /repo/packages/*/src from the current tree with esbuild and runs it under the simulator in sim/. No hooks in /repo: all seams already exist (injected clocks, transports, fs patching in-process).",
}, null, 1) + "\n");
console.log(`${checks.length} checks, ${NA.length} not applicable`);
