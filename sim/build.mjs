// Bundles the current working tree of /repo/packages/*/src into one directory
// of ESM chunks (one shared instance of @optique/core), without touching
// /repo and without depending on the dist/ folders.
import { createRequire } from "node:module";
import { existsSync, mkdirSync, readdirSync, readFileSync, rmSync } from "node:fs";
import { join, dirname } from "node:path";

export const REPO = process.env.VERIF_REPO ?? "/repo";
const ESBUILD = "/opt/veriftools/node/node_modules/esbuild/lib/main.js";

function packageExports() {
  const map = new Map();
  for (const name of readdirSync(join(REPO, "packages"))) {
    const file = join(REPO, "packages", name, "deno.json");
    if (!existsSync(file)) continue;
    const json = JSON.parse(readFileSync(file, "utf8"));
    const exp = typeof json.exports === "string" ? { ".": json.exports } : json.exports;
    for (const [sub, target] of Object.entries(exp ?? {})) {
      const spec = sub === "." ? json.name : json.name + sub.slice(1);
      map.set(spec, { file: join(REPO, "packages", name, target), pkg: name, sub });
    }
  }
  return map;
}

/** Entry points: logical name -> source module. */
export const ENTRIES = {
  "core": "@optique/core",
  "core-constructs": "@optique/core/constructs",
  "core-context": "@optique/core/context",
  "core-extension": "@optique/core/extension",
  "core-annotations": "@optique/core/annotations",
  "core-facade": "@optique/core/facade",
  "core-message": "@optique/core/message",
  "core-modifiers": "@optique/core/modifiers",
  "core-parser": "@optique/core/parser",
  "core-primitives": "@optique/core/primitives",
  "core-program": "@optique/core/program",
  "core-valueparser": "@optique/core/valueparser",
  "core-dependency": "@optique/core/dependency",
  "run": "@optique/run",
  "env": "@optique/env",
  "config": "@optique/config",
  "derived-defaults": "@optique/derived-defaults",
  "prompt": "@optique/prompt",
  "inquirer": "@optique/inquirer",
  "clack": "@optique/clack",
  "discover": "@optique/discover",
  "discover-generator": "@optique/discover/generator",
  "discover-cli": "@optique/discover/cli",
  "git": "@optique/git",
  "logtape": "@optique/logtape",
  "man": "@optique/man",
  "man-cli": "@optique/man/cli",
  "zod": "@optique/zod",
  "valibot": "@optique/valibot",
  "standard-schema": "@optique/standard-schema",
  // the schema libraries themselves, the same copies the packages import
  "zod-lib": "package:zod",
  "valibot-lib": "package:valibot",
  "logtape-lib": "package:@logtape/logtape",
};

export async function build(outdir, names) {
  const require = createRequire(import.meta.url);
  const esbuild = require(ESBUILD);
  const map = packageExports();
  const entryPoints = {};
  for (const n of names) {
    const spec = ENTRIES[n];
    if (spec.startsWith("package:")) { entryPoints[n] = spec; continue; }
    const hit = map.get(spec);
    if (hit == null) throw new Error(`no source module for ${spec}`);
    entryPoints[n] = hit.file;
  }
  mkdirSync(outdir, { recursive: true });
  const plugin = {
    name: "optique-src",
    setup(b) {
      b.onResolve({ filter: /^package:/ }, (args) => ({ path: args.path.slice(8), namespace: "package" }));
      b.onLoad({ filter: /.*/, namespace: "package" }, (args) => ({ contents: `export * from ${JSON.stringify(args.path)};`, resolveDir: join(REPO, "packages", args.path.split("/").at(-1), "src") }));
      b.onResolve({ filter: /^@optique\// }, (args) => {
        const hit = map.get(args.path);
        return hit ? { path: hit.file } : undefined;
      });
      b.onResolve({ filter: /^(tsx|@logtape\/file)(\/|$)/ }, (args) => ({ path: args.path, external: true }));
      b.onResolve({ filter: /^#src\// }, (args) => {
        const m = args.importer.match(/^(.*\/packages\/[^/]+)\//);
        return m ? { path: join(m[1], "src", args.path.slice(5)) } : undefined;
      });
    },
  };
  await esbuild.build({
    entryPoints,
    outdir,
    bundle: true,
    splitting: true,
    format: "esm",
    platform: "node",
    target: "node22",
    sourcemap: false,
    logLevel: "error",
    legalComments: "none",
    outExtension: { ".js": ".mjs" },
    plugins: [plugin],
    banner: {
      js: 'import { createRequire as __cr } from "node:module"; const require = __cr(import.meta.url);',
    },
  });
  return outdir;
}

if (import.meta.url === `file://${process.argv[1]}`) {
  const out = process.argv[2];
  if (!out) throw new Error("usage: build.mjs OUTDIR [names]");
  rmSync(out, { recursive: true, force: true });
  await build(out, process.argv[3] ? process.argv[3].split(",") : Object.keys(ENTRIES));
}
