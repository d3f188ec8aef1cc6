import { Violation, InjectedFault, show, describeError } from "../core.mjs";
import { resultText } from "../gen.mjs";

const TRUE = ["true", "1", "yes", "on"], FALSE = ["false", "0", "no", "off"];
const WORDS = ["debug", "info", "warn", "de", "x", "", "a@b.co", "5", "42", "60", "-3", "1.5", "true", "NO", " on ", "Off", "0", "yes", "2024-02-30", "2024-05-06", "auto", "red", "green", "{}", "nope"];
const hash = (x) => { let h = 7; for (const c of String(x instanceof Date ? x.getTime() : typeof x === "object" ? JSON.stringify(x) : x)) h = (h * 31 + c.charCodeAt(0)) | 0; return Math.abs(h); };

export default {
  needs: ["core-constructs", "core-primitives", "core-modifiers", "core-parser", "core-message", "core-dependency", "env", "zod", "valibot", "standard-schema", "zod-lib", "valibot-lib"],
  rule: "random Zod, Valibot and hand-written Standard Schema schemas (strings, numbers, enumerations, literals, unions, Booleans, dates beneath refinements, transforms, defaults, fallbacks, wrappers, lazy and preprocessing schemas) whose validation steps are asynchronous and complete in any order, used through the adapters in 1-4 fields of a parser that serves 1-3 overlapping parse, completion and documentation requests; one step may throw or reject; compared with the same parser over reference value parsers that ask a synchronous twin of the schema; the synchronous adapters get the twin and, separately, the asynchronous schema; non-trivial when a validation step ran",
  real: ["@optique/zod, @optique/valibot and @optique/standard-schema", "zod and valibot themselves", "@optique/core parsing, completion and documentation"],
  stubs: ["validation steps (pure functions behind scheduler-controlled promises that can reject)"],
  assumptions: ["validation steps are pure"],
  minimum: { zod: 3000, valibot: 3000, standard: 3000, "fault-fired": 300, accepted: 1500, refused: 1500, "sync-refuses-async": 300, suggested: 100 },
  quick: { count: 8000, ms: 60000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], P = lib["core-primitives"], M = lib["core-modifiers"], K = lib["core-parser"], { message, formatMessage } = lib["core-message"];
    const z = lib["zod-lib"].z ?? lib["zod-lib"], v = lib["valibot-lib"];
    // ---- validation steps ----------------------------------------------------
    const faultAt = sim.int(3, "fault?") === 2 ? sim.int(6, "faultat") : -1;
    const faultKind = sim.pick(["reject", "throw"], "faultkind");
    let calls = 0, fired = null, ran = 0, twinRan = 0, steps = 0, armed = true;
    const stepper = (twin) => (pure) => {
      const name = `step${steps++}`;
      if (twin) return (x, ...r) => { twinRan++; return pure(x, ...r); };
      return (x, ...r) => {
        ran++;
        if (armed && calls++ === faultAt) {
          sim.fault(`step-${faultKind}`);
          fired = new InjectedFault(name);
          const e = fired;
          if (faultKind === "throw") throw e;
          return sim.op(`${name} rejects`, () => { throw e; });
        }
        return sim.op(name, () => pure(x, ...r));
      };
    };
    const sync = (pure) => pure;
    // ---- schemas ---------------------------------------------------------------
    /** A field: what it is, how to make it, and what the adapter should expose. */
    const genZod = () => {
      const base = sim.pick(["string", "email", "min", "num", "int", "enum", "lit", "litnum", "union", "mixed", "bool", "cbool", "date", "plainnum"], "zbase");
      const f = { lib: "zod", base, layers: [], choices: null, bool: null, metavar: "VALUE", blurred: false };
      f.metavar = { string: "STRING", email: "EMAIL", min: "STRING", num: "NUMBER", int: "INTEGER", enum: "CHOICE", lit: "CHOICE", litnum: "VALUE", union: "CHOICE", mixed: "VALUE", bool: "BOOLEAN", cbool: "BOOLEAN", date: "DATE", plainnum: "NUMBER" }[base];
      f.choices = { enum: ["debug", "info", "warn"], lit: ["auto"], union: ["auto", "red", "green"] }[base] ?? null;
      if (base === "bool" || base === "cbool") f.bool = { coerced: base === "cbool", expose: true };
      const makers = [];
      const n = sim.weighted([[2, 0], [4, 1], [3, 2], [2, 3]], "zlayers");
      for (let i = 0; i < n; i++) {
        const layer = sim.pick(["refine", "refine", "transform", "superRefine", "optional", "nullable", "default", "catch", "readonly", "lazy", "preprocess", "pipe", "brand"], "zlayer");
        // Zod runs several refinements at once: the order of its issues then is
        // their completion order, and a synchronous parse abandons the others
        if (["refine", "superRefine", "pipe"].includes(layer) && f.layers.some((l) => ["refine", "superRefine", "pipe"].includes(l))) continue;
        f.layers.push(layer);
        if (["refine", "superRefine", "pipe", "transform", "preprocess"].includes(layer)) f.steps = (f.steps ?? 0) + 1;
        const k = sim.int(4, "salt") + 2, msg = `bad${i}: ${sim.pick(["no", "`x`", "a\nb"], "msg")}`;
        const ok = (x) => hash(x) % k !== 0;
        if (layer === "refine") makers.push((s, st) => s.refine(st(ok), { message: msg }));
        if (layer === "superRefine") makers.push((s, st) => s.superRefine(st((x, ctx) => { if (!ok(x)) { ctx.addIssue({ code: "custom", message: msg }); if (k > 3) ctx.addIssue({ code: "custom", message: "second" }); } })));
        if (layer === "refine" || layer === "superRefine") { if (f.bool && f.layers.length === 1) f.bool.expose = false; else if (f.bool || f.choices) f.blurred = true; }
        if (layer === "transform") { makers.push((s, st) => s.transform(st((x) => k === 2 ? { got: x } : k === 3 ? [x, i] : k === 4 ? undefined : `${x}!`))); f.choices = null; f.metavar = f.bool ? "BOOLEAN" : "VALUE"; if (f.bool) f.bool.expose = false; }
        if (layer === "pipe") { makers.push((s, st) => s.pipe(z.any().refine(st(ok), { message: msg }))); f.choices = null; f.metavar = f.bool ? "BOOLEAN" : "VALUE"; if (f.bool) f.bool.expose = false; }
        if (layer === "optional") makers.push((s) => s.optional());
        if (layer === "nullable") makers.push((s) => s.nullable());
        if (layer === "default") makers.push((s) => s.default("fallback"));
        if (layer === "catch") { makers.push((s) => s.catch(k === 2 ? null : "caught")); f.choices = null; f.metavar = f.bool ? "BOOLEAN" : "VALUE"; if (f.bool) f.bool.expose = false; }
        if (layer === "readonly") { makers.push((s) => s.readonly()); f.choices = null; f.metavar = f.bool ? "BOOLEAN" : "VALUE"; }
        if (layer === "lazy") { makers.push((s) => z.lazy(() => s)); f.choices = null; f.metavar = f.bool ? "BOOLEAN" : "VALUE"; }
        if (layer === "brand") makers.push((s) => s.brand("b"));
        if (layer === "preprocess") { makers.push((s, st) => z.preprocess(st((x) => k === 2 ? x : k === 3 ? String(x).trim() : k === 4 ? x === "yes" : String(x).toLowerCase()), s)); f.choices = null; f.bool = null; f.metavar = "VALUE"; }
      }
      f.make = (st) => {
        let s = { string: () => z.string(), email: () => z.string().email(), min: () => z.string().min(3, "too short"), num: () => z.coerce.number(), int: () => z.coerce.number().int().min(1).max(50), enum: () => z.enum(["debug", "info", "warn"]), lit: () => z.literal("auto"), litnum: () => z.literal(5), union: () => z.union([z.literal("auto"), z.enum(["red", "green"])]), mixed: () => z.union([z.literal("auto"), z.coerce.number()]), bool: () => z.boolean(), cbool: () => z.coerce.boolean(), date: () => z.coerce.date(), plainnum: () => z.number() }[base]();
        for (const m of makers) s = m(s, st);
        return s;
      };
      f.verdict = (twin, raw) => {
        let input = raw;
        if (f.bool) {
          const t = raw.trim().toLowerCase();
          if (TRUE.includes(t)) input = true;
          else if (FALSE.includes(t)) input = false;
          else if (f.bool.coerced) return { ok: false, literal: true };
        }
        const r = twin.safeParse(input);
        return r.success ? { ok: true, value: r.data } : { ok: false, first: r.error.issues[0]?.message ?? "Validation failed", issues: r.error.issues.map((x) => x.message) };
      };
      f.adapt = (s, o, async) => (async ? lib.zod.zodAsync : lib.zod.zod)(s, o);
      f.errorKey = "zodError";
      f.issuesOf = (e) => e.issues.map((x) => x.message);
      return f;
    };
    const genValibot = () => {
      const base = sim.pick(["string", "email", "num", "picklist", "lit", "litnum", "union", "bool", "date"], "vbase");
      const f = { lib: "valibot", base, layers: [], blurred: false };
      f.metavar = { string: "STRING", email: "EMAIL", num: "VALUE", picklist: "CHOICE", lit: "CHOICE", litnum: "VALUE", union: "CHOICE", bool: "BOOLEAN", date: "DATE" }[base];
      f.choices = { picklist: ["debug", "info", "warn"], lit: ["auto"], union: ["auto", "red", "green"] }[base] ?? null;
      const makers = [];
      const n = sim.weighted([[2, 0], [4, 1], [3, 2], [2, 3]], "vlayers");
      for (let i = 0; i < n; i++) {
        const layer = sim.pick(["check", "check", "transform", "optional", "nullable", "nullish", "fallback", "lazy"], "vlayer");
        f.layers.push(layer);
        const k = sim.int(4, "salt") + 2, msg = `bad${i}: ${sim.pick(["no", "`x`", "a\nb"], "msg")}`;
        const ok = (x) => hash(x) % k !== 0;
        if (layer === "check") { makers.push((s, st, a) => a ? v.pipeAsync(s, v.checkAsync(st(ok), msg)) : v.pipe(s, v.check(st(ok), msg))); f.blurred = f.blurred || f.choices != null; f.metavar = null; }
        if (layer === "transform") { makers.push((s, st, a) => { const t = (x) => k === 2 ? { got: x } : k === 3 ? [x, i] : k === 4 ? undefined : `${x}!`; return a ? v.pipeAsync(s, v.transformAsync(st(t))) : v.pipe(s, v.transform(st(t))); }); f.blurred = f.blurred || f.choices != null; f.metavar = null; }
        if (["optional", "nullable", "nullish"].includes(layer)) makers.push((s, st, a) => v[a ? `${layer}Async` : layer](s));
        if (layer === "fallback") { makers.push((s, st, a) => a ? v.fallbackAsync(s, k === 2 ? null : "fell") : v.fallback(s, k === 2 ? null : "fell")); f.blurred = f.blurred || f.choices != null; }
        if (layer === "lazy") { f.lazy = true; makers.push((s, st, a) => a ? v.lazyAsync(() => s) : v.lazy(() => s)); f.choices = null; f.metavar = "VALUE"; f.blurred = false; }
      }
      f.make = (st, a) => {
        let s = { string: () => v.string(), email: () => v.pipe(v.string(), v.email("not an email")), num: () => v.pipe(v.string(), v.transform(Number), v.number(), v.maxValue(50)), picklist: () => v.picklist(["debug", "info", "warn"]), lit: () => v.literal("auto"), litnum: () => v.literal(5), union: () => v.union([v.literal("auto"), v.picklist(["red", "green"])]), bool: () => v.boolean(), date: () => v.date() }[base]();
        for (const m of makers) s = m(s, st, a);
        return s;
      };
      f.verdict = (twin, raw) => { const r = v.safeParse(twin, raw); return r.success ? { ok: true, value: r.output } : { ok: false, first: r.issues[0].message, issues: r.issues.map((x) => x.message) }; };
      f.adapt = (s, o, async) => (async ? lib.valibot.valibotAsync : lib.valibot.valibot)(s, o);
      f.errorKey = "valibotError";
      f.issuesOf = (issues) => issues.map((x) => x.message);
      return f;
    };
    const genStandard = () => {
      const k = sim.int(4, "salt") + 2;
      const form = sim.pick(["object", "class", "function"], "form");
      const answer = sim.pick(["promise", "thenable", "sync"], "answer");
      const failing = sim.pick(["one", "none", "two", "path"], "issues");
      const value = sim.pick(["same", "object", "undefined", "null", "zero", "date"], "svalue");
      const f = { lib: "standard", base: `${form}/${answer}`, layers: [failing, value], choices: null, metavar: "VALUE", blurred: false };
      const verdict = (x) => hash(x) % k === 0
        ? { issues: failing === "none" ? [] : failing === "one" ? [{ message: `no ${x}` }] : failing === "path" ? [{ message: "no `path`", path: ["a", { key: 1 }] }] : [{ message: "first\nissue" }, { message: "second" }] }
        : { value: value === "same" ? x : value === "object" ? { got: x } : value === "null" ? null : value === "zero" ? 0 : value === "date" ? new Date(hash(x)) : undefined, ...(k === 3 ? { issues: undefined } : {}) };
      f.make = (st, a) => {
        const run = st(verdict);
        const mark = {};
        const std = {
          version: 1, vendor: "sim", mark,
          validate(x) {
            if (this?.mark !== mark) throw new TypeError("validate() called without its object");
            const r = a && answer === "sync" ? verdict(x) : run(x);
            return a && answer === "thenable" ? { then: (y, n) => r.then(y, n) } : r;
          },
        };
        if (form === "function") return Object.assign(() => { throw new Error("not a call"); }, { "~standard": std });
        if (form === "class") { class S { get "~standard"() { return std; } } return new S(); }
        return { "~standard": std };
      };
      f.verdict = (twin, raw) => { const r = twin["~standard"].validate(raw); return r.issues ? { ok: false, first: r.issues[0]?.message ?? "Validation failed.", issues: r.issues.map((x) => x.message) } : { ok: true, value: r.value }; };
      f.adapt = (s, o, async) => (async ? lib["standard-schema"].standardSchemaAsync : lib["standard-schema"].standardSchema)(s, o);
      f.errorKey = "schemaError";
      f.issuesOf = (issues) => issues.map((x) => x.message);
      f.async = answer !== "sync";
      return f;
    };
    // ---- fields ----------------------------------------------------------------
    const nf = sim.weighted([[4, 1], [3, 2], [2, 3], [1, 4]], "fields");
    const fields = [];
    const told = { real: [], ref: [] };
    for (let i = 0; i < nf; i++) {
      const f = sim.pick([genZod, genValibot, genStandard], "library")();
      sim.count(f.lib);
      f.name = `--o${i}`;
      f.how = sim.pick(["plain", "optional", "withDefault", "multiple", "argument", "env"], "how");
      if (f.how === "argument" && fields.some((x) => x.how === "argument")) f.how = "optional";
      f.error = sim.pick([null, null, "static", "function"], "errors");
      f.explicit = f.metavar == null || f.blurred || sim.int(4, "metavar") === 3 ? "THING" : undefined;
      f.placeholder = sim.pick([undefined, null, "ph"], "placeholder");
      f.format = sim.int(4, "format") === 3;
      f.dflt = sim.pick(["plain", 7, true, { a: 1 }, [1, 2], null], "dflt");
      if (f.how === "withDefault" && sim.int(6, "datedflt") === 5) f.dflt = new Date(86400000);
      f.source = f.how !== "multiple" && f.how !== "argument" && sim.int(5, "dependency") === 4;
      if (f.how === "env") { f.key = `K${i}`; f.envDefault = sim.int(3, "envdefault") ? [sim.pick(["debug", "auto", 5, 42, true, "x", null, { got: "x" }], "edflt")] : null; f.envValue = sim.int(3, "envset") ? (f.choices && sim.int(2, "envfit") ? sim.pick(f.choices, "envchoice") : sim.pick(WORDS, "envword")) : undefined; }
      f.options = (who) => ({
        placeholder: f.placeholder,
        ...(f.explicit ? { metavar: f.explicit } : {}),
        ...(f.format ? { format: (x) => `<${show(x)}>` } : {}),
        ...(f.error ? { errors: { [f.errorKey]: f.error === "static" ? message`Static ${f.name}.` : (e, input) => { told[who].push([f.name, f.issuesOf(e), input]); return message`Custom ${f.name}: ${String(f.issuesOf(e).length)} for ${input}.`; } } } : {}),
      });
      fields.push(f);
    }
    const env = lib.env.createEnvContext({ source: (k) => fields.find((f) => f.key === k)?.envValue });
    const wrap = (f, vp) => {
      if (f.source) vp = lib["core-dependency"].dependency(vp);
      if (f.how === "env") return lib.env.bindEnv(P.option(f.name, vp), { context: env, key: f.key, parser: vp, ...(f.envDefault ? { default: f.envDefault[0] } : {}) });
      const o = f.how === "argument" ? P.argument(vp) : P.option(f.name, vp);
      return f.how === "optional" ? M.optional(o) : f.how === "withDefault" ? M.withDefault(o, f.dflt) : f.how === "multiple" ? M.multiple(o) : o;
    };
    const shape = sim.weighted([[4, "object"], [1, "tuple"], [1, "merge"], [1, "nested"], [1, "concat"]], "shape");
    const tree = (vps) => {
      const ps = fields.map((f, i) => wrap(f, vps[i]));
      const obj = (l, off = 0) => C.object(Object.fromEntries(l.map((p, i) => [`f${i + off}`, p])));
      const h = ps.length >> 1;
      return shape === "tuple" ? C.tuple(ps) : shape === "concat" && h ? C.concat(C.tuple(ps.slice(0, h)), C.tuple(ps.slice(h))) : shape === "merge" && h ? C.merge(obj(ps.slice(0, h)), obj(ps.slice(h), h)) : shape === "nested" && h ? C.object({ a: obj(ps.slice(0, h)), b: ps[h], c: C.tuple(ps.slice(h + 1)) }) : obj(ps);
    };
    const defaultFormat = (x) => x instanceof Date ? x.toISOString() : typeof x !== "object" || x === null || Array.isArray(x) ? String(x) : JSON.stringify(x);
    const reference = (f) => {
      const twin = f.make(stepper(true), false), o = f.options("ref");
      return {
        mode: "sync", metavar: f.explicit ?? f.metavar, placeholder: f.placeholder,
        ...(f.bool?.expose ? { choices: [true, false], *suggest(p) { for (const t of [...TRUE, ...FALSE]) if (t.startsWith(p.toLowerCase())) yield { kind: "literal", text: t }; } } : f.choices ? { choices: f.choices, *suggest(p) { for (const t of f.choices) if (t.startsWith(p)) yield { kind: "literal", text: t }; } } : {}),
        parse(input) {
          const r = f.verdict(twin, input);
          if (r.ok) return { success: true, value: r.value };
          const e = o.errors?.[f.errorKey];
          if (typeof e === "function") { told.ref.push([f.name, r.literal ? [`Invalid Boolean value: ${input}`] : r.issues, input]); return { success: false, error: message`Custom ${f.name}: ${String(r.literal ? 1 : r.issues.length)} for ${input}.` }; }
          if (e) return { success: false, error: e };
          return { success: false, error: r.literal ? literalError(input) : f.lib === "standard" ? [{ type: "text", text: r.first }] : message`${r.first}` };
        },
        format: (x) => f.format ? `<${show(x)}>` : defaultFormat(x),
      };
    };
    const { valueSet } = lib["core-message"];
    const literalError = (input) => message`Invalid Boolean value: ${input}. Expected one of ${valueSet([...TRUE, ...FALSE], { fallback: "", locale: "en-US" })}.`;
    const asyncVps = fields.map((f) => f.adapt(f.make(stepper(false), true), f.options("real"), true));
    const refVps = fields.map(reference);
    const syncVps = fields.map((f) => f.adapt(f.make(sync, false), f.options("real"), false));
    const real = tree(asyncVps), ref = tree(refVps), realSync = tree(syncVps);
    const blurred = fields.some((f) => f.blurred);
    // ---- requests --------------------------------------------------------------
    const word = (f) => sim.int(4, "fit") && (f.choices || f.bool) ? sim.pick(f.bool ? [...TRUE, ...FALSE, "TRUE", " no"] : f.choices, "fitting") : sim.pick(WORDS, "word");
    const argvOf = () => {
      const a = [];
      for (const f of sim.shuffle([...fields], "argorder")) {
        const times = f.how === "multiple" ? sim.int(3, "times") : sim.int(5, "given") ? 1 : 0;
        for (let t = 0; t < times; t++) { const w = word(f); f.how === "argument" ? a.push(w) : sim.int(3, "eq") === 0 ? a.push(`${f.name}=${w}`) : a.push(f.name, w); }
      }
      return a;
    };
    const reqs = [];
    const nr = sim.weighted([[3, 1], [2, 2], [1, 3]], "requests");
    for (let i = 0; i < nr; i++) {
      const kind = blurred ? "parse" : sim.weighted([[6, "parse"], [5, "suggest"], [1, "doc"]], "kind");
      let argv = argvOf();
      if (kind === "suggest") { const f = sim.pick(fields, "target"); argv = argv.slice(0, sim.int(argv.length + 1, "cut")); const p = sim.pick(["", "t", "d", "a", "O", "n", "re", "1"], "prefix"); argv.push(...(f.how === "argument" ? [p] : sim.int(2, "eq") ? [`${f.name}=${p}`] : [f.name, p])); }
      reqs.push({ kind, argv });
    }
    const desc = () => `\n ${shape} of: ${fields.map((f) => `${f.how === "argument" ? "ARG" : f.name}:${f.how}:${f.lib}/${f.base}${f.layers.map((l) => `.${l}`).join("")}${f.error ? ` error ${f.error}` : ""}${f.source ? " source" : ""}${f.key ? ` env ${show(f.envValue)} default ${show(f.envDefault)}` : ""}`).join(", ")}\n requests: ${reqs.map((r) => `${r.kind} ${show(r.argv)}`).join(" ; ")}`;
    const extra = fields.some((f) => f.key) ? [{ annotations: env.getAnnotations() }] : [];
    const ask = (parser, rq, s) => rq.kind === "parse" ? K[`parse${s}`](parser, rq.argv, ...extra) : rq.kind === "suggest" ? K[`suggest${s}`](parser, rq.argv, ...extra) : K[`getDocPage${s}`](parser, rq.argv, ...extra);
    const text = (rq, r) => rq.kind === "parse" ? resultText(r, lib, show) : r.status === "error" ? `throws ${show(r.error)}` : show(rq.kind === "suggest" ? [...r.value] : r.value);
    const outcome = (fn) => { try { return { status: "ok", value: fn() }; } catch (error) { return { status: "error", error }; } };
    const results = [];
    await sim.drive(() => Promise.all(reqs.map(async (rq, i) => {
      if (i) await sim.op(`launch ${i}`);
      results[i] = await new Promise((r) => r(ask(real, rq, "Async"))).then((value) => ({ status: "ok", value }), (error) => ({ status: "error", error }));
      sim.event(`result ${i} ${text(rq, results[i])}`);
    })), { what: `requests${desc()}` });
    await sim.quiesce();
    const asyncTold = told.real;
    told.real = [];
    let hit = 0;
    for (const [i, rq] of reqs.entries()) {
      const r = results[i];
      if (fired && r.status === "error" && r.error === fired) { hit++; continue; }
      if (r.status === "error") throw new Violation("failed", `request ${i} failed with ${describeError(r.error)}${desc()}`);
      told.ref = [];
      const want = text(rq, outcome(() => ask(ref, rq, "Sync")));
      if (fired && rq.kind !== "parse") continue;
      const got = text(rq, r);
      if (got !== want) throw new Violation(`verdict-${rq.kind}`, `request ${i} does not give the schema's verdict${desc()}\n got:  ${got}\n want: ${want}`);
      if (rq.kind === "parse") { sim.count(r.value.success ? "accepted" : "refused"); for (const t of told.ref) if (!asyncTold.some((x) => show(x) === show(t))) throw new Violation("callback", `the error callback was not told about ${show(t)}${desc()}\n told ${show(asyncTold)}`); }
      else if (rq.kind === "suggest" && want !== "[]") sim.count("suggested");
      told.real = [];
      const s = text(rq, outcome(() => ask(realSync, rq, "Sync")));
      if (s !== want) throw new Violation(`sync-${rq.kind}`, `the synchronous adapters do not give the schema's verdict for request ${i}${desc()}\n got:  ${s}\n want: ${want}`);
      if (rq.kind === "parse" && show(told.real) !== show(told.ref)) throw new Violation("callback", `the synchronous adapter told the error callback ${show(told.real)} instead of ${show(told.ref)}${desc()}`);
    }
    if (fired) { sim.count("fault-fired"); if (hit > 1) throw new Violation("fault-spread", `one failing step failed ${hit} requests${desc()}`); if (hit === 0 && reqs.every((r) => r.kind === "parse")) throw new Violation("fault-swallowed", `a validation step failed but no request did${desc()}`); }
    // ---- what the value parsers expose -----------------------------------------
    for (const [i, f] of fields.entries()) {
      if (f.blurred) continue;
      for (const vp of [asyncVps[i], syncVps[i]]) {
        if (vp.metavar !== refVps[i].metavar) throw new Violation("metavar", `${f.name} has metavar ${vp.metavar}, expected ${refVps[i].metavar}${desc()}`);
        if (show(vp.choices) !== show(refVps[i].choices)) throw new Violation("choices", `${f.name} has choices ${show(vp.choices)}, expected ${show(refVps[i].choices)}${desc()}`);
        for (const x of [f.dflt, undefined, new Date(NaN)]) { const w = outcome(() => x instanceof Date && isNaN(x) && !f.format ? "Invalid Date" : refVps[i].format(x)), g = outcome(() => vp.format(x)); if (show(w) !== show(g)) throw new Violation("format", `${f.name} formats ${show(x)} as ${show(g)}, expected ${show(w)}${desc()}`); }
        if (!Object.is(vp.placeholder, f.placeholder)) throw new Violation("placeholder", `${f.name} has another placeholder${desc()}`);
      }
    }
    // ---- synchronous adapters refuse asynchronous schemas ------------------------
    // (Zod's own synchronous run drops the promises of a second asynchronous step)
    if (sim.int(2, "misuse") === 1 && !(fields[0].lib === "zod" && fields[0].steps > 1)) {
      const f = fields[0], input = word(f);
      armed = f.lib === "standard";
      if (armed) calls = 0;
      const r = outcome(() => f.adapt(f.make(stepper(false), true), f.options("real"), false));
      const asyncSchema = f.lib !== "valibot" || f.layers.some((l) => l !== "brand");
      if (f.lib === "valibot") {
        if (asyncSchema && (r.status !== "error" || !(r.error instanceof TypeError))) throw new Violation("misuse", `valibot() accepted an asynchronous schema${desc()}`);
        if (!asyncSchema && r.status !== "ok") throw new Violation("misuse", `valibot() refused a synchronous schema${desc()}`);
        if (asyncSchema) sim.count("sync-refuses-async");
      } else {
        if (r.status !== "ok") throw new Violation("misuse", `the adapter refused the schema: ${describeError(r.error)}${desc()}`);
        const firedBefore = fired;
        const got = outcome(() => r.value.parse(input));
        twinRan = 0;
        const want = f.lib === "standard" ? null : f.verdict(f.make(stepper(true), false), input);
        const asyncRan = f.lib === "standard" ? f.async : twinRan > 0;
        const threw = fired !== firedBefore && faultKind === "throw";
        if (threw) { if (got.error !== fired) throw new Violation("misuse", `the error of the validator was replaced by ${describeError(got.error)}${desc()}`); }
        else if (asyncRan) {
          if (got.status !== "error" || !(got.error instanceof TypeError) || !/async/i.test(got.error.message)) throw new Violation("misuse", `a synchronous adapter did not refuse an asynchronous answer for ${show(input)}: ${got.status === "ok" ? show(got.value) : describeError(got.error)}${desc()}`);
          sim.count("sync-refuses-async");
        } else if (got.status !== "ok" || want && got.value.success !== want.ok) throw new Violation("misuse", `a synchronous verdict was expected for ${show(input)}: ${show(got)}${desc()}`);
      }
      await sim.quiesce();
    }
    sim.cover(fields.map((f) => `${f.lib}/${f.base}.${f.layers.join(".")}:${f.how}`).sort().join());
    return { nontrivial: ran > 0, sample: { fields: fields.map((f) => `${f.name}:${f.how}:${f.lib}/${f.base}${f.layers.map((l) => `.${l}`).join("")}`), requests: reqs, results: results.map((r, i) => text(reqs[i], r)) } };
  },
};
