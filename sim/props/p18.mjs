import { Violation, show, describeError, InjectedFault } from "../core.mjs";
import { ExitSignal } from "../seams.mjs";
import { CHOICES } from "../gen.mjs";

const CANCEL = Symbol("clack:cancel");
class ExitPromptError extends Error { constructor(m) { super(m); this.name = "ExitPromptError"; } }

/** the settings of a prompt that the terminal must be given, if they are set */
const CONVEYED = { confirm: ["default", "initialValue"], number: ["default", "min", "max", "step", "placeholder"], input: ["default"], text: ["placeholder", "initialValue"], password: ["mask"], editor: ["default"], select: ["default", "initialValue"], rawlist: ["default"], expand: ["default"], checkbox: [], multiselect: ["required"] };
const present = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));

/** what the simulated user types into a number field, last one wins */
const numberOk = (s, c) => { if (s.trim() === "") return null; const n = Number(s); if (!Number.isFinite(n)) return null; if (c.min !== undefined && n < c.min) return null; if (c.max !== undefined && n > c.max) return null; if (c.even && n % 2) return null; return n; };
const limitsOk = (n, c) => (c.min === undefined || n >= c.min) && (c.max === undefined || n <= c.max) && (typeof c.step !== "number" || Number.isInteger((n - (c.min ?? 0)) / c.step));

export default {
  needs: ["core-constructs", "core-primitives", "core-modifiers", "core-valueparser", "core-parser", "core-facade", "core-message", "run", "inquirer", "clack", "env"],
  rule: "1-4 fields prompted through the real @optique/inquirer and @optique/clack adapters (every prompt type, configured through the library or a prompter override, constructed in object, tuple and command parsers) by a simulated user who answers after random delays, mistypes until the validator accepts, submits nothing, cancels, or whose terminal fails synchronously or later; run through run(), runAsync(), runWith() and parseAsync(), one or two programs at a time; non-trivial when a prompt was shown",
  real: ["@optique/inquirer, @optique/clack, @optique/prompt adapters", "@optique/core parsing and facade", "@optique/run"],
  stubs: ["prompt rendering of inquirer and clack (their prompt functions answer through the scheduler)"],
  assumptions: ["the prompt library calls the configured validator before it accepts an answer"],
  minimum: { answered: 4000, enter: 800, cancelled: 600, "terminal-failed": 800, "empty-answer": 300, retyped: 300, "two-programs": 800 },
  quick: { count: 9000, ms: 45000 },
  async run(sim, lib) {
    const C = lib["core-constructs"], P = lib["core-primitives"], M = lib["core-modifiers"], V = lib["core-valueparser"];
    const shown = [];
    let open = new Map();
    // ---- the simulated terminal -------------------------------------------
    const screen = (libName, fn) => (config) => {
      const f = fields.find((x) => x.message === config.message);
      if (!f) throw new Violation("unknown-prompt", `a prompt asks ${show(config.message)}`);
      shown.push({ f, fn, config });
      sim.event(`show ${f.key} ${libName}.${fn}`);
      if (open.get(f.prog)) throw new Violation("overlap", `${f.key} is asked while ${open.get(f.prog)} is still open`);
      open.set(f.prog, f.key);
      const close = () => { open.set(f.prog, null); };
      if (f.act === "throw-sync") { close(); sim.fault("terminal-sync"); throw f.boom; }
      return (async () => {
        for (let tries = 0; ; tries++) {
          await sim.op(`user ${f.key}`, () => {});
          if (f.act === "reject") { close(); sim.fault("terminal"); throw f.boom; }
          if (f.act === "cancel") { close(); sim.fault("cancel"); if (libName === "inquirer") throw new ExitPromptError("User force closed the prompt"); return CANCEL; }
          if (f.act === "empty") { close(); return f.nothing; }
          const options = config.choices ?? config.options;
          // pressing enter takes what the prompt was opened with
          const offered = () => fn === "checkbox" ? options.filter((o) => o.checked).map((o) => o.value) : config.default ?? config.initialValue ?? (fn === "confirm" ? true : ["input", "text", "editor"].includes(fn) ? "" : options?.find((o) => !o.disabled && "value" in o)?.value);
          // and a choice is picked by the words on the screen
          const byLabel = (v) => { const o = options.find((x) => (x.name ?? x.label ?? x.value) === f.labels.get(v)); if (!o || o.disabled) throw new Violation("choices", `${f.key} does not offer ${f.labels.get(v)}: ${show(options)}`); return o.value; };
          const typed = f.typing && tries < f.typing.length ? f.typing[tries] : f.act === "enter" ? offered() : f.labels && options ? (Array.isArray(f.answer) ? f.answer.map(byLabel) : byLabel(f.answer)) : f.raw ?? f.answer;
          if (fn === "number" && typeof typed === "number" && !limitsOk(typed, config)) { f.refused = (f.refused ?? 0) + 1; if (tries > 8) throw new Violation("validator", `the limits ${show(config)} refuse ${typed}`); sim.count("retyped"); continue; }
          if (config.validate) {
            const v = await config.validate(typed);
            const ok = libName === "clack" ? v === undefined : v === true;
            sim.event(`validate ${show(typed)} ${ok}`);
            f.validated.push([typed, ok]);
            if (!ok) { if (tries > 8) throw new Violation("validator", `the validator refuses ${show(typed)}: ${show(v)}`); sim.count("retyped"); continue; }
          }
          close();
          return typed;
        }
      })();
    };
    globalThis[Symbol.for("@optique/inquirer/prompt-functions")] = Object.fromEntries(["confirm", "number", "input", "password", "editor", "select", "rawlist", "expand", "checkbox"].map((n) => [n, screen("inquirer", n)]));
    globalThis[Symbol.for("@optique/clack/prompt-functions")] = { ...Object.fromEntries(["text", "password", "confirm", "select", "multiselect"].map((n) => [n, screen("clack", n)])), isCancel: (v) => v === CANCEL };
    // ---- fields -----------------------------------------------------------
    const fields = [];
    const genField = (prog, i) => {
      const library = sim.pick(["inquirer", "clack"], "library");
      const type = sim.pick(library === "inquirer" ? ["confirm", "number", "input", "password", "editor", "select", "rawlist", "expand", "checkbox"] : ["text", "password", "confirm", "number", "select", "multiselect"], "type");
      const key = `${prog}f${i}`;
      const f = { prog, key, library, type, message: `Question ${key}?`, given: sim.int(4, "given") === 3, validated: [], boom: sim.int(6, "odd") === 5 ? sim.pick([`ExitPromptError`, null, undefined, 7, { name: "AbortPromptError" }, Object.assign(new Error("ExitPromptError"), { name: "CancelPromptError" })], "boom") : new InjectedFault(`terminal of ${key}`) };
      f.act = sim.weighted([[8, "answer"], [3, "enter"], [1, "cancel"], [1, "reject"], [1, "throw-sync"], [1, "empty"]], "act");
      const word = /^(input|text|password|editor)$/.test(type), choice = /^(select|rawlist|expand)$/.test(type), many = /^(checkbox|multiselect)$/.test(type);
      f.answer = type === "confirm" ? sim.int(2, "yes") === 1 : type === "number" ? sim.pick([0, 1, -3, 42, 2.5], "num") : word ? sim.pick(["", "alpha", "two words", "-x", "--opt"], "word") : choice ? sim.pick(CHOICES, "choice") : CHOICES.filter(() => sim.int(2, "chk"));
      if (type === "number") {
        if (sim.int(2, "int")) f.answer = Math.trunc(f.answer);
        f.bounds = sim.int(2, "bounds") ? present({ min: sim.pick([undefined, -5, f.answer, f.answer === 0 ? 0 : -4], "min"), max: sim.pick([undefined, 50, f.answer], "max") }) : {};
        const out = [...(f.bounds.min !== undefined ? [f.bounds.min - 1] : []), ...(f.bounds.max !== undefined ? [f.bounds.max + 1] : [])];
        if (library === "clack") { f.raw = String(f.answer); if (sim.int(2, "mist")) f.typing = [sim.pick(["", "abc", "  ", ...out.map(String)], "typo")]; if (sim.int(4, "own") === 3) f.ownNumber = (n) => n === f.answer || n === f.initial || n % 2 === 0; }
        else if (out.length && sim.int(2, "mist")) f.typing = [sim.pick(out, "typo")];
      } else if (word && sim.int(3, "val") === 2) { f.validator = (v) => v !== "bad"; if (sim.int(2, "mist")) f.typing = ["bad"]; }
      f.required = library === "clack" && many && sim.int(2, "required") === 1;
      if (f.act === "empty") { if (type === "number") f.nothing = library === "inquirer" ? undefined : sim.pick(["", undefined, "abc", NaN, Infinity, null], "none"); else if (many) f.nothing = library === "clack" ? sim.pick([[], [], undefined, null], "none") : []; else f.act = "answer"; }
      f.prompter = sim.int(4, "prompter") === 3;
      const config = { type, message: f.message };
      if (choice || many) {
        f.labels = new Map();
        const entry = (c, i) => {
          const bare = type !== "expand" && sim.int(2, "objs") === 0;
          const label = bare || sim.int(4, "nolabel") === 3 ? c : `${c.toUpperCase()} ${i}`;
          f.labels.set(c, label);
          if (bare) return c;
          const named = label === c ? {} : library === "inquirer" ? { name: label } : { label };
          if (type === "expand") return { value: c, key: c[0], ...named };
          if (library === "clack") return present({ value: c, ...named, hint: sim.pick([undefined, undefined, "", "a hint"], "hint"), disabled: sim.pick([undefined, undefined, false], "enabled") });
          return present({ value: c, ...named, description: sim.pick([undefined, undefined, "text"], "desc"), short: sim.pick([undefined, undefined, "s"], "short"), disabled: sim.pick([undefined, undefined, false], "enabled"), checked: many ? sim.pick([undefined, true, false], "checked") : undefined });
        };
        const all = CHOICES.map(entry);
        if (sim.int(4, "off") === 3 && type !== "expand") all.splice(sim.int(all.length, "at"), 0, present({ value: "other", [library === "inquirer" ? "name" : "label"]: "OTHER", disabled: sim.pick([true, "not now"], "disabled") }));
        config[library === "inquirer" ? "choices" : "options"] = all;
      }
      if (f.bounds) Object.assign(config, f.bounds);
      // what the prompt starts with
      if (sim.int(2, "initial")) {
        const key = library === "inquirer" ? "default" : "initialValue";
        const v = type === "confirm" ? sim.int(2, "yes0") === 1 : type === "number" ? sim.pick([f.answer, f.bounds.min ?? 0, f.bounds.max ?? 0], "num0") : type === "password" || many ? undefined : word ? sim.pick(["", "start"], "word0") : sim.pick(CHOICES, "choice0");
        if (v !== undefined) { config[key] = v; f.initial = v; }
      }
      if (library === "inquirer" && type === "number" && sim.int(3, "step") === 2) config.step = sim.pick(["any", 0.5], "stepv");
      if (type === "password" && sim.int(2, "mask")) config.mask = library === "inquirer" ? sim.int(2, "maskv") === 1 : sim.pick(["*", ""], "maskc");
      if (library === "clack" && (type === "number" || word && type !== "password") && sim.int(3, "ph") === 2) config.placeholder = sim.pick(["", "hint"], "phv");
      if (f.ownNumber) config.validate = (n) => (f.ownNumber(n) ? undefined : "odd");
      if (f.act === "enter") {
        const checked = many && library === "inquirer";
        if (config.prompter || f.initial === undefined && !checked || type === "expand" || f.bounds && f.initial !== undefined && numberOk(String(f.initial), { ...f.bounds }) === null || typeof config.step === "number" && !limitsOk(f.initial, config)) f.act = "answer";
        else { f.answer = checked ? config.choices.filter((c) => c.checked).map((c) => c.value) : f.initial; if (type === "number" && library === "clack") f.raw = String(f.answer); }
      }
      if (typeof config.step === "number" && !limitsOk(f.answer, config)) delete config.step;
      if (f.validator) config.validate = library === "clack" ? (v) => (f.validator(v) ? undefined : "no") : async (v) => (await sim.op("validator", () => {}), f.validator(v) || "no");
      if (f.required) config.required = true;
      if (f.prompter) {
        if (f.act === "enter") f.act = "answer";
        f.labels = undefined;
        const ask = screen(library, "prompter");
        config.prompter = () => ask({ message: f.message });
        if (type === "number" && library === "clack" && sim.int(2, "rawnum")) f.raw = f.answer;
        f.typing = undefined;
      }
      f.config = config;
      const make = type === "confirm" ? P.flag(`--${key}`) : type === "number" ? P.option(`--${key}`, V.float ? V.float() : V.integer()) : word ? P.option(`--${key}`, V.string()) : choice ? P.option(`--${key}`, V.choice(CHOICES)) : M.multiple(P.option(`--${key}`, V.choice(CHOICES)));
      f.base = type === "confirm" ? M.withDefault(make, false) : make;
      // multiple() and withDefault() accept nothing on the command line: the prompt decides
      f.parser = lib[library].prompt(many || type === "confirm" ? make : make, config);
      f.cli = type === "confirm" ? { argv: [`--${key}`], value: true } : type === "number" ? { argv: [`--${key}`, "7"], value: 7 } : word ? { argv: [`--${key}=given`], value: "given" } : choice ? { argv: [`--${key}=red`], value: "red" } : { argv: [`--${key}=red`, `--${key}=blue`], value: ["red", "blue"] };
      // what the field amounts to
      if (f.given) f.want = { value: f.cli.value };
      else if (f.act === "cancel") f.want = { cancelled: true };
      else if (f.act === "reject" || f.act === "throw-sync") f.want = { throws: true };
      else if (f.act === "empty" && type === "number") f.want = { fails: "No number provided." };
      else if (f.act === "empty" && f.required) f.want = { fails: "No option selected." };
      else if (f.act === "empty") f.want = { value: many ? [] : f.nothing };
      else if (f.required && f.answer.length === 0) f.want = { fails: "No option selected." };
      else f.want = { value: f.answer };
      fields.push(f);
      return f;
    };
    const nprog = sim.int(4, "progs") === 3 ? 2 : 1;
    const progs = Array.from({ length: nprog }, (_, n) => {
      const p = { id: `p${n}`, out: [], err: [], exits: [], disposed: 0 };
      p.fields = Array.from({ length: sim.range(1, 4, "fields") }, (_, i) => genField(p.id, i));
      p.shape = sim.pick(["object", "tuple", "command", "merge"], "shape");
      const obj = (fs) => C.object(Object.fromEntries(fs.map((f) => [f.key, f.parser])));
      p.parser = p.shape === "tuple" ? C.tuple(p.fields.map((f) => f.parser)) : p.shape === "command" ? P.command("go", obj(p.fields)) : p.shape === "merge" ? C.merge(obj(p.fields.slice(0, 1)), obj(p.fields.slice(1))) : obj(p.fields);
      p.argv = [...(p.shape === "command" ? ["go"] : []), ...sim.shuffle(p.fields.filter((f) => f.given), "argv").flatMap((f) => f.cli.argv)];
      p.runner = sim.pick(["runAsync", "run", "runWith", "parseAsync"], "runner");
      const ctx = { id: Symbol(p.id), phase: "single-pass", getAnnotations: () => ({}), [Symbol.dispose]() { p.disposed++; } };
      p.contexts = p.runner !== "parseAsync" && sim.int(2, "ctx") === 1 ? [ctx] : null;
      p.start = () => {
        const o = { programName: "prog", args: p.argv, stdout: (t) => p.out.push(t), stderr: (t) => p.err.push(t), ...(p.contexts ? { contexts: p.contexts } : {}) };
        if (p.runner === "parseAsync") return lib["core-parser"].parseAsync(p.parser, p.argv);
        if (p.runner === "runWith") return lib["core-facade"].runWith(p.parser, "prog", p.contexts ?? [], { args: p.argv, stdout: o.stdout, stderr: o.stderr, onError: (c) => { p.exits.push(c); throw new ExitSignal(c); } });
        return lib.run[p.runner](p.parser, { ...o, onExit: (c) => { p.exits.push(c); throw new ExitSignal(c); } });
      };
      return p;
    });
    if (nprog > 1) sim.count("two-programs");
    const r = await sim.drive(() => Promise.all(progs.map((p) => sim.op(`start ${p.id}`, () => {}).then(() => p.start()).then((value) => { p.result = { ok: true, value }; p.openAtEnd = open.get(p.id); }, (error) => { p.result = { ok: false, error }; p.openAtEnd = open.get(p.id); }))), { what: "prompted programs" });
    await sim.quiesce();
    if (r.status !== "ok") throw r.error;
    let any = false;
    for (const p of progs) {
      const text = p.fields.map((f) => `${f.key}:${f.library}.${f.type}${f.prompter ? "(prompter)" : ""} ${f.given ? "given" : f.act} ${show(f.answer)}${f.required ? " required" : ""}`);
      const asked = shown.filter((s) => s.f.prog === p.id);
      const res = p.result;
      const bad = (k, m) => { throw new Violation(k, `${m}\n ${p.shape} of ${show(text)}\n argv ${show(p.argv)} by ${p.runner}${p.contexts ? " with a context" : ""}\n shown ${show(asked.map((s) => s.f.key))}\n outcome ${res.ok ? show(res.value) : describeError(res.error)} exits ${show(p.exits)} stderr ${show(p.err)}`); };
      if (p.openAtEnd) bad("left-open", `the program ended while ${p.openAtEnd} was on the screen`);
      if (p.contexts && p.disposed !== 1) bad("dispose", `the context was disposed ${p.disposed} times`);
      if (new Set(asked.map((s) => s.f.key)).size !== asked.length) bad("twice", "a prompt was shown twice");
      const order = p.fields.filter((f) => !f.given);
      const stop = order.findIndex((f) => f.want.cancelled || f.want.throws || f.want.fails);
      const due = stop < 0 ? order : order.slice(0, stop + 1);
      if (show(asked.map((s) => s.f.key)) !== show(due.map((f) => f.key))) bad("asked", `expected ${show(due.map((f) => f.key))} to be asked`);
      any ||= asked.length > 0;
      for (const s of asked) {
        if (s.f.prompter) continue;
        const c = s.config, f = s.f;
        const named = f.type === "number" && f.library === "clack" ? "text" : f.type;
        if (s.fn !== named) bad("kind", `${f.key} was shown as ${s.fn}`);
        const options = c.choices ?? c.options, given = f.config.choices ?? f.config.options;
        if (given) {
          const norm = (o) => typeof o === "string" ? { value: o, label: o } : present({ ...o, name: undefined, label: o.name ?? o.label ?? o.value });
          const sorted = (os) => os.map(norm).map((o) => Object.fromEntries(Object.entries(o).sort()));
          if (show(sorted(options)) !== show(sorted(given))) bad("choices", `${f.key} offers ${show(options)}\n configured ${show(given)}`);
        }
        const keys = named === "text" && f.type === "number" ? ["placeholder", "initialValue"] : CONVEYED[f.type];
        for (const k of keys) {
          const set = k === "initialValue" && f.type === "number" && f.config[k] !== undefined ? String(f.config[k]) : f.config[k];
          if (set !== undefined && show(c[k]) !== show(set)) bad("settings", `${f.key} is configured with ${k} ${show(set)} but shown with ${show(c[k])}`);
        }
        if (f.act === "enter") sim.count("enter");
        for (const [typed, ok] of f.validated) {
          if (f.validator && ok !== f.validator(typed)) bad("validator", `${f.key} treats ${show(typed)} as ${ok ? "valid" : "invalid"}`);
          if (f.type === "number" && f.library === "clack" && ok !== (numberOk(typed, f.bounds) !== null && (!f.ownNumber || f.ownNumber(Number(typed))))) bad("validator", `${f.key} treats ${show(typed)} as ${ok ? "valid" : "invalid"}`);
        }
      }
      sim.event(`${p.id} ${res.ok ? "ok" : "error"} ${show(p.exits)}`);
      const bySource = p.runner === "parseAsync";
      const failing = stop < 0 ? null : order[stop];
      if (failing?.want.throws) {
        sim.count("terminal-failed");
        if (res.ok || res.error !== failing.boom) bad("swallowed", `the terminal failure of ${failing.key} did not surface`);
        if (p.exits.length) bad("exit", "a terminal failure is not a usage error");
        continue;
      }
      if (failing) {
        const want = failing.want.cancelled ? "Prompt cancelled." : failing.want.fails;
        sim.count(failing.want.cancelled ? "cancelled" : "empty-answer");
        if (bySource) {
          if (!res.ok || res.value.success) bad("failure", `a failed parse with ${show(want)} was expected`);
          if (lib["core-message"].formatMessage(res.value.error) !== want) bad("message", `expected ${show(want)}`);
        } else {
          if (res.ok || !(res.error instanceof ExitSignal) || show(p.exits) !== "[1]") bad("failure", "exactly one exit with status 1 was expected");
          if (!p.err.join("\n").includes(want)) bad("message", `expected ${show(want)} on stderr`);
        }
        continue;
      }
      if (asked.length) sim.count("answered");
      const value = bySource ? (res.ok && res.value.success ? res.value.value : bad("failure", "the parse failed")) : res.ok ? res.value : bad("failure", "the run failed");
      const got = p.shape === "tuple" ? Object.fromEntries(p.fields.map((f, i) => [f.key, value[i]])) : value;
      for (const f of p.fields) if (show(got[f.key]) !== show(f.want.value)) bad("value", `${f.key} is ${show(got[f.key])}, the answer was ${show(f.want.value)}`);
    }
    sim.cover(progs.map((p) => `${p.runner}:${p.shape}:${p.fields.map((f) => `${f.library[0]}${f.type}${f.given ? "" : f.act[0]}`).join(",")}`).join("|"));
    return { nontrivial: any, sample: { programs: progs.map((p) => p.fields.map((f) => `${f.library}.${f.type} ${f.given ? "given" : f.act}`)) } };
  },
};
