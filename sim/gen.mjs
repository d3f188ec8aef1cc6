// Random parser trees over the real combinators, built either as a purely
// synchronous parser or as its asynchronous twin (same tree, but value
// parsers answer through the scheduler).
import { InjectedFault } from "./core.mjs";

const WORDS = ["alpha", "beta", "gamma", "delta", "x1", "y2"];
export const CHOICES = ["red", "green", "blue"];

/** leaf value kinds */
function genValue(sim) {
  return sim.pick(["string", "integer", "choice", "string", "integer", "choice", "string", "integer", "choice", "file"], "vkind");
}

/**
 * Tree specification.  `st` carries unique-name counters and limits.
 */
export function genTree(sim, opts = {}) {
  const st = {
    n: 0, leaves: 0, maxLeaves: opts.maxLeaves ?? 8, deps: opts.deps ?? true, sources: [], commands: opts.commands ?? true,
    positional: opts.positional ?? true, lazy: opts.lazy ?? true, modifiers: opts.modifiers ?? true,
  };
  st.boost = st.deps && sim.int(5, "boostdeps") === 4;
  const t = genNode(sim, st, opts.depth ?? 3, "any");
  return { tree: t, st };
}

function name(st, p) {
  return `${p}${++st.n}`;
}

/** settings that only concern documentation, visibility and messages */
function extras(sim, node) {
  if (sim.int(5, "extras") !== 4) return node;
  node.x = { hidden: sim.weighted([[4, undefined], [1, true], [1, "usage"], [1, "doc"], [1, "help"], [1, false]], "hidden"), desc: sim.int(2, "desc") === 1, errs: sim.int(2, "errs") === 1 };
  return node;
}

function genLeaf(sim, st) {
  const leaf = genPlainLeaf(sim, st);
  return leaf.t === "constant" || leaf.t === "optional" ? leaf : extras(sim, leaf);
}

/** option names come in GNU, long single-dash, DOS and plus style */
const styled = (sim) => sim.weighted([[17, "--"], [1, "-"], [1, "/"], [1, "+"]], "style");
const shortName = (sim, st) => sim.int(4, "short") === 3 ? `-${String.fromCharCode(96 + ((st.n) % 26 || 1))}` : null;
/** what joins an option name and its value in one token (none: a token of its own only) */
const joint = (name) => name.startsWith("/") ? ":" : name.startsWith("+") ? null : "=";

function genPlainLeaf(sim, st) {
  st.leaves++;
  const kinds = [[12, "option"], [4, "flag"], [4, "bool"], [2, "constant"], [2, "negflag"], [1, "fail"]];
  if (st.positional) kinds.push([6, "argument"], [1, "pass"]);
  if (st.deps) {
    kinds.push([st.boost ? 14 : 4, "source"]);
    if (st.sources.length > 0) kinds.push([st.boost ? 30 : 8, "derived"]);
  }
  return plainLeaf(sim, st, sim.weighted(kinds, "leaf"), name(st, ""));
}

function plainLeaf(sim, st, k, id) {
  switch (k) {
    case "option": return { t: "option", id, name: `${styled(sim)}o${id}`, short: shortName(sim, st), vk: genValue(sim), hidden: false };
    case "flag": return { t: "flag", id, name: `${styled(sim)}f${id}`, short: shortName(sim, st) };
    case "bool": return { t: "bool", id, name: `${styled(sim)}b${id}`, short: shortName(sim, st) };
    case "constant": return { t: "constant", id, value: `const${id}` };
    case "negflag": return { t: "negflag", id, name: `--n${id}`, neg: `--no-n${id}` };
    case "argument": return { t: "argument", id, vk: genValue(sim) };
    case "pass": return { t: "pass", id, format: sim.pick([undefined, "equalsOnly", "nextToken", "greedy"], "passformat") };
    case "fail": return { t: "optional", c: { t: "fail", id } };
    case "source": {
      const s = { t: "source", id, name: `--s${id}`, dflt: sim.pick(CHOICES, "dflt") };
      st.sources.push(s);
      return s;
    }
    case "derived": {
      const many = st.sources.length > 1 && sim.int(3, "many") === 2;
      const srcs = many ? sim.shuffle(st.sources, "srcs").slice(0, 2) : [sim.pick(st.sources, "src")];
      return { t: "derived", id, name: `--d${id}`, srcs: srcs.map((s) => s.id), dflts: srcs.map(() => sim.pick(CHOICES, "ddflt")), asyncFactory: sim.int(2, "af") === 1 };
    }
  }
}

function wrapMod(sim, st, node) {
  if (!st.modifiers) return node;
  const m = sim.weighted([[8, null], [3, "optional"], [3, "withDefault"], [2, "multiple"], [1, "map"], [1, "nonEmpty"], [1, "group"]], "mod");
  switch (m) {
    case null: return node;
    case "optional": return { t: "optional", c: node };
    case "withDefault": return { t: "withDefault", c: node, value: `dflt${name(st, "")}`, lazy: st.lazy && sim.int(2, "lazy") === 1 };
    case "multiple": return { t: "multiple", c: node, min: sim.pick([0, 0, 1, 2], "min"), max: sim.pick([Infinity, 2, 1], "max") };
    case "map": return { t: "map", c: node };
    case "nonEmpty": return { t: "nonEmpty", c: { t: "optional", c: node } };
    case "group": return extras(sim, { t: "group", c: node });
  }
}

function genNode(sim, st, depth, want) {
  const n = genPlainNode(sim, st, depth, want);
  return ["object", "or", "longestMatch", "conditional", "tuple", "merge", "group"].includes(n.t) && !n.x ? extras(sim, n) : n;
}

function genPlainNode(sim, st, depth, want) {
  if (depth <= 0 || st.leaves >= st.maxLeaves) {
    if (want === "object") return { t: "object", c: [["k" + name(st, ""), wrapMod(sim, st, genLeaf(sim, st))]] };
    if (want === "tuple") return { t: "tuple", c: [wrapMod(sim, st, genLeaf(sim, st))] };
    return wrapMod(sim, st, genLeaf(sim, st));
  }
  const kinds = want === "object" ? [[5, "object"], [1, "merge"]] : want === "tuple" ? [[5, "tuple"], [1, "concat"]]
    : [[5, "object"], [2, "tuple"], [3, "leaf"], [2, "merge"], [1, "concat"], [2, "or"], [2, "longestMatch"], [1, "conditional"], [1, "seq"], ...(st.commands ? [[2, "commands"]] : []), [1, "group"]];
  const k = sim.weighted(kinds, "node");
  const sub = (w = "any") => genNode(sim, st, depth - 1, w);
  switch (k) {
    case "leaf": return wrapMod(sim, st, genLeaf(sim, st));
    case "object": {
      const n = sim.range(1, 4, "fields");
      const c = [];
      for (let i = 0; i < n; i++) {
        if (i > 0 && st.leaves >= st.maxLeaves) break;
        c.push(["k" + name(st, ""), i === 0 && depth < 2 ? wrapMod(sim, st, genLeaf(sim, st)) : sim.int(3, "sub") === 2 ? wrapMod(sim, st, sub()) : wrapMod(sim, st, genLeaf(sim, st))]);
      }
      return { t: "object", c };
    }
    case "tuple": case "seq": {
      const n = sim.range(1, 3, "items");
      const c = [];
      for (let i = 0; i < n; i++) c.push(sim.int(3, "sub") === 2 ? sub() : wrapMod(sim, st, genLeaf(sim, st)));
      return { t: k, c };
    }
    case "merge": return { t: "merge", c: [sub("object"), sub("object")] };
    case "concat": return { t: "concat", c: [sub("tuple"), sub("tuple")] };
    case "or": case "longestMatch": {
      // small alternatives: an empty command line may select one of them
      if (sim.int(5, "small") === 4) {
        return { t: k, c: Array.from({ length: sim.range(2, 3, "alternatives") }, () => {
          const lk = sim.weighted([[2, "constant"], ...(st.positional ? [[2, "argument"]] : []), [1, "flag"], [1, "option"], [1, "any"]], "smallleaf");
          const leaf = lk === "any" ? genLeaf(sim, st) : (st.leaves++, plainLeaf(sim, st, lk, name(st, "")));
          return sim.int(3, "inobject") ? { t: "object", c: [["k" + name(st, ""), wrapMod(sim, st, leaf)]] } : leaf;
        }) };
      }
      return { t: k, c: [sub("object"), sim.int(2, "w") ? sub() : sub("object")] };
    }
    case "conditional": {
      const id = name(st, "");
      return { t: "conditional", id, name: `--c${id}`, c: [sub("object"), sub("object")], dflt: sim.int(2, "cd") ? sub("object") : null };
    }
    case "commands": {
      const n = sim.range(1, 3, "cmds");
      const c = [];
      for (let i = 0; i < n; i++) { const nm = `cmd${name(st, "")}`; c.push(extras(sim, { t: "command", name: nm, aliases: sim.int(5, "aliases") === 4 ? [`${nm}x`, `a${nm}`].slice(0, sim.range(1, 2, "naliases")) : [], c: sub("object") })); }
      return n === 1 ? c[0] : { t: "or", c };
    }
    case "group": return { t: "group", c: sub() };
  }
}

export function treeText(n) {
  const x = n.x ? `!${Object.entries(n.x).filter(([, v]) => v !== undefined && v !== false).map(([k, v]) => v === true ? k : `${k}=${v}`).join("+")}` : "";
  return plainText(n) + x + (n.aliases?.length ? `@${n.aliases}` : "");
}

function plainText(n) {
  switch (n.t) {
    case "pass": return `passThrough(${n.format ?? ""})`;
    case "fail": return "fail()";
    case "option": return `option(${n.name}${n.short ?? ""},${n.vk})`;
    case "argument": return `argument(${n.vk})`;
    case "flag": case "bool": case "negflag": case "source": return `${n.t}(${n.name}${n.short ?? ""})`;
    case "derived": return `derived(${n.name}<-${n.srcs.join("+")}${n.asyncFactory ? ",async" : ""})`;
    case "constant": return `constant()`;
    case "object": return `object{${n.c.map(([k, c]) => `${k}:${treeText(c)}`).join(", ")}}`;
    case "conditional": return `conditional(${n.name}: ${n.c.map(treeText).join(" | ")}${n.dflt ? ` default ${treeText(n.dflt)}` : ""})`;
    case "command": return `command(${n.name}, ${treeText(n.c)})`;
    case "multiple": return `multiple(${treeText(n.c)},${n.min}..${n.max})`;
    case "withDefault": return `withDefault(${treeText(n.c)}${n.lazy ? ",lazy" : ""})`;
    default: return Array.isArray(n.c) ? `${n.t}(${n.c.map(treeText).join(", ")})` : `${n.t}(${treeText(n.c)})`;
  }
}

export function walk(n, f) {
  f(n);
  if (n.t === "object") for (const [, c] of n.c) walk(c, f);
  else if (Array.isArray(n.c)) for (const c of n.c) walk(c, f);
  else if (n.c) walk(n.c, f);
  if (n.dflt && typeof n.dflt === "object") walk(n.dflt, f);
}

/**
 * Builds the real parser for a tree.
 *  mode "sync": no asynchrony at all.
 *  mode "async": every value parser answers through `sim`; `isAsync(node)`
 *  decides which leaves are asynchronous.
 */
export function buildTree(tree, lib, env) {
  const C = lib["core-constructs"], M = lib["core-modifiers"], P = lib["core-primitives"], V = lib["core-valueparser"], D = lib["core-dependency"];
  const { sim, mode } = env;
  env.calls ??= [];
  const sources = new Map();
  const base = (vk) => vk === "file" ? filish(V, lib["core-message"].message) : vk === "string" ? V.string() : vk === "integer" ? V.integer({ min: 0, max: 100 }) : V.choice(CHOICES);
  const asyncify = (vp, label) => asyncValueParser(sim, vp, label, env);
  const vp = (node, v) => mode === "async" && (env.isAsync?.(node) ?? true) ? asyncify(v, node.name ?? `arg${node.id}`) : v;
  const ensure = (node) => {
    if (!sources.has(node.id)) {
      const v = V.choice(CHOICES);
      sources.set(node.id, D.dependency(vp(node, v)));
    }
    return sources.get(node.id);
  };
  // sources first: derived leaves may be built earlier in tree order
  walk(tree, (n) => { if (n.t === "source") ensure(n); });

  // functions receive what the default messages are made of
  const { message, formatMessage } = lib["core-message"];
  const say = (tag) => (...xs) => message`${tag} ${xs.map((x) => Array.isArray(x) && x.length && typeof x[0] === "object" && "type" in x[0] ? formatMessage(x) : JSON.stringify(x) ?? "none").join(" / ")}`;
  const errors = (n, ...keys) => Object.fromEntries(keys.map((k) => [k, say(`${n.name ?? n.id ?? n.t}.${k}`)]));
  const opts = (n, ...keys) => n.x ? [{
    ...(n.x.hidden !== undefined ? { hidden: n.x.hidden } : {}), ...(n.x.desc ? { description: message`About ${n.name ?? n.t}.` } : {}),
    ...(n.x.errs ? { errors: { ...errors(n, ...keys), ...(keys.includes("missing") ? { endOfInput: message`${n.name} at the end`, optionsTerminated: message`${n.name} too late` } : {}) } } : {}),
  }] : [];
  const optionKeys = ["missing", "duplicate", "noMatch"];
  const b = (n) => env.wrap ? env.wrap(n, plain(n)) : plain(n);
  const plain = (n) => {
    switch (n.t) {
      case "option": return P.option(...[n.name, ...(n.short ? [n.short] : [])], vp(n, base(n.vk)), ...opts(n, ...optionKeys, "invalidValue"));
      case "argument": return P.argument(vp(n, base(n.vk)), ...opts(n, "invalidValue", "multiple"));
      case "pass": return P.passThrough({ ...(n.format ? { format: n.format } : {}), ...opts(n)[0] });
      case "fail": return P.fail();
      case "flag": return P.flag(n.name, ...(n.short ? [n.short] : []), ...opts(n, ...optionKeys));
      case "bool": return P.option(n.name, ...(n.short ? [n.short] : []), ...opts(n, ...optionKeys, "unexpectedValue"));
      case "constant": return P.constant(n.value);
      case "negflag": return P.negatableFlag({ positive: n.name, negative: n.neg }, ...opts(n, ...optionKeys));
      case "source": return P.option(n.name, ensure(n), ...opts(n, ...optionKeys, "invalidValue"));
      case "derived": {
        const isA = mode === "async" && n.asyncFactory && (env.isAsync?.(n) ?? true);
        const inner = (vals) => {
          env.calls.push(`factory ${n.name} ${vals.join(",")}`);
          const v = V.choice([...vals.map((x) => `${x}-a`), "common"]);
          return isA ? asyncify(v, n.name) : v;
        };
        const srcs = n.srcs.map((id) => sources.get(id));
        let d;
        if (srcs.length === 1) {
          d = isA
            ? srcs[0].deriveAsync({ metavar: "D", factory: (v) => inner([v]), defaultValue: () => n.dflts[0] })
            : srcs[0].deriveSync({ metavar: "D", factory: (v) => inner([v]), defaultValue: () => n.dflts[0] });
        } else {
          const o = { metavar: "D", dependencies: srcs, factory: (...vs) => inner(vs), defaultValues: () => n.dflts };
          d = isA ? D.deriveFromAsync(o) : D.deriveFromSync(o);
        }
        return P.option(n.name, d, ...opts(n, ...optionKeys, "invalidValue"));
      }
      case "optional": return M.optional(b(n.c));
      case "withDefault": return M.withDefault(b(n.c), n.lazy ? () => { env.calls.push(`default ${n.value}`); return n.value; } : n.value);
      case "multiple": return M.multiple(b(n.c), { min: n.min, max: n.max });
      case "map": return M.map(b(n.c), (v) => ({ mapped: v }));
      case "nonEmpty": return M.nonEmpty(b(n.c));
      case "group": return C.group("Group", b(n.c), ...(n.x?.hidden !== undefined ? [{ hidden: n.x.hidden }] : []));
      case "object": {
        const fields = Object.fromEntries(n.c.map(([k, c]) => [k, b(c)]));
        const o = n.x ? { ...(n.x.hidden !== undefined ? { hidden: n.x.hidden } : {}), ...(n.x.errs ? { errors: errors(n, "unexpectedInput", "endOfInput", "suggestions") } : {}) } : null;
        return n.x?.desc ? C.object("Fields", fields, o) : o ? C.object(fields, o) : C.object(fields);
      }
      case "tuple": return n.x?.desc ? C.tuple("Items", n.c.map(b)) : C.tuple(n.c.map(b));
      case "seq": return C.seq(...n.c.map(b));
      case "merge": {
        const o = n.x?.hidden !== undefined ? [{ hidden: n.x.hidden }] : [];
        return n.x?.desc ? C.merge("Merged", ...n.c.map(b), ...o) : C.merge(...n.c.map(b), ...o);
      }
      case "concat": return C.concat(...n.c.map(b));
      case "or": return n.c.length === 1 ? b(n.c[0]) : C.or(...n.c.map(b), ...(n.x?.errs ? [{ errors: errors(n, "noMatch", "unexpectedInput", "suggestions") }] : []));
      case "longestMatch": return C.longestMatch(...n.c.map(b), ...(n.x?.errs ? [{ errors: errors(n, "noMatch", "unexpectedInput", "suggestions") }] : []));
      case "command": {
        const [o = {}] = opts(n, "notMatched");
        return P.command(n.name, b(n.c), ...(n.x || n.aliases?.length ? [{ ...o, ...(n.x?.desc ? { brief: message`Brief ${n.name}.`, footer: message`End of ${n.name}.` } : {}), ...(n.aliases?.length ? { aliases: n.aliases } : {}) }] : []));
      }
      case "conditional": {
        const disc = P.option(n.name, env.asyncDiscriminator ? vp(n, V.choice(["red", "green"])) : V.choice(["red", "green"]));
        const br = { red: b(n.c[0]), green: b(n.c[1]) };
        const errs = n.x?.errs ? { errors: errors(n, "branchError", "noMatch", "branchMismatch") } : null;
        return errs ? C.conditional(disc, br, n.dflt ? b(n.dflt) : undefined, errs) : n.dflt ? C.conditional(disc, br, b(n.dflt)) : C.conditional(disc, br);
      }
    }
    throw new Error(`unknown node ${n.t}`);
  };
  return b(tree);
}

/** a string whose completions are files and described words */
function filish(V, message) {
  return {
    ...V.string({ metavar: "FILE" }),
    *suggest(prefix) {
      yield { kind: "file", type: "any", ...(prefix ? { pattern: prefix } : {}), includeHidden: prefix.startsWith("."), description: message`A file.` };
      if ("green".startsWith(prefix)) yield { kind: "literal", text: "green", description: message`A word.` };
    },
  };
}

export function asyncValueParser(sim, vp, label, env = {}) {
  return {
    ...vp,
    mode: "async",
    parse(input) {
      env.started = (env.started ?? 0) + 1;
      const fault = env.faultFor?.(label, input);
      const done = () => {
        env.settled = (env.settled ?? 0) + 1;
        if (fault) {
          sim.fault(`valueparser:${fault.kind}`);
          if (fault.kind === "fail") return { success: false, error: fault.error };
          throw fault.error;
        }
        return vp.parse(input);
      };
      if (fault?.kind === "sync-throw") {
        sim.fault("valueparser:sync-throw");
        env.settled = (env.settled ?? 0) + 1;
        throw fault.error;
      }
      return env.alwaysAsync ? sim.op(`parse ${label}=${input}`, done) : sim.maybeOp(`parse ${label}=${input}`, done);
    },
    ...(vp.suggest ? {
      async *suggest(prefix) {
        for (const s of vp.suggest(prefix)) {
          await sim.maybeOp(`suggest ${label}`);
          yield s;
        }
      },
    } : {}),
  };
}

// ---- argv -------------------------------------------------------------
function goodValue(sim, vk) {
  if (vk === "integer") return String(sim.int(12, "iv"));
  if (vk === "choice") return sim.pick(CHOICES, "cv");
  return sim.pick(WORDS, "sv");
}
function badValue(sim, vk) {
  if (vk === "integer") return sim.pick(["abc", "500", "-3", "1.5"], "bad");
  if (vk === "choice") return sim.pick(["purple", "", "Red"], "bad");
  return sim.pick(["", "--weird", "ünï"], "bad");
}
function value(sim, vk) {
  return sim.int(8, "good?") === 7 ? badValue(sim, vk) : goodValue(sim, vk);
}
function optTokens(sim, name, v) {
  return sim.int(4, "eq") === 3 && joint(name) ? [`${name}${joint(name)}${v}`] : [name, v];
}

/** Tokens that would plausibly satisfy the node; groups = list of token lists. */
function argvFor(sim, n, out) {
  const omit = (num, den) => sim.int(den, "omit") >= den - num;
  switch (n.t) {
    case "option": if (!omit(1, 6)) out.push(optTokens(sim, n.short && sim.int(2, "useshort") ? n.short : n.name, value(sim, n.vk))); return;
    case "argument": if (!omit(1, 6)) out.push([value(sim, n.vk)]); return;
    case "flag": case "bool": if (!omit(1, 4)) out.push([n.short && sim.int(2, "useshort") ? n.short : n.name]); return;
    case "negflag": if (!omit(1, 4)) out.push([sim.int(2, "neg") ? n.neg : n.name]); return;
    case "constant": case "fail": return;
    case "pass": if (!omit(1, 2)) out.push(sim.pick([["--pass=1"], ["--pass", "v"], ["-p"], ["rest"], ["--pass=1", "--pass=2"]], "pass")); return;
    case "source": if (!omit(1, 4)) out.push(optTokens(sim, n.name, value(sim, "choice"))); return;
    case "derived": if (!omit(1, 4)) out.push(optTokens(sim, n.name, sim.pick(["common", ...CHOICES.map((c) => `${c}-a`), "nope"], "dv"))); return;
    case "optional": case "withDefault": if (!omit(1, 3)) argvFor(sim, n.c, out); return;
    case "multiple": {
      const k = sim.range(0, 3, "reps");
      for (let i = 0; i < k; i++) argvFor(sim, n.c, out);
      return;
    }
    case "map": case "nonEmpty": case "group": argvFor(sim, n.c, out); return;
    case "object": for (const [, c] of n.c) argvFor(sim, c, out); return;
    case "tuple": case "seq": case "merge": case "concat": for (const c of n.c) argvFor(sim, c, out); return;
    case "or": case "longestMatch": argvFor(sim, sim.pick(n.c, "branch"), out); return;
    case "command": {
      const inner = [];
      argvFor(sim, n.c, inner);
      out.push([n.aliases?.length && sim.int(2, "alias") ? sim.pick(n.aliases, "alias") : n.name]);
      for (const g of inner) out.push(g);
      return;
    }
    case "conditional": {
      const k = sim.int(n.dflt ? 3 : 2, "cbranch");
      if (k < 2) {
        out.push(optTokens(sim, n.name, ["red", "green"][k]));
        argvFor(sim, n.c[k], out);
      } else argvFor(sim, n.dflt, out);
      return;
    }
  }
}

const hasCommand = (tree) => { let c = false; walk(tree, (n) => { if (n.t === "command") c = true; }); return c; };

export function genArgv(sim, tree, { noise = true } = {}) {
  const groups = [];
  argvFor(sim, tree, groups);
  let gs = groups;
  if (sim.int(3, "shuffle") === 2 && !hasCommand(tree)) gs = sim.shuffle(groups, "order");
  let argv = gs.flat();
  // adjacent short options may be written as one token
  for (let i = 0; i + 1 < argv.length; i++) if (/^-[a-z]+$/.test(argv[i]) && /^-[a-z]$/.test(argv[i + 1]) && argv[i].length < 5 && sim.int(2, "bundle")) argv.splice(i--, 2, argv[i + 1] + argv[i + 2].slice(1));
  if (noise && sim.int(4, "noise") === 3) {
    const names = [];
    walk(tree, (n) => { if (n.name) names.push(n.name); });
    const k = sim.range(1, 2, "mut");
    for (let i = 0; i < k; i++) {
      switch (sim.int(5, "mutkind")) {
        case 0: if (argv.length) argv.splice(sim.int(argv.length, "at"), 1); break;
        case 1: argv.splice(sim.int(argv.length + 1, "at"), 0, sim.pick(["--unknown", "extra", "--", "-z", "--help", ""], "tok")); break;
        case 2: if (argv.length) { const i2 = sim.int(argv.length, "at"); argv.splice(i2, 0, argv[i2]); } break;
        case 3: if (names.length) argv.push(sim.pick(names, "nm")); break;
        case 4: if (argv.length > 1) { const i3 = sim.int(argv.length - 1, "at"); [argv[i3], argv[i3 + 1]] = [argv[i3 + 1], argv[i3]]; } break;
      }
    }
  }
  return argv;
}

export function resultText(r, lib, show) {
  if (r.status === "error") return `throws ${show(r.error)}`;
  const v = r.value;
  if (v.success) return `ok ${show(v.value)}`;
  return `fail ${lib["core-message"].formatMessage(v.error)}`;
}

/**
 * True when some exclusive/conditional node with an asynchronous leaf below
 * it gets no token of its own from `argv`.  Such nodes are completed by the
 * "zero input" fallback, which deliberately skips asynchronous candidates
 * while probing (they could prompt), so their synchronous twin is not an
 * oracle for them.
 */
export function zeroInputAlternatives(tree, argv, isAsync = () => true) {
  const has = (name) => argv.some((a) => a === name || a.startsWith(`${name}=`) || a.startsWith(`${name}:`) || /^-[a-z]$/.test(name) && /^-[a-z]+$/.test(a) && a.includes(name[1]));
  let hit = false;
  walk(tree, (n) => {
    if (n.t !== "or" && n.t !== "longestMatch" && n.t !== "conditional") return;
    let touched = false, anyAsync = false;
    walk(n, (m) => {
      if (m !== n || n.t === "conditional") {
        for (const nm of [m.name, m.short, m.neg, ...(m.aliases ?? [])]) if (nm && has(nm)) touched = true;
      }
      if (["option", "argument", "source", "derived"].includes(m.t) && isAsync(m)) anyAsync = true;
    });
    if (!touched && anyAsync) hit = true;
  });
  return hit;
}

export function tryBuild(f) {
  try {
    return { value: f() };
  } catch (e) {
    return { error: e };
  }
}
