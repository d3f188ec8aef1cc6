// Deterministic simulator core.
//
// One Sim = one simulated execution.  Every decision (workload, schedule,
// latency, fault) is drawn from one choice stream: either a seeded PRNG or a
// recorded list (replay / minimisation).  By convention choice 0 is the
// simplest option (no fault, first pending operation, smallest workload), so
// that shrinking the list shrinks the scenario.

const realSetImmediate = setImmediate;
const realSetTimeout = setTimeout;
const realDate = Date;

export class Violation extends Error {
  /**
   * @param {string} kind  stable class of the violation (used when shrinking
   *                       and for known-finding signatures)
   */
  constructor(kind, message, details) {
    super(message);
    this.name = "Violation";
    this.kind = kind;
    this.details = details;
  }
}

/** A harness problem: never reported as a violation, makes the check fail. */
export class HarnessError extends Error {}

/** Error injected by the simulator. */
export class InjectedFault extends Error {
  constructor(label, props) {
    super(`injected fault: ${label}`);
    this.name = "InjectedFault";
    this.label = label;
    if (props) Object.assign(this, props);
  }
}

// xoshiro128** seeded through splitmix32.
export function makePrng(seed) {
  let s = seed >>> 0;
  const sm = () => {
    s = (s + 0x9e3779b9) >>> 0;
    let z = s;
    z = Math.imul(z ^ (z >>> 16), 0x85ebca6b);
    z = Math.imul(z ^ (z >>> 13), 0xc2b2ae35);
    return (z ^ (z >>> 16)) >>> 0;
  };
  // fold the high part of big seeds in
  let hi = Math.floor(seed / 4294967296) >>> 0;
  s = (s ^ Math.imul(hi + 1, 0x27d4eb2f)) >>> 0;
  let a = sm(), b = sm(), c = sm(), d = sm();
  return () => {
    const r = Math.imul(b, 5);
    const res = Math.imul((r << 7) | (r >>> 25), 9) >>> 0;
    const t = b << 9;
    c ^= a; d ^= b; b ^= c; a ^= d; c ^= t;
    d = (d << 11) | (d >>> 21);
    return res;
  };
}

function fnv(h, str) {
  for (let i = 0; i < str.length; i++) {
    h ^= str.charCodeAt(i);
    h = Math.imul(h, 0x01000193);
  }
  return h >>> 0;
}

export class Stats {
  constructor() {
    this.runs = 0;
    this.nontrivial = 0;
    this.steps = 0;
    this.simMs = 0;
    this.faults = new Map();
    this.counters = new Map();
    this.schedules = new Set(); // digests of event traces
    this.shapes = new Set(); // property-defined abstraction keys
  }
  add(map, k, n = 1) {
    map.set(k, (map.get(k) ?? 0) + n);
  }
  toJSON() {
    return {
      runs: this.runs, nontrivial: this.nontrivial, steps: this.steps, simMs: this.simMs,
      faults: Object.fromEntries(this.faults), counters: Object.fromEntries(this.counters),
      schedules: [...this.schedules], shapes: [...this.shapes],
    };
  }
}

export class Sim {
  constructor({ seed = 0, choices = null, verbose = false } = {}) {
    this.seed = seed;
    this.replay = choices;
    this.pos = 0;
    this.prng = makePrng(seed);
    this.recorded = [];
    this.labels = verbose ? [] : null;
    this.trace = [];
    this.digest = 0x811c9dc5;
    this.now = 0;
    this.pending = []; // {id,label,fire}
    this.timers = []; // {id,due,fn,seq}
    this.nextId = 1;
    this.steps = 0;
    this.faults = new Map();
    this.counters = new Map();
    this.shape = [];
    this.unhandled = [];
    this.external = 0; // real async work in flight (module loading)
    this.crashed = false;
  }

  // ---- choices -------------------------------------------------------
  int(n, label = "") {
    if (!(n >= 1)) throw new HarnessError(`int(${n}) ${label}`);
    let v;
    if (this.replay != null) {
      const r = this.pos < this.replay.length ? this.replay[this.pos] : 0;
      v = r < n ? r : r % n;
    } else {
      v = n === 1 ? 0 : Math.floor((this.prng() / 4294967296) * n);
    }
    this.pos++;
    this.recorded.push(v);
    if (this.labels) this.labels.push(`${label}/${n}=${v}`);
    return v;
  }
  /** true with probability num/den; encoded so that 0 means false. */
  bool(label = "", num = 1, den = 2) {
    return this.int(den, label) >= den - num;
  }
  pick(arr, label = "") {
    return arr[this.int(arr.length, label)];
  }
  /** weighted pick; first entry is the simplest. */
  weighted(entries, label = "") {
    let total = 0;
    for (const [w] of entries) total += w;
    let r = this.int(total, label);
    for (const [w, v] of entries) {
      if (r < w) return v;
      r -= w;
    }
    throw new HarnessError("weighted");
  }
  range(lo, hi, label = "") {
    return lo + this.int(hi - lo + 1, label);
  }
  shuffle(arr, label = "") {
    const a = [...arr];
    for (let i = 0; i < a.length - 1; i++) {
      const j = i + this.int(a.length - i, label);
      [a[i], a[j]] = [a[j], a[i]];
    }
    return a;
  }

  // ---- history -------------------------------------------------------
  event(text) {
    // scratch directories are unique per execution (the module loader caches
    // by URL); their names are not part of the history
    if (this.alias && text.includes(this.alias)) text = text.replaceAll(this.alias, "RUN");
    this.trace.push(`t=${this.now} ${text}`);
    this.digest = fnv(this.digest, text);
    this.digest = fnv(this.digest, "|");
  }
  fault(kind) {
    this.faults.set(kind, (this.faults.get(kind) ?? 0) + 1);
    this.event(`FAULT ${kind}`);
  }
  count(k, n = 1) {
    this.counters.set(k, (this.counters.get(k) ?? 0) + n);
  }
  cover(key) {
    this.shape.push(String(key));
  }

  // ---- asynchronous operations --------------------------------------
  /**
   * A simulated asynchronous operation: stays pending until the scheduler
   * picks it, then runs `thunk` (which may throw = the operation fails).
   */
  op(label, thunk = () => undefined) {
    const id = this.nextId++;
    return new Promise((resolve, reject) => {
      this.pending.push({
        id,
        label,
        fire: () => {
          try {
            resolve(thunk());
          } catch (e) {
            reject(e);
          }
        },
      });
    });
  }
  /** Sometimes asynchronous, sometimes immediate (already-settled promise). */
  maybeOp(label, thunk) {
    if (this.int(4, `sync:${label}`) === 0) {
      return new Promise((resolve) => resolve(thunk?.()));
    }
    return this.op(label, thunk);
  }

  setTimer(fn, ms) {
    const id = this.nextId++;
    this.timers.push({ id, due: this.now + Math.max(0, Number(ms) || 0), fn, seq: id });
    return id;
  }
  clearTimer(id) {
    const i = this.timers.findIndex((t) => t.id === id);
    if (i >= 0) this.timers.splice(i, 1);
  }

  /** Drain all microtasks (and process.nextTick callbacks). */
  async macrotick() {
    await new Promise((r) => realSetImmediate(r));
    while (this.external > 0) {
      await new Promise((r) => realSetTimeout(r, 0));
    }
  }

  /** One scheduler step; returns false when nothing can make progress. */
  step() {
    let soonest = null;
    for (const t of this.timers) {
      if (soonest == null || t.due < soonest.due || (t.due === soonest.due && t.seq < soonest.seq)) {
        soonest = t;
      }
    }
    const n = this.pending.length + (soonest ? 1 : 0);
    if (n === 0) return false;
    const k = n === 1 ? 0 : this.int(n, "sched");
    this.steps++;
    if (k < this.pending.length) {
      const p = this.pending.splice(k, 1)[0];
      this.now += [0, 1, 7, 40][this.steps & 3];
      this.event(`run ${p.label}`);
      p.fire();
    } else {
      this.clearTimer(soonest.id);
      this.now = Math.max(this.now, soonest.due);
      this.event(`timer`);
      soonest.fn();
    }
    return true;
  }

  /**
   * Runs `start()` to settlement under the scheduler.  Returns
   * {status:"ok",value} | {status:"error",error}.  Throws Violation("stall")
   * when the work can make no further progress although every simulated
   * operation has completed, and Violation("livelock") beyond maxSteps.
   */
  async drive(start, { maxSteps = 5000, what = "operation", onStep } = {}) {
    let out = null;
    let p;
    try {
      p = start();
    } catch (e) {
      return { status: "error", error: e, sync: true };
    }
    Promise.resolve(p).then(
      (value) => {
        out = { status: "ok", value };
      },
      (error) => {
        out = { status: "error", error };
      },
    );
    let n = 0;
    for (;;) {
      await this.macrotick();
      this.checkUnhandled();
      if (onStep) onStep();
      if (out) return out;
      if (!this.step()) {
        await this.macrotick();
        if (out) return out;
        throw new Violation("stall", `${what} did not settle although no simulated operation is pending`);
      }
      if (++n > maxSteps) throw new Violation("livelock", `${what} did not settle within ${maxSteps} scheduler steps`);
    }
  }

  /** Runs everything still pending; used after settlement. */
  async quiesce({ maxSteps = 2000 } = {}) {
    let n = 0;
    for (;;) {
      await this.macrotick();
      if (!this.step()) break;
      if (++n > maxSteps) throw new Violation("livelock", `work does not quiesce within ${maxSteps} scheduler steps`);
    }
    await this.macrotick();
    this.checkUnhandled();
  }

  /** Math.random() of the code under test: seeded, outside the choice stream. */
  random() {
    this.randPrng ??= makePrng(this.seed ^ 0x5bd1e995);
    return this.randPrng() / 4294967296;
  }

  checkUnhandled() {
    if (this.unhandled.length > 0) {
      const e = this.unhandled[0];
      this.unhandled = [];
      throw new Violation("unhandled-rejection", `unhandled promise rejection: ${describeError(e)}`);
    }
  }
}

export function describeError(e) {
  if (e instanceof Error) return `${e.name}: ${e.message}`;
  return String(e);
}

// The currently running simulation receives process-level events.
let current = null;
export function setCurrent(sim) {
  current = sim;
}
export function getCurrent() {
  return current;
}
let installed = false;
export function installGlobals() {
  if (installed) return;
  installed = true;
  process.on("unhandledRejection", (e) => {
    if (current) current.unhandled.push(e);
  });
  globalThis.setTimeout = function (fn, ms, ...args) {
    if (current) return current.setTimer(() => fn(...args), ms);
    return realSetTimeout(fn, ms, ...args);
  };
  const realClear = clearTimeout;
  globalThis.clearTimeout = function (id) {
    if (current && typeof id === "number") return current.clearTimer(id);
    return realClear(id);
  };
  class SimDate extends realDate {
    constructor(...args) {
      if (args.length === 0 && current) super(SimDate.now());
      else super(...args);
    }
    static now() {
      return current ? 1700000000000 + current.now : realDate.now();
    }
  }
  globalThis.Date = SimDate;
  const realRandom = Math.random;
  Math.random = () => (current ? current.random() : realRandom());
}

// ---- structural comparison ------------------------------------------------
/** Stable, order-insensitive-for-keys rendering used by every oracle. */
export function show(v, depth = 0, seen = new Set()) {
  if (v === undefined) return "undefined";
  if (v === null) return "null";
  if (typeof v === "string") return JSON.stringify(v);
  if (typeof v === "number" || typeof v === "boolean") return Object.is(v, -0) ? "-0" : String(v);
  if (typeof v === "bigint") return `${v}n`;
  if (typeof v === "symbol") return `Symbol(${v.description?.replace(/0\.\d+/, "#")})`;
  if (typeof v === "function") return `[function]`;
  if (depth > 12) return "…";
  if (seen.has(v)) return "[cycle]";
  seen.add(v);
  let out;
  if (Array.isArray(v)) {
    out = `[${Array.from({ length: v.length }, (_, i) => show(v[i], depth + 1, seen)).join(", ")}]`;
  } else if (v instanceof Error) {
    out = `${v.name}(${JSON.stringify(v.message)})`;
  } else if (v instanceof Map) {
    out = `Map{${[...v].map(([k, x]) => `${show(k, depth + 1, seen)}=>${show(x, depth + 1, seen)}`).join(", ")}}`;
  } else if (v instanceof Set) {
    out = `Set{${[...v].map((x) => show(x, depth + 1, seen)).join(", ")}}`;
  } else if (v instanceof realDate) {
    out = `Date(${+v})`;
  } else {
    const keys = Reflect.ownKeys(v).sort((a, b) => String(a.toString()).localeCompare(String(b.toString())));
    out = `{${keys.map((k) => `${typeof k === "symbol" ? show(k) : k}: ${show(v[k], depth + 1, seen)}`).join(", ")}}`;
  }
  seen.delete(v);
  return out;
}
