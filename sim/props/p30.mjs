import { Violation, show, describeError, InjectedFault } from "../core.mjs";
import { installLoader } from "../discover.mjs";

const LEVELS = ["trace", "debug", "info", "warning", "error", "fatal"];
const VERBOSE = ["fatal", "error", "warning", "info", "debug", "trace"];
const FORMATS = { jsonl: "jsonLinesFormatter", logfmt: "logfmtFormatter", color: "ansiColorFormatter", plain: "defaultTextFormatter" };

export default {
  needs: ["core-constructs", "core-primitives", "core-modifiers", "core-parser", "core-message", "core-valueparser", "logtape", "logtape-lib"],
  rule: "1-3 overlapping programs that parse random logging options (level, verbosity or debug flags, output, formatter) next to an asynchronous application option, create their LogTape configuration and log records through it, with a running clock, a file package that is missing, broken or fails to open the file, a console and formatters that throw and stream resolvers that answer nonsense; the parsed options, the configuration and every written line are compared with a model; non-trivial when a record was logged",
  real: ["@optique/logtape options, sinks and createLoggingConfig()", "LogTape text formatters", "@optique/core parsing"],
  stubs: ["@logtape/file (recorded getFileSink)", "console", "clock", "asynchronous value parser"],
  assumptions: [],
  minimum: { logged: 4000, "file-sink": 800, "import-failed": 200, "open-failed": 100, "sink-threw": 300, refused: 500, overlapped: 2000 },
  quick: { count: 12000, ms: 60000 },
  async run(sim, lib) {
    installLoader(lib);
    const C = lib["core-constructs"], P = lib["core-primitives"], M = lib["core-modifiers"], K = lib["core-parser"], V = lib["core-valueparser"], L = lib.logtape, T = lib["logtape-lib"];
    const { formatMessage } = lib["core-message"];
    sim.now = sim.pick([0, 86400000 * 31, 1e12], "clock");
    const bad = (kind, text) => { throw new Violation(kind, `${text}${desc()}`); };
    // ---- the file package -----------------------------------------------------
    const state = sim.weighted([[5, "ok"], [1, "missing"], [1, "throws"], [1, "flaky"]], "package");
    const files = [];
    let openError = null;
    const opened = [];
    sim.logFile = {
      asked: 0,
      importError() {
        if (state === "ok" || state === "flaky" && this.asked % 2 === 0) return null;
        return state === "throws" ? new InjectedFault("import") : Object.assign(new Error("Cannot find package '@logtape/file'"), { code: "ERR_MODULE_NOT_FOUND" });
      },
      open(...args) {
        opened.push(args);
        if (args[0].includes("nodir")) throw openError = Object.assign(new Error(`ENOENT: ${args[0]}`), { code: "ENOENT" });
        const sink = () => {};
        files.push(sink);
        return sink;
      },
    };
    // ---- programs ---------------------------------------------------------------
    const n = sim.weighted([[3, 1], [2, 2], [1, 3]], "programs");
    const progs = [];
    const desc = () => `\n package ${state}\n programs: ${progs.map((p) => `${show(p.config)} ${show(p.argv)} console ${show(p.consoleText)}`).join("\n           ")}`;
    for (let i = 0; i < n; i++) {
      const p = { i };
      progs.push(p);
      const level = sim.pick(["option", "verbosity", "debug"], "level");
      const names = sim.int(4, "names") === 3;
      const fixed = (r, t) => `${t}:${r.level}:${r.message.join("")}`;
      p.formatter = sim.pick([undefined, undefined, "--log-format", "function"], "formatter");
      p.output = sim.pick([undefined, { enabled: false }, { enabled: true }, { long: "--dest" }], "output");
      const pick = (k) => (sim.int(2, k) ? sim.pick(LEVELS, k) : undefined);
      p.config = {
        level,
        ...(level === "option" ? { default: pick("default"), ...(names ? { long: "--lvl", short: "-L" } : {}) } : level === "verbosity" ? { baseLevel: pick("base"), ...(names ? { long: "--more", short: "-m" } : {}) } : { debugLevel: pick("debugLevel"), normalLevel: pick("normalLevel"), ...(names ? { long: "--dbg", short: "-D" } : {}) }),
        ...(p.output ? { output: p.output } : {}), ...(p.formatter ? { formatter: p.formatter === "function" ? (r) => fixed(r, "F") : p.formatter } : {}),
        ...(sim.int(3, "label") === 2 ? { groupLabel: "Logs" } : {}),
      };
      // the command line and what it means
      const want = { ok: true };
      const pieces = [];
      if (level === "option") {
        const [long, short] = names ? ["--lvl", "-L"] : ["--log-level", "-l"];
        want.level = p.config.default ?? "info";
        if (sim.int(3, "given")) {
          let v = sim.pick([...LEVELS, ...LEVELS, "loud", ""], "levelarg");
          if (LEVELS.includes(v)) want.level = v; else want.ok = false;
          v = [v, v.toUpperCase(), v.charAt(0).toUpperCase() + v.slice(1)][sim.int(3, "case")];
          pieces.push(sim.int(2, "eq") ? [`${long}=${v}`] : [sim.int(2, "short") ? short : long, v]);
        }
      } else if (level === "verbosity") {
        const [long, short] = names ? ["--more", "-m"] : ["--verbose", "-v"];
        const count = sim.int(6, "count");
        want.level = VERBOSE[Math.min(VERBOSE.length - 1, VERBOSE.indexOf(p.config.baseLevel ?? "warning") + count)];
        for (let left = count; left > 0;) { const k = 1 + sim.int(left, "bundle"); left -= k; k === 1 && sim.int(2, "longflag") ? pieces.push([long]) : pieces.push([`-${short[1].repeat(k)}`]); }
      } else {
        const [long, short] = names ? ["--dbg", "-D"] : ["--debug", "-d"];
        const on = sim.int(2, "on") === 1;
        want.level = on ? p.config.debugLevel ?? "debug" : p.config.normalLevel ?? "info";
        if (on) pieces.push([sim.int(2, "short") ? short : long]);
      }
      const enabled = p.output?.enabled !== false;
      const long = p.output?.long ?? "--log-output";
      want.out = { type: "console" };
      if (sim.int(3, "outgiven")) {
        const v = sim.pick(["-", "app.log", "/var/log/x y.log", "nodir/app.log", " ", "", "--odd"], "outarg");
        pieces.push([`${long}=${v}`]);
        if (!enabled || v.trim() === "") want.ok = false;
        else if (v !== "-") want.out = { type: "file", path: v };
      }
      if (p.formatter === "function") want.out.formatter = p.config.formatter;
      else if (p.formatter && sim.int(2, "fmtgiven")) {
        const v = sim.pick([...Object.keys(FORMATS), "xml"], "fmtarg");
        pieces.push([`--log-format=${v}`]);
        if (v === "xml") want.ok = false; else want.out.formatter = T[FORMATS[v]];
      }
      if (sim.int(2, "app")) pieces.push([`--app=a${i}`]);
      p.argv = sim.shuffle(pieces, "order").flat();
      p.want = want;
      // console options and additional configuration
      p.console = {};
      p.direct = sim.int(3, "direct") === 2;
      p.shortOut = p.direct && sim.int(2, "shortout") === 1;
      if (p.shortOut && p.output?.enabled !== false) p.argv = p.argv.flatMap((a) => a.startsWith(`${long}=`) && sim.int(2, "outform") ? ["-o", a.slice(long.length + 1)] : [a]);
      const c = sim.pick(["none", "none", "stderr", "stdout", "resolver", "nonsense", "badstream"], "stream");
      if (c === "badstream") p.console.stream = sim.pick(["stdlog", "", 1, null, { toString() { throw new InjectedFault("stream"); } }], "badstream");
      if (c === "stderr" || c === "stdout") p.console.stream = c;
      if (c === "resolver") p.console.streamResolver = (l) => (LEVELS.indexOf(l) >= 3 ? "stderr" : "stdout");
      if (c === "nonsense") p.console.streamResolver = (l) => (l === "info" ? "stdlog" : l === "error" ? undefined : "stdout");
      p.override = sim.weighted([[3, undefined], [1, "text"], [1, "array"], [1, "throws"], [1, "null"]], "override");
      if (p.override) p.console.formatter = (r) => { if (p.override === "throws") throw new InjectedFault("formatter"); return p.override === "array" ? [r.level, "%s", ...r.message] : p.override === "null" ? null : `${fixed(r, "O")}${sim.int(2, "crlf") ? "\r\n" : "\n"}`; };
      p.consoleText = `${c}${p.override ? `+${p.override}` : ""}`;
      p.extra = sim.pick([undefined, { reset: true }, { sinks: { other: () => {} }, loggers: [{ category: ["a"], sinks: ["other"] }] }, { filters: { f: () => true }, reset: false }, { sinks: { default: () => {} } }], "extra");
    }
    // ---- run them -------------------------------------------------------------
    const failAt = sim.int(4, "consolefault") === 3 ? sim.int(4, "consoleat") : -1;
    let writes = 0, failed = null;
    const lines = [];
    const saved = { log: console.log, error: console.error };
    const write = (stream) => (...args) => {
      if (writes++ === failAt) { sim.fault("console"); throw failed = Object.assign(new InjectedFault("console"), { code: "EPIPE" }); }
      lines.push([stream, args]);
    };
    let logged = 0, running = 0, overlapped = false;
    // the same options put together from their parts
    const parts = (p) => {
      const c = p.config;
      const level = c.level === "option" ? M.withDefault(P.option(c.short ?? "-l", c.long ?? "--log-level", L.logLevel()), c.default ?? "info")
        : c.level === "verbosity" ? L.verbosity({ short: c.short, long: c.long, baseLevel: c.baseLevel }) : L.debug({ short: c.short, long: c.long, debugLevel: c.debugLevel, normalLevel: c.normalLevel });
      if (c.output?.enabled === false) return L.loggingOptions(c);
      const out = L.logOutput({ ...(c.output?.long ? { long: c.output.long } : {}), ...(p.shortOut ? { short: "-o" } : {}), ...(c.formatter ? { formatter: c.formatter } : {}) });
      return C.object({ logLevel: level, logOutput: M.map(out, (o) => { p.undef = o === undefined; return o ?? { type: "console", ...(typeof c.formatter === "function" ? { formatter: c.formatter } : {}) }; }) });
    };
    const parserOf = (p) => C.object({
      logging: p.direct ? parts(p) : L.loggingOptions(p.config),
      app: M.optional(P.option("--app", { mode: "async", metavar: "A", placeholder: "", parse: (x) => sim.op(`app ${p.i}`, () => ({ success: true, value: x })), format: String })),
    });
    const program = async (p) => {
      if (p.i) await sim.op(`launch ${p.i}`);
      overlapped ||= running > 0;
      running++;
      try {
        const r = await K.parseAsync(parserOf(p), p.argv);
        if (r.success !== p.want.ok) bad("parse", `program ${p.i} ${r.success ? "accepted" : `refused (${formatMessage(r.error)})`} its command line`);
        if (!r.success) { sim.count("refused"); return; }
        if (!r.success) return;
        const { logLevel, logOutput } = r.value.logging;
        if (logLevel !== p.want.level) bad("level", `program ${p.i} logs at ${logLevel}, expected ${p.want.level}`);
        if (logOutput.type !== p.want.out.type || logOutput.path !== p.want.out.path || logOutput.formatter !== p.want.out.formatter) bad("output", `program ${p.i} has output ${show(logOutput)}, expected ${show(p.want.out)}`);
        await sim.maybeOp(`configure ${p.i}`, () => {});
        const before = { asked: sim.logFile.asked, opened: opened.length };
        let config, error, threw = false;
        try { config = await L.createLoggingConfig(r.value.logging, p.console, ...(p.extra ? [p.extra] : [])); } catch (e) { threw = true; error = e; }
        const isFile = p.want.out.type === "file";
        if (!isFile && n === 1 && sim.logFile.asked > before.asked) bad("import", "console output loaded the file package");
        const badStream = p.consoleText.startsWith("badstream") && p.console.stream !== null;
        if (threw) {
          if (!isFile && badStream && (error instanceof TypeError || error instanceof InjectedFault)) { sim.count("bad-stream"); return; }
          if (!isFile) bad("failed", `createLoggingConfig() failed for console output: ${describeError(error)}`);
          if (error?.code === "ENOENT" && error.message === `ENOENT: ${p.want.out.path}`) { sim.count("open-failed"); return; }
          if (state === "ok" || !(error instanceof Error) || !error.message.includes("@logtape/file") || !/Original error: /.test(error.message)) bad("failed", `createLoggingConfig() failed with ${describeError(error)}`);
          sim.count("import-failed");
          return;
        }
        if (!isFile && badStream) bad("stream", `the stream ${typeof p.console.stream === "object" ? "object" : show(p.console.stream)} was accepted`);
        if (isFile && p.want.out.path.includes("nodir")) bad("failed", "a file that cannot be opened was accepted");
        if (isFile && ["missing", "throws"].includes(state)) bad("failed", "a file sink without the file package");
        // the configuration
        const loggers = [{ category: [], lowestLevel: p.want.level, sinks: ["default"] }, ...(p.extra?.loggers ?? [])];
        if (show(config.loggers) !== show(loggers)) bad("config", `loggers ${show(config.loggers)}, expected ${show(loggers)}`);
        if (config.reset !== p.extra?.reset || config.filters !== p.extra?.filters) bad("config", `reset or filters of ${show(p.extra)} are missing in ${show(config)}`);
        for (const [k, s] of Object.entries(p.extra?.sinks ?? {})) if (config.sinks[k] !== s) bad("config", `sink ${k} was replaced`);
        if (p.extra?.sinks?.default) return;
        const sink = config.sinks.default;
        if (isFile) {
          sim.count("file-sink");
          if (!files.includes(sink)) bad("file", "the default sink is not the one of the file package");
          const call = opened.find((a) => a[0] === p.want.out.path && (a[1]?.formatter) === p.want.out.formatter);
          if (!call) bad("file", `getFileSink was called with ${show(opened)}, expected ${show(p.want.out)}`);
          return;
        }
        if (files.includes(sink)) bad("file", "console output went to a file");
        // records
        for (let k = sim.int(4, "records"); k >= 0; k--) {
          const level = sim.pick(LEVELS, "rlevel");
          const record = { category: sim.pick([[], ["app"], ["app", "db"]], "category"), level, message: sim.pick([["hello"], ["n=", 5, ""], ["", null, " x\n"], ["a", { toString: () => "obj" }, "%d"]], "message"), rawMessage: "raw", properties: {}, timestamp: sim.pick([undefined, NaN, 0, 1e12], "stamp") };
          await sim.maybeOp(`record ${p.i}`, () => {});
          logged++;
          const at = Date.now();
          const mark = lines.length, w = writes;
          let e, t = false;
          try { sink(record); } catch (x) { t = true; e = x; }
          const stream = p.console.streamResolver ? p.console.streamResolver(level) : p.console.stream ?? "stderr";
          const got = lines.slice(mark);
          if (t) sim.count("sink-threw");
          const say = `record ${show(record)} ${t ? `threw ${describeError(e)}` : `wrote ${show(got)}`}`;
          if (stream !== "stdout" && stream !== "stderr") { if (!t || !(e instanceof TypeError) || writes > w) bad("stream", `${say}; a TypeError was expected`); continue; }
          if (p.override === "throws") { if (!t || !(e instanceof InjectedFault) || e === failed || writes > w) bad("formatter", `${say}; the formatter's error was expected`); continue; }
          if (!p.override && p.want.out.formatter) {
            // LogTape's own formatters refuse records without a valid time
            let refuses = false;
            try { p.want.out.formatter(record); } catch { refuses = true; }
            if (refuses) { if (!t || writes > w) bad("formatter", `${say}; the formatter's error was expected`); continue; }
          }
          if (writes !== w + 1) bad("writes", `${say}; one write was expected`);
          if (w === failAt) { if (!t || e !== failed) bad("console", `${say}; the console's error was expected`); continue; }
          if (t) bad("threw", say);
          const args = p.override === "array" ? [level, "%s", ...record.message] : p.override === "null" ? [] : p.override === "text" ? [`O:${level}:${record.message.join("")}`]
            : p.want.out.formatter ? [String(p.want.out.formatter(record)).replace(/\r?\n$/, "")]
            : [`${new Date(Number.isNaN(record.timestamp) ? at : record.timestamp ?? at).toISOString()} [${level.toUpperCase().padEnd(7)}] ${record.category.join(".")}: ${record.message.map((x) => String(x)).join("").replace(/\n$/, "")}`];
          if (show(got) !== show([[stream, args]])) bad("line", `${say}; expected ${show([[stream, args]])}`);
        }
      } finally { running--; }
    };
    console.log = write("stdout");
    console.error = write("stderr");
    try {
      const all = await sim.drive(() => Promise.all(progs.map(program)), { what: `programs${desc()}` });
      if (all.status === "error") throw all.error;
      await sim.quiesce();
    } finally {
      Object.assign(console, saved);
    }
    if (logged) sim.count("logged");
    if (overlapped) sim.count("overlapped");
    sim.cover(progs.map((p) => `${p.config.level}:${p.formatter}:${show(p.output)}:${p.want.ok}:${p.want.out.type}:${p.consoleText}`).sort().join());
    return { nontrivial: logged > 0, sample: { programs: progs.map((p) => ({ argv: p.argv, config: show(p.config) })), lines } };
  },
};
