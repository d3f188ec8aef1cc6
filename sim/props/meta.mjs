// Property metadata: the single source of properties.jsonl and of the checks
// in MANIFEST.json (node sim/manifest.mjs regenerates both).
const C = "packages/core/src/";
const CORE = [`${C}constructs.ts`, `${C}modifiers.ts`, `${C}primitives.ts`, `${C}parser.ts`];
const NOTE = "Seeded search over simulated executions of the real code: no violation in the explored runs, not a proof. ";

export const META = {
  P01: {
    title: "Async parsing gives the synchronous answer under every completion schedule",
    statement: "For any parser whose value parsers are (all or partly) asynchronous and any command line, the asynchronous parse settles with the same outcome, value and error as the same parser built from the synchronous twins of those value parsers, whatever the order and latency in which the asynchronous operations complete. Two runs of the same parse under different schedules give the same result, and annotations from source contexts that no parser of the tree reads change neither the outcome nor the value. (Alternatives that receive no token, and conditional() with an asynchronous discriminator, are only required to be schedule independent.)",
    over: ["inputs", "programs", "schedules"],
    text: "all parser trees x command lines x completion orders of asynchronous value parsers",
    why: "Unit tests run hand-picked parsers with promises that resolve in creation order; the sync and async code paths are separate implementations, and neither arbitrary trees nor arbitrary completion orders are sampled.",
    files: [...CORE, `${C}dependency-runtime.ts`, `${C}mode-dispatch.ts`],
    mechanism: [{ name: "paired sync/async implementations", where: `${C}constructs.ts` }, { name: "mode dispatch", where: `${C}mode-dispatch.ts` }],
    observe: ["parseSync / parseAsync results"],
  },
  P02: {
    title: "Async suggestions and help equal the synchronous ones under every schedule",
    statement: "For any parser and any partial command line, the suggestions returned by the asynchronous request are the same list, in the same order, as those of the synchronous twin, whatever the order in which asynchronous value parsers and suggesters complete, and annotations that no parser of the tree reads do not change it. The same holds for the documentation page of the command line.",
    over: ["inputs", "programs", "schedules"],
    text: "all parser trees x partial command lines x completion orders",
    why: "Suggestion tests use fixed parsers and immediately resolved promises; interleavings of several asynchronous suggesters and dependency-derived suggestions are not explored.",
    files: [...CORE, `${C}suggestion.ts`, `${C}dependency-runtime.ts`],
    mechanism: [{ name: "suggest / suggestAsync", where: `${C}parser.ts` }, { name: "combinator suggest implementations", where: `${C}constructs.ts` }],
    observe: ["suggestSync / suggestAsync results"],
  },
  P03: {
    title: "A rejecting async value parser rejects the parse and nothing outlives it",
    statement: "If an asynchronous value parser (not one derived from a dependency) throws or rejects while a command line is parsed, the parse rejects with exactly that error instead of reporting a value or another failure, also when source contexts annotate the parse. When the parse has settled, no asynchronous value parser it started is still running, and no rejection is left unhandled.",
    over: ["inputs", "programs", "schedules", "fault_sequences"],
    text: "all parser trees x command lines x schedules x the calls at which value parsers fail",
    why: "Existing tests make one parser reject in one position; they cannot place the failure at every call of every combinator nor see work left behind after settlement.",
    files: [...CORE, `${C}dependency-runtime.ts`],
    mechanism: [{ name: "sequential completion of async children", where: `${C}constructs.ts` }],
    observe: ["parseAsync settlement", "value parser calls in flight", "unhandledRejection"],
  },
  P04: {
    title: "Overlapping requests on one parser do not influence each other",
    statement: "Parse, suggest and documentation requests that run concurrently on one shared parser object each give exactly the answer they give when they run alone on a fresh parser, for every interleaving of their asynchronous steps. A value parser that fails in one request affects no other request.",
    over: ["inputs", "programs", "schedules", "fault_sequences"],
    text: "all parser trees x sets of 2-4 requests x interleavings x one failing value parser",
    why: "Tests await each parse before starting the next, so state shared through the parser object between overlapping requests is never exercised.",
    files: [...CORE, `${C}dependency.ts`, `${C}dependency-runtime.ts`],
    mechanism: [{ name: "per-request state threaded through parser contexts", where: `${C}parser.ts` }],
    observe: ["results of each request"],
  },
  P05: {
    title: "Derived options are validated against the dependency values that are reported",
    statement: "When a parse succeeds, every option derived from dependency sources was validated by the parser its factory builds from exactly the source values reported in the same result (command line value, environment, configuration, derived-default value or withDefault() value; for multiple() the last one, for map() the unmapped one), and from the declared default only for a source that has no value. When it fails although all values agree, or succeeds although one does not, that is a violation. The order of fields and of arguments, the completion order of asynchronous sources and factories, and nesting in object, merge, tuple, command, group do not change the outcome (a source nested in a sibling combinator must precede the options derived from it).",
    over: ["inputs", "programs", "schedules", "configurations"],
    text: "all sets of one or two sources and up to three derived options x wrappers x shapes x declaration orders x argument orders x source layers x completion orders",
    why: "Tests fix one declaration order, one argument order and one source layer per case; a stale or raced dependency value only appears in particular combinations.",
    files: [`${C}dependency.ts`, `${C}dependency-runtime.ts`, `${C}dependency-metadata.ts`, `${C}constructs.ts`, `${C}modifiers.ts`],
    mechanism: [{ name: "dependency runtime and deferred parse states", where: `${C}dependency-runtime.ts` }, { name: "phase-1 pre-completion in combinators", where: `${C}constructs.ts` }],
    observe: ["parseAsync result", "runWith result"],
  },
  P07: {
    title: "Source contexts are consulted once per phase, in order, with nothing lost",
    statement: "In runWith/runWithAsync/runWithSync, contexts with duplicate ids or an invalid phase are rejected with a TypeError before any is used. Otherwise every context is asked for annotations exactly once in phase 1, one after the other in the given order, before parsing starts; when there is a two-pass context, exactly those are asked once more, in order, with the value of the first parse, and their phase-2 annotations replace their own phase-1 annotations in the final parse. For a key that several contexts supply the earliest context wins. Every request carries the caller's contextOptions. This holds for any mix of synchronous and asynchronous contexts and any delays, and no context is asked after one has failed.",
    over: ["configurations", "programs", "schedules", "fault_sequences"],
    text: "all lists of 1-4 contexts (phase, sync/async, overlapping keys, internal annotations) x parsers x argv x delays x faults",
    why: "Tests use one or two contexts with immediate answers; overlapping keys across phases, several two-pass contexts, delays and faults between calls are combinations they do not sample.",
    files: [`${C}facade.ts`, `${C}context.ts`, `${C}annotations.ts`],
    mechanism: [{ name: "two-phase context collection", where: `${C}facade.ts` }],
    observe: ["calls received by contexts", "annotations seen by the final parse", "runWith result"],
  },
  P08: {
    title: "Every context is disposed exactly once, in order, after all other work",
    statement: "Once runWith/runWithAsync/runWithSync has accepted a list of contexts, each disposable context is disposed exactly once before the run settles, in the given order and never two at a time, by asyncDispose if the runner is asynchronous and the context has it and by dispose otherwise; no context is consulted, no value is parsed and no help, version, completion or error callback runs once disposal has begun, and nothing the run started is still in flight when it settles. This holds whether the run succeeds, reports a parse error, answers a help request or fails at any point, including in another context's disposal.",
    over: ["configurations", "schedules", "fault_sequences", "crash_points"],
    text: "all lists of contexts with every kind of disposal x outcomes x schedules x faults at any call",
    why: "Tests make one context fail at one place; they do not place failures at every call nor observe overlap with delayed asynchronous disposal.",
    files: [`${C}facade.ts`],
    mechanism: [{ name: "disposeContexts / disposeContextsSync in finally blocks", where: `${C}facade.ts` }],
    observe: ["disposal calls", "calls after disposal", "settlement"],
  },
  P09: {
    title: "No failure of a run is lost or replaced by another",
    statement: "A run with source contexts fails exactly when something failed: if a context, value parser, parser or callback threw, the run rejects with that very error; if only disposal failed, with that error, or with an AggregateError of all of them in disposal order when several did; if both happened, with a SuppressedError holding the disposal failure and the primary error. When nothing threw, the run gives the parse result, the onError result or the meta handler's result and does not reject.",
    over: ["configurations", "schedules", "fault_sequences"],
    text: "all scenarios of context runners x up to three faults at any call, thrown or rejected, early or late",
    why: "Tests pair at most one primary error with one disposal error; combinations of several failing calls across asynchronous steps are not sampled.",
    files: [`${C}facade.ts`],
    mechanism: [{ name: "SuppressedError / AggregateError construction", where: `${C}facade.ts` }],
    observe: ["rejection value of runWith", "runWith result"],
  },
  P10: {
    title: "Help, version and completion work whatever is broken behind the settings",
    statement: "A request that the parser without contexts answers with help, version, a completion script or completions is answered by run/runAsync/runSync with contexts in the same way: same text on stdout, nothing on stderr, exactly one exit with status 0. Neither the configuration file, getConfigPath(), the schema, a derived-default resolver nor a prompt is touched, so a missing, unreadable, torn or invalid configuration, or a resolver or prompt that fails or never answers, cannot prevent it.",
    over: ["inputs", "configurations", "fault_sequences"],
    text: "all layered parsers x argument lists with a meta request at any position x broken configuration files, schemas, resolvers, prompts",
    why: "Tests combine one meta option with one context; they do not place the request among other arguments while each source is broken in turn.",
    files: [`${C}facade.ts`, "packages/run/src/run.ts", "packages/config/src/index.ts", "packages/derived-defaults/src/index.ts", "packages/prompt/src/index.ts"],
    mechanism: [{ name: "early exit for genuine meta requests", where: `${C}facade.ts` }],
    observe: ["stdout, stderr and exit status", "file system operations", "resolver and prompt calls"],
  },
  P11: {
    title: "Synchronous runners never return early and reject asynchronous pieces",
    statement: "runWithSync never returns a promise and never fails later than its call. If every piece is synchronous it makes the same calls in the same order and reports the same outcome as runWith, under any faults. If a context answers getAnnotations() or disposal with a promise, the run throws a TypeError (possibly wrapped in a SuppressedError or AggregateError), nothing but disposal happens after that answer, and every other context is still disposed; an asynchronous parser is rejected with a TypeError before any context is used.",
    over: ["configurations", "fault_sequences"],
    text: "all synchronous scenarios x the call that answers asynchronously x faults",
    why: "The synchronous and asynchronous runners are separate code paths that tests compare only in single cases.",
    files: [`${C}facade.ts`],
    mechanism: [{ name: "runWithSync / collectPhase1AnnotationsSync / disposeContextsSync", where: `${C}facade.ts` }],
    observe: ["calls received by contexts", "runWithSync result or exception"],
  },
  P12: {
    title: "A configuration that exists is loaded once and never silently ignored",
    statement: "For every way a configuration can be supplied (a JSON file, a file with a custom fileParser, or load()), the run uses it if it can be read and validates; it continues without configuration only when there is none (no path, missing or dangling file, load() or the schema yields nothing). Any other problem - unreadable file, directory, torn or garbled contents, failing fileParser, load(), getConfigPath(), schema or key callback, rejected or malformed result - fails the run with the error that occurred (or the documented parse or validation error) instead of falling back to defaults. The file is read and each callback called at most once per run, nothing is written, and key callbacks get the metadata of the loaded file.",
    over: ["inputs", "configurations", "fault_sequences", "crash_points"],
    text: "all configurations x file states including every torn prefix x failing callbacks x synchronous and delayed steps",
    why: "Tests use a good file, a missing file and one malformed file; they do not tear files at every byte, inject errno values or make each callback fail.",
    files: ["packages/config/src/index.ts"],
    mechanism: [{ name: "createConfigContext().getAnnotations()", where: "packages/config/src/index.ts" }],
    observe: ["runWith result or rejection", "file system operations", "callback calls"],
  },
  P13: {
    title: "Concurrent runs sharing contexts and parsers are independent",
    statement: "Several runs that overlap in any way while sharing one parser and one set of environment, configuration and derived-default contexts each end exactly as they would alone: with the values of their own command line, configuration and resolvers, and failing only through a failure of their own.",
    over: ["inputs", "configurations", "schedules", "fault_sequences"],
    text: "all sets of 2-4 overlapping runs x settings x interleavings x failing loaders and resolvers",
    why: "Tests await one run before starting the next.",
    files: ["packages/config/src/index.ts", "packages/env/src/index.ts", "packages/derived-defaults/src/index.ts", `${C}facade.ts`, `${C}annotations.ts`],
    mechanism: [{ name: "annotations as per-run snapshots", where: `${C}annotations.ts` }],
    observe: ["result of each run"],
  },
  P14: {
    title: ".env files are a lossless fallback layer under the real environment",
    statement: "For any list of .env files and any environment, createEnvContext() either loads exactly the values the documented syntax defines (later files override earlier ones, expansion sees the real environment first, then the same file, then earlier files) or throws: a syntax error naming the file and line, the file system error of an unreadable file, or the error of the substitution hook or source. Only a missing file is skipped. Each run then uses the command line, else the current real environment, else the loaded file value; files are not read again, and process.env is never modified.",
    over: ["inputs", "configurations", "histories", "fault_sequences"],
    text: "all .env files (every torn prefix, unreadable, missing) x environments that change between runs x failing hooks",
    why: "Tests use small well-formed files; interaction of syntax, expansion, several files, torn contents and changing environments is not sampled.",
    files: ["packages/env/src/index.ts"],
    mechanism: [{ name: "loadEnvFileValues / parseEnvFile", where: "packages/env/src/index.ts" }],
    observe: ["exception of createEnvContext()", "runWith result", "process.env", "file reads"],
  },
  P15: {
    title: "Every setting takes its value from the highest-priority source that has one",
    statement: "For a required setting bound to any stack of environment, configuration and derived-default sources, static defaults and an outermost prompt, the value of a successful run is the command line's if given, otherwise that of the outermost layer that has a value or static default, and the prompted answer only if no layer has one; this holds for settings nested in objects, merges, groups, commands, tuples, concat() or conditional branches, behind group() and map(), for any order of the arguments and contexts and any completion order. An invalid value in the winning source fails the run instead of falling through to another source (unless a prompt asks for it instead). A setting without any value fails the run, unless optional() or withDefault() inside an object supplies one.",
    over: ["inputs", "programs", "configurations", "schedules"],
    text: "all stacks of sources x nesting shapes x presence and validity of each source's value x argument orders x context orders x completion orders",
    why: "Tests check single pairs of sources in one shape with synchronous sources; stacks of three or four sources, nested shapes, interleaved arguments and delayed sources are not sampled.",
    files: ["packages/core/src/facade.ts", "packages/env/src/index.ts", "packages/config/src/index.ts", "packages/derived-defaults/src/index.ts", "packages/prompt/src/index.ts", `${C}constructs.ts`, `${C}modifiers.ts`],
    mechanism: [{ name: "two-phase context runner", where: "packages/core/src/facade.ts" }, { name: "binding wrappers' complete()", where: "packages/*/src/index.ts" }],
    observe: ["runWith result"],
  },
  P17: {
    title: "Prompts are shown only when needed, one at a time, in order, once",
    statement: "With interactive prompts as fallback, a field is prompted for exactly when the command line and the source bindings beneath the prompt (environment, configuration, derived defaults) supply no value for it and it belongs to the chosen alternative. In one run each field is prompted at most once, two prompts are never open at the same time, prompts of fields of one combinator follow its field order, a failed or throwing prompt ends the run with that failure and no further prompt, and the answers become the values. Requests for help, version, completion, suggestions or documentation never prompt. (With configuration or derived-default contexts, which make the runner parse in two passes, this is stated for prompts around bindings to those contexts.)",
    over: ["programs", "inputs", "schedules", "fault_sequences"],
    text: "parser trees x command lines x sources x answer timing x prompt failures",
    why: "Prompt tests cover hand-picked parsers with immediate answers; which fields are asked, how often and in which order depends on combinator nesting, probing and the two-pass protocol.",
    files: ["packages/prompt/src/index.ts", ...CORE, `${C}facade.ts`, `${C}annotation-state.ts`],
    mechanism: [{ name: "createPromptAdapter", where: "packages/prompt/src/index.ts" }, { name: "completion phases and probes", where: `${C}constructs.ts` }],
    observe: ["prompt adapter calls and their overlap", "parse results"],
  },
  P19: {
    title: "Derived defaults are computed once, from the values that are reported",
    statement: "In every run each derived-default resolver is called exactly once (at most once if a resolver fails), before completion, with a seed in which every setting given on the command line, by the environment or by a default has exactly the value the run reports for it. Its value is used, after validation, for a setting that nothing else supplies; undefined falls back to the static default. If resolvers fail, the run fails with the error of one of them, and not before all resolvers it started have finished. The outcome does not depend on the completion order of resolvers, on the order of contexts or on the nesting of settings.",
    over: ["inputs", "configurations", "schedules", "fault_sequences"],
    text: "all sets of derived settings and resolvers x shapes x answers x completion orders x failing resolvers",
    why: "Tests use one or two resolvers that resolve at once; several delayed, declining and failing resolvers are not combined.",
    files: ["packages/derived-defaults/src/index.ts", `${C}facade.ts`],
    mechanism: [{ name: "createDerivedDefaults().getAnnotations()", where: "packages/derived-defaults/src/index.ts" }, { name: "phase-two seed extraction", where: `${C}constructs.ts` }],
    observe: ["resolver calls and seeds", "runWith result or rejection"],
  },
  P20: {
    title: "Command discovery is complete, deterministic and never loses a command",
    statement: "discoverCommands() returns exactly the commands defined by the command modules below the directory (accepted extensions, entry files and symbolic links included; declaration files, tests and non-files excluded; directory cycles visited once), ordered by path, with the same result for every listing order and timing of the file system. If any directory, link or module it needs cannot be read or loaded, or two modules claim one path, it rejects with that error; it never returns a partial list and never imports a module twice. Every discovered command can be dispatched by its path, and the result agrees with commandsFromModules() on the same modules.",
    over: ["inputs", "configurations", "schedules", "fault_sequences"],
    text: "all directory trees with links and unreadable entries x listing orders x delays x errors of each file system call x modules that fail to load",
    why: "Tests scan small intact directories in the order the host happens to list them; errors inside a scan, listing orders and links to links are not sampled.",
    files: ["packages/discover/src/index.ts", "packages/discover/src/generator.ts"],
    mechanism: [{ name: "discoverCommands", where: "packages/discover/src/index.ts" }, { name: "createProgramParser command tree", where: "packages/discover/src/index.ts" }],
    observe: ["discoverCommands result or rejection", "modules imported", "parse results of the program parser"],
  },
  P21: {
    title: "Program and command hooks nest, unwind and report errors exactly once",
    statement: "For every runProgram() call, program and command hooks and the handler are called strictly one after another in the documented nesting: each before hook at most once before what it wraps, after hooks exactly when everything inside succeeded, error hooks exactly once per entered level when something inside failed, from the inside out and with that error, with the context value the matching before hook returned. The promise settles only after all of them have finished, with the original outcome or the documented error. Help, version and parse errors call no command hook and no handler. Overlapping runs do not influence each other. The handler receives the parsed value, with source-bound settings resolved, of the command that the command line names.",
    over: ["programs", "inputs", "schedules", "fault_sequences", "histories"],
    text: "command trees x hook configurations x failing calls x overlapping runs x completion orders",
    why: "Tests fail one hook at a time in one run; combinations of failing before, handler, after and error hooks on two levels with delayed and overlapping runs are not enumerated.",
    files: ["packages/discover/src/index.ts", "packages/run/src/run.ts", ...CORE],
    mechanism: [{ name: "runProgram lifecycle", where: "packages/discover/src/index.ts" }, { name: "executable command nodes", where: "packages/discover/src/index.ts" }],
    observe: ["order, arguments and overlap of hook and handler calls", "settlement of runProgram()"],
  },
  P18: {
    title: "Terminal prompt adapters report one answer or cancellation, never both",
    statement: "For every field prompted through @optique/inquirer or @optique/clack, with any prompt type, in any parser and through run(), runAsync(), runWith() or parseAsync(): the terminal prompt is shown exactly once per asked field, prompts of one program never overlap, the answered value (after the prompt's own validation accepted it) is the value reported for the field, a cancelled prompt becomes a parse failure (and never an answer), and any other terminal failure rejects the run with that error. Programs prompting at the same time do not influence each other.",
    over: ["programs", "inputs", "schedules", "fault_sequences", "histories"],
    text: "prompt types x parser shapes x user behaviour (answer, retype, empty, cancel, terminal failure) x delays x concurrent programs",
    why: "Tests answer each prompt immediately with a stub; late answers, retries, cancellation of a later prompt and failing terminals in combination are not enumerated.",
    files: ["packages/inquirer/src/index.ts", "packages/clack/src/index.ts", "packages/prompt/src/index.ts", ...CORE],
    mechanism: [{ name: "Inquirer.js adapter", where: "packages/inquirer/src/index.ts" }, { name: "Clack adapter", where: "packages/clack/src/index.ts" }, { name: "prompt binding", where: "packages/prompt/src/index.ts" }],
    observe: ["order, overlap and arguments of terminal prompts", "parse result or error"],
  },
  P22: {
    title: "Watch mode converges to the generated module once changes and faults stop",
    statement: "For every history of additions, removals, renames and edits of command files, read errors, failed or torn writes of the output, throwing callbacks and crashes followed by a restart, watchCommandsModule() keeps polling and never ends by itself; at most three polls after the last change and fault the output file is exactly what generateCommandsModule() yields for the tree, and from then on it is neither written nor reported again. Errors are reported through onError and only the output is ever written. An abort ends the watcher, leaving no timer, listener or file operation behind.",
    over: ["histories", "schedules", "fault_sequences", "crash_points"],
    text: "command trees x change histories x read, write and callback faults x crash points x abort moments",
    why: "Tests change one file and wait; races between a poll and a change, torn writes and crashes between truncation and write are not enumerated.",
    files: ["packages/discover/src/generator.ts", "packages/discover/src/index.ts"],
    mechanism: [{ name: "watch loop", where: "packages/discover/src/generator.ts" }],
    observe: ["content of the output file over time", "onGenerate and onError calls", "settlement of the watcher", "file system calls and timers left behind"],
  },
  P23: {
    title: "The generated command module is equivalent to run-time discovery",
    statement: "For every command directory, output place and option set, generateCommandsModule(), writeCommandsModule() and the optique-discover command line either fail, with the documented error or exit status and without touching the output before writing starts, or yield a module that loads and exports exactly the commands, paths and order that discoverCommands() finds, never importing itself. A file system fault is always reported. Nothing but the output file and its parent directories is written, generateCommandsModule() writes nothing, and a wrong command line is not acted upon.",
    over: ["inputs", "fault_sequences", "schedules", "configurations"],
    text: "directory trees (exotic names, links, cycles, duplicates) x output places x options x command lines x file system faults",
    why: "Tests compare fixed trees; file names that need escaping, links that reach the output, and failing or torn writes in combination are not sampled.",
    files: ["packages/discover/src/generator.ts", "packages/discover/src/cli.ts", "packages/discover/src/index.ts"],
    mechanism: [{ name: "module generator", where: "packages/discover/src/generator.ts" }, { name: "optique-discover", where: "packages/discover/src/cli.ts" }, { name: "discovery", where: "packages/discover/src/index.ts" }],
    observe: ["generated source, loaded commands", "exit status, stdout and stderr", "file system content afterwards"],
  },
  P24: {
    title: "Git values are accepted exactly when the repository has them",
    statement: "For every repository state, gitBranch(), gitTag(), gitRemote(), gitRemoteBranch(), gitCommit() and gitRef() accept a value exactly when it names an existing branch, tag, remote, remote branch, commit or reference to a commit, and return the documented value (for commits and references the full ID of the commit, through annotated tags); ambiguous abbreviations are refused. Every offered completion is such a value, offered once, and none is missing. Under read errors a lookup never throws and never accepts something that does not exist. Nothing is ever written, and overlapping lookups do not influence each other.",
    over: ["inputs", "histories", "schedules", "fault_sequences"],
    text: "repositories (loose, packed, stale and symbolic references, annotated tags, shared prefixes, unborn or detached HEAD, none) x inputs x overlapping lookups x read faults",
    why: "Tests use one tiny repository and healthy reads; packed and stale references, tags of tags, shared prefixes and failing or short reads are not sampled.",
    files: ["packages/git/src/index.ts", ...CORE],
    mechanism: [{ name: "git value parsers and completions", where: "packages/git/src/index.ts" }],
    observe: ["parse results", "completions", "file system writes"],
  },
  P26: {
    title: "path() judges a path by a state it really had and reports failures as values",
    statement: "While other processes create, remove and replace entries and file system calls fail, parsing a path() value never throws: it returns either the input unchanged or a failure message. An accepted path satisfied each requirement (existence, non-existence, kind, existing parent, extension) at some moment during the parse, a refused one violated one at some moment or could not be examined, and without concurrent changes and faults the answer is exactly what the requirements say.",
    over: ["inputs", "schedules", "fault_sequences", "histories"],
    text: "requirements x paths x concurrent file system changes between any two calls x failing calls",
    why: "Tests check a file system that nobody else touches; changes between the existence check and the type check are not reachable for them.",
    files: ["packages/run/src/valueparser.ts", ...CORE],
    mechanism: [{ name: "path value parser", where: "packages/run/src/valueparser.ts" }],
    observe: ["parse result", "file system states during the parse"],
  },
  P27: {
    title: "A run ends in exactly one way and touches nothing afterwards",
    statement: "Every run of run(), runAsync(), runSync(), runParser(), runParserAsync() or runParserSync() ends in exactly one of four ways: it returns the parsed value (no output, no exit); it shows help, version or a completion script (text on stdout only, exit status 0); it refuses the command line (text on stderr only, the configured error status); or it fails with the error that a value parser, an output sink or the exit handler raised (or a RangeError for a page that the configured width cannot hold). The exit handler is called at most once and nothing is written after it. Asynchronous runners always return a promise and never throw; synchronous ones never return a promise. For any completion order of asynchronous value parsers, and when two runs overlap, output, exit status and value are those of the same run with synchronous value parsers alone, also when source contexts are active that supply nothing the parser reads; a sink that fails makes the run fail with that error. A bare request for help, version or a completion script that is switched on is always answered, and run(), runAsync() and runSync() answer like the core runner with the same settings, taking those not given from the process (arguments, program name, terminal) and the Program's metadata.",
    over: ["inputs", "programs", "schedules", "fault_sequences", "configurations"],
    text: "parsers x help/version/completion configurations x command lines x runners x completion orders x failing sinks and value parsers x one or two overlapping runs",
    why: "Tests check one outcome per case with sinks that work and promises that resolve at once; double output, output after exit, synchronous throws and crosstalk between runs need faults and schedules.",
    files: [`${C}facade.ts`, "packages/run/src/run.ts", ...CORE],
    mechanism: [{ name: "runParser outcome handling", where: `${C}facade.ts` }, { name: "process defaults", where: "packages/run/src/run.ts" }],
    observe: ["returned value or rejection", "stdout / stderr sink calls", "exit handler calls"],
  },
  P28: {
    title: "optique-man writes the complete page or reports why it could not",
    statement: "Every run of the optique-man command line ends in exactly one way: it prints exactly the generated page to stdout, or writes exactly it to the output file, and resolves; or it prints only to stderr and exits with the documented status (1 file not found, 2 no such export, 3 neither Program nor Parser, 4 tsx required, 5 generation failed, 6 write failed, 1 for a wrong command line); or main() rejects with the error raised while the module or the TypeScript loader was loaded. The page is that of the exported Program or Parser with the given options over its metadata and the current date by default, the same for asynchronous parsers as for their synchronous twins. The output file is not touched unless a page was generated, nothing else is ever written, help, version and wrong command lines touch no file, and overlapping runs do not influence each other.",
    over: ["inputs", "configurations", "schedules", "fault_sequences"],
    text: "program modules x exports x command lines x loader states and Node.js versions x file system faults x one or two overlapping runs",
    why: "Tests run intact modules; unreadable, vanishing, torn or throwing modules, broken loaders, both Node.js version ranges and failing or torn writes are not combined.",
    files: ["packages/man/src/cli.ts", "packages/man/src/generator.ts", `${C}parser.ts`],
    mechanism: [{ name: "command line main()", where: "packages/man/src/cli.ts" }, { name: "man page generator", where: "packages/man/src/generator.ts" }],
    observe: ["exit status, stdout and stderr", "file system content afterwards", "settlement of main()"],
  },
  P29: {
    title: "Schema value parsers give the schema's verdict under every schedule",
    statement: "A value parser made by zodAsync(), valibotAsync() or standardSchemaAsync() accepts a command line value exactly when the schema does, with the schema's output, however long and in whatever order its asynchronous validation steps complete and however many parses of the same parser overlap; Zod Boolean schemas first convert true/1/yes/on and false/0/no/off in any case. A refused value is reported with the configured error (whose function is told the schema's issues and the input) or the first issue. Completions, choices, documentation and formatting are those of the schema, and the synchronous adapters zod(), valibot() and standardSchema() behave the same for synchronous schemas. An error thrown or rejected by a validation step fails exactly the parse it happened in, with that error. A synchronous adapter never accepts or refuses on the basis of a promise: it throws a TypeError, and a later rejection of that promise goes unnoticed.",
    over: ["inputs", "programs", "schedules", "fault_sequences"],
    text: "schemas of three libraries x parser shapes x command lines and environment values x completion orders of validation steps x one failing step x overlapping requests",
    why: "Tests use single schemas whose promises resolve at once; step latency, overlap, failing steps, thenables and layered schemas inside larger parsers are not combined.",
    files: ["packages/zod/src/index.ts", "packages/valibot/src/index.ts", "packages/standard-schema/src/index.ts", ...CORE],
    mechanism: [{ name: "schema adapters", where: "packages/zod/src/index.ts" }, { name: "Valibot adapter", where: "packages/valibot/src/index.ts" }, { name: "Standard Schema adapter", where: "packages/standard-schema/src/index.ts" }],
    observe: ["parse, completion and documentation results", "errors and unhandled rejections", "exposed metavar, choices, format()"],
  },
  P30: {
    title: "Logging options decide exactly where and how each record is written",
    statement: "For any logging option configuration and command line, loggingOptions() yields exactly the level, output and formatter that the documentation assigns to it (or refuses a wrong level, output or formatter), and createLoggingConfig() turns them into a LogTape configuration with that level and one default sink, merged with the additional configuration. Every record given to the default console sink results in exactly one write to the stream that the options or the resolver choose, formatted by the console option's formatter, else the selected one, else the default format with the record's time or the current time; a configured stream that is neither is refused, a resolver that answers neither fails with a TypeError and writes nothing; an error of the formatter or console reaches the caller and does not affect later records. File output opens exactly the given path with the selected formatter through @logtape/file; a package that cannot be loaded is reported with instructions, a file that cannot be opened with its own error; console output never needs the package. Programs that overlap do not influence each other.",
    over: ["inputs", "configurations", "schedules", "fault_sequences"],
    text: "logging configurations x command lines x records x states of the file package x failing consoles and formatters x overlapping programs",
    why: "Tests check one sink at a time with a working console and an installed or stubbed package; failing writes, flaky imports, missing timestamps under a moving clock and overlapping programs are not combined.",
    files: ["packages/logtape/src/output.ts", "packages/logtape/src/preset.ts", "packages/logtape/src/verbosity.ts", "packages/logtape/src/debug.ts", "packages/logtape/src/loglevel.ts"],
    mechanism: [{ name: "sinks and outputs", where: "packages/logtape/src/output.ts" }, { name: "loggingOptions / createLoggingConfig", where: "packages/logtape/src/preset.ts" }],
    observe: ["parsed options", "LogTape configuration", "console writes", "getFileSink calls", "errors"],
  },
  P31: {
    title: "Bindings are transparent: a source acts exactly like the command line",
    statement: "Binding any option, flag or argument of a parser to environment, configuration, derived-default sources or a prompt changes nothing as long as the sources supply nothing: every command line is accepted with the same value or refused as without the bindings, and completions and help pages (of bindings without static defaults and prompts) are the same. When sources, static defaults or prompts supply the values of options that the command line omits, the run ends like the run of the unbound parser with those values given as options: same value, or refused by the same constraints, including options derived from a bound dependency source. This holds in any nesting of object(), merge(), tuple(), concat(), group(), map(), optional() and commands, for synchronous and asynchronous parsers and any completion order. (Not covered: bindings inside seq(), multiple(), nonEmpty(), withDefault() or directly as an alternative; supplied values where optional structures, alternatives or positional arguments depend on which tokens are present; sources behind map(); unset configuration of bare boolean options.)",
    over: ["inputs", "programs", "configurations", "schedules"],
    text: "parser trees x command lines x stacks of bindings x what the sources supply x context orders x completion orders",
    why: "Tests bind one option in one shape; they cannot relate bound and unbound parsers over arbitrary trees, command lines (terminators, repeated or unknown tokens) and completion orders.",
    files: ["packages/env/src/index.ts", "packages/config/src/index.ts", "packages/derived-defaults/src/index.ts", "packages/prompt/src/index.ts", `${C}modifiers.ts`, `${C}constructs.ts`, "packages/core/src/facade.ts"],
    mechanism: [{ name: "binding wrappers (parse, complete, suggest)", where: "packages/{env,config,derived-defaults,prompt}/src/index.ts" }, { name: "optional()/withDefault() over bindings", where: `${C}modifiers.ts` }],
    observe: ["runWith result", "suggestAsync", "getDocPageAsync"],
  },
  P32: {
    title: "conditional() pairs the discriminator's value with its own branch's result",
    statement: "Wherever the discriminator of a conditional() takes its value from (command line, prompt, environment, configuration, derived default, static default; synchronous or not), a successful run reports exactly that value together with the result that the branch of that value gives for the remaining tokens; the default branch is reported only if the discriminator has no value, a value that names no branch, or (asynchronous discriminators) if only the default branch accepts the tokens. A command line whose tokens are accepted by that branch and by no other named branch is never refused, whatever a default branch requires; a command line with tokens that only other named branches accept is always refused, never attributed to the wrong branch or dropped. An explicit discriminator precedes the tokens of its branch. With single-pass contexts each prompt is shown at most once and no prompt of a branch that the discriminator does not name is shown; an error thrown by a prompt or value parser is the one reported. This holds for nested conditionals, in any combinator and for any completion order. (Tokens that several named branches accept may be refused while an asynchronous discriminator is undecided, as documented.)",
    over: ["inputs", "programs", "configurations", "schedules", "fault_sequences"],
    text: "conditional() trees x kinds of discriminators and their values x command lines for the right, a wrong, the default or no branch x completion orders x failing prompts and value parsers",
    why: "Speculative branch selection, deferred verification and the two-pass protocol interact; tests fix one discriminator kind, one branch and immediate answers.",
    files: [`${C}constructs.ts`, "packages/core/src/facade.ts", "packages/prompt/src/index.ts", "packages/config/src/index.ts", "packages/derived-defaults/src/index.ts"],
    mechanism: [{ name: "conditional() parse/complete, speculative branches", where: `${C}constructs.ts` }, { name: "phase-two seed of conditional()", where: `${C}constructs.ts` }],
    observe: ["runWith / runParser result", "prompt adapter calls"],
  },
};

for (const m of Object.values(META)) m.note ??= NOTE;
