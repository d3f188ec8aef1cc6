const B = "packages/core/src/";
export const NA = [
  { id: "N01", title: "Value parsers round-trip the values they format",
    statement: "Every built-in value parser accepts the text it produces when formatting a value it returned, and parses it back to an equal value.",
    over: ["inputs"], text: "all values of all value parsers", why: "Tests use a handful of literal values.",
    files: [`${B}valueparser.ts`], mechanism: [{ name: "ValueParser.format/parse", where: `${B}valueparser.ts` }],
    reason: "Pure, synchronous, deterministic functions of one argument: no scheduling, time, I/O, randomness or second party for a simulator to control." },
  { id: "N02", title: "Shell completion scripts escape every program name and suggestion",
    statement: "The completion script and the encoded suggestions for each supported shell cannot be broken out of by any program name, suggestion text or description.",
    over: ["inputs"], text: "all program names and suggestions x five shells", why: "Tests use a few names; real shells are only run on fixed scripts.",
    files: [`${B}completion.ts`], mechanism: [{ name: "shell encoders", where: `${B}completion.ts` }],
    reason: "String-to-string functions without concurrency, time or I/O; the property quantifies over inputs alone, and the shells that interpret the output are outside the simulated process." },
  { id: "N03", title: "Usage, help and message formatting never lose or overflow content",
    statement: "Formatted usage lines, documentation pages and messages contain every term they are given and respect the requested width wherever a break is possible.",
    over: ["inputs"], text: "all usage trees, documents and widths", why: "Snapshot tests fix the inputs.",
    files: [`${B}usage.ts`, `${B}doc.ts`, `${B}message.ts`], mechanism: [{ name: "formatters", where: `${B}usage.ts` }],
    reason: "Pure rendering functions: one execution per input, no schedule or fault can change the outcome." },
  { id: "N04", title: "Man page output escapes roff control sequences",
    statement: "No text taken from a parser or a message can start a roff request or escape in the generated man page.",
    over: ["inputs"], text: "all messages and documentation", why: "Tests use a few literal strings.",
    files: ["packages/man/src/roff.ts"], mechanism: [{ name: "escapeRoff", where: "packages/man/src/roff.ts" }],
    reason: "A pure string transformation; there is nothing nondeterministic for simulation to decide (the man command's file handling is claimed separately)." },
  { id: "N05", title: "Inferred TypeScript types match run-time results",
    statement: "The static result type of a parser describes every value the parser can return at run time.",
    over: ["programs"], text: "all parser expressions", why: "Type tests assert a few inferred types.",
    files: [`${B}parser.ts`, `${B}constructs.ts`], mechanism: [{ name: "conditional types", where: `${B}constructs.ts` }],
    reason: "A property of the type checker, not of executions; no run of the program can observe it." },
];
