import { Violation, show, describeError } from "../core.mjs";
import { VFS, SIMROOT } from "../seams.mjs";
import { genRepo } from "../gitrepo.mjs";

const DIR = `${SIMROOT}/repo`;
const CODES = ["EIO", "EACCES", "EMFILE", "ESTALE"];

export default {
  needs: ["core-constructs", "core-primitives", "core-modifiers", "core-parser", "core-message", "git"],
  rule: "random repositories (branches with slashes, light and annotated and nested tags, remotes, loose and packed and stale packed references, symbolic, detached and unborn HEAD, objects with a common prefix) and 1-4 overlapping parses (in 1-3 rounds between which other processes add, move, delete and pack references and commit) and completions of branch, tag, remote, remote-branch, commit and reference values; object and reference reads are delayed and reordered and fail, are cut short or find the repository missing; compared with an independent model of the repository; non-trivial when a lookup was made",
  real: ["@optique/git value parsers and suggestions", "isomorphic-git", "@optique/core parsing"],
  stubs: ["file system (in memory, latency, faults, short reads)", "native DecompressionStream and SubtleCrypto (isomorphic-git then uses its JavaScript inflate and SHA-1)"],
  assumptions: ["under read errors isomorphic-git may report fewer references than exist"],
  minimum: { accepted: 1000, refused: 2000, ambiguous: 60, "under-fault": 2000, "no-repository": 150, "repository-delete": 1500, suggested: 2000 },
  quick: { count: 7000, ms: 50000 },
  async run(sim, lib) {
    // isomorphic-git prefers native thread-pool helpers; without them it uses
    // its own deterministic JavaScript versions
    globalThis.DecompressionStream = undefined;
    globalThis.crypto.subtle.digest = () => Promise.reject(new Error("not available"));
    const C = lib["core-constructs"], P = lib["core-primitives"], G = lib.git;
    const vfs = sim.vfs = new VFS(sim);
    vfs.mkdirp(DIR);
    const missing = sim.int(14, "norepo") === 13;
    const m = missing ? null : genRepo(sim, vfs, DIR);
    if (missing) { sim.count("no-repository"); if (sim.int(2, "nodir")) vfs.del(DIR); }
    const rate = missing ? 0 : sim.pick([0, 0, 3, 8, 20], "rate");
    let failed = 0, torn = false;
    vfs.policy = (op) => {
      if (!["readFile", "readdir", "stat", "lstat"].includes(op)) return undefined;
      if (!rate || sim.int(rate, "fault") !== 0) return undefined;
      failed++;
      if (op === "readFile" && sim.int(3, "short") === 2 && (torn = true)) return { partial: sim.int(200, "cut") };
      return { code: sim.pick(CODES, "code") };
    };
    vfs.readdirOrder = (names) => sim.shuffle(names, "listing");
    const remote = sim.pick(["origin", "upstream", "fork", "nowhere"], "remotearg");
    const implicit = sim.int(3, "implicit") === 2;
    const depth = sim.pick([undefined, 1, 3], "depth");
    const opts = { ...(implicit ? {} : { dir: DIR }), ...(depth ? { suggestionDepth: depth } : {}) };
    if (implicit) sim.cwd = DIR;
    const factory = sim.int(2, "factory") ? G.createGitParsers(opts) : null;
    const kinds = ["branch", "tag", "remote", "remoteBranch", "commit", "ref"];
    const parsers = new Map();
    const make = (k) => { if (!parsers.has(k)) parsers.set(k, sim.int(3, "own") ? create(k) : null); return parsers.get(k) ?? create(k); };
    const create = (k) => factory ? (k === "remoteBranch" ? factory.remoteBranch(remote) : factory[k]()) : { branch: () => G.gitBranch(opts), tag: () => G.gitTag(opts), remote: () => G.gitRemote(opts), remoteBranch: () => G.gitRemoteBranch(remote, opts), commit: () => G.gitCommit(opts), ref: () => G.gitRef(opts) }[k]();
    let oids;
    const sha = () => { const twins = oids.filter((o) => oids.some((x) => x !== o && x.startsWith(o.slice(0, 4)))); const twin = twins.length > 0 && sim.int(3, "twin") === 0; const o = sim.pick(twin ? twins : oids, "oid"); const n = twin ? sim.pick([4, 4, 5, 40], "abbrev") : sim.pick([3, 4, 5, 7, 12, 39, 40, 40, 41], "abbrev"); return n === 41 ? `${o}0` : sim.int(20, "bogus") === 19 ? "0".repeat(n) : o.slice(0, n); };
    const names = () => m && m.branches.length + m.tags.length && sim.int(2, "known") ? sim.pick([...m.branches, ...m.tags, ...m.remoteBranches(remote)], "kname") : sim.pick(["main", "dev", "feature/login", "feature/x", "feature", "release-1.0", "abcd", "beef", "v1", "v1.0.0", "v2", "latest", "dead", "rel/2", "origin", "upstream", "fork", "HEAD", "nope", "refs/heads/main", ""], "name");
    const inputFor = (k) => k === "commit" ? sha() : k === "ref" ? (sim.int(2, "refin") ? sha() : names()) : k === "remote" ? sim.pick([...(m?.remotes ?? []), ...(m?.remotes ?? []), "origin", "upstream", "fork", "nope"], "rname") : names();
    // ---- what the repository says ------------------------------------------
    const byPrefix = (p) => oids.filter((o) => o.startsWith(p));
    const expand = (input) => {
      const hits = byPrefix(input);
      return hits.length === 0 ? { none: true } : hits.length > 1 ? { ambiguous: true } : { oid: hits[0] };
    };
    const commitOf = (oid) => { const o = m.peel(oid); return o?.type === "commit" ? o.oid : null; };
    const expect = (k, input) => {
      if (missing) return { fails: true };
      if (k === "branch") return m.branches.includes(input) ? { value: input } : { fails: true };
      if (k === "tag") return m.tags.includes(input) ? { value: input } : { fails: true };
      if (k === "remote") return m.remotes.includes(input) ? { value: input } : { fails: true };
      if (k === "remoteBranch") return m.remoteBranches(remote).includes(input) ? { value: input } : { fails: true };
      if (k === "ref") {
        if (input === "") return { any: true };
        if (/^[0-9a-f]{40}$/.test(input)) return commitOf(input) ? { value: commitOf(input) } : { fails: true };
        const order = ["", "refs/", "refs/tags/", "refs/heads/", "refs/remotes/"];
        if (input === "HEAD") return m.headOid ? { value: m.headOid } : { fails: true };
        for (const p of order) if (m.refs.has(p + input)) { const c = commitOf(m.refs.get(p + input)); return c ? { value: c } : { fails: true }; }
        // shorter abbreviations than Git's four digits may be refused or accepted
        if (/^[0-9a-f]{1,3}$/.test(input)) { const e = expand(input); const c = e.none || e.ambiguous ? null : commitOf(e.oid); return c ? { value: c, optional: true } : { fails: true }; }
      } else if (!/^[0-9a-f]{4,40}$/.test(input)) return { fails: true };
      const e = expand(input);
      if (e.ambiguous) { sim.count("ambiguous"); return { fails: true, ambiguous: true }; }
      const c = e.none ? null : commitOf(e.oid);
      return c ? { value: c } : { fails: true };
    };
    const rounds = missing ? 1 : sim.pick([1, 1, 2, 3], "rounds");
    const samples = [];
    for (let round = 0; round < rounds; round++) {
    if (round > 0) { const hold = vfs.policy; vfs.policy = null; for (let i = sim.range(1, 3, "changes"); i > 0; i--) sim.count(`repository-${m.change()}`); vfs.policy = hold; failed = 0; torn = false; }
    oids = m ? [...m.objects.keys()] : ["0123456789abcdef0123456789abcdef01234567"];
    const before = vfs.snapshot();
    const jobs = Array.from({ length: sim.range(1, 4, "jobs") }, () => {
      const k = sim.pick(kinds, "kind");
      const form = sim.weighted([[3, "value"], [2, "option"], [2, "suggest"]], "form");
      return { k, form, input: form === "suggest" ? inputFor(k).slice(0, sim.int(5, "pre")) : inputFor(k), vp: make(k) };
    });
    const failing = [];
    const r = await sim.drive(() => Promise.all(jobs.map(async (j) => {
      try {
        await sim.op(`start ${j.k}`, () => {});
        if (j.form === "value") j.result = await j.vp.parse(j.input);
        else if (j.form === "option") j.result = await lib["core-parser"].parseAsync(C.object({ o: P.option("--o", j.vp) }), [`--o=${j.input}`]).then((x) => x.success ? { success: true, value: x.value.o } : x);
        else { j.items = []; for await (const s of j.vp.suggest(j.input)) j.items.push(s.text); }
      } catch (e) { j.error = e; failing.push(j); }
    })), { what: "git lookups", maxSteps: 20000 });
    await sim.quiesce();
    const text = (j) => `${j.k}${j.k === "remoteBranch" ? `(${remote})` : ""}.${j.form}(${show(j.input)})`;
    const bad = (kind, j, msg) => { throw new Violation(kind, `${msg}\n lookup ${j ? text(j) : ""} of ${show(jobs.map(text))}\n result ${show(j?.items ?? j?.result)} ${j?.error ? describeError(j.error) : ""}\n fault rate ${rate} (${failed} hit) ${missing ? "no repository" : `refs ${show(Object.fromEntries([...m.refs].map(([n, o]) => [n, `${m.objects.get(o).type} ${o.slice(0, 10)}`])))} HEAD ${m.headOid} remotes ${show(m.remotes)}`}`); };
    if (r.status !== "ok") bad("rejected", null, describeError(r.error));
    for (const j of failing) bad("threw", j, "a lookup rejected instead of reporting a failure");
    const after = vfs.snapshot();
    for (const [p, v] of after) if (before.get(p) !== v) bad("modified", jobs[0], `${p} was changed`);
    if (after.size !== before.size) bad("modified", jobs[0], "the repository was changed");
    for (const j of jobs) {
      if (j.form === "suggest") {
        const legit = missing ? [] : j.k === "branch" ? m.branches : j.k === "tag" ? m.tags : j.k === "remote" ? m.remotes : j.k === "remoteBranch" ? m.remoteBranches(remote) : null;
        const have = j.items;
        if (new Set(have).size !== have.length) bad("suggest", j, "a completion is offered twice");
        for (const s of have) if (!s.startsWith(j.input)) bad("suggest", j, `${show(s)} does not complete ${show(j.input)}`);
        if (legit) {
          for (const s of have) if (!torn && !legit.includes(s)) bad("suggest", j, `${show(s)} does not exist`);
          if (!failed && show([...have].sort()) !== show(legit.filter((s) => s.startsWith(j.input)).sort())) bad("suggest", j, `expected ${show(legit)}`);
        } else {
          for (const s of have) {
            const e = expect(j.k, s);
            if (e.fails && !e.ambiguous && !torn && !(j.k === "ref" && m.tags.includes(s))) bad("suggest", j, `${show(s)} is offered but not accepted`);
          }
          if (!failed && !missing) {
            // commits reachable from HEAD within the depth, newest first along one line
            const seen = new Set();
            const visit = (o) => { if (!o || seen.has(o)) return; seen.add(o); for (const p of m.objects.get(o).parents ?? []) visit(p); };
            visit(m.headOid);
            const commitItems = have.filter((s) => !(j.k === "ref" && (m.branches.includes(s) || m.tags.includes(s))));
            if (m.headOid == null ? commitItems.length : false) bad("suggest", j, "commits are offered without a HEAD");
            for (const s of commitItems) if (![...seen].some((o) => o.startsWith(s))) bad("suggest", j, `${show(s)} is no commit of the current branch`);
            if (m.headOid && depth === undefined && commitItems.length !== [...seen].filter((o) => o.startsWith(j.input)).length && !(j.k === "ref" && [...m.branches, ...m.tags].some((b) => [...seen].some((o) => o.startsWith(b))))) bad("suggest", j, `${[...seen].filter((o) => o.startsWith(j.input)).length} commits match`);
            if (j.k === "ref" && m.headOid) for (const b of [...m.branches, ...m.tags]) if (b.startsWith(j.input) && !have.includes(b)) bad("suggest", j, `${b} is missing`);
          }
        }
        sim.count("suggested");
        sim.event(`suggested ${show(have)}`);
        continue;
      }
      const e = expect(j.k, j.input);
      const res = j.result;
      sim.event(`${text(j)} ${res.success ? res.value : "refused"}`);
      if (!res || typeof res.success !== "boolean" || (!res.success && !Array.isArray(res.error))) bad("shape", j, "no parse result");
      if (failed) {
        sim.count("under-fault");
        if (res.success) {
          const exists = ["commit", "ref"].includes(j.k) ? m.commits.includes(res.value) : e.value === res.value;
          if (!exists) bad("invented", j, "a value that does not exist was accepted under read errors");
        }
        continue;
      }
      if (e.any) continue;
      if (e.fails) { if (res.success) bad("accepted", j, "a value that the repository does not have was accepted"); sim.count("refused"); }
      else if (e.optional && !res.success) sim.count("refused");
      else { if (!res.success) bad("refused", j, `the repository has it: ${show(e.value)}`); if (res.value !== e.value) bad("value", j, `expected ${show(e.value)} (${m.objects.get(res.value)?.type} was returned)`); sim.count("accepted"); }
    }
    sim.cover(jobs.map((j) => `${j.k}.${j.form}`).sort().join(",") + `:${rate}:${missing}`);
    samples.push(jobs.map(text));
    }
    return { nontrivial: true, sample: { rounds: samples, rate, missing } };
  },
};
