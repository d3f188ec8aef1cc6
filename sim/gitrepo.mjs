// A random git repository, written object by object into the simulated file
// system, together with an independent model of its references and objects.
import { createHash } from "node:crypto";
import { deflateSync } from "node:zlib";

const hash = (type, body) => createHash("sha1").update(`${type} ${body.length}\0`).update(body).digest("hex");
const raw = (type, body) => Buffer.concat([Buffer.from(`${type} ${body.length}\0`), body]);

// Objects whose ids share a four digit prefix, found once per process.
let twins = null;
const TREE = Buffer.alloc(0);
const EMPTY = hash("tree", TREE);
const WHO = "Sim <sim@example.com> 1700000000 +0000";
const commitBody = (msg, tree, parents) => Buffer.from(`tree ${tree}\n${parents.map((p) => `parent ${p}\n`).join("")}author ${WHO}\ncommitter ${WHO}\n\n${msg}\n`);
function getTwins() {
  if (twins) return twins;
  const byPrefix = new Map();
  const out = { cc: [], cb: [] };
  for (let i = 0; out.cc.length < 3 || out.cb.length < 3; i++) {
    const type = i % 3 === 2 ? "blob" : "commit";
    const body = type === "blob" ? Buffer.from(`blob ${i}`) : commitBody(`twin ${i}`, EMPTY, []);
    const oid = hash(type, body);
    const p = oid.slice(0, 4);
    const other = byPrefix.get(p);
    if (other) {
      if (other.type === "commit" && type === "commit" && out.cc.length < 3) out.cc.push([other, { type, body, oid }]);
      else if (other.type !== type && out.cb.length < 3) out.cb.push(other.type === "commit" ? [other, { type, body, oid }] : [{ type, body, oid }, other]);
    } else byPrefix.set(p, { type, body, oid });
  }
  return twins = out;
}

const BRANCHES = ["main", "dev", "feature/login", "feature/x", "release-1.0", "abcd", "beef", "v1"];
const TAGS = ["v1", "v1.0.0", "v2", "latest", "dead", "rel/2"];
const REMOTES = ["origin", "upstream", "fork"];

export function genRepo(sim, vfs, dir) {
  const g = `${dir}/.git`;
  const objects = new Map(); // oid -> {type, body, target?}
  const add = (type, body, extra = {}) => {
    const oid = hash(type, body);
    if (!objects.has(oid)) {
      objects.set(oid, { oid, type, body, ...extra });
      vfs.put(`${g}/objects/${oid.slice(0, 2)}/${oid.slice(2)}`, deflateSync(raw(type, body)));
    }
    return oid;
  };
  for (const d of ["objects", "refs/heads", "refs/tags"]) vfs.mkdirp(`${g}/${d}`);
  add("tree", TREE);
  const blobs = Array.from({ length: sim.range(1, 3, "blobs") }, (_, i) => add("blob", Buffer.from(`content ${i} ${sim.int(1000, "c")}`)));
  const trees = blobs.map((b, i) => add("tree", Buffer.concat([Buffer.from(`100644 f${i}\0`), Buffer.from(b, "hex")])));
  const commits = [];
  for (let i = 0, n = sim.range(1, 8, "commits"); i < n; i++) {
    const parents = commits.length === 0 ? [] : i > 2 && sim.int(5, "merge") === 4 ? [commits.at(-1), commits.at(-3)] : sim.int(7, "root") === 6 ? [] : [sim.int(4, "par") ? commits.at(-1) : sim.pick(commits, "parent")];
    commits.push(add("commit", commitBody(`commit ${i} ${sim.int(1000, "m")}\n\nbody`, sim.pick(trees, "ctree"), parents), { parents, subject: null }));
  }
  if (sim.int(3, "twins") === 2) {
    const pair = sim.pick(getTwins()[sim.pick(["cc", "cb"], "twkind")], "twin");
    for (const o of pair) { const oid = add(o.type, o.body, { parents: [] }); if (o.type === "commit") commits.push(oid); }
  }
  const tagObjects = [];
  for (let i = 0, n = sim.int(3, "tagobjs"); i < n; i++) {
    const target = tagObjects.length && sim.int(4, "nest") === 3 ? sim.pick(tagObjects, "ttag") : sim.int(8, "tagblob") === 7 ? sim.pick(blobs, "tblob") : sim.pick(commits, "tcommit");
    const o = objects.get(target);
    tagObjects.push(add("tag", Buffer.from(`object ${target}\ntype ${o.type}\ntag t${i}\ntagger ${WHO}\n\nannotated ${i}\n`), { target }));
  }
  const refs = new Map(); // full ref -> oid
  let packed = [];
  const setRef = (name, oid) => {
    if ([...refs.keys()].some((r) => r === name || r.startsWith(name + "/") || name.startsWith(r + "/"))) return;
    refs.set(name, oid);
    const how = sim.weighted([[3, "loose"], [2, "packed"], [1, "both"]], "store");
    if (how !== "packed") vfs.put(`${g}/${name}`, `${oid}\n`);
    if (how === "packed") packed.push([name, oid]);
    if (how === "both") packed.push([name, sim.pick(commits, "staleref")]); // the loose file wins
  };
  for (const b of BRANCHES) if (sim.int(2, "branch")) setRef(`refs/heads/${b}`, sim.pick(commits, "bcommit"));
  for (const t of TAGS) if (sim.int(2, "tag")) setRef(`refs/tags/${t}`, tagObjects.length && sim.int(2, "annot") ? sim.pick(tagObjects, "tobj") : sim.pick(commits, "tgcommit"));
  const remotes = REMOTES.filter(() => sim.int(2, "remote"));
  for (const r of remotes) for (const b of BRANCHES) if (sim.int(3, "rbranch") === 0) setRef(`refs/remotes/${r}/${b}`, sim.pick(commits, "rcommit"));
  const writePacked = () => vfs.put(`${g}/packed-refs`, `# pack-refs with: peeled fully-peeled sorted\n${packed.sort((a, b) => (a[0] < b[0] ? -1 : 1)).map(([n, o]) => `${o} ${n}\n${peel(o)?.oid && objects.get(o)?.type === "tag" ? `^${peel(o).oid}\n` : ""}`).join("")}`);
  if (packed.length) writePacked();
  function peel(oid) {
    let o = objects.get(oid);
    while (o?.type === "tag") o = objects.get(o.target);
    return o;
  }
  const branches = [...refs.keys()].filter((r) => r.startsWith("refs/heads/"));
  const head = sim.weighted([[4, "symbolic"], [1, "detached"], [1, "unborn"]], "head");
  const headRef = branches.length && head === "symbolic" ? sim.pick(branches, "headref") : null;
  const detachedOid = head === "detached" ? sim.pick(commits, "headoid") : null;
  vfs.put(`${g}/HEAD`, head === "detached" ? `${detachedOid}\n` : `ref: ${headRef ?? "refs/heads/unborn"}\n`);
  vfs.put(`${g}/config`, `[core]\n\trepositoryformatversion = 0\n\tbare = false\n${remotes.map((r) => `[remote "${r}"]\n\turl = https://example.com/${r}.git\n\tfetch = +refs/heads/*:refs/remotes/${r}/*\n`).join("")}`);
  // what another process does to the repository between two lookups
  const change = () => {
    const how = sim.weighted([[3, "add"], [3, "delete"], [2, "move"], [1, "commit"], [1, "pack"]], "change");
    const names = [...refs.keys()];
    if (how === "add") { const name = sim.pick([...BRANCHES.map((b) => `refs/heads/${b}`), ...TAGS.map((t) => `refs/tags/${t}`), ...remotes.flatMap((r) => BRANCHES.map((b) => `refs/remotes/${r}/${b}`))], "newref"); setRef(name, sim.pick(commits, "newoid")); writePacked(); }
    else if (how === "delete" && names.length) { const name = sim.pick(names, "delref"); refs.delete(name); vfs.del(`${g}/${name}`); packed = packed.filter(([n]) => n !== name); writePacked(); }
    else if (how === "move" && names.length) { const name = sim.pick(names, "mvref"); const oid = sim.pick(commits, "mvoid"); refs.set(name, oid); vfs.put(`${g}/${name}`, `${oid}\n`); }
    else if (how === "commit") { const oid = add("commit", commitBody(`later ${objects.size}`, sim.pick(trees, "ltree"), [commits.at(-1)]), { parents: [commits.at(-1)] }); commits.push(oid); if (headRef && refs.has(headRef)) { refs.set(headRef, oid); vfs.put(`${g}/${headRef}`, `${oid}\n`); } }
    else if (how === "pack") { for (const name of names) { packed = packed.filter(([n]) => n !== name); packed.push([name, refs.get(name)]); vfs.del(`${g}/${name}`); } writePacked(); }
    return how;
  };
  const strip = (prefix) => [...refs.keys()].filter((r) => r.startsWith(prefix)).map((r) => r.slice(prefix.length));
  return { dir, g, objects, commits, blobs, trees, tagObjects, refs, remotes, change, get headOid() { return detachedOid ?? (headRef ? refs.get(headRef) ?? null : null); }, peel, get branches() { return strip("refs/heads/"); }, get tags() { return strip("refs/tags/"); }, remoteBranches: (r) => strip(`refs/remotes/${r}/`), BRANCHES, TAGS, REMOTES };
}
