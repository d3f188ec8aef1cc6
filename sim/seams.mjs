// Process-level seams: file system, stdout/stderr, exit, cwd, argv.
// All of them delegate to the real implementation unless a simulation is
// running and has claimed the resource, so the shipped code needs no hooks.
import { createRequire, syncBuiltinESMExports } from "node:module";
import { fileURLToPath } from "node:url";
import { getCurrent } from "./core.mjs";

const require = createRequire(import.meta.url);
const fs = require("node:fs");
const fsp = require("node:fs/promises");

export const SIMROOT = "/simfs";

export class ExitSignal extends Error {
  constructor(code) {
    super(`process.exit(${code})`);
    this.name = "ExitSignal";
    this.code = code;
  }
}

const DESC = {
  ENOENT: "no such file or directory", EACCES: "permission denied", EIO: "i/o error", EISDIR: "illegal operation on a directory",
  ENOTDIR: "not a directory", EEXIST: "file already exists", ENOSPC: "no space left on device", EMFILE: "too many open files",
  ELOOP: "too many symbolic links encountered", EPERM: "operation not permitted", ENOTEMPTY: "directory not empty", EROFS: "read-only file system",
  EBUSY: "resource busy or locked", ESTALE: "stale file handle", EINVAL: "invalid argument", ENAMETOOLONG: "name too long", EBADF: "bad file descriptor",
};
const ERRNO = { ENOENT: -2, EIO: -5, EACCES: -13, EEXIST: -17, ENOTDIR: -20, EISDIR: -21, EINVAL: -22, EMFILE: -24, ENOSPC: -28, EROFS: -30, EPERM: -1, EBUSY: -16, ELOOP: -40, ENOTEMPTY: -39, ESTALE: -116, ENAMETOOLONG: -36, EBADF: -9 };

export function errno(code, syscall, path, injected = false) {
  const e = new Error(`${code}: ${DESC[code] ?? "error"}, ${syscall}${path != null ? ` '${path}'` : ""}`);
  e.code = code;
  e.errno = ERRNO[code] ?? -1;
  e.syscall = syscall;
  if (path != null) e.path = path;
  if (injected) Object.defineProperty(e, "injectedFault", { value: true, enumerable: false });
  return e;
}

class Node {
  constructor(type) {
    this.type = type; // file|dir|link|other
    this.data = Buffer.alloc(0);
    this.children = type === "dir" ? new Map() : null;
    this.target = null;
    this.mtime = 0;
    this.ino = Node.next++;
  }
}
Node.next = 1;

class Stats {
  constructor(node, sim) {
    this.type = node.type;
    this.size = node.type === "file" ? node.data.length : 0;
    this.mode = node.type === "dir" ? 0o40755 : node.type === "link" ? 0o120777 : 0o100644;
    this.ino = node.ino;
    this.dev = 1;
    this.nlink = 1;
    this.uid = this.gid = this.rdev = 0;
    this.mtimeMs = this.ctimeMs = this.atimeMs = this.birthtimeMs = node.mtime;
    this.mtime = this.ctime = this.atime = this.birthtime = new Date(node.mtime);
    this.blksize = 4096;
    this.blocks = Math.ceil(this.size / 512);
  }
  isFile() { return this.type === "file"; }
  isDirectory() { return this.type === "dir"; }
  isSymbolicLink() { return this.type === "link"; }
  isBlockDevice() { return false; }
  isCharacterDevice() { return false; }
  isFIFO() { return this.type === "other"; }
  isSocket() { return false; }
}

class Dirent {
  constructor(name, node, parentPath) {
    this.name = name;
    this.parentPath = parentPath;
    this.path = parentPath;
    this.kind = node.type;
  }
  isFile() { return this.kind === "file"; }
  isDirectory() { return this.kind === "dir"; }
  isSymbolicLink() { return this.kind === "link"; }
  isBlockDevice() { return false; }
  isCharacterDevice() { return false; }
  isFIFO() { return this.kind === "other"; }
  isSocket() { return false; }
}

function split(path) {
  return path.split("/").filter((s) => s.length > 0 && s !== ".");
}

/** In-memory POSIX-ish file system owned by one simulation. */
export class VFS {
  constructor(sim) {
    this.sim = sim;
    this.root = new Node("dir");
    this.ops = []; // log of operations performed by the code under test
    /** (op, path) => undefined | {code} | {partial, code} ; called per operation */
    this.policy = () => undefined;
    /** called before every synchronous operation of the code under test */
    this.beforeSync = null;
    /** called after an asynchronous operation took effect */
    this.readdirOrder = null;
    this.writes = 0;
    this.fds = new Map();
    this.nextFd = 1000;
  }

  // ---- resolution ----------------------------------------------------
  resolve(path, { follow = true, syscall = "open", parent = false } = {}) {
    let parts = split(path);
    let node = this.root;
    const stack = [];
    const names = [];
    let hops = 0;
    while (parts.length > 0) {
      const name = parts.shift();
      if (name === "..") {
        if (stack.length > 0) { node = stack.pop(); names.pop(); }
        continue;
      }
      if (node.type !== "dir") throw errno("ENOTDIR", syscall, path);
      const child = node.children.get(name);
      if (parent && parts.length === 0) return { dir: node, name, node: child, real: "/" + [...names, name].join("/") };
      if (child == null) throw errno("ENOENT", syscall, path);
      if (child.type === "link" && (follow || parts.length > 0)) {
        if (++hops > 40) throw errno("ELOOP", syscall, path);
        parts = [...split(child.target), ...parts];
        if (child.target.startsWith("/")) { node = this.root; stack.length = 0; names.length = 0; }
        continue;
      }
      stack.push(node);
      names.push(name);
      node = child;
    }
    if (parent) return { dir: null, name: "", node, real: "/" };
    return { node, real: "/" + names.join("/") };
  }

  // ---- workload-side (no faults, no log) ------------------------------
  put(path, data) {
    this.mkdirp(path.slice(0, path.lastIndexOf("/")));
    const { dir, name } = this.resolve(path, { parent: true });
    const n = new Node("file");
    n.data = Buffer.from(data);
    n.mtime = this.sim.now;
    dir.children.set(name, n);
  }
  mkdirp(path) {
    let node = this.root;
    for (const part of split(path)) {
      let c = node.children.get(part);
      if (!c) {
        c = new Node("dir");
        node.children.set(part, c);
      }
      while (c.type === "link") c = this.resolve(c.target).node;
      node = c;
    }
    return node;
  }
  link(path, target) {
    this.mkdirp(path.slice(0, path.lastIndexOf("/")));
    const { dir, name } = this.resolve(path, { parent: true });
    const n = new Node("link");
    n.target = target;
    dir.children.set(name, n);
  }
  special(path) {
    this.mkdirp(path.slice(0, path.lastIndexOf("/")));
    const { dir, name } = this.resolve(path, { parent: true });
    dir.children.set(name, new Node("other"));
  }
  del(path) {
    try {
      const { dir, name } = this.resolve(path, { parent: true });
      return dir.children.delete(name);
    } catch {
      return false;
    }
  }
  get(path) {
    try {
      const { node } = this.resolve(path);
      return node.type === "file" ? node.data.toString("utf8") : null;
    } catch {
      return null;
    }
  }
  has(path) {
    try {
      this.resolve(path);
      return true;
    } catch {
      return false;
    }
  }
  /** every path below `path`, for before/after comparison */
  snapshot(path = SIMROOT) {
    const out = new Map();
    const walk = (n, p) => {
      if (n.type === "dir") {
        out.set(p, "dir");
        for (const [k, c] of n.children) walk(c, `${p}/${k}`);
      } else out.set(p, n.type === "link" ? `-> ${n.target}` : n.type === "file" ? n.data.toString("latin1") : n.type);
    };
    try {
      walk(this.resolve(path).node, path);
    } catch { /* absent */ }
    return out;
  }

  // ---- operations of the code under test ------------------------------
  fault(op, path) {
    const f = this.policy(op, path);
    if (f == null) return null;
    return f;
  }
  run(op, path, extra) {
    const f = this.fault(op, path);
    this.ops.push({ op, path, fault: f?.code ?? null });
    if (f && f.code && f.partial == null) {
      this.sim.fault(`fs:${op}:${f.code}`);
      throw errno(f.code, SYSCALL[op] ?? op, path, true);
    }
    this.sim.event(`fs.${op} ${path}`);
    return this[`do_${op}`](path, extra, f);
  }
  do_readFile(path, options, f) {
    const { node } = this.resolve(path, { syscall: "open" });
    if (node.type === "dir") throw errno("EISDIR", "read");
    let data = node.data;
    if (f && f.partial != null) {
      this.sim.fault("fs:short-read");
      data = data.subarray(0, f.partial % (data.length + 1));
    }
    const enc = typeof options === "string" ? options : options?.encoding;
    return enc ? data.toString(enc) : Buffer.from(data);
  }
  do_stat(path) { return new Stats(this.resolve(path, { syscall: "stat" }).node); }
  do_lstat(path) { return new Stats(this.resolve(path, { syscall: "lstat", follow: false }).node); }
  do_access(path) { this.resolve(path, { syscall: "access" }); }
  do_realpath(path) { return this.resolve(path, { syscall: "realpath" }).real; }
  do_readlink(path) {
    const { node } = this.resolve(path, { follow: false, syscall: "readlink" });
    if (node.type !== "link") throw errno("EINVAL", "readlink", path);
    return node.target;
  }
  do_readdir(path, options) {
    const { node } = this.resolve(path, { syscall: "scandir" });
    if (node.type !== "dir") throw errno("ENOTDIR", "scandir", path);
    let names = [...node.children.keys()];
    if (this.readdirOrder) names = this.readdirOrder(names, path);
    const withTypes = typeof options === "object" && options?.withFileTypes;
    if (typeof options === "object" && options?.recursive) {
      const out = [];
      const visit = (dir, at, rel) => {
        for (const [k, c] of dir.children) {
          out.push(withTypes ? new Dirent(k, c, at) : rel + k);
          if (c.type === "dir") visit(c, `${at}/${k}`, `${rel}${k}/`);
        }
      };
      visit(node, path, "");
      return out;
    }
    return withTypes ? names.map((n) => new Dirent(n, node.children.get(n), path)) : names;
  }
  do_mkdir(path, options) {
    const recursive = typeof options === "object" && options?.recursive;
    if (recursive) {
      let node = this.root;
      for (const part of split(path)) {
        let c = node.children.get(part);
        if (!c) {
          c = new Node("dir");
          node.children.set(part, c);
        }
        let hops = 0;
        while (c.type === "link" && hops++ < 40) c = this.resolve(c.target).node;
        if (c.type !== "dir") throw errno("ENOTDIR", "mkdir", path);
        node = c;
      }
      return undefined;
    }
    const { dir, name, node } = this.resolve(path, { parent: true, syscall: "mkdir" });
    if (node) throw errno("EEXIST", "mkdir", path);
    dir.children.set(name, new Node("dir"));
  }
  openForWrite(path, syscall = "open") {
    this.writes++;
    const r = this.resolve(path, { parent: true, syscall });
    let node = r.node;
    if (node?.type === "link") node = this.resolve(path, { syscall }).node;
    if (r.dir == null || node?.type === "dir") throw errno("EISDIR", syscall, path);
    if (!node) {
      node = new Node("file");
      r.dir.children.set(r.name, node);
    }
    node.mtime = this.sim.now;
    return node;
  }
  do_writeFile(path, { data, options }, f) {
    const node = this.openForWrite(path);
    const buf = typeof data === "string" ? Buffer.from(data, typeof options === "string" ? options : options?.encoding ?? "utf8") : Buffer.from(data);
    const flag = typeof options === "object" && options?.flag || "w";
    const prev = flag.startsWith("a") ? node.data : Buffer.alloc(0);
    if (f && f.partial != null) {
      node.data = Buffer.concat([prev, buf.subarray(0, f.partial % (buf.length + 1))]);
      this.sim.fault(`fs:torn-write:${f.code}`);
      throw errno(f.code, "write", path, true);
    }
    node.data = Buffer.concat([prev, buf]);
  }
  do_rename(from, to) {
    const a = this.resolve(from, { parent: true, syscall: "rename" });
    if (!a.node) throw errno("ENOENT", "rename", from);
    const b = this.resolve(to, { parent: true, syscall: "rename" });
    this.writes++;
    a.dir.children.delete(a.name);
    b.dir.children.set(b.name, a.node);
  }
  do_unlink(path) {
    const a = this.resolve(path, { parent: true, syscall: "unlink" });
    if (!a.node) throw errno("ENOENT", "unlink", path);
    if (a.node.type === "dir") throw errno("EISDIR", "unlink", path);
    this.writes++;
    a.dir.children.delete(a.name);
  }
  do_rm(path, options) {
    const a = this.resolve(path, { parent: true, syscall: "rm" });
    if (!a.node) {
      if (options?.force) return;
      throw errno("ENOENT", "rm", path);
    }
    this.writes++;
    a.dir.children.delete(a.name);
  }
  do_open(path, flags = "r") {
    let node;
    if (/[wa+]/.test(flags)) {
      node = this.openForWrite(path);
      if (flags.startsWith("w")) node.data = Buffer.alloc(0);
    } else {
      // reading through a descriptor meets the faults of reading a file
      const f = this.fault("readFile", path);
      this.ops.push({ op: "readFile", path, fault: f?.code ?? null });
      if (f?.code && f.partial == null) { this.sim.fault(`fs:readFile:${f.code}`); throw errno(f.code, "open", path, true); }
      node = this.resolve(path, { syscall: "open" }).node;
      if (f?.partial != null && node.type === "file") {
        this.sim.fault("fs:short-read");
        const whole = node;
        node = Object.create(whole, { data: { value: whole.data.subarray(0, f.partial % (whole.data.length + 1)), writable: true } });
      }
    }
    const fd = this.nextFd++;
    this.fds.set(fd, { node, path, pos: 0, flags });
    return fd;
  }
}
const SYSCALL = { readFile: "open", writeFile: "open", readdir: "scandir" };

function toPath(p) {
  if (typeof p === "string") return p;
  if (p instanceof URL) return p.protocol === "file:" ? fileURLToPath(p) : null;
  if (Buffer.isBuffer(p)) return p.toString();
  return null;
}
function claim(p) {
  const sim = getCurrent();
  if (!sim?.vfs) return null;
  let path = toPath(p);
  if (path == null) return null;
  if (!path.startsWith("/")) path = `${process.cwd()}/${path}`;
  if (path === SIMROOT || path.startsWith(SIMROOT + "/")) return { vfs: sim.vfs, path, sim };
  return null;
}

function allOf(h, options) {
  if (h.node.type === "dir") throw errno("EISDIR", "read");
  const enc = typeof options === "string" ? options : options?.encoding;
  return enc ? h.node.data.toString(enc) : Buffer.from(h.node.data);
}
function readInto(h, buffer, { offset = 0, length, position }) {
  if (h.node.type === "dir") throw errno("EISDIR", "read");
  const at = typeof position === "number" && position >= 0 ? position : h.pos;
  const room = Math.min(length ?? buffer.byteLength - offset, buffer.byteLength - offset);
  const part = h.node.data.subarray(at, at + room);
  new Uint8Array(buffer.buffer ?? buffer, buffer.byteOffset ?? 0, buffer.byteLength).set(part, offset);
  if (!(typeof position === "number" && position >= 0)) h.pos += part.length;
  return part.length;
}

let installed = false;
export function installSeams() {
  if (installed) return;
  installed = true;

  const patchSync = (name, op, { catchToFalse = false, pack = (a) => a[0] } = {}) => {
    const real = fs[name];
    const wrapped = function (p, ...args) {
      const c = claim(p);
      if (!c) return real.call(fs, p, ...args);
      c.vfs.beforeSync?.(op, c.path);
      if (catchToFalse) {
        try {
          c.vfs.run(op, c.path, pack(args));
          return true;
        } catch {
          return false;
        }
      }
      try {
        return c.vfs.run(op, c.path, pack(args));
      } catch (e) {
        if (args[0] && typeof args[0] === "object" && args[0].throwIfNoEntry === false && (e.code === "ENOENT" || e.code === "ENOTDIR") && (op === "stat" || op === "lstat")) return undefined;
        throw e;
      }
    };
    Object.assign(wrapped, real);
    if (real.native) wrapped.native = wrapped;
    fs[name] = wrapped;
  };
  patchSync("readFileSync", "readFile");
  patchSync("existsSync", "access", { catchToFalse: true });
  patchSync("accessSync", "access");
  patchSync("statSync", "stat");
  patchSync("lstatSync", "lstat");
  patchSync("readdirSync", "readdir");
  patchSync("realpathSync", "realpath");
  patchSync("readlinkSync", "readlink");
  patchSync("mkdirSync", "mkdir");
  patchSync("unlinkSync", "unlink");
  patchSync("rmSync", "rm");
  patchSync("writeFileSync", "writeFile", { pack: (a) => ({ data: a[0], options: a[1] }) });
  patchSync("appendFileSync", "writeFile", { pack: (a) => ({ data: a[0], options: { ...(typeof a[1] === "object" ? a[1] : {}), flag: "a" } }) });
  patchSync("openSync", "open");
  {
    const real = fs.renameSync;
    fs.renameSync = function (a, b) {
      const c = claim(a);
      if (!c) return real.call(fs, a, b);
      return c.vfs.run("rename", c.path, toPath(b));
    };
    const realWrite = fs.writeSync;
    fs.writeSync = function (fd, data, ...rest) {
      const h = getCurrent()?.vfs?.fds.get(fd);
      if (!h) return realWrite.call(fs, fd, data, ...rest);
      const buf = typeof data === "string" ? Buffer.from(data) : Buffer.from(data.buffer ?? data, data.byteOffset ?? 0, data.byteLength ?? data.length);
      h.node.data = Buffer.concat([h.node.data, buf]);
      return buf.length;
    };
    const handle = (fd) => typeof fd === "number" ? getCurrent()?.vfs?.fds.get(fd) : undefined;
    const realReadFile = fs.readFileSync;
    fs.readFileSync = function (fd, ...rest) {
      const h = handle(fd);
      return h ? allOf(h, rest[0]) : realReadFile.call(fs, fd, ...rest);
    };
    const realRead = fs.readSync;
    fs.readSync = function (fd, buffer, ...rest) {
      const h = handle(fd);
      if (!h) return realRead.call(fs, fd, buffer, ...rest);
      const o = typeof rest[0] === "object" && rest[0] ? rest[0] : { offset: rest[0], length: rest[1], position: rest[2] };
      return readInto(h, buffer, o);
    };
    const realFstat = fs.fstatSync;
    fs.fstatSync = function (fd, ...rest) {
      const h = handle(fd);
      return h ? new Stats(h.node) : realFstat.call(fs, fd, ...rest);
    };
    const realClose = fs.closeSync;
    fs.closeSync = function (fd) {
      const v = getCurrent()?.vfs;
      if (!v?.fds.has(fd)) return realClose.call(fs, fd);
      v.fds.delete(fd);
    };
  }

  const patchAsync = (name, op, { pack = (a) => a[0] } = {}) => {
    const realP = fsp[name];
    const impl = (c, args) => c.sim.op(`fs.${op} ${c.path}`, () => c.vfs.run(op, c.path, pack(args)));
    fsp[name] = function (p, ...args) {
      const c = claim(p);
      if (!c) return realP.call(fsp, p, ...args);
      return impl(c, args);
    };
    const realCb = fs[name];
    if (typeof realCb === "function") {
      const w = function (p, ...args) {
        const c = claim(p);
        if (!c) return realCb.call(fs, p, ...args);
        const cb = args.pop();
        impl(c, args).then((v) => cb(null, v), (e) => cb(e));
      };
      Object.assign(w, realCb);
      if (realCb.native) w.native = w;
      fs[name] = w;
    }
  };
  for (const n of ["readFile", "stat", "lstat", "access", "realpath", "readlink", "readdir", "mkdir", "unlink", "rm"]) patchAsync(n, n);
  {
    // writes take effect in two steps: truncate on open, then the data
    const real = fsp.writeFile;
    fsp.writeFile = function (p, data, options) {
      const c = claim(p);
      if (!c) return real.call(fsp, p, data, options);
      return (async () => {
        const flag = typeof options === "object" && options?.flag || "w";
        await c.sim.op(`fs.open-w ${c.path}`, () => {
          const f = c.vfs.fault("open", c.path);
          c.vfs.ops.push({ op: "open", path: c.path, fault: f?.code ?? null });
          if (f?.code) {
            c.sim.fault(`fs:open:${f.code}`);
            throw errno(f.code, "open", c.path, true);
          }
          const node = c.vfs.openForWrite(c.path);
          if (!flag.startsWith("a")) node.data = Buffer.alloc(0);
        });
        await c.sim.op(`fs.writeFile ${c.path}`, () => c.vfs.run("writeFile", c.path, { data, options }));
      })();
    };
    const realAppend = fsp.appendFile;
    fsp.appendFile = function (p, data, options) {
      return claim(p) ? fsp.writeFile(p, data, { ...(typeof options === "object" ? options : options ? { encoding: options } : {}), flag: "a" }) : realAppend.call(fsp, p, data, options);
    };
    const realOpen = fsp.open;
    fsp.open = function (p, flags = "r", mode) {
      const c = claim(p);
      if (!c) return realOpen.call(fsp, p, flags, mode);
      const { vfs, sim, path } = c;
      return sim.op(`fs.open ${path}`, () => {
        const fd = vfs.run("open", path, flags);
        const h = vfs.fds.get(fd);
        const op = (what, f) => sim.op(`fs.${what} ${path}`, () => {
          if (!vfs.fds.has(fd)) throw errno("EBADF", what);
          return f();
        });
        const write = (data, options) => op("writeFile", () => {
          const buf = typeof data === "string" ? Buffer.from(data, typeof options === "string" ? options : options?.encoding ?? "utf8") : Buffer.from(data);
          const f = vfs.fault("writeFile", path);
          vfs.ops.push({ op: "writeFile", path, fault: f?.code ?? null });
          const part = f?.code ? buf.subarray(0, (f.partial ?? 0) % (buf.length + 1)) : buf;
          h.node.data = Buffer.concat([h.node.data, part]);
          if (f?.code) { sim.fault(`fs:torn-write:${f.code}`); throw errno(f.code, "write", path, true); }
          return { bytesWritten: buf.length, buffer: data };
        });
        return {
          fd,
          stat: () => op("fstat", () => new Stats(h.node)),
          readFile: (options) => op("readFile", () => allOf(h, options)),
          read: (a, ...rest) => op("readFile", () => {
            const o = a && !ArrayBuffer.isView(a) ? a : { buffer: a, ...(typeof rest[0] === "object" && rest[0] ? rest[0] : { offset: rest[0], length: rest[1], position: rest[2] }) };
            const buffer = o.buffer ?? Buffer.alloc(16384);
            return { bytesRead: readInto(h, buffer, o), buffer };
          }),
          writeFile: async (d, o) => { await write(d, o); }, appendFile: async (d, o) => { await write(d, o); }, write,
          truncate: (n = 0) => op("truncate", () => { h.node.data = h.node.data.subarray(0, n); }),
          sync: () => op("fsync", () => {}), datasync: () => op("fsync", () => {}),
          close: () => op("close", () => { vfs.fds.delete(fd); }),
          async [Symbol.asyncDispose ?? Symbol.for("nodejs.asyncDispose")]() { if (vfs.fds.has(fd)) await this.close(); },
        };
      });
    };
    const realOpendir = fsp.opendir;
    fsp.opendir = async function (p, options) {
      if (!claim(p)) return realOpendir.call(fsp, p, options);
      const entries = await fsp.readdir(p, { ...options, withFileTypes: true });
      return {
        path: toPath(p), async read() { return entries.shift() ?? null; }, async close() {},
        async *[Symbol.asyncIterator]() { while (entries.length) yield entries.shift(); },
      };
    };
    const realRename = fsp.rename;
    fsp.rename = function (a, b) {
      const c = claim(a);
      if (!c) return realRename.call(fsp, a, b);
      return c.sim.op(`fs.rename ${c.path}`, () => c.vfs.run("rename", c.path, toPath(b)));
    };
    fsp.rm = ((realRm) => function (p, o) {
      const c = claim(p);
      if (!c) return realRm.call(fsp, p, o);
      return c.sim.op(`fs.rm ${c.path}`, () => c.vfs.run("rm", c.path, o));
    })(fsp.rm);
  }
  if (fs.promises !== fsp) {
    for (const k of Object.keys(fsp)) {
      try {
        fs.promises[k] = fsp[k];
      } catch { /* getter */ }
    }
  }

  // ---- process -------------------------------------------------------
  const realCwd = process.cwd.bind(process);
  process.cwd = () => getCurrent()?.cwd ?? realCwd();
  const realExit = process.exit.bind(process);
  process.exit = (code) => {
    const sim = getCurrent();
    if (!sim?.captureExit) return realExit(code);
    sim.event(`process.exit(${code})`);
    return sim.captureExit(code);
  };
  for (const name of ["stdout", "stderr"]) {
    const stream = process[name];
    const realWrite = stream.write.bind(stream);
    stream.write = (chunk, enc, cb) => {
      const sim = getCurrent();
      if (sim?.captureOut) {
        sim.captureOut(name, typeof chunk === "string" ? chunk : Buffer.from(chunk).toString("utf8"));
        const f = typeof enc === "function" ? enc : cb;
        if (typeof f === "function") f();
        return true;
      }
      return realWrite(chunk, enc, cb);
    };
  }
  syncBuiltinESMExports();
}
