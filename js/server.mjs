// Runs parseString of the WebAssembly build.  Reads sources from standard
// input, one JSON string per line, and writes one JSON line for each: what
// was returned or thrown, with every value tagged by its type.
//
// The glue below stands in for what wasm-bindgen would generate: values of
// JavaScript are held in a table and known to the library by their index.
import fs from "node:fs";
import readline from "node:readline";

const wasm = new WebAssembly.Module(fs.readFileSync(process.argv[2]));

const decoder = () => new TextDecoder("utf-8", { ignoreBOM: true, fatal: true });
const encoder = new TextEncoder();

class Library {
  constructor() {
    this.heap = new Array(128).fill(undefined);
    this.heap.push(undefined, null, true, false);
    this.free = [];
    const self = this;
    const text = (p, n) =>
      decoder().decode(new Uint8Array(self.exports.memory.buffer, p >>> 0, n >>> 0));
    const glue = {
      __wbindgen_describe() {},
      __wbindgen_number_new: (x) => self.put(x),
      __wbindgen_as_number: (i) => Number(self.heap[i]),
      __wbindgen_error_new: (p, n) => self.put(new Error(text(p, n))),
      __wbindgen_object_clone_ref: (i) => self.put(self.heap[i]),
      __wbindgen_object_drop_ref: (i) => {
        self.take(i);
      },
      __wbindgen_string_new: (p, n) => self.put(text(p, n)),
      __wbindgen_is_string: (i) => (typeof self.heap[i] === "string" ? 1 : 0),
      __wbindgen_throw: (p, n) => {
        throw new Error("thrown: " + text(p, n));
      },
      __wbindgen_externref_table_grow: () => -1,
      __wbindgen_externref_table_set_null() {},
    };
    // By name without the hash, as that changes with wasm-bindgen's version.
    const make = (name) => {
      if (name in glue) return glue[name];
      const base = name.replace(/_[0-9a-f]{16}$/, "");
      switch (base) {
        case "__wbg_String":
          // Writes the string of a value to an out pointer.
          return (out, i) => {
            const [p, n] = self.pass(String(self.heap[i]));
            const v = new DataView(self.exports.memory.buffer);
            v.setInt32(out + 4, n, true);
            v.setInt32(out, p, true);
          };
        case "__wbg_new":
          return self.maker(name);
        case "__wbg_set":
          return (target, k, v) => self.set(target, k, v);
        case "__wbg_log":
          return () => {};
      }
      return () => {
        throw new Error("no glue for " + name);
      };
    };
    const imports = {};
    for (const i of WebAssembly.Module.imports(wasm)) {
      (imports[i.module] ??= {})[i.name] = make(i.name);
    }
    this.exports = new WebAssembly.Instance(wasm, imports).exports;
  }

  // Which constructors the three makers stand for is known by their hashes,
  // which are those of wasm-bindgen's own names and fixed by js-sys.
  maker(name) {
    const makers = {
      __wbg_new_78feb108b6472713: () => [],
      __wbg_new_5e0be73521bc8c17: () => new Map(),
      __wbg_new_405e22f390576ce2: () => ({}),
    };
    if (!(name in makers)) throw new Error("no glue for " + name);
    return () => this.put(makers[name]());
  }

  set(target, k, v) {
    const t = this.heap[target];
    if (t instanceof Map) {
      // The key and value are only lent.
      return this.put(t.set(this.heap[k], this.heap[v]));
    }
    if (Array.isArray(t)) {
      t[k >>> 0] = this.take(v);
      return undefined;
    }
    t[this.take(k)] = this.take(v);
    return undefined;
  }

  put(x) {
    const i = this.free.length ? this.free.pop() : this.heap.length;
    this.heap[i] = x;
    return i;
  }

  take(i) {
    const x = this.heap[i];
    if (i >= 132) {
      this.heap[i] = undefined;
      this.free.push(i);
    }
    return x;
  }

  pass(s) {
    const b = encoder.encode(s);
    const p = this.exports.__wbindgen_malloc(b.length, 1) >>> 0;
    new Uint8Array(this.exports.memory.buffer, p, b.length).set(b);
    return [p, b.length];
  }

  parse(s) {
    const [p, n] = this.pass(s);
    const out = this.exports.__wbindgen_malloc(16, 8) >>> 0;
    this.exports.parseString(out, p, n);
    const v = new DataView(this.exports.memory.buffer);
    const [value, error, failed] = [0, 4, 8].map((o) => v.getUint32(out + o, true));
    this.exports.__wbindgen_free(out, 16, 8);
    if (failed) throw { thrown: this.take(error) };
    return this.take(value);
  }
}

const bits = new DataView(new ArrayBuffer(8));

function tagged(x) {
  if (x === undefined) return ["undefined"];
  if (x === null) return ["null"];
  switch (typeof x) {
    case "boolean":
      return ["boolean", x];
    case "number":
      bits.setFloat64(0, x);
      return ["number", bits.getBigUint64(0).toString(16)];
    case "string":
      return ["string", x];
  }
  if (Array.isArray(x)) return ["array", Array.from(x, tagged)];
  if (x instanceof Map) return ["map", [...x].map(([k, v]) => [tagged(k), tagged(v)])];
  if (Object.getPrototypeOf(x) === Object.prototype) {
    const ks = Object.keys(x).sort();
    return ["object", ks.map((k) => [k, tagged(x[k])])];
  }
  return ["other", String(x)];
}

let library = new Library();
for await (const line of readline.createInterface({ input: process.stdin })) {
  let answer;
  try {
    answer = { value: tagged(library.parse(JSON.parse(line))) };
  } catch (e) {
    if (e && e.thrown !== undefined) {
      const t = e.thrown;
      answer = t instanceof Error ? { error: t.message } : { broken: "threw " + String(t) };
    } else {
      // A trap: the instance is lost.
      answer = { broken: String(e) };
      library = new Library();
    }
  }
  process.stdout.write(JSON.stringify(answer) + "\n");
}
