"use strict";
// driver.js MODULE.wasm WASM_EXEC.js: loads the module, then calls
// generateQRCode for each line of standard input and prints one result line
// ("@@" + JSON) for each.
const fs = require("fs");
globalThis.require = require;
globalThis.fs = fs;
globalThis.path = require("path");
globalThis.TextEncoder = require("util").TextEncoder;
globalThis.TextDecoder = require("util").TextDecoder;
globalThis.performance ??= require("performance");
globalThis.crypto ??= require("crypto");
require(process.argv[3]);

// special values are written {"$": name}
function value(v) {
  if (v === null || typeof v !== "object") return v;
  if (Array.isArray(v)) return v.map(value);
  switch (v.$) {
    case undefined: break;
    case "undefined": return undefined;
    case "nan": return NaN;
    case "inf": return Infinity;
    case "symbol": return Symbol("s");
    case "bigint": return 12n;
    case "function": return () => 1;
    case "date": return new Date(0);
    case "number object": return new Number(7);
    case "string object": return new String("L");
    case "wide": return String.fromCharCode(0xd800);
  }
  // an object: one of its own, one used again with other fields, or one whose
  // fields are inherited, computed or cannot change
  let o = {};
  if (v.$ === "shared") {
    o = shared;
    for (const k of Object.keys(o)) delete o[k];
  }
  for (const k of Object.keys(v)) {
    if (k === "$") continue;
    if (v.$ === "getters") {
      const x = value(v[k]);
      Object.defineProperty(o, k, { get: () => x, enumerable: true });
    } else {
      o[k] = value(v[k]);
    }
  }
  if (v.$ === "inherit") o = Object.create(o);
  if (v.$ === "frozen") Object.freeze(o);
  return o;
}
const shared = {};

const go = new Go();
go.argv = ["qrcode"];
let exited = false;
WebAssembly.instantiate(fs.readFileSync(process.argv[2]), go.importObject).then((r) => {
  go.run(r.instance).then(() => { exited = true; });
  const lines = fs.readFileSync(0, "utf8").split("\n").filter((l) => l !== "");
  for (const l of lines) {
    let out;
    try {
      const before = l;
      const args = value(JSON.parse(l));
      const snap = JSON.stringify(args, (k, x) => (typeof x === "bigint" ? "n" : x));
      const f = globalThis.generateQRCode;
      const res = f(...args);
      out = { kind: typeof res, res: res, keys: Object.keys(res).sort(), exited: exited || !!go.exited,
        changed: JSON.stringify(args, (k, x) => (typeof x === "bigint" ? "n" : x)) !== snap };
    } catch (e) {
      out = { threw: String(e), exited: exited || !!go.exited };
    }
    fs.writeSync(1, "@@" + JSON.stringify(out) + "\n");
  }
  process.exit(0);
}).catch((e) => { console.error("driver:", e); process.exit(3); });
