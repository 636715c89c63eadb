// Runs the state machines of /repo/starkjs with stand-ins for the packages they import.
// stdin: one JSON object a line {machine, n, pols, input, cache}; stdout: "ok" or "error: ..." a line.
const Module = require("module");
const path = require("path");
const fs = require("fs");
const readline = require("readline");
const ROOT = "/repo/starkjs";
const P = 0xffffffff00000001n;

const norm = (v) => {
  v = BigInt(v) % P;
  return v < 0n ? v + P : v;
};
const pow = (b, e) => {
  let r = 1n;
  for (b = norm(b); e > 0n; e >>= 1n) {
    if (e & 1n) r = (r * b) % P;
    b = (b * b) % P;
  }
  return r;
};
class Field {
  constructor(p) {
    if (p !== undefined && BigInt(p) !== P) throw new Error("field " + p);
    this.p = P;
    this.zero = 0n;
    this.one = 1n;
    this.k = 12275445934081160404n;
    this.w = [];
    for (let i = 0n; i <= 32n; i++) this.w.push(pow(7n, (P - 1n) >> i));
  }
  e(v) { return norm(v); }
  add(a, b) { return norm(a + b); }
  sub(a, b) { return norm(a - b); }
  mul(a, b) { return norm(a * b); }
  neg(a) { return norm(-a); }
  square(a) { return norm(a * a); }
  double(a) { return norm(a + a); }
  exp(a, e) { return pow(a, BigInt(e)); }
  pow(a, e) { return pow(a, BigInt(e)); }
  inv(a) { return pow(a, P - 2n); }
  div(a, b) { return norm(a * pow(b, P - 2n)); }
  eq(a, b) { return norm(a) === norm(b); }
  isZero(a) { return norm(a) === 0n; }
}
const FGL = new Field();
let current = null;
// a column holds 64-bit words, as the real one does
const column = (n) => new BigUint64Array(n);
function polsArray(kind) {
  const list = current.pols.filter((p) => p.kind === kind);
  const all = [];
  const root = {};
  for (const p of list) {
    const at = p.name.indexOf(".");
    const [ns, name] = [p.name.slice(0, at), p.name.slice(at + 1)];
    root[ns] = root[ns] || {};
    if (p.len === null) {
      const c = column(current.n);
      root[ns][name] = c;
      all.push([p.id, c]);
    } else {
      root[ns][name] = [];
      for (let i = 0; i < p.len; i++) {
        const c = column(current.n);
        root[ns][name].push(c);
        all.push([p.id + i, c]);
      }
    }
  }
  all.sort((a, b) => a[0] - b[0]);
  Object.defineProperty(root, "saveToFile", {
    value(file) {
      const out = new BigUint64Array(current.n * all.length);
      all.forEach(([, c], j) => {
        for (let i = 0; i < current.n; i++) out[i * all.length + j] = c[i];
      });
      fs.writeFileSync(file, new Uint8Array(out.buffer));
    },
  });
  return root;
}
const noop = () => ({});
const pilcom = {
  compile: async () => ({ stand_in: true }),
  newConstantPolsArray: () => polsArray("constant"),
  newCommitPolsArray: () => polsArray("commit"),
  verifyPil: async () => [],
  BigBuffer: class {},
  getKs(f, n) {
    const ks = [f.k];
    for (let i = 1; i < n; i++) ks.push(f.mul(ks[i - 1], ks[0]));
    return ks;
  },
};
let argv = {};
const yargs = new Proxy(function () {}, {
  get: (_, k) => (k === "argv" ? argv : () => yargs),
});
const stubs = {
  pilcom,
  "pil-stark": { FGL, starkSetup: noop, starkGen: noop, starkVerify: noop },
  ffjavascript: { F1Field: Field },
  yargs,
  chai: { assert: Object.assign((c, m) => { if (!c) throw new Error(m || "assertion"); }, { equal: (a, b) => { if (a != b) throw new Error("assertion"); } }) },
  ejs: {},
  "json-bigint": () => JSON,
};
const load = Module._load;
Module._load = function (request, parent, isMain) {
  if (Object.prototype.hasOwnProperty.call(stubs, request)) return stubs[request];
  if (request.includes("node_modules/pil-stark")) return noop;
  return load.call(this, request, parent, isMain);
};
console.log = () => {};

const { pil_verifier } = require(path.join(ROOT, "index.js"));
const generate = pil_verifier.generate;
const scripts = {
  fibonacci: "fibonacci/fibonacci.js",
  poseidon: "poseidon/main_poseidon.js",
  permutation: "permutation/permutation.js",
  plookup: "plookup/plookup.js",
  connection: "connection/connection.js",
};
const machines = {};
// the scripts hand their executor to generate when they are loaded
function machine(name) {
  if (!machines[name]) {
    pil_verifier.generate = async function (...a) { machines[name] = a; };
    argv = { workspace: "/nowhere", w: "/nowhere", input: "0", i: "0", pil: "fibonacci.pil", p: "fibonacci.pil", pilCache: "/nowhere", pc: "/nowhere" };
    require(path.join(ROOT, scripts[name]));
    pil_verifier.generate = generate;
    if (!machines[name]) throw new Error("the script does not generate");
  }
  return machines[name];
}
// an input in decimal text, nested at will
const big = (v) => (Array.isArray(v) ? v.map(big) : BigInt(v));
async function run(c) {
  const [, pilFile, config, , builder, starkStruct, addr] = machine(c.machine);
  if (c.what === "struct") return JSON.stringify({ pil: pilFile, struct: starkStruct });
  current = c;
  await generate.call(pil_verifier, c.dir, pilFile, config, c.dir + "/m", builder, starkStruct, addr, big(c.input));
  return "ok";
}
const rl = readline.createInterface({ input: process.stdin });
(async () => {
  for await (const line of rl) {
    let out;
    try {
      out = await run(JSON.parse(line));
    } catch (e) {
      out = "error: " + String((e && e.message) || e).split("\n")[0];
    }
    process.stdout.write(out + "\n");
  }
})();
