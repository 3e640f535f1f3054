// Compares a wasm build with the native results recorded by the harness.
// usage: node wasm_compare.js PKG_MODULE CASES.jsonl OUT.json
const fs = require("fs"), path = require("path");
const w = require(path.resolve(process.argv[2]));
const norm = (v) => Array.isArray(v) ? v.map(norm) : v && typeof v === "object" ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, norm(v[k])])) : v;
let n = 0, bad = null; const per = {};
for (const line of fs.readFileSync(process.argv[3], "utf8").split("\n")) {
  if (!line) continue;
  const c = JSON.parse(line);
  if (!c.f || typeof w[c.f] !== "function") continue;
  if (c.object) { c.a = c.a.slice(); c.a[0] = JSON.parse(c.a[0]); }
  const variants = [c.a];
  if (c.f === "extractSubstrIdxes" || c.f === "extractSubstr") { const b = c.a.slice(); b[1] = JSON.parse(b[1]); variants.push(b); }
  for (const args of variants) {
    let r; try { r = w[c.f](...args); } catch (e) { r = null; }
    if (c.json) { c.r = norm(JSON.parse(c.r)); c.json = false; }
    if (c.object && c.f === "genRegexAndDfa" && typeof r === "string") r = norm(JSON.parse(r));
    n++; per[c.f] = (per[c.f] || 0) + 1;
    if (JSON.stringify(r) !== JSON.stringify(c.r)) { bad = { what: "the wasm binding differs from the specified result", input: { function: c.f, args }, expected: c.r, actual: r }; break; }
  }
  if (bad) break;
}
fs.writeFileSync(process.argv[4], JSON.stringify({ compared: n, per, violation: bad }));
