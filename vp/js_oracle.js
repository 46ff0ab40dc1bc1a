// Reference parser: one JSON request per line on stdin, one JSON reply per line on stdout.
// {srcs:[...], type:"module"|"script"} -> [normalised AST text or null, ...]
const acorn = require("/opt/veriftools/node/node_modules/acorn");
const rl = require("readline").createInterface({ input: process.stdin, crlfDelay: Infinity });

function norm(n) {
  if (n === null || n === undefined) return n === null ? null : undefined;
  if (typeof n === "bigint") return "bigint:" + n;
  if (Array.isArray(n)) return n.map(norm);
  if (n instanceof RegExp) return undefined;
  if (typeof n === "object") {
    const o = {};
    for (const k of Object.keys(n).sort()) {
      if (k === "start" || k === "end" || k === "sourceType") continue;
      if (n.type === "Literal" && k === "raw") continue;
      if (n.type === "Literal" && k === "value" && n.regex) continue;
      if (k === "directive") { o[k] = n[k] === "use strict"; continue; }
      o[k] = norm(n[k]);
    }
    return o;
  }
  if (typeof n === "number" && !Number.isFinite(n)) return "num:" + n;
  return n;
}

rl.on("line", (line) => {
  const q = JSON.parse(line);
  const res = q.srcs.map((s) => {
    try {
      return JSON.stringify(norm(acorn.parse(s, {
        ecmaVersion: "latest", sourceType: q.type || "module", allowHashBang: true,
        allowReturnOutsideFunction: false,
      })));
    } catch (e) {
      return null;
    }
  });
  process.stdout.write(JSON.stringify(res) + "\n");
});
