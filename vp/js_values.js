// Compares what modules export with expected JSON values.
// one request per line: [{src, want: {name: json text}}...] -> [null or reason]; want null: {value: exports}
const rl = require('readline').createInterface({ input: process.stdin });
function same(a, b) {
  if (a === null || typeof a !== 'object' || b === null || typeof b !== 'object') return Object.is(a, b);
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const k = Reflect.ownKeys(a), l = Reflect.ownKeys(b);
  return k.length === l.length && k.every((x) => Object.prototype.hasOwnProperty.call(b, x) && same(a[x], b[x]));
}
async function one(r) {
  let m;
  try {
    m = await import('data:text/javascript;base64,' + Buffer.from(r.src, 'utf8').toString('base64'));
  } catch (e) { return 'no valid module: ' + e; }
  if (r.want === null) return { value: Object.fromEntries(Object.entries(m)) };
  const names = Object.keys(m).sort();
  const want = Object.keys(r.want).sort();
  if (JSON.stringify(names) !== JSON.stringify(want)) return 'exports ' + JSON.stringify(names).slice(0, 300) + ' instead of ' + JSON.stringify(want).slice(0, 300);
  for (const n of want) if (!same(m[n], JSON.parse(r.want[n]))) return n + ' is ' + JSON.stringify(m[n]) + ' instead of ' + r.want[n];
  return null;
}
(async () => {
  for await (const line of rl) {
    const out = [];
    for (const r of JSON.parse(line)) out.push(await one(r));
    process.stdout.write(JSON.stringify(out) + '\n');
  }
})();
