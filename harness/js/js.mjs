// node js.mjs parse-js.wasm wasm_exec.js: calls parse_edtf of one instance, again and again.
import fs from 'node:fs';
import { createRequire } from 'node:module';
import { serve, within } from './common.mjs';

const require = createRequire(import.meta.url);
require(process.argv[3]); // defines Go

const go = new globalThis.Go();
const { instance } = await WebAssembly.instantiate(fs.readFileSync(process.argv[2]), go.importObject);
let exited = false;
go.run(instance).then(() => { exited = true; }, () => { exited = true; });
for (let i = 0; i < 200 && typeof globalThis.parse_edtf !== 'function'; i++) await new Promise(r => setTimeout(r, 10));

function call(s, seen) {
  const r = { promise: false, state: 'none', value: '' };
  let p;
  try {
    p = globalThis.parse_edtf(s);
  } catch (e) {
    r.state = 'thrown';
    r.value = String(e);
    return [r, Promise.resolve()];
  }
  r.promise = p instanceof Promise;
  const settle = state => v => {
    if (r.state !== 'none') r.state = 'twice';
    else {
      r.state = state;
      r.type = typeof v;
      r.value = v instanceof Error ? v.message : String(v);
    }
    if (seen) return seen();
  };
  return [r, Promise.resolve(p).then(settle('resolved'), settle('rejected'))];
}

await serve(async ({ strings, mode }) => {
  const results = [];
  if (mode === 'together') {
    const all = strings.map(s => call(s));
    await within(Promise.all(all.map(a => a[1])), 60000, 'together');
    results.push(...all.map(a => a[0]));
  } else if (mode === 'nested') {
    // each call is made where the answer of the one before is delivered
    const go = i => {
      if (i >= strings.length) return;
      const [r, p] = call(strings[i], () => go(i + 1));
      results[i] = r;
      return p;
    };
    await within(go(0), 60000, 'nested');
  } else {
    for (const s of strings) {
      const [r, p] = call(s);
      await within(p, 60000, JSON.stringify(s));
      results.push(r);
    }
  }
  return { results, exited, ready: typeof globalThis.parse_edtf === 'function' };
});
