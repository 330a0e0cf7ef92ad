// node wasi.mjs parse-p1.wasm: runs the WASI program, once for each request.
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { WASI } from 'node:wasi';
import { serve } from './common.mjs';

const module = await WebAssembly.compile(fs.readFileSync(process.argv[2]));
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-wasi-'));
process.on('exit', () => fs.rmSync(dir, { recursive: true, force: true }));

await serve(async ({ args }) => {
  const out = path.join(dir, 'out'), err = path.join(dir, 'err');
  const o = fs.openSync(out, 'w'), e = fs.openSync(err, 'w');
  let code, trap = '';
  try {
    const wasi = new WASI({ version: 'preview1', args: ['parse-p1', ...args], env: {}, stdout: o, stderr: e, returnOnExit: true });
    const instance = await WebAssembly.instantiate(module, wasi.getImportObject());
    code = wasi.start(instance);
  } catch (x) {
    code = -1;
    trap = String(x && x.stack || x);
  } finally {
    fs.closeSync(o);
    fs.closeSync(e);
  }
  return { code, stdout: fs.readFileSync(out, 'utf8'), stderr: fs.readFileSync(err, 'utf8') + trap };
});
