// Requests come as lines of JSON, and so do the answers.
import readline from 'node:readline';

export async function serve(answer) {
  const rl = readline.createInterface({ input: process.stdin, terminal: false });
  for await (const line of rl) {
    if (line === '') continue;
    let out;
    try {
      out = await answer(JSON.parse(line));
    } catch (e) {
      out = { failed: String(e && e.stack || e) };
    }
    process.stdout.write(JSON.stringify(out) + '\n');
  }
  process.exit(0);
}

export const within = (p, ms, what) => Promise.race([p, new Promise((_, no) => {
  const t = setTimeout(() => no(new Error('nothing within ' + ms + ' ms: ' + what)), ms);
  t.unref();
})]);
