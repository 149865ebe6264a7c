// C24: runs the repository's run.mjs once per argument vector, in one process: every import with a
// fresh query is a fresh evaluation of the whole script.
// usage: node vectors.mjs RUNTIME VECTORS   (VECTORS: JSON list of [module, arg...])
import {readFileSync, writeSync} from "fs";
const [rt, list] = process.argv.slice(2);
const vectors = JSON.parse(readFileSync(list, "utf8"));
const exit = process.exit;
let n = 0;
for (const v of vectors) {
  process.argv = [process.argv[0], `${rt}/run.mjs`, ...v];
  let code;
  class Exit { constructor(c) { code = c; } }
  process.exitCode = undefined;
  process.exit = (c) => { throw new Exit(c === undefined ? process.exitCode ?? 0 : c); };
  try { await import(`${rt}/run.mjs?n=${n++}`); if (code === undefined) code = process.exitCode ?? 0; }
  catch (e) { if (!(e instanceof Exit)) { code = 1; process.stderr.write(`${e}\n`); } }
  process.exitCode = undefined;
  process.stdout.write(`\n<<<${Number(code) & 255}>>>\n`);
}
exit(0);
