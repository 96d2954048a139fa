// Runs the module of this crate: node run.js host.wasm corpus-dir jobs inputs
// Each line of jobs is "case PART CASE SEED" or "answer WAY SALT-LO SALT-HI OFFSET LENGTH LOG";
// each answer is one line: the job's number, "ok" or "err" or "trap", and a message.
const fs = require('fs'), path = require('path');
const [, , wasm, corpusDir, jobsFile, inputsFile] = process.argv;
const mod = new WebAssembly.Module(fs.readFileSync(wasm));
function walk(d, out) {
  for (const e of fs.readdirSync(d, { withFileTypes: true })) {
    const p = path.join(d, e.name);
    if (e.isDirectory()) walk(p, out);
    else out.push(p);
  }
}
const files = [];
walk(corpusDir, files);
const corpus = files.map(p => [Buffer.from(path.relative(corpusDir, p)), fs.readFileSync(p)]);
corpus.sort((a, b) => Buffer.compare(a[0], b[0]));
const inputs = fs.existsSync(inputsFile) ? fs.readFileSync(inputsFile) : Buffer.alloc(0);
let inst = null, seen = [0, 0];
function put(parts) {
  let n = 0;
  for (const p of parts) n += p.length;
  let at = inst.host_buf(n) >>> 0;
  const m = new Uint8Array(inst.memory.buffer);
  for (const p of parts) { m.set(p, at); at += p.length; }
  return n;
}
function out() {
  const at = inst.host_out() >>> 0, n = inst.host_out_len() >>> 0;
  return Buffer.from(inst.memory.buffer, at, n).toString();
}
function start() {
  inst = new WebAssembly.Instance(mod, {}).exports;
  inst.host_init();
  for (const [n, b] of corpus) inst.host_corpus(n.length, put([n, b]));
}
function count() {
  inst.host_seen();
  const [a, b] = out().split(' ');
  seen[0] += +a; seen[1] += +b;
}
const jobs = fs.readFileSync(jobsFile, 'utf8').split('\n').filter(x => x);
const done = [];
start();
jobs.forEach((j, i) => {
  const f = j.split(' ');
  // Memory only grows: begin again before it runs out.
  if (inst.memory.buffer.byteLength > 1 << 30) { count(); start(); }
  try {
    let r = 'ok', m = '';
    if (f[0] == 'case') {
      if (!inst.host_case(+f[1], +f[2], +f[3])) { r = 'err'; m = out(); }
    } else {
      const n = put([inputs.subarray(+f[4], +f[4] + +f[5])]);
      inst.host_answer(+f[1], +f[2], +f[3], n, +f[6]);
      m = out();
    }
    done.push(`${i}\t${r}\t${m.replace(/\n/g, '\x1f')}`);
  } catch (e) {
    let m = '';
    try { m = out(); } catch { }
    done.push(`${i}\ttrap\t${(e.message + ' ' + m + (m ? '' : e.stack)).replace(/\n/g, '\x1f')}`);
    start();
  }
});
count();
process.stdout.write(done.join('\n') + `\nseen\t${seen[0]}\t${seen[1]}\n`);
