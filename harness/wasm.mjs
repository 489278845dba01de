// Runs the harness as a 32-bit program: node wasm.mjs vp.wasm arguments…
import fs from 'node:fs';
import { Worker, isMainThread, workerData } from 'node:worker_threads';

const start = isMainThread ? Date.now() / 1000 : workerData.start;

if (isMainThread) {
  // for a deep stack
  const due = new Int32Array(new SharedArrayBuffer(4));
  const w = new Worker(new URL(import.meta.url), {
    workerData: { argv: process.argv.slice(2), due, start },
    resourceLimits: { stackSizeMb: 200, maxOldGenerationSizeMb: 1000 },
  });
  w.on('error', (e) => { fs.writeSync(2, 'worker: ' + e + '\n'); process.kill(process.pid, 'SIGABRT'); });
  // what alarm(2) does elsewhere
  setInterval(() => {
    const at = Atomics.load(due, 0);
    if (at && Date.now() / 1000 - start > at) process.kill(process.pid, 'SIGALRM');
  }, 500).unref();
} else {
  const { argv: [path, ...args], due } = workerData;
  const opt = (k) => { const i = args.indexOf('--' + k); return i < 0 ? null : args[i + 1]; };
  let mem = null, opened = Buffer.alloc(0);
  const bytes = (p, n) => Buffer.from(mem.buffer, p >>> 0, n >>> 0);
  const text = (p, n) => bytes(p, n).toString('utf8');
  const host = {
    host_now: () => performance.now() / 1000,
    host_alarm: (secs) => { Atomics.store(due, 0, secs ? Math.ceil(Date.now() / 1000 - start + secs) + 1 : 0); },
    host_print: (p, n) => { fs.writeSync(1, Buffer.concat([bytes(p, n), Buffer.from('\n')])); },
    host_exit: (code) => { process.reallyExit ? process.reallyExit(code) : process.exit(code); throw new Error('exit'); },
    host_open: (p, n) => {
      if (n === 0) {
        opened = Buffer.from(args.join('\0'));
      } else {
        try { opened = fs.readFileSync(text(p, n)); } catch { return -1; }
      }
      return opened.length;
    },
    host_fetch: (p) => { bytes(p, opened.length).set(opened); },
    host_write: (p, n, q, len) => { fs.writeFileSync(text(p, n), bytes(q, len)); },
  };
  const m = new WebAssembly.Module(fs.readFileSync(path));
  const inst = new WebAssembly.Instance(m, { host });
  mem = inst.exports.memory;
  let code = 0;
  try {
    inst.exports.main(0, 0);
  } catch (e) {
    fs.writeSync(1, 'trap: ' + e + '\n');
    if (opt('journal')) {
      const at = inst.exports.journal() >>> 0;
      const n = at ? Number(mem && new DataView(mem.buffer).getBigUint64(at, true)) : 0;
      fs.writeFileSync(opt('journal'), Buffer.from(bytes(at, (n + 1) * 8)));
    }
    code = -1;
  }
  if (code) process.kill(process.pid, 'SIGABRT');
}
