// Runs one harness entry concretely in node's WebAssembly engine.
//   node replay.mjs FILE.wasm < [{"entry":..,"params":[..],"inputs":[..]}, ..]   (JSON on stdin)
// prints a JSON list: {end: "return"|"panic"|"stop"|"trap"|"check"|"assume", what, obs: [..], reach: [..]}
import { readFileSync } from 'node:fs';

const mod = new WebAssembly.Module(readFileSync(process.argv[2]));
const jobs = JSON.parse(readFileSync(0, 'utf8'));
class End extends Error {
  constructor(kind, what) { super(kind); this.kind = kind; this.what = what; }
}

function run(job) {
  const params = job.params.map((x) => BigInt(x));
  const inputs = job.inputs.map((x) => BigInt(x));
  let k = 0, expect = false, top, mem;
  const obs = [], reach = [];
  const blocks = new Map();
  const str = (p, n) => Buffer.from(mem.buffer, p >>> 0, n >>> 0).toString('utf8');
  const env = {
    sym_range(lo, hi) { const v = k < inputs.length ? inputs[k] : lo; k++; return BigInt.asIntN(64, v); },
    sym_choice(n) { if (n === 0) throw new End('assume', 'empty choice'); const v = k < inputs.length ? inputs[k] : 0n; k++; return Number(v) | 0; },
    sym_assume(c) { if (!c) throw new End('assume', ''); },
    sym_check(c, p, n) { if (!c) throw new End('check', str(p, n)); },
    sym_reach(p, n) { reach.push(str(p, n)); },
    sym_observe(v) { obs.push(BigInt.asUintN(64, v).toString()); },
    sym_expect_panic(c) { expect = c !== 0; },
    sym_param(i) { return i < params.length ? params[i] : 0n; },
    sym_alloc(size, align) {
      size >>>= 0;
      if (size > (1 << 24)) return 0;
      const al = Math.max(align >>> 0, 8);
      const start = (top + 16 + al - 1) & ~(al - 1);
      top = start + size + 16;
      if (top > mem.buffer.byteLength) mem.grow(Math.ceil((top - mem.buffer.byteLength) / 65536) + 16);
      new Uint8Array(mem.buffer, start, size).fill(0xA5);
      blocks.set(start, size);
      return start;
    },
    sym_dealloc(p, size) {
      p >>>= 0;
      if (blocks.get(p) !== size >>> 0) throw new End('memory', 'bad free');
      blocks.delete(p);
    },
    sym_live() { return blocks.size; },
    sym_live_bytes() { let n = 0; for (const s of blocks.values()) n += s; return n; },
    sym_stop() { throw new End('stop', ''); },
  };
  const inst = new WebAssembly.Instance(mod, { env });
  mem = inst.exports.memory;
  top = mem.buffer.byteLength;
  let end = 'return', what = '';
  try {
    inst.exports[job.entry]();
  } catch (e) {
    if (e instanceof End) { end = e.kind; what = e.what; }
    else if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) {
      end = expect && e.message.includes('unreachable') ? 'panic' : 'trap';
      what = String(e.stack).split('\n').slice(0, 14).join('\n');
    } else throw e;
  }
  return { end, what, obs, reach };
}
console.log(JSON.stringify(jobs.map(run)));
