// Runs the plan on the addon, and writes down all there is to see. The arguments: the addon, the plan, the transcript.
const fs = require('fs');
const addon = require(process.argv[2]);
const plan = JSON.parse(fs.readFileSync(process.argv[3]));
const out = [];

function bits(x) {
  if (x !== x) return 'nan';
  const buffer = Buffer.alloc(8);
  buffer.writeDoubleBE(x);
  return buffer.toString('hex');
}
function show(v) {
  if (v === undefined) return 'undefined';
  if (v === null) return 'null';
  switch (typeof v) {
    case 'number': return 'n' + bits(v);
    case 'string': return 's' + Buffer.from(v, 'utf8').toString('hex');
    case 'boolean': return v ? 'true' : 'false';
    case 'function': return 'function';
    case 'object': return '{' + Object.keys(v).map((k) => Buffer.from(k, 'utf8').toString('hex') + ':' + show(v[k])).sort().join(',') + '}';
  }
  return typeof v;
}
function value(x) {
  if (x === null || typeof x === 'boolean') return x;
  if ('n' in x) return Buffer.from(x.n, 'hex').readDoubleBE(0);
  if ('s' in x) return Buffer.from(x.s, 'hex').toString('utf8');
  if ('o' in x) {
    const o = {};
    for (const [k, v] of x.o) o[Buffer.from(k, 'hex').toString('utf8')] = value(v);
    return o;
  }
  return undefined;
}
function collect() { if (global.gc) global.gc(); }
function sleep(ms) { return new Promise((resolve) => setTimeout(resolve, ms)); }

const objects = [], functions = [];
// Each returns what to write down.
const kinds = {
  call: (op) => show(addon[op.f](...op.args.map(value))),
  same: (op) => { const x = value(op.v); return String(addon[op.f](x) === x); },
  function_is_any: () => { const f = () => 1; return String(addon.any(f) === f); },
  make_object: (op) => { objects.push(value(op.v)); return show(objects[objects.length - 1]); },
  on_object: (op) => {
    let r;
    try {
      r = show(addon[op.f](objects[op.i], ...op.args.map(value)));
    } catch (e) {
      r = 'throws';
    }
    return r + ' ' + show(objects[op.i]);
  },
  on_object_same: (op) => String(addon[op.f](objects[op.i], ...op.args.map(value)) === objects[op.i]),
  put_object: (op) => { addon.object_in_object(objects[op.i], value(op.key), objects[op.j]); const same = objects[op.i][value(op.key)] === objects[op.j]; delete objects[op.i][value(op.key)]; return String(same); },
  calls: (op) => {
    const seen = [];
    const f = (...args) => { if (op.gc) collect(); seen.push('(' + args.map(show).join(' ') + ')'); };
    const r = addon[op.f](f, op.n, value(op.s));
    return seen.join('') + show(r);
  },
  throws_in_call: (op) => {
    let n = 0;
    try {
      addon[op.f]((...args) => { ++n; throw new Error('mine'); }, 1, 'x');
    } catch (e) {
      return n + ' ' + e.message;
    }
    return n + ' nothing';
  },
  in_turn: (op) => {
    const seen = [];
    addon.in_turn((i) => seen.push('f' + i), (i) => seen.push('g' + i), op.n);
    return seen.join(' ');
  },
  returns: (op) => {
    const seen = [];
    const f = (...args) => { seen.push('f' + args.map(show)); if (op.gc) collect(); return value(args[0] === 1 ? op.a : op.c); };
    const g = (...args) => { seen.push('g' + args.map(show)); return value(op.b); };
    let r;
    try {
      r = show(addon[op.f](f, g));
    } catch (e) {
      r = 'throws';
    }
    return seen.join(' ') + ' ' + r;
  },
  make_counter: (op) => { functions.push(addon.counter(op.base)); return show(functions[functions.length - 1]); },
  call_counter: (op) => show(functions[op.i](op.step)),
  wrapped: (op) => show(addon.wrapped(op.x, (f) => { if (op.gc) collect(); return f(op.y, value(op.s)) + '/' + f(op.y + 1, value(op.s)); })),
  composed: (op) => { let f = addon.composed((x) => x * 3, (x) => x + op.add); if (op.gc) collect(); return show(f(op.x)) + show(f(op.x + 1)); },
  gc: () => { collect(); return ''; },
};
// What is not over when it returns.
const later = {
  promise: async (op) => { const p = addon[op.f](op.ms, ...op.args.map(value)); return String(p instanceof Promise) + ' ' + show(await p); },
  resolved: async (op) => { const v = value(op.v); const p = addon.resolved(v); return String(p instanceof Promise) + ' ' + String((await p) === v); },
  later_calls: async (op) => {
    const seen = [];
    let returned = false;
    const p = addon.later_calls(op.ms, op.n, (i) => seen.push(returned ? i : 'too early'));
    returned = true;
    if (op.gc) collect();
    return show(await p) + ' ' + seen.join(' ');
  },
  later_results: async (op) => { const p = addon.later_results(op.ms, (x) => x + value(op.s), (x) => x + op.add); if (op.gc) collect(); return show(await p); },
  later_later: async (op) => {
    const seen = [];
    const p = addon.later_later(op.ms, (i) => { seen.push(i); if (op.gc) collect(); return value(op.s) + i; });
    if (op.gc) collect();
    return show(await p) + ' ' + seen.join(' ');
  },
  loop: async (op) => {
    const seen = [];
    let returned = false;
    addon.loop(op.id, op.n, op.ms, (i) => { seen.push(returned ? 'f' + i : 'too early'); if (op.gc) collect(); return i < op.stop; }, (i) => seen.push('g' + i));
    returned = true;
    const started = Date.now();
    while (addon.loop_finished(op.id) === '') {
      if (Date.now() - started > 8000) return seen.join(' ') + ' ... the thread has not finished';
      await sleep(1);
    }
    return addon.loop_finished(op.id) + ' ' + seen.join(' ');
  },
};

async function run(op) {
  try {
    if (op.kind in kinds) return kinds[op.kind](op);
    if (op.kind === 'together') {
      const results = await Promise.all(op.ops.map(run));
      return results.join(' | ');
    }
    return await later[op.kind](op);
  } catch (e) {
    return 'throws';
  }
}

(async () => {
  for (const op of plan) out.push(await run(op));
  const started = Date.now();
  while (addon.alive() && Date.now() - started < 8000) await sleep(1);
  out.push('alive ' + addon.alive());
  out.push('released aside ' + addon.released_aside());
  fs.writeFileSync(process.argv[4], out.join('\n') + '\n');
})();
