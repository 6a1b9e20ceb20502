// Shrinks a failing run: fewer operations, fewer unnatural scheduling decisions,
// smaller views, simpler host. A candidate counts only if a fresh simulation of it
// still shows a violation of the same class.

const HOST_KEYS = ['prod', 'spy', 'postTask', 'idle', 'hidden', 'moveBefore', 'loading', 'mw', 'runtimes', 'context'];

/** test(cfg, script) resolves to the script really executed if it still fails, else null. */
export async function minimise({ cfg, script, test, keys = HOST_KEYS }, budgetMs = 60000) {
  const deadline = performance.now() + budgetMs;
  let tries = 0;
  const best = { cfg, script: null };
  const late = () => performance.now() > deadline;
  const attempt = async (c, s) => {
    if (late()) return false;
    tries++;
    const ran = await test(c, s);
    if (ran === null) return false;
    best.cfg = c;
    best.script = ran.length <= s.length ? ran : s;
    return true;
  };
  best.script = script.slice();
  let progress = true;
  while (progress && !late()) {
    progress = false;
    // 1. drop chunks of the script
    for (let size = Math.max(1, best.script.length >> 1); size >= 1 && !late(); size >>= 1) {
      for (let i = 0; i < best.script.length && !late(); ) {
        const cand = best.script.slice(0, i).concat(best.script.slice(i + size));
        if (cand.length < best.script.length && (await attempt(best.cfg, cand))) progress = true;
        else i += size;
      }
    }
    // 2. natural decisions
    for (let i = 0; i < best.script.length && !late(); i++) {
      const e = best.script[i];
      if (typeof e !== 'number' || e === 0) continue;
      const cand = best.script.slice();
      cand[i] = 0;
      if (await attempt(best.cfg, cand)) progress = true;
    }
    // 3. simpler operations
    for (let i = 0; i < best.script.length && !late(); i++) {
      let again = true;
      while (again && !late()) {
        again = false;
        const e = best.script[i];
        if (typeof e !== 'object') break;
        for (const simpler of shrinkOp(e)) {
          if (late()) break;
          const cand = best.script.slice();
          cand[i] = simpler;
          if (await attempt(best.cfg, cand)) {
            progress = true;
            again = true;
            break;
          }
        }
      }
    }
    // 4. simpler host and world
    for (const key of keys) {
      const v = best.cfg[key];
      const to = key === 'runtimes' || key === 'roots' ? 1 : 0;
      if (v === undefined || v === to || late()) continue;
      if (await attempt({ ...best.cfg, [key]: to }, best.script)) progress = true;
    }
  }
  return { ...best, tries };
}

/** Simpler variants of an operation (plain JSON), most drastic first. */
export function* shrinkOp(op) {
  if (Array.isArray(op.acts)) {
    for (let i = 0; i < op.acts.length; i++) {
      if (op.acts.length > 1) yield { ...op, acts: op.acts.filter((_, j) => j !== i) };
    }
    for (let i = 0; i < op.acts.length; i++) {
      for (const a of shrinkAct(op.acts[i])) {
        const acts = op.acts.slice();
        acts[i] = a;
        yield { ...op, acts };
      }
    }
  }
  if (op.ev) yield without(op, 'ev');
  yield* shrinkPlain(op);
  if (op.n) yield { ...op, n: op.n >> 1 };
}

/** Operations made of nested plain data: bodies, lists, paths and value specifications. */
function* shrinkPlain(op, depth = 0) {
  for (const key of ['body', 'list', 'more']) {
    const list = op[key];
    if (!Array.isArray(list)) continue;
    for (let i = 0; i < list.length; i++) yield { ...op, [key]: list.filter((_, j) => j !== i) };
    if (depth > 3) continue;
    for (let i = 0; i < list.length; i++) {
      for (const x of shrinkPlain(list[i], depth + 1)) yield { ...op, [key]: list.map((y, j) => (j === i ? x : y)) };
    }
  }
  for (const key of ['path', 'from']) {
    if (Array.isArray(op[key]) && op[key].length > 0) yield { ...op, [key]: op[key].slice(0, -1) };
  }
  for (const key of ['spec', 'w']) {
    const spec = op[key];
    if (spec === null || typeof spec !== 'object' || typeof spec.t !== 'string') continue;
    if (spec.t !== 'p' && spec.t !== 'n') yield { ...op, [key]: { t: 'n', v: 1 } };
    if (spec.c && !Array.isArray(spec.c)) for (const k in spec.c) yield { ...op, [key]: { ...spec, c: without(spec.c, k) } };
    if (Array.isArray(spec.c)) for (let i = 0; i < spec.c.length; i++) yield { ...op, [key]: { ...spec, c: spec.c.filter((_, j) => j !== i) } };
  }
  if (op.b && typeof op.b === 'object') for (const x of shrinkPlain(op.b, depth + 1)) yield { ...op, b: x };
}

function without(o, key) {
  const c = { ...o };
  delete c[key];
  return c;
}

function* shrinkAct(act) {
  if (act.o) {
    yield without(act, 'o');
    for (const k of Object.keys(act.o)) if (Object.keys(act.o).length > 1) yield { ...act, o: without(act.o, k) };
  }
  if (act.view) for (const v of shrinkView(act.view)) yield { ...act, view: v };
  if (act.n) {
    yield { ...act, n: 0 };
    yield { ...act, n: act.n >> 1 };
    yield { ...act, n: act.n - 1 };
  }
}

function* shrinkView(view) {
  if (view.pv !== undefined) yield without(view, 'pv');
  for (const d of shrinkDesc(view.d)) yield { ...view, d };
}

function* shrinkDesc(d) {
  if (!d) return;
  yield null;
  switch (d.k) {
    case 'e':
      for (const h of d.h) if (h) yield h;
      for (let i = 0; i < d.h.length; i++) for (const c of shrinkDesc(d.h[i])) yield { ...d, h: d.h.map((x, j) => (j === i ? c : x)) };
      if (d.r) yield { ...d, r: null };
      if (d.e) yield { ...d, e: null };
      if (d.v) yield { ...d, v: 0 };
      if (d.h.length === 0 && d.i !== 12) yield { k: 'e', i: 12, v: 0, h: [] };
      break;
    case 'f':
      for (let i = 0; i < d.it.length; i++) yield { ...d, it: d.it.filter((_, j) => j !== i) };
      for (const [, x] of d.it) if (x) yield x;
      for (let i = 0; i < d.it.length; i++) {
        for (const c of shrinkDesc(d.it[i][1])) yield { ...d, it: d.it.map((x, j) => (j === i ? [x[0], c] : x)) };
      }
      break;
    case 'c':
      if (d.cache) yield without(d, 'cache');
      if (d.w) for (const w of shrinkView(d.w)) yield { ...d, w };
      if (d.v) yield { ...d, v: 0 };
      if (d.ty) yield { ...d, ty: 0 };
      break;
    case 'p':
      if (d.d) yield d.d;
      for (const c of shrinkDesc(d.d)) yield { ...d, d: c };
      if (d.t) yield { ...d, t: 0 };
      break;
  }
}
