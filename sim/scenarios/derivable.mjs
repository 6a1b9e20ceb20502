// A derivable store against a plain mutable object: the same history of reads, writes,
// deletions and draft edits is applied to both. Callbacks fail midway, subscribers read
// the store while they are being notified.
import { Digest } from '../rng.mjs';

const KEYS = ['a', 'b', 'c', 'z'];
const PRIMS = [0, 1, 2, 'x', null, undefined, '', true, Number.NaN];

class Boom extends Error {}

class Pt {
  constructor(x, y) {
    this.x = x;
    this.y = y;
  }
  get sum() {
    return this.x + this.y;
  }
  get dbl() {
    return this.x * 2;
  }
  set dbl(v) {
    this.x = v / 2;
  }
  inc(n) {
    this.x += n;
    return this.sum;
  }
}

function literal(n, items) {
  return {
    n,
    items,
    get total() {
      return this.n + this.items?.length;
    },
    get head() {
      return this.items?.[0];
    },
  };
}

const isObj = (v) => v !== null && typeof v === 'object';

function make(spec) {
  switch (spec.t) {
    case 'p':
      return PRIMS[spec.v % PRIMS.length];
    case 'n':
      return spec.v;
    case 'o': {
      const o = {};
      for (const k in spec.c) o[k] = make(spec.c[k]);
      return o;
    }
    case 'a':
      return spec.c.map(make);
    case 'pt':
      return new Pt(spec.x, spec.y);
    case 'g':
      return literal(spec.n, spec.c.map(make));
  }
}

function clone(v) {
  if (!isObj(v)) return v;
  if (Array.isArray(v)) {
    const a = new Array(v.length);
    for (const k of Object.keys(v)) a[k] = clone(v[k]);
    return a;
  }
  const o = Object.create(Object.getPrototypeOf(v));
  for (const k of Object.keys(v)) {
    const d = Object.getOwnPropertyDescriptor(v, k);
    if (d.get) Object.defineProperty(o, k, d);
    else o[k] = clone(v[k]);
  }
  return o;
}

/** Text form of a value; key order of objects does not count. */
function canon(v, depth = 0) {
  if (depth > 12) return '...';
  if (!isObj(v)) return typeof v === 'string' ? JSON.stringify(v) : Object.is(v, -0) ? '-0' : String(v);
  if (Array.isArray(v)) {
    const parts = [];
    for (let i = 0; i < v.length; i++) parts.push(i in v ? canon(v[i], depth + 1) : '<hole>');
    const extra = Object.keys(v).filter((k) => !(String(k >>> 0) === k));
    for (const k of extra) parts.push(k + '=' + canon(v[k], depth + 1));
    return '[' + parts.join(',') + ']';
  }
  const name = Object.getPrototypeOf(v) === Pt.prototype ? 'Pt' : Object.getPrototypeOf(v) === Object.prototype ? '' : '?';
  const keys = Object.keys(v).sort();
  if (name === 'Pt') keys.push('sum', 'dbl');
  return name + '{' + keys.map((k) => k + ':' + canon(v[k], depth + 1)).join(',') + '}';
}

/** Is there a getter in it that returns an object? */
function getsObjects(v) {
  if (!isObj(v)) return false;
  return Object.keys(v).some((k) => isObj(v[k]) && (isGetter(v, k) || getsObjects(v[k])));
}

const isGetter = (o, k) => (o instanceof Pt && (k === 'sum' || k === 'dbl')) || (Object.getOwnPropertyDescriptor(o, k)?.get !== undefined);

export class DerivableScenario {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.handed = [];
    this.handles = [];
    this.subs = [];
    this.expected = null;
    this.stateDigests = new Set();
    this.depth = 0;
    this.open = [];
    this.stamp = 0;
    this.dead = []; // drafts that must not be usable any more
  }

  fail(cls, msg) {
    this.sim.fail(cls, msg);
  }

  setup() {
    const { signal } = this.sim.lib;
    this.signal = signal;
    const spec = this.cfg.root;
    const value = make(spec);
    this.model = { v: make(spec) };
    this.store = signal.Derivable.from(value);
    this.root = { key: null, parent: null, children: new Map(), d: this.store, stale: false };
    this.handles.push(this.root);
    this.hand(value);
    this.last = null;
  }

  hand(v) {
    if (!isObj(v)) return;
    this.handed.push({ v, text: canon(v) });
    if (this.handed.length > 30) this.handed.splice(5, 1);
  }

  // ---- model ----------------------------------------------------------------------------

  keysOf(o) {
    if (Array.isArray(o)) return Object.keys(o);
    const keys = Object.keys(o);
    if (o instanceof Pt) keys.push('sum', 'dbl');
    return keys;
  }

  /** Turns numbers into keys that exist (or, at the end, may be missing). */
  path(nums, { missing = false, from = this.model.v, getters = true, deep = true } = {}) {
    const out = [];
    let cur = from;
    for (let i = 0; i < nums.length; i++) {
      if (!isObj(cur)) break;
      const last = i === nums.length - 1;
      let keys = this.keysOf(cur).filter((k) => !isGetter(cur, k) || (getters && last));
      if (last && missing) {
        if (Array.isArray(cur)) keys = [...keys, ...(this.cfg.grow ? [String(cur.length)] : [])];
        else if (Object.getPrototypeOf(cur) === Object.prototype) keys = [...new Set([...keys, ...KEYS])];
      }
      if (keys.length === 0) break;
      const k = keys[nums[i] % keys.length];
      out.push(k);
      cur = cur[k];
    }
    void deep;
    return out;
  }

  at(path, from = this.model.v) {
    let cur = from;
    for (const k of path) {
      if (!isObj(cur)) return undefined;
      cur = cur[k];
    }
    return cur;
  }

  node(path) {
    let n = this.root;
    for (const k of path) {
      n = n?.children.get(k);
    }
    return n;
  }

  staleBelow(n) {
    for (const c of n.children.values()) {
      c.stale = true;
      this.staleBelow(c);
    }
    n.children.clear();
  }

  /** Whether these handles are stale depends on how an array operation is done. */
  unknownBelow(n) {
    for (const c of n.children.values()) {
      c.unknown = true;
      c.stale = true;
      this.unknownBelow(c);
    }
    n.children.clear();
  }

  /** Notes a write in the model: which handles go stale, which subscribers must hear of it. */
  noteSet(path, oldValue, newValue, type = 'set') {
    const n = this.node(path);
    if (n && type === 'set') this.staleBelow(n);
    if (n && type === 'delete') this.staleBelow(n);
    const same = type === 'set' && Object.is(oldValue, newValue);
    this.expect(path, type, oldValue, newValue, same);
    this.touch(path);
  }

  touch(path) {
    this.changed ??= [];
    this.changed.push(path);
  }

  /** Events that a change at a path must cause (`opt`: may cause). */
  expect(path, type, oldValue, newValue, opt) {
    for (const s of this.subs) {
      if (s.gone || s.n.stale || s.dead) continue;
      const sp = this.pathOf(s.n);
      if (sp.length > path.length || sp.some((k, i) => path[i] !== k)) continue;
      const rel = path.slice(sp.length);
      if (s.shallow && rel.length > 0) continue; // only of what replaces the value
      // Of a deleted part itself the subscribers may hear or not.
      const optional = opt || (type === 'delete' && rel.length === 0);
      s.want.push({ path: rel.join('/'), type, text: type === 'set' ? canon(oldValue) + '>' + canon(newValue) : '', optional });
    }
  }

  pathOf(n) {
    const p = [];
    for (; n.parent; n = n.parent) p.unshift(n.key);
    return p;
  }

  // ---- handles --------------------------------------------------------------------------

  handle(path) {
    let n = this.root;
    for (const k of path) {
      let c = n.children.get(k);
      const d = n.d.get(/^\d+$/.test(k) && this.stamp++ % 2 ? Number(k) : k);
      if (!d) {
        this.fail('handle', `no handle for ${path.join('/')}`);
        return null;
      }
      if (c === undefined) {
        c = { key: k, parent: n, children: new Map(), d, stale: false };
        n.children.set(k, c);
        this.handles.push(c);
      } else if (c.d !== d) {
        this.fail('handle', `another handle for ${path.join('/')} although nothing was assigned`);
        c.d = d;
      }
      n = c;
    }
    return n;
  }

  /** Is the value at the path computed by a getter (on the way or itself)? */
  viaGetter(path) {
    let cur = this.model.v;
    for (const k of path) {
      if (!isObj(cur)) return false;
      if (isGetter(cur, k)) return true;
      cur = cur[k];
    }
    return false;
  }

  readCheck(n, path, where) {
    const want = this.at(path);
    const got = n.d.value;
    const a = canon(want);
    const b = canon(got);
    if (a !== b) {
      this.fail('value', `${where}: ${path.join('/') || 'root'} is ${b} instead of ${a}`);
      return;
    }
    this.hand(got);
    if (path.length > 0 && isObj(got) && !this.viaGetter(path)) {
      let cur = this.store.value;
      for (const k of path) cur = cur?.[k];
      if (cur !== got) this.fail('identity', `${where}: the value of the handle ${path.join('/')} is not the one within the store`);
    }
  }

  // ---- operations -----------------------------------------------------------------------

  gen(rng) {
    const op = rng.weighted({ read: 4, set: 5, del: 1.2, scope: 5, sub: 1.5, unsub: 0.5, old: 1.5, readAll: 1.5, acc: 1, ro: 0.5 });
    const path = () => Array.from({ length: rng.int(4) }, () => rng.int(12));
    switch (op) {
      case 'read':
        return { op, path: path() };
      case 'set':
        return { op, path: path(), spec: genSpec(rng, 2) };
      case 'ro':
      case 'acc':
        return { op, path: path(), v: rng.int(9) * 2 };
      case 'del':
        return { op, path: [...path(), rng.int(12)] };
      case 'scope':
        return { op, path: path(), body: this.genBody(rng, 1) };
      case 'sub':
        return { op, path: path(), read: rng.pick([null, null, 'root', 'self', 'both']), shallow: rng.chance(0.2), k: this.cfg.faults && rng.chance(0.2) ? 1 : 0 };
      case 'unsub':
      case 'readAll':
        return { op, n: rng.int(8) };
      case 'old':
        return { op, n: rng.int(40), w: rng.chance(0.5) ? genSpec(rng, 1) : null };
    }
  }

  genBody(rng, nest) {
    const path = () => Array.from({ length: rng.int(4) }, () => rng.int(12));
    const body = [];
    const n = 1 + rng.int(6);
    for (let i = 0; i < n; i++) {
      const d = rng.weighted({ get: 2, set: 4, del: 1, move: 1, arr: 3, keys: 1.5, has: 1, refuse: 0.8, call: 1, miss: 0.7, handle: 1, hset: 0.5, nested: nest > 0 ? 0.5 : 0, throw: this.cfg.faults ? 0.35 : 0 });
      switch (d) {
        case 'get':
        case 'keys':
        case 'handle':
        case 'refuse':
        case 'call':
          body.push({ d, path: path(), n: rng.int(5) });
          break;
        case 'has':
        case 'miss':
          body.push({ d, path: path(), k: rng.int(KEYS.length) });
          break;
        case 'set':
          body.push({ d, path: [...path(), rng.int(12)], spec: genSpec(rng, 1) });
          break;
        case 'hset':
          body.push({ d, path: path(), spec: genSpec(rng, 1) });
          break;
        case 'del':
          body.push({ d, path: [...path(), rng.int(12)] });
          break;
        case 'move':
          body.push({ d, path: [...path(), rng.int(12)], from: [...path(), rng.int(12)], wrap: rng.int(3) });
          break;
        case 'arr':
          body.push({ d, path: path(), m: rng.pick(['push', 'push', 'pop', 'shift', 'unshift', 'splice', 'reverse', 'sort', 'filter', 'map']), n: rng.int(4), spec: genSpec(rng, 1) });
          break;
        case 'nested':
          body.push({ d, path: path(), body: this.genBody(rng, nest - 1) });
          break;
        case 'throw':
          body.push({ d });
          break;
      }
    }
    return body;
  }

  exec(op) {
    const { sim } = this;
    switch (op.op) {
      case 'read': {
        const path = this.path(op.path);
        const n = this.handle(path);
        if (n) this.readCheck(n, path, 'read');
        break;
      }
      case 'readAll':
        this.readRoot('read');
        break;
      case 'set': {
        const path = this.path(op.path, { missing: true, getters: false });
        const n = this.handle(path);
        if (!n) break;
        const value = make(op.spec);
        this.setModel(path, make(op.spec));
        n.d.value = value;
        this.hand(value);
        if (!n.stale && isObj(value) && n.d.value !== value) this.fail('identity', `set: ${path.join('/') || 'root'} is not the object just assigned`);
        break;
      }
      case 'acc': {
        // An accessor with getter and setter, written through its handle.
        const path = this.path(op.path, { getters: false });
        const o = this.at(path);
        if (!(o instanceof Pt) || typeof o.x !== 'number') break;
        const n = this.handle([...path, 'dbl']);
        if (!n) break;
        const old = o.x;
        this.noteAccessor(path, o, op.v, old);
        this.loosely(() => {
          n.d.value = op.v;
        });
        break;
      }
      case 'ro': {
        // What has only a getter cannot be written.
        const path = this.path(op.path, { getters: false });
        const o = this.at(path);
        if (!isObj(o)) break;
        const k = this.keysOf(o).find((k) => isGetter(o, k) && k !== 'dbl');
        const n = k === undefined ? null : this.handle([...path, k]);
        if (!n) break;
        let refused = false;
        try {
          n.d.value = op.v;
        } catch (error) {
          if (!(error instanceof TypeError)) throw error;
          refused = true;
        }
        if (!refused) this.fail('value', `${path.join('/')}/${k}, which has only a getter, was written`);
        break;
      }
      case 'del': {
        const path = this.path(op.path, { missing: false, getters: false });
        if (path.length === 0 || !this.deletable(path)) break;
        const n = this.handle(path);
        if (!n) break;
        this.delModel(path);
        n.d.delete();
        break;
      }
      case 'sub': {
        const path = this.path(op.path, { getters: false });
        const n = this.handle(path);
        if (!n) break;
        const s = { n, want: [], got: [], gone: false, id: this.subs.length };
        this.subs.push(s);
        if (op.shallow) s.shallow = n.d.asShallow();
        s.off = (s.shallow ?? n.d).subscribe((event) => this.onEvent(s, event, op));
        break;
      }
      case 'unsub': {
        const live = this.subs.filter((s) => !s.gone);
        const s = live[op.n % (live.length || 1)];
        if (s) {
          s.gone = true;
          s.off();
          s.off(); // twice is as good as once
        }
        break;
      }
      case 'old': {
        const n = this.handles[op.n % this.handles.length];
        if (n.unknown) break;
        if (n.stale) {
          // A handle of something that has been replaced: it must not reach the store.
          if (op.w) {
            try {
              n.d.value = make(op.w);
            } catch (error) {
              if (!(error instanceof TypeError)) throw error;
            }
            sim.probe('write through a stale handle');
          } else void n.d.value;
        } else {
          const path = this.pathOf(n);
          if (op.w && !this.viaGetter(path)) {
            if (path.length > 0) {
              const parent = this.at(path.slice(0, -1));
              if (!isObj(parent)) break;
              // Known finding (array-growth).
              if (Array.isArray(parent) && !(path[path.length - 1] in parent) && !this.cfg.grow) break;
            }
            const value = make(op.w);
            this.setModel(path, make(op.w));
            n.d.value = value;
            this.hand(value);
          } else this.readCheck(n, path, 'old handle');
        }
        break;
      }
      case 'scope': {
        const path = this.path(op.path);
        if (this.viaGetter(path)) break;
        const n = this.handle(path);
        if (n) this.scope(n, path, op.body);
        break;
      }
    }
    this.settleEvents(op);
  }

  deletable(path) {
    const parent = this.at(path.slice(0, -1));
    const k = path[path.length - 1];
    return isObj(parent) && !isGetter(parent, k) && !(parent instanceof Pt) && !Object.getOwnPropertyDescriptor(parent, 'total') && !Array.isArray(parent);
  }

  setModel(path, value) {
    if (path.length === 0) {
      const old = this.model.v;
      this.model.v = value;
      this.noteSet(path, old, value);
      return;
    }
    const parent = this.at(path.slice(0, -1));
    const k = path[path.length - 1];
    const old = parent[k];
    // Shape guards: getters of literals and points need what they compute with.
    parent[k] = value;
    this.noteSet(path, old, value);
  }

  delModel(path) {
    const parent = this.at(path.slice(0, -1));
    const k = path[path.length - 1];
    const had = Object.hasOwn(parent, k);
    const old = parent[k];
    delete parent[k];
    void had;
    this.noteSet(path, old, undefined, 'delete');
  }

  noteAccessor(path, o, v, old) {
    o.dbl = v;
    this.noteSet([...path, 'x'], old, o.x);
    // Enclosing parts may hear of the accessor as well.
    this.expect([...path, 'dbl'], 'set', old * 2, v, true);
  }

  readRoot(where) {
    const got = this.store.value;
    const a = canon(this.model.v);
    const b = canon(got);
    if (a !== b) {
      this.fail('value', `${where}: the store is ${b} instead of ${a}`);
      return;
    }
    this.hand(got);
    if (!Object.is(this.store.value, got)) this.fail('identity', `${where}: two reads in a row give different objects`);
    if (this.last !== null) {
      const changed = this.changed ?? [];
      if (changed.length === 0 && !Object.is(this.last.v, got)) this.fail('identity', `${where}: the store has a new value although nothing was written`);
      this.identity(this.last.v, got, [], changed, where, 0);
    }
    this.last = { v: got };
    this.changed = [];
  }

  /** Parts not written to (neither themselves, nor anything within or around) are the same objects. */
  identity(before, after, path, changed, where, depth) {
    if (depth > 6 || !isObj(before) || !isObj(after)) return;
    let within = false;
    for (const c of changed) {
      const m = Math.min(c.length, path.length);
      let same = true;
      for (let i = 0; i < m; i++) if (c[i] !== path[i]) same = false;
      if (!same) continue;
      if (c.length <= path.length) return; // replaced itself or around it
      within = true;
    }
    if (!within) {
      if (!Object.is(before, after)) this.fail('identity', `${where}: the unchanged part ${path.join('/') || 'root'} is another object`);
      return;
    }
    if (before === after) return;
    if (Array.isArray(after)) return; // array operations move things around
    for (const k of Object.keys(after)) {
      if (isGetter(after, k)) continue;
      this.identity(before[k], after[k], [...path, k], changed, where, depth + 1);
    }
  }

  // ---- drafts ---------------------------------------------------------------------------

  scope(n, path, body) {
    const { sim } = this;
    const seen = [];
    const boom = new Boom('draft callback');
    let result;
    const token = {};
    this.depth++;
    this.open.push(path);
    let draft0;
    try {
      result = n.d.scope((draft) => {
        if (isObj(draft)) {
          draft0 = draft;
          seen.push(draft);
        }
        for (const b of body) {
          if (sim.stop) break;
          if (b.d === 'throw') {
            sim.fault('draft callback throws');
            throw boom;
          }
          if (this.node(path) !== n || n.stale) break; // replaced meanwhile
          if (b.d === 'handle') {
            const p = this.path(b.path);
            const h = this.handle(p);
            if (h) this.readCheck(h, p, 'read within a draft');
            continue;
          }
          if (b.d === 'hset') {
            // A write through a handle, of a part that no open draft looks at.
            const p = this.path(b.path, { getters: false });
            if (p.length === 0 || this.open.some((path) => p.every((k, i) => i >= path.length || path[i] === k))) continue;
            const h = this.handle(p);
            if (!h) continue;
            this.setModel(p, make(b.spec));
            h.d.value = make(b.spec);
            continue;
          }
          if (b.d === 'nested') {
            const p = this.path(b.path);
            // Not around this draft: assignments there would leave it behind.
            if (p.length < path.length || this.viaGetter(p)) continue;
            const h = this.handle(p);
            if (h) this.scope(h, p, b.body);
            continue;
          }
          if (isObj(draft)) this.draftOp(draft, path, b, seen);
        }
        return token;
      });
      if (result !== token) this.fail('scope', 'the scope did not return what its callback returned');
    } catch (error) {
      if (error !== boom) throw error;
    } finally {
      this.depth--;
      this.open.pop();
    }
    void draft0;
    for (const p of seen) {
      let used = false;
      try {
        void p.anything;
        used = true;
      } catch (error) {
        if (!(error instanceof TypeError)) throw error;
      }
      if (!used) {
        try {
          p.a = 1;
          used = true;
        } catch {}
      }
      if (used) this.fail('revoked', 'a draft is still usable after its callback is over');
    }
  }

  draftAt(draft, path, seen) {
    let cur = draft;
    for (const k of path) {
      cur = cur[k];
      if (isObj(cur) && !Object.isFrozen(cur)) seen.push(cur);
    }
    return cur;
  }

  draftOp(draft, base, b, seen) {
    const from = this.at(base);
    if (!isObj(from)) return;
    const unwrap = this.signal.unwrap;
    const where = `draft of ${base.join('/') || 'root'}: `;
    const same = (what, got, want) => {
      const x = canon(got);
      const y = canon(want);
      if (x !== y) this.fail('value', `${where}${what} is ${x} instead of ${y}`);
    };
    switch (b.d) {
      case 'get': {
        const p = this.path(b.path, { from });
        const real = this.draftAt(draft, p, seen);
        same('reading ' + p.join('/'), b.n % 2 && !getsObjects(this.at(p, from)) && !this.viaGetter([...base, ...p]) ? real : unwrap(real), this.at(p, from));
        break;
      }
      case 'miss':
      case 'has': {
        const p = this.path(b.path, { from, getters: false });
        const m = this.at(p, from);
        if (!isObj(m) || Array.isArray(m)) break;
        const real = this.draftAt(draft, p, seen);
        const k = KEYS[b.k];
        if (b.d === 'miss') same(`reading ${p.join('/')}/${k}`, unwrap(real[k]), m[k]);
        same(`'${k}' in ${p.join('/')}`, k in real, k in m);
        same(`hasOwn ${k} of ${p.join('/')}`, Object.hasOwn(real, k), Object.hasOwn(m, k));
        break;
      }
      case 'refuse': {
        // What cannot be done to the object cannot be done to its draft.
        const p = this.path(b.path, { from, getters: false });
        const m = this.at(p, from);
        if (!isObj(m)) break;
        const real = this.draftAt(draft, p, seen);
        const fixed = Array.isArray(m) ? null : m instanceof Pt ? 'sum' : Object.getOwnPropertyDescriptor(m, 'total') ? (b.n % 2 ? 'head' : 'total') : null;
        let done = false;
        if (fixed !== null) done = Reflect.set(real, fixed, 1);
        else if (Array.isArray(m)) done = Reflect.deleteProperty(real, 'length');
        if (done) this.fail('value', `${where}${fixed === null ? 'the length was deleted' : `${fixed} was set`}`);
        if (Array.isArray(m)) same('length', real.length, m.length);
        break;
      }
      case 'keys': {
        const p = this.path(b.path, { from, getters: false });
        const m = this.at(p, from);
        if (!isObj(m)) break;
        const real = this.draftAt(draft, p, seen);
        same('keys of ' + p.join('/'), Object.keys(real).sort(), Object.keys(m).sort());
        same('own keys of ' + p.join('/'), Reflect.ownKeys(real).sort(), Reflect.ownKeys(m).sort());
        const copy = {};
        for (const k in real) copy[k] = unwrap(real[k]);
        const mcopy = {};
        for (const k in m) mcopy[k] = m[k];
        same('properties of ' + p.join('/'), copy, mcopy);
        break;
      }
      case 'set': {
        const p = this.path(b.path, { from, missing: true, getters: false });
        if (p.length === 0) break;
        const target = this.draftAt(draft, p.slice(0, -1), seen);
        if (!isObj(target)) break;
        this.setModel([...base, ...p], make(b.spec));
        target[p[p.length - 1]] = make(b.spec);
        break;
      }
      case 'del': {
        const p = this.path(b.path, { from, getters: false });
        if (p.length === 0 || !this.deletable([...base, ...p])) break;
        const target = this.draftAt(draft, p.slice(0, -1), seen);
        this.delModel([...base, ...p]);
        if (!delete target[p[p.length - 1]]) this.fail('value', where + 'a property could not be deleted');
        break;
      }
      case 'move': {
        const p = this.path(b.path, { from, missing: true, getters: false });
        const q = this.path(b.from, { from, getters: false });
        // Not into itself.
        if (p.length === 0 || q.every((k, i) => p[i] === k)) break;
        const target = this.draftAt(draft, p.slice(0, -1), seen);
        const value = this.draftAt(draft, q, seen);
        const m = clone(this.at(q, from));
        this.setModel([...base, ...p], b.wrap === 0 ? { a: m } : b.wrap === 1 ? [m] : m);
        target[p[p.length - 1]] = b.wrap === 0 ? { a: value } : b.wrap === 1 ? [value] : value;
        break;
      }
      case 'call': {
        const p = this.path(b.path, { from, getters: false });
        const m = this.at(p, from);
        if (!(m instanceof Pt)) break;
        if (b.n % 2 && typeof m.x !== 'number') break; // a setter is not run for an equal value
        const real = this.draftAt(draft, p, seen);
        const old = m.x;
        if (b.n % 2) {
          m.dbl = b.n * 2;
          this.noteSet([...base, ...p, 'x'], old, m.x);
          this.expect([...base, ...p, 'dbl'], 'set', 0, 0, 'any');
          this.loosely(() => {
            real.dbl = b.n * 2;
          });
        } else {
          const want = m.inc(b.n);
          this.noteSet([...base, ...p, 'x'], old, m.x);
          same('result of a method', this.loosely(() => real.inc(b.n)), want);
        }
        break;
      }
      case 'arr': {
        const p = this.path(b.path, { from, getters: false });
        const m = this.at(p, from);
        if (!Array.isArray(m)) break;
        const objects = m.some(isObj);
        // Known finding (draft-elements): a draft stands for a place, not for an object.
        if (objects && (b.m === 'sort' || b.m === 'reverse')) break;
        const real = this.draftAt(draft, p, seen);
        const full = [...base, ...p];
        this.noteArray(full);
        const call = (a, value) => {
          switch (b.m) {
            case 'push':
              return a.push(value);
            case 'pop':
              return a.pop();
            case 'shift':
              return a.shift();
            case 'unshift':
              return a.unshift(value);
            case 'splice':
              return b.n % 2 ? a.splice(b.n >> 1, 1, value) : a.splice(b.n >> 1, 1 + (b.n >> 1));
            case 'reverse':
              a.reverse();
              return null;
            case 'sort':
              a.sort((x, y) => (canon(x) < canon(y) ? -1 : canon(x) > canon(y) ? 1 : 0));
              return null;
            case 'filter':
              return a.filter((_, i) => i % 2 === b.n % 2);
            case 'map':
              return a.map((x) => [x]);
          }
        };
        const want = call(m, make(b.spec));
        const got = this.loosely(() => call(real, make(b.spec)));
        for (const x of Array.isArray(got) && !this.isDraft(got) ? got : [got]) if (isObj(x)) seen.push(...(this.isDraft(x) ? [x] : []));
        if (!objects || ['push', 'unshift', 'filter', 'map'].includes(b.m)) same('result of ' + b.m, got, want);
        same('length after ' + b.m, real.length, m.length);
        // The model's elements may now be shared between places.
        const copy = clone(m);
        m.length = 0;
        for (const k of Object.keys(copy)) m[k] = copy[k];
        m.length = copy.length;
        break;
      }
    }
  }

  isDraft(x) {
    return this.signal.unwrap(x) !== x;
  }

  /** Something that consists of several writes: subscribers may see it half done. */
  loosely(fn) {
    const before = this.loose;
    this.loose = true;
    try {
      return fn();
    } finally {
      this.loose = before;
    }
  }

  /** An array operation: any elements may be assigned, and everything around hears of some change. */
  noteArray(path) {
    const n = this.node(path);
    if (n) for (const c of n.children.values()) this.unknownBelow(c);
    this.touch([...path, '*']);
    for (const s of this.subs) s.loose ??= path;
    // Of handles of the elements nothing is expected any more.
    if (n) {
      for (const c of n.children.values()) {
        for (const s of this.subs) if (s.n === c) s.any = true;
      }
    }
    for (const s of this.subs) {
      const sp = this.pathOf(s.n);
      if (sp.length <= path.length && sp.every((k, i) => path[i] === k)) s.any = true;
    }
  }

  // ---- subscribers ----------------------------------------------------------------------

  onEvent(s, event, op) {
    const { sim } = this;
    const path = event.path;
    s.got.push({ path: path.join('/'), type: event.type, text: event.type === 'set' ? canon(event.oldValue) + '>' + canon(event.newValue) : '' });
    if (s.shallow) {
      sim.probe('shallow notification');
      if (path.length > 0) this.fail('notified', `a shallow subscriber was told of ${path.join('/')} within its value`);
      else if (event.type === 'set' && !Object.is(s.shallow.value, event.newValue)) this.fail('value', 'the shallow value is not the one just assigned');
    }
    if (s.gone) this.fail('notified', `an unsubscribed subscriber was notified`);
    sim.probe('notification');
    if (op.read && !this.reading && this.cfg.reads !== 0) {
      this.reading = true;
      sim.probe('read while being notified');
      try {
        if (op.read !== 'self' && !this.loose) this.readRoot('read by a subscriber');
        else if (op.read !== 'self') void this.store.value;
        if (op.read !== 'root' && !s.n.stale) {
          const p = this.pathOf(s.n);
          if (!this.loose) this.readCheck(s.n, p, 'read by a subscriber');
          else void s.n.d.value;
        }
      } finally {
        this.reading = false;
      }
    }
  }

  settleEvents(op) {
    for (const s of this.subs) {
      const { want, got } = s;
      s.want = [];
      s.got = [];
      if (s.any || s.n.stale) {
        s.any = false;
        continue;
      }
      let i = 0;
      const fits = (w, g) => w.path === g.path && w.type === g.type && (w.optional === 'any' || w.text === g.text || w.type === 'delete');
      for (const g of got) {
        while (i < want.length && want[i].optional && !fits(want[i], g)) i++;
        if (i < want.length && fits(want[i], g)) i++;
        else {
          this.fail('notified', `${op.op}: the subscriber of ${this.pathOf(s.n).join('/') || 'root'} was told of ${g.type} ${g.path} ${g.text}${i < want.length ? ` instead of ${want[i].type} ${want[i].path} ${want[i].text}` : ''}`);
          break;
        }
      }
      while (i < want.length && want[i].optional) i++;
      if (i < want.length) this.fail('unnotified', `${op.op}: the subscriber of ${this.pathOf(s.n).join('/') || 'root'} was not told of ${want[i].type} ${want[i].path} ${want[i].text}`);
    }
  }

  onHostError(error) {
    this.fail('threw', `unexpected exception: ${error?.message ?? error}`);
  }

  check() {
    for (const h of this.handed) {
      const now = canon(h.v);
      if (now !== h.text) {
        this.fail('mutated', `a value that was handed out changed from ${h.text} to ${now}`);
        h.text = now;
      }
    }
    const d = new Digest();
    d.add(canon(this.model.v));
    d.add(String(this.subs.length));
    this.stateDigests.add(d.toString());
  }

  onIdle() {
    this.readRoot('at the end');
    for (const n of this.handles.slice()) {
      if (n.stale) continue;
      const path = this.pathOf(n);
      if (path.length > 0 && !isObj(this.at(path.slice(0, -1)))) continue;
      this.readCheck(n, path, 'at the end');
    }
    return false;
  }
}

export function genSpec(rng, depth, rootish) {
  const t = rng.weighted({ p: rootish ? 0 : 4, n: rootish ? 0 : 2, o: depth > 0 || rootish ? 3 : 0, a: depth > 0 ? 2 : 0, pt: rootish ? 0 : 1.2, g: depth > 0 ? 1 : 0 });
  switch (t) {
    case 'p':
      return { t, v: rng.int(9) };
    case 'n':
      return { t, v: rng.int(6) };
    case 'pt':
      return { t, x: rng.int(4), y: rng.int(4) };
    case 'a':
      return { t, c: Array.from({ length: rng.int(4) }, () => genSpec(rng, depth - 1)) };
    case 'g':
      return { t, n: rng.int(4), c: Array.from({ length: rng.int(3) }, () => genSpec(rng, depth - 1)) };
    default: {
      const c = {};
      for (const k of ['a', 'b', 'c']) if (rng.chance(0.7)) c[k] = genSpec(rng, depth - 1);
      return { t: 'o', c };
    }
  }
}
export default DerivableScenario;
