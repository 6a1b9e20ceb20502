// A graph of signals against direct evaluation: leaves (atoms, accessors, properties of
// a store) are written, derived signals are read at any moment, subscribers come and go
// while they are being notified, write further leaves, and computations fail.
import { Digest } from '../rng.mjs';

class Boom extends Error {}
const SHARED = [{ k: 1 }, { k: 2 }];
const VALUES = [0, 1, 2, 3, 'x', '', null, undefined, true, Number.NaN, -0, SHARED[0], SHARED[1]];
const FNS = ['join', 'join', 'first', 'pick', 'wrap', 'undef', 'parity', 'throws', 'same'];

function canon(v) {
  if (Array.isArray(v)) return '[' + v.map(canon).join(',') + ']';
  if (v !== null && typeof v === 'object') return '{' + Object.keys(v).sort().map((k) => k + ':' + canon(v[k])).join(',') + '}';
  return typeof v === 'string' ? JSON.stringify(v) : Object.is(v, -0) ? '-0' : String(v);
}

function compute(fn, args) {
  switch (fn) {
    case 'join':
      return args.map(canon).join('|');
    case 'first':
      return args[0];
    case 'pick':
      return args[0] ? args[args.length - 1] : args[0];
    case 'wrap':
      return { args };
    case 'undef':
      return args[0] === 1 ? 'one' : undefined;
    case 'parity':
      return typeof args[0] === 'number' ? args[0] % 2 === 0 : 'none';
    case 'throws':
      if (args.some((a) => a === 2)) throw new Boom('computation');
      return args.map(canon).join('+');
    case 'same':
      return 'constant';
  }
}

export default class SignalsScenario {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.nodes = [];
    this.subs = [];
    this.stateDigests = new Set();
    this.depth = 0;
    this.current = [];
    this.storeWrite = 0;
    this.serial = 0;
  }

  fail(cls, msg) {
    this.sim.fail(cls, msg);
  }

  setup() {
    const { Atom, Accessor, Derivable } = this.sim.lib.signal;
    const { cfg } = this;
    for (let i = 0; i < cfg.atoms; i++) {
      const value = VALUES[(cfg.init + i) % VALUES.length];
      const node = { kind: 'atom', value };
      node.s = new Atom(value);
      this.add(node);
    }
    for (let i = 0; i < cfg.accessors; i++) {
      // The setter may store something else than what it is given.
      const node = { kind: 'accessor', value: i, mode: (cfg.init + i) % 3 };
      let cell = i;
      node.store = (v) => (node.mode === 1 && typeof v === 'number' ? v % 2 : v);
      node.s = new Accessor(
        () => cell,
        (v) => {
          cell = node.store(v);
        },
      );
      this.add(node);
    }
    if (cfg.store) {
      const root = Derivable.from({ a: 1, o: { c: 2, d: 0 } });
      this.storeNodes = {};
      const add = (name, s, leaf, get) => this.add((this.storeNodes[name] = { kind: 'store', name, s, leaf, get }));
      add('a', root.get('a'), true);
      add('c', root.get('o').get('c'), true);
      add('o', root.get('o'), false, (m) => m.o);
      add('root', root, false, (m) => m);
      this.storeModel = { a: 1, o: { c: 2, d: 0 } };
    }
    for (const spec of cfg.graph) this.derive(spec);
  }

  add(node) {
    node.i = this.nodes.length;
    node.id = node.kind[0] + node.i;
    this.nodes.push(node);
    return node;
  }

  derive({ fn, deps, map }) {
    const { Computed } = this.sim.lib.signal;
    const from = map ? deps.slice(0, 1) : deps;
    const inputs = from.map((d) => this.nodes[d % this.nodes.length]);
    const node = { kind: 'computed', fn, deps: inputs, valid: false, budget: 0 };
    this.add(node);
    node.leaves = new Set(inputs.flatMap((d) => (d.kind === 'computed' ? [...d.leaves] : [d])));
    // Of one write to the store its part and the enclosing parts change one after another.
    node.levels = Math.max(1, [...node.leaves].filter((l) => l.kind === 'store').length);
    node.owners = [...node.leaves].some((l) => l.kind === 'store' && !l.leaf);
    const computation = (...args) => this.evaluate(node, args);
    node.s = map ? inputs[0].s.map(computation) : new Computed(computation, inputs.map((d) => d.s));
    return node;
  }

  evaluate(node, args) {
    const { sim } = this;
    sim.probe('evaluation');
    if (node.valid && node.budget <= 0 && !this.unsettled(node)) this.fail('reeval', `${node.id} is evaluated again although nothing it depends on has changed`);
    node.budget--;
    node.valid = false;
    if (args.length !== node.deps.length) this.fail('args', `${node.id} is given ${args.length} values`);
    if (!this.unsettled(node)) {
      node.deps.forEach((dep, i) => {
        const want = this.oracle(dep);
        if (want.error || canon(want.value) !== canon(args[i])) this.fail('args', `${node.id} is evaluated with ${canon(args[i])} for ${dep.id}, which is ${want.error ? 'failing' : canon(want.value)}`);
        else if (dep.kind !== 'computed' && dep.kind !== 'store' && !Object.is(want.value, args[i])) this.fail('args', `${node.id} is given another object for ${dep.id}`);
      });
    }
    let value;
    try {
      value = compute(node.fn, args);
    } catch (error) {
      sim.fault('computation throws');
      throw error;
    }
    node.valid = true;
    return value;
  }

  /** Within a write to the store, the enclosing parts change after the part itself. */
  unsettled(node) {
    return this.storeWrite > 0 && (node.kind === 'computed' ? node.owners : node.kind === 'store' && !node.leaf);
  }

  oracle(node) {
    switch (node.kind) {
      case 'store':
        return { value: node.leaf ? (node.name === 'a' ? this.storeModel.a : this.storeModel.o.c) : node.get(this.storeModel) };
      case 'computed': {
        const args = [];
        for (const dep of node.deps) {
          const r = this.oracle(dep);
          if (r.error) return r;
          args.push(r.value);
        }
        try {
          return { value: compute(node.fn, args) };
        } catch {
          return { error: true };
        }
      }
      default:
        return { value: node.value };
    }
  }

  read(node, where) {
    let got;
    let error;
    try {
      got = node.s.value;
    } catch (e) {
      if (!(e instanceof Boom)) throw e;
      error = e;
    }
    if (this.unsettled(node)) return;
    const want = this.oracle(node);
    if (!!want.error !== !!error) {
      this.fail('value', `${where}: ${node.id} ${error ? 'fails' : 'is ' + canon(got)} instead of ${want.error ? 'failing' : canon(want.value)}`);
      return;
    }
    if (error) return;
    if (canon(want.value) !== canon(got)) this.fail('value', `${where}: ${node.id} is ${canon(got)} instead of ${canon(want.value)}`);
    else if (!Object.is(node.s.value, got)) this.fail('value', `${where}: two reads of ${node.id} give different objects`);
    else if (node.kind === 'atom' && !Object.is(got, want.value)) this.fail('value', `${where}: ${node.id} is another object`);
  }

  // ---- operations -----------------------------------------------------------------------

  gen(rng) {
    const op = rng.weighted({ write: 6, read: 4, readAll: 1.5, sub: 3, unsub: 1, derive: 0.7, burst: 1.5, same: 0.7, store: this.cfg.store ? 3 : 0 });
    switch (op) {
      case 'write':
        return { op, n: rng.int(20), v: rng.int(VALUES.length) };
      case 'burst':
        return { op, w: Array.from({ length: 2 + rng.int(3) }, () => [rng.int(20), rng.int(VALUES.length)]) };
      case 'store':
        return { op, leaf: rng.int(2), how: rng.pick(['set', 'set', 'draft', 'del', 'both']), v: rng.int(8) };
      case 'derive':
        return { op, fn: rng.pick(FNS), deps: Array.from({ length: 1 + rng.int(3) }, () => rng.int(40)), map: rng.chance(0.3) };
      case 'sub':
        return { op, n: rng.int(20), acts: genActs(rng) };
      default:
        return { op, n: rng.int(20) };
    }
  }

  get writable() {
    return this.nodes.filter((n) => n.kind === 'atom' || n.kind === 'accessor');
  }

  exec(op) {
    const { sim } = this;
    switch (op.op) {
      case 'write':
        this.write(op.n, VALUES[op.v]);
        break;
      case 'same': {
        const w = this.writable;
        const node = w[op.n % w.length];
        this.write(op.n, node.value);
        break;
      }
      case 'burst':
        for (const [n, v] of op.w) this.write(n, VALUES[v]);
        break;
      case 'store':
        this.writeStore(op);
        break;
      case 'read':
        this.read(this.nodes[op.n % this.nodes.length], 'read');
        break;
      case 'readAll':
        for (const node of this.nodes) this.read(node, 'read');
        break;
      case 'derive':
        if (this.nodes.length < 16) this.derive(op);
        break;
      case 'sub':
        if (this.subs.filter((s) => !s.gone).length < 10) this.subscribe(op.n, op.acts);
        break;
      case 'unsub': {
        const live = this.subs.filter((s) => !s.gone);
        if (live.length > 0) this.unsubscribe(live[op.n % live.length]);
        break;
      }
    }
    void sim;
  }

  write(n, value) {
    const w = this.writable;
    const node = w[n % w.length];
    const old = node.value;
    const changed = !Object.is(old, value);
    const change = changed ? { leaf: node, old, value, type: 'set' } : null;
    if (changed) node.value = node.store ? node.store(value) : value;
    this.changing(node, change, () => {
      node.s.value = value;
    });
  }

  writeStore({ leaf, how, v }) {
    const name = leaf ? 'c' : 'a';
    const node = this.storeNodes[name];
    const holder = leaf ? this.storeModel.o : this.storeModel;
    const root = this.storeNodes.root.s;
    const old = holder[name];
    const value = VALUES[v];
    if (how === 'del') {
      delete holder[name];
      this.changing(node, { leaf: node, type: 'delete', store: true, optional: true }, () => node.s.delete());
      return;
    }
    const changed = !Object.is(old, value);
    holder[name] = value;
    this.changing(node, { leaf: node, type: 'set', store: true, optional: !changed }, () => {
      if (how === 'set') node.s.value = value;
      else {
        root.scope((draft) => {
          if (leaf) draft.o.c = value;
          else draft.a = value;
        });
      }
    });
    if (how === 'both') this.read(node, 'read');
  }

  affected(node, leaf) {
    const hit = (l) => l === leaf || (leaf.kind === 'store' && l.kind === 'store' && !l.leaf && (l.name === 'root' || leaf.name === 'c'));
    return node.kind === 'computed' ? [...node.leaves].some(hit) : hit(node);
  }

  /** How many ways lead from the node to what has changed. */
  ways(node, leaf) {
    if (node.kind === 'computed') return node.deps.reduce((a, d) => a + this.ways(d, leaf), 0);
    return this.affected(node, leaf) ? 1 : 0;
  }

  changing(leaf, change, fn) {
    const { sim } = this;
    const waiting = [];
    if (change) {
      for (const node of this.nodes) {
        if (node.kind === 'computed' && this.affected(node, leaf)) node.budget = change.store ? node.levels : 1;
      }
      for (const s of this.subs) {
        if (s.gone || !this.affected(s.node, leaf)) continue;
        waiting.push(s);
        s.pending.push({ change, left: this.ways(s.node, leaf), seen: 0 });
      }
    }
    if (change?.store) this.storeWrite++;
    this.depth++;
    if (change) this.current.push(change);
    if (this.depth > 1) sim.probe('write while notifying');
    try {
      fn();
    } finally {
      this.depth--;
      if (change) this.current.splice(this.current.indexOf(change), 1);
      if (change?.store) {
        this.storeWrite--;
        // It may have been evaluated before the enclosing parts had changed.
        for (const node of this.nodes) if (node.kind === 'computed' && node.owners && this.affected(node, leaf)) node.budget = Math.max(node.budget, 1);
      }
      for (const s of waiting) {
        const i = s.pending.findIndex((p) => p.change === change);
        const [p] = s.pending.splice(i, 1);
        if (!s.gone && p.seen === 0 && !change.optional && !sim.stop) this.fail('unnotified', `the subscriber of ${s.node.id} was not told of the change of ${leaf.id}`);
      }
    }
  }

  subscribe(n, acts) {
    const node = this.nodes[n % this.nodes.length];
    const s = { node, acts, gone: false, pending: [], id: this.serial++, runs: 0 };
    this.subs.push(s);
    // It may or may not hear of what is just being notified.
    for (const change of this.current) {
      if (this.affected(node, change.leaf)) s.pending.push({ change, left: this.ways(node, change.leaf), seen: 0 });
    }
    s.off = node.s.subscribe((event) => this.onEvent(s, event));
    return s;
  }

  unsubscribe(s) {
    s.gone = true;
    s.off();
    if (s.id % 2) s.off();
  }

  onEvent(s, event) {
    const { sim } = this;
    sim.probe('notification');
    if (s.gone) {
      this.fail('notified', `a subscriber of ${s.node.id} was notified after it had unsubscribed`);
      return;
    }
    // The newest change that fits: a subscriber's own writes are notified first.
    let p = null;
    for (let i = s.pending.length - 1; i >= 0; i--) {
      const c = s.pending[i];
      if (c.left <= 0 || c.change.type !== event.type) continue;
      if (c.change.store ? !(c.change.leaf.kind === 'store') : !(event.source === c.change.leaf.s && Object.is(event.oldValue, c.change.old) && Object.is(event.newValue, c.change.value))) continue;
      p = c;
      break;
    }
    if (p === null) {
      if (this.depth === 0) this.fail('notified', `the subscriber of ${s.node.id} was notified although nothing has changed`);
      else this.fail('notified', `the subscriber of ${s.node.id} was told of ${event.type} ${canon(event.oldValue)}>${canon(event.newValue)}, which did not happen (or again)`);
    } else {
      p.left--;
      p.seen++;
    }
    if (this.depth > 3 || s.busy) return;
    s.busy = true;
    s.runs++;
    try {
      for (const act of s.acts) {
        if (sim.stop) break;
        switch (act.a) {
          case 'read':
            sim.probe('read while notifying');
            this.read(this.nodes[act.n % this.nodes.length], 'read by a subscriber');
            break;
          case 'readAll':
            for (const node of this.nodes) this.read(node, 'read by a subscriber');
            break;
          case 'write':
            if (s.runs < 30) this.write(act.n, VALUES[act.v]);
            break;
          case 'off':
            if (!s.gone) this.unsubscribe(s);
            sim.probe('unsubscribes while notifying');
            break;
          case 'offOther': {
            const live = this.subs.filter((x) => !x.gone);
            if (live.length > 0) this.unsubscribe(live[act.n % live.length]);
            sim.probe('unsubscribes another while notifying');
            break;
          }
          case 'offAll':
            for (const x of this.subs) if (!x.gone) this.unsubscribe(x);
            break;
          case 'on':
            if (this.subs.filter((x) => !x.gone).length < 10) this.subscribe(act.n, []);
            sim.probe('subscribes while notifying');
            break;
          case 're':
            if (!s.gone) {
              this.unsubscribe(s);
              this.subs = this.subs.filter((x) => !x.gone || x.pending.length > 0);
              if (this.subs.length < 200) {
                this.subscribe(s.node.i, s.acts);
              } else this.fail('notified', 'a subscriber that subscribes again is notified of one change without end');
              sim.probe('subscribes again while notifying');
            }
            break;
        }
      }
    } finally {
      s.busy = false;
    }
  }

  onHostError(error) {
    this.fail('threw', `unexpected exception: ${error?.stack ?? error}`);
  }

  check() {
    if (this.subs.length > 30) this.subs = this.subs.filter((s) => !s.gone);
    const d = new Digest();
    for (const n of this.nodes) if (n.kind !== 'computed') d.add(canon(this.oracle(n).value));
    d.add(this.subs.filter((s) => !s.gone).map((s) => s.node.id).join());
    this.stateDigests.add(d.toString());
  }

  onIdle() {
    for (const node of this.nodes) this.read(node, 'at the end');
    return false;
  }
}

function genActs(rng) {
  return Array.from({ length: rng.int(4) }, () => {
    const a = rng.weighted({ read: 4, readAll: 1, write: 1.5, off: 0.7, offOther: 1, offAll: 0.3, on: 1, re: 0.6 });
    return { a, n: rng.int(20), v: rng.int(VALUES.length) };
  });
}

export function genGraph(rng) {
  return Array.from({ length: 1 + rng.int(6) }, () => ({
    fn: rng.pick(FNS),
    deps: Array.from({ length: 1 + rng.int(3) }, () => rng.int(40)),
    map: rng.chance(0.2),
  }));
}
