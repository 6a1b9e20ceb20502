// Elements whose reference and event positions hold all that the library allows there: single
// values, keyed values, keyed and unkeyed lists of values, components that return any of these
// and update on their own, and signals; while values move between positions, elements and
// components. A model of what is bound where is kept from the commits that effects tell of.
import { Digest, Rng } from '../rng.mjs';

class Boom extends Error {}

// positions of each template
const SHAPES = [
  { r: 'ref', a: 'lis', b: 'lis' },
  { a: 'lis', r: 'ref', b: 'lis' },
  { b: 'lis', r: 'ref' },
];
const EVENT = { a: 'click', b: 'input' };
const REFS = 8;
const KEYS = ['a', 'b', 'c', 'd', 'e', 'f'];
const LIS_OPTIONS = { fn: {}, obj: {}, cap: { capture: true }, pas: { passive: true }, cappas: { capture: true, passive: true }, once: { once: true }, sg0: {}, sg1: {} };

// ---- what a position holds ----------------------------------------------------------------
//   null                       nothing
//   {v: 'r3'}                  a Ref (only in 'ref' positions; one place at most is asked for)
//   {v: 'c1'} {v: 'n0'}        element callbacks with and without cleanup, always the same
//   {v: 'f'} {v: 'g'}          element callback, with and without cleanup, made by each render
//   {v: 'l2', o: 'cap'}        listener; {v: 'm', o} one made by each render
//   {k, s}                     a keyed value
//   {l: [[key, spec]..], u}    a list, u = without keys
//   {h: n, s}                  component (n tells two types apart) that holds a spec of its own
//   {g: n}                     signal

function genLeaf(rng, sort) {
  if (sort === 'lis') {
    if (rng.chance(0.12)) return null;
    return { v: rng.chance(0.5) ? 'l' + rng.int(4) : 'm', o: rng.pick(Object.keys(LIS_OPTIONS)) };
  }
  switch (rng.weighted({ null: 1, r: 5, c: 2, n: 1, f: 1.5, g: 0.7 })) {
    case 'null':
      return null;
    case 'r':
      return { v: 'r' + rng.int(REFS) };
    case 'c':
      return { v: 'c' + rng.int(3) };
    case 'n':
      return { v: 'n' + rng.int(2) };
    case 'f':
      return { v: 'f' };
    default:
      return { v: 'g' };
  }
}

function genSpec(rng, sort, cfg, depth = 2, inList = false) {
  switch (rng.weighted({ leaf: 4, key: inList ? 0 : cfg.wKey, list: depth > 0 ? cfg.wList : 0, hold: depth > 0 ? cfg.wHold : 0, sig: cfg.wSig })) {
    case 'leaf':
      return genLeaf(rng, sort);
    case 'key':
      return { k: rng.pick(['x', 'y']), s: genLeaf(rng, sort) };
    case 'list':
      return genList(rng, sort, cfg, depth);
    case 'hold':
      return { h: rng.int(2), s: genSpec(rng, sort, cfg, depth - 1) };
    default:
      return { g: sort === 'ref' ? rng.int(2) : 2 + rng.int(2) };
  }
}

function genList(rng, sort, cfg, depth) {
  const u = rng.chance(0.35);
  const n = rng.int(5);
  return { u, l: (u ? KEYS : rng.shuffle([...KEYS])).slice(0, n).map((key) => [key, genSpec(rng, sort, cfg, depth - 1, true)]) };
}

/** A spec got from another one by a small change. */
function mutate(rng, spec, sort, cfg, inList = false) {
  const copy = structuredClone(spec);
  if (copy?.l && rng.chance(0.8)) {
    const l = copy.l;
    switch (rng.weighted({ shuffle: 1.5, renew: copy.u ? 0 : 2, add: 2, drop: 1.5, item: 2, swap: 2 })) {
      case 'shuffle':
        copy.l = rng.shuffle(l);
        break;
      case 'add': {
        const key = rng.shuffle(KEYS.filter((k) => !l.some((it) => it[0] === k)))[0];
        if (key !== undefined) l.splice(rng.int(l.length + 1), 0, [key, genSpec(rng, sort, cfg, 1, true)]);
        break;
      }
      case 'renew': // some go, some come, some stay
        copy.l = rng.shuffle([...KEYS]).slice(0, rng.int(KEYS.length + 1)).map((key) => l.find((it) => it[0] === key) ?? [key, genLeaf(rng, sort)]);
        if (rng.chance(0.5)) {
          const order = new Map(l.map((it, i) => [it[0], i]));
          const kept = copy.l.filter((it) => order.has(it[0])).sort((a, b) => order.get(a[0]) - order.get(b[0]));
          copy.l = copy.l.map((it) => (order.has(it[0]) ? kept.shift() : it));
        }
        break;
      case 'drop':
        if (l.length > 0) l.splice(rng.int(l.length), 1);
        break;
      case 'item': {
        const it = l.length > 0 ? rng.pick(l) : null;
        if (it) it[1] = mutate(rng, it[1], sort, cfg, true);
        break;
      }
      case 'swap': // two values swap their places
        if (l.length > 1) {
          const [i, j] = rng.shuffle(l.map((_, n) => n));
          [l[i][1], l[j][1]] = [l[j][1], l[i][1]];
        }
    }
    return copy;
  }
  if (copy?.k !== undefined && rng.chance(0.7)) {
    if (rng.chance(0.6)) copy.k = copy.k === 'x' ? 'y' : 'x';
    else copy.s = genLeaf(rng, sort);
    return copy;
  }
  if (copy?.v !== undefined) {
    if (copy.o && rng.chance(0.3)) copy.o = rng.pick(Object.keys(LIS_OPTIONS));
    else if (rng.chance(0.4)) return rng.pick([inList ? copy : { k: 'x', s: copy }, { h: rng.int(2), s: copy }, { u: rng.chance(0.5), l: [['a', copy]] }]);
    else return genLeaf(rng, sort);
    return copy;
  }
  return genSpec(rng, sort, cfg, 2, inList);
}

function walkRefs(spec, visit) {
  if (!spec) return;
  if (spec.v !== undefined) {
    if (/^r\d/.test(spec.v)) visit(spec.v);
  } else if (spec.l) for (const it of spec.l) walkRefs(it[1], visit);
  else if (spec.s) walkRefs(spec.s, visit);
}

export default class Slots {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.owners = new Set(); // mounted
    this.stateDigests = new Set();
    this.armed = [];
    this.rejections = 0;
    this.serial = 0;
    this.nextId = 1;
    this.nextOwner = 1;
    this.calls = new Map(); // element and callback -> {calls, cleans, want, wantCleans}
    this.fresh = new Map();
    this.dead = [];
    this.claims = new Map();
    this.epoch = 0;
    this.asked = new Map(); // ref -> elements it was asked for since all was at rest
    this.everAsked = new Set();
    this.pending = 0;
    this.eventCalls = null;
    this.acts = null;
    this.controllers = []; // of the signals that listeners are bound with
    this.signalOf = new Map(); // listener -> its signal
  }

  fail(cls, msg) {
    this.sim.fail(cls, msg);
  }

  // ---- set-up ---------------------------------------------------------------------------

  setup() {
    const { sim, cfg } = this;
    const { core, signal } = sim.lib;
    const S = this;
    const { html } = core;
    this.core = core;
    this.runtime = new core.Runtime(new core.DOMAdapter(sim.document));
    this.refs = Array.from({ length: REFS }, () => new core.Ref(null));
    this.stable = new Map();
    this.sigs = [0, 1, 2, 3].map((n) => new signal.Atom(n < 2 ? { v: 'c' + n } : { v: 'l' + n, o: 'fn' }));
    this.shapes = [
      (id, v) => html`<div data-id=${id} ${v.r} @click=${v.a} @input=${v.b}><i></i></div>`,
      (id, v) => html`<p data-id=${id} @click=${v.a} ${v.r} @input=${v.b}>t<i></i></p>`,
      (id, v) => html`<b data-id=${id} @input=${v.b} ${v.r}><i></i></b>`,
    ];
    this.Board = core.createComponent(function Board({ root }) {
      const owner = S.ownerOf(this, 'board', root, () => Object.freeze([]));
      const [items, set] = this.useState(() => owner.want);
      owner.set = set;
      S.fire('board', owner);
      const snap = { serial: ++S.serial, value: items };
      const out = items.map((it) =>
        it.own
          ? S.Item({ it, root }).withKey(it.id)
          : S.shapes[it.shape](it.id, S.values(owner, snap, it.id, it.shape, it.slots)).withKey(it.id),
      );
      S.effects(this, owner, snap);
      return out;
    });
    this.Item = core.createComponent(
      function Item({ it, root }) {
        const owner = S.ownerOf(this, 'item', root, () => it, it.id);
        const [st, set] = this.useState(() => owner.want);
        owner.set = set;
        S.fire('item', owner);
        const snap = { serial: ++S.serial, value: st };
        const values = S.values(owner, snap, it.id, st.shape, st.slots);
        S.effects(this, owner, snap);
        return S.shapes[st.shape](it.id, values);
      },
      { arePropsEqual: () => true },
    );
    this.Holders = [0, 1].map(() =>
      core.createComponent(function Holder({ at, sort, spec, root }) {
        const owner = S.ownerOf(this, 'holder', root, () => spec, at);
        owner.sort = sort;
        const [own, set] = this.useState(() => owner.want);
        owner.set = set;
        S.fire('holder', owner);
        const snap = { serial: ++S.serial, value: own };
        const value = S.value(owner, snap, own, sort, at, 'h');
        S.effects(this, owner, snap);
        return value;
      }),
    );
    this.Sigs = this.sigs.map((sig, n) =>
      core.createComponent(function Sig({ at, sort, root }) {
        const owner = S.ownerOf(this, 'signal', root, () => null, at);
        owner.n = n;
        const spec = this.use(sig);
        S.fire('signal', owner);
        const snap = { serial: ++S.serial, value: spec };
        const value = S.value(owner, snap, spec, sort, at, 'g');
        S.effects(this, owner, snap);
        return value;
      }),
    );
    this.roots = [];
    for (let i = 0; i < cfg.roots; i++) {
      const el = sim.document.createElement('main');
      sim.document.body.appendChild(el);
      const root = { i, el, board: null, root: new core.DOMRoot(el, this.runtime) };
      this.roots.push(root);
      this.quiet(root.root.render(this.Board({ root })));
    }
  }

  dispose() {}

  ownerOf(context, kind, root, want, at) {
    const owner = context.useMemo(() => ({ uid: kind[0] + this.nextOwner++, kind, root, at, want: want(), committed: null, labels: new Map(), state: 'new' }), []);
    if (owner.state === 'gone') this.fail('dead', `the unmounted ${kind} ${owner.uid} is rendered`);
    return owner;
  }

  effects(context, owner, snap) {
    context.useEffect(() => this.onCommit(owner, snap));
    context.useEffect(() => {
      owner.state = 'mounted';
      this.owners.add(owner);
      if (owner.kind === 'board') owner.root.board = owner;
      return () => {
        this.checkRefs(owner, 'when the cleanup of its effects runs', true);
        owner.state = 'gone';
        this.owners.delete(owner);
        this.commitLabels(owner, new Map());
        owner.committed = null;
      };
    }, []);
  }

  fire(kind, owner) {
    const i = this.armed.findIndex((a) => a.kind === kind && (a.uid === null || a.uid === owner.uid));
    if (i < 0) return;
    this.armed.splice(i, 1);
    this.sim.fault(kind + ' throws');
    throw new Boom(owner.uid);
  }

  // ---- values ---------------------------------------------------------------------------

  values(owner, snap, id, shape, slots) {
    const out = {};
    for (const slot in SHAPES[shape]) out[slot] = this.value(owner, snap, slots[slot], SHAPES[shape][slot], { id, shape, slot }, slot);
    return out;
  }

  value(owner, snap, spec, sort, at, path) {
    const { core } = this;
    if (!spec) return spec;
    if (spec.v !== undefined) return this.leaf(owner, snap, spec, at, path);
    if (spec.k !== undefined) return this.bind(this.leaf(owner, snap, spec.s, at, path + 'k' + spec.k)).withKey(spec.k);
    if (spec.l) {
      return core.createFragment(
        spec.l.map(([key, s], i) => {
          const value = this.value(owner, snap, s, sort, at, spec.u ? `${path}[${i}]` : `${path}<${key}>`);
          return spec.u ? value : this.bind(value).withKey(key);
        }),
      );
    }
    if (spec.h !== undefined) return this.Holders[spec.h]({ at, sort, spec: spec.s, root: owner.root });
    return this.Sigs[spec.g]({ at, sort, root: owner.root });
  }

  bind(value) {
    const { core } = this;
    if (value instanceof core.Ref) return value[core.toElement]();
    // An element made by the library, or a plain value.
    return value && typeof value.withKey === 'function' ? value : core.createBind(value);
  }

  leaf(owner, snap, spec, at, path) {
    if (!spec) return null;
    const name = this.label(owner, snap, spec, path);
    switch (spec.v[0]) {
      case 'r':
        return this.refs[Number(spec.v.slice(1))];
      case 'c':
      case 'n':
        return this.keep(spec.v, () => this.callback(spec.v, spec.v[0] === 'c', null));
      case 'f':
      case 'g':
        return this.callback(name, spec.v === 'f', owner.uid + path);
      case 'l':
        return this.keep(spec.v + spec.o, () => this.listener(name, spec.o));
      default:
        return this.listener(name, spec.o);
    }
  }

  keep(key, make) {
    let f = this.stable.get(key);
    if (f === undefined) this.stable.set(key, (f = make()));
    return f;
  }

  /** What tells one value from another. */
  label(owner, snap, spec, path) {
    switch (spec.v[0]) {
      case 'f':
      case 'g':
      case 'm':
        return `${spec.v}:${owner.uid}:${snap.serial}:${path}${spec.o ? ':' + spec.o : ''}`;
      case 'l':
        return spec.v + ':' + spec.o;
    }
    return spec.v;
  }

  callback(name, cleans, place) {
    return (el) => {
      const key = `${this.elKey(el)} ${name}`;
      const c = this.count(key);
      c.calls++;
      this.sim.probe('callback');
      if (place !== null && cleans) {
        const p = this.elKey(el) + place;
        if (this.fresh.has(p)) this.fail('cb', `an element callback at ${p} is called before the previous one is cleaned up`);
        this.fresh.set(p, name);
      }
      if (!cleans) return undefined;
      let done = false;
      return () => {
        if (done) this.fail('cb', `the cleanup of ${key} is called twice`);
        done = true;
        c.cleans++;
        if (place !== null) this.fresh.delete(this.elKey(el) + place);
      };
    };
  }

  elKey(el) {
    return `${el.getAttribute('data-id')}/${el.localName}`;
  }

  count(key) {
    let c = this.calls.get(key);
    if (c === undefined) this.calls.set(key, (c = { calls: 0, cleans: 0, want: 0, wantCleans: 0 }));
    return c;
  }

  listener(name, o) {
    const call = (event) => {
      if (this.eventCalls === null) return this.fail('listener', `${name} is called outside of any event`);
      this.eventCalls.push(`${name} ${event.currentTarget?.getAttribute('data-id')} ${event.eventPhase}`);
      if (o === 'pas' || o === 'cappas') {
        event.preventDefault();
        if (event.defaultPrevented) this.fail('passive', `the passive listener ${name} could prevent the default`);
      }
      const { acts } = this;
      this.acts = null;
      if (acts) this.exec(acts);
    };
    if (o === 'fn') return call;
    const listener = { ...LIS_OPTIONS[o], handleEvent: call };
    if (o.startsWith('sg')) {
      const i = Number(o[2]);
      this.controllers[i] ??= new this.sim.env.window.AbortController();
      listener.signal = this.controllers[i].signal;
      this.signalOf.set(name, listener.signal);
    }
    return listener;
  }

  // ---- the model ------------------------------------------------------------------------

  /** place -> {label, id, shape, slot} of all that a committed owner binds itself. */
  labels(owner, snap) {
    const out = new Map();
    const walk = (spec, at, path) => {
      if (!spec) return;
      if (spec.v !== undefined) out.set(`${at.id}/${at.shape} ${path}`, { label: this.label(owner, snap, spec, path), spec, ...at });
      else if (spec.k !== undefined) walk(spec.s, at, path + 'k' + spec.k);
      else if (spec.l) spec.l.forEach(([key, s], i) => walk(s, at, spec.u ? `${path}[${i}]` : `${path}<${key}>`));
    };
    const item = (it) => {
      for (const slot in SHAPES[it.shape]) walk(it.slots[slot], { id: it.id, shape: it.shape, slot }, slot);
    };
    const { value } = snap;
    if (owner.kind === 'board') value.forEach((it) => it.own || item(it));
    else if (owner.kind === 'item') item({ ...value, id: owner.at });
    else walk(value, owner.at, owner.kind === 'signal' ? 'g' : 'h');
    return out;
  }

  onCommit(owner, snap) {
    const labels = this.labels(owner, snap);
    owner.committed = snap;
    owner.epoch = this.epoch;
    this.commitLabels(owner, labels);
    this.checkRefs(owner, 'when its effects run', false);
  }

  commitLabels(owner, labels) {
    const old = owner.labels;
    const name = (l) => `${l.id}/${['div', 'p', 'b'][l.shape]} ${l.label}`;
    for (const [place, l] of old) {
      if (labels.get(place)?.label === l.label) continue;
      if (/^[cf]/.test(l.label)) this.count(name(l)).wantCleans++;
    }
    for (const [place, l] of labels) {
      if (l.spec.o === 'once') {
        // Whether another listener of the same sort starts anew is left open.
        const before = old.get(place);
        l.once = before?.spec.o !== 'once' ? 'fresh' : before.once === 'fresh' ? 'fresh' : 'open';
      }
      if (/^r\d/.test(l.label)) {
        // Bound by something else too: the last one has it. Which one that was is not
        // known if both are committed together.
        const others = this.holders().get(l.label)?.filter((h) => h.owner !== owner) ?? [];
        if (others.length > 0 && (old.get(place)?.label === l.label || others.some((h) => h.owner.epoch === this.epoch))) this.claims.set(l.label, null);
      }
      if (old.get(place)?.label === l.label) continue;
      if (/^[cnfg]/.test(l.label)) this.count(name(l)).want++;
      if (/^r\d/.test(l.label) && !this.holders().get(l.label)?.some((h) => h.owner !== owner && h.owner.epoch === this.epoch)) this.claims.set(l.label, owner.uid + place);
    }
    owner.labels = labels;
  }

  /** Ref name -> places that are bound to it. */
  holders() {
    const out = new Map();
    for (const owner of this.owners) {
      for (const [place, l] of owner.labels) {
        if (!/^r\d/.test(l.label)) continue;
        if (!out.has(l.label)) out.set(l.label, []);
        out.get(l.label).push({ owner, l, id: owner.uid + place });
      }
    }
    return out;
  }

  element(root, id) {
    return root.el.querySelector(`[data-id="${id}"]`);
  }

  checkRefs(owner, when, removal) {
    const holders = this.holders();
    for (const [place, l] of owner.labels) {
      if (!/^r\d/.test(l.label)) continue;
      const list = holders.get(l.label) ?? [];
      if (list.some((h) => h.owner !== owner) || this.claims.get(l.label) !== owner.uid + place) continue;
      if (this.rejections > 0 || (this.asked.get(l.label)?.size ?? 0) > 1) continue;
      this.sim.probe('ref checked in an effect');
      const { current } = this.refs[Number(l.label.slice(1))];
      // While something is removed the value may already have been moved elsewhere.
      // Something else that no longer wants it may be given it by the same commit.
      if (current !== null && current.getAttribute('data-id') !== l.id && (removal || this.everAsked.has(l.label + current.getAttribute('data-id')))) continue;
      if (this.moved(l.label, owner)) continue;
      if (current?.getAttribute?.('data-id') !== l.id) this.fail('ref', `${l.label} of ${owner.uid} at ${place} is ${this.show(current)} ${when}`);
    }
  }

  /** Whether something else is to be given this ref. */
  moved(ref, owner) {
    for (const o of this.owners) {
      let found = false;
      if (o !== owner) for (const spec of this.specs(o.want, o)) walkRefs(spec, (r) => (found ||= r === ref));
      if (found) return true;
    }
    return false;
  }

  specs(want, owner) {
    if (owner.kind === 'board') return want.flatMap((it) => (this.itemOf(it, owner.root) ? [] : Object.values(it.slots)));
    if (owner.kind === 'item') return Object.values(want.slots);
    return [want];
  }

  /** The mounted component of an item that has one. */
  itemOf(it, root) {
    if (it.own) for (const o of this.owners) if (o.kind === 'item' && o.at === it.id && o.root === root) return o;
    return null;
  }

  show(el) {
    return el === null ? 'null' : el?.getAttribute ? `the element ${el.getAttribute('data-id')}` : String(el);
  }

  // ---- operations -----------------------------------------------------------------------

  genItem(rng) {
    const shape = rng.int(SHAPES.length);
    return { shape, own: rng.chance(0.4), slots: this.genSlots(rng) };
  }

  genSlots(rng) {
    const { cfg } = this;
    return { r: genSpec(rng, 'ref', cfg), a: genSpec(rng, 'lis', cfg), b: genSpec(rng, 'lis', cfg) };
  }

  gen(rng) {
    const { cfg } = this;
    const op = rng.weighted({ view: this.nextId < 3 ? 12 : 3, slot: 7, hold: 6, sig: 1, event: 8, again: 1, abort: 0.8, fail: cfg.faults ? 1.5 : 0 });
    const o = rng.weighted({ none: 3, sync: 1.5, tr: 1, 'user-blocking': 1, 'user-visible': 1, background: 1.5 });
    const n = rng.int(60);
    const seed = rng.int(1 << 30);
    switch (op) {
      case 'view':
        return {
          op, n, o,
          edits: Array.from({ length: 1 + rng.int(2) }, () => ({ e: rng.weighted({ add: 3, remove: 1.5, move: 1.5, swap: 1 }), n: rng.int(20), m: rng.int(20), item: this.genItem(rng) })),
        };
      case 'slot':
      case 'hold':
        return { op, n, o, edits: Array.from({ length: 1 + rng.int(3) }, () => ({ m: rng.int(30), seed: rng.int(1 << 30) })), seed };
      case 'sig': {
        const s = rng.int(4);
        let v;
        do v = genLeaf(rng, s < 2 ? 'ref' : 'lis');
        while (v && /^r/.test(v.v));
        return { op, s, v };
      }
      case 'event':
        return { op, n, type: rng.pick(['click', 'click', 'input']), child: rng.chance(0.5), dead: rng.chance(0.2), acts: rng.chance(0.15) ? { op: 'hold', n: rng.int(60), o, edits: [{ m: rng.int(30), seed }], seed } : null };
      case 'again':
        return { op, n, o };
      case 'abort':
        return { op, n: rng.int(2) };
      case 'fail':
        return { op, kind: rng.pick(['board', 'item', 'holder', 'holder', 'signal']), n, any: rng.chance(0.6) };
    }
  }

  pick(list, n) {
    return list.length > 0 ? list[n % list.length] : null;
  }

  options(o) {
    return o === 'sync' ? { flushSync: true } : o === 'none' ? {} : o === 'tr' ? { transition: this.runtime.nextTransition() } : { priority: o };
  }

  list(...kinds) {
    return [...this.owners].filter((o) => kinds.includes(o.kind) && o.state === 'mounted');
  }

  /** Takes the refs out of a new spec that something else is, or is to be, bound to. */
  sane(spec, used, by) {
    if (!spec) return spec;
    if (spec.v !== undefined) {
      if (!/^r\d/.test(spec.v)) return spec;
      if (used.has(spec.v)) return null;
      used.add(spec.v);
      if (!this.asked.has(spec.v)) this.asked.set(spec.v, new Set());
      this.asked.get(spec.v).add(by);
      this.everAsked.add(spec.v + by);
      return spec;
    }
    if (spec.l) return { ...spec, l: spec.l.map(([key, s]) => [key, this.sane(s, used, by)]) };
    return spec.s !== undefined ? { ...spec, s: this.sane(spec.s, used, by) } : spec;
  }

  used(except) {
    const used = new Set();
    for (const o of this.owners) {
      if (o === except) continue;
      for (const spec of this.specs(o.want, o)) walkRefs(spec, (r) => used.add(r));
    }
    return used;
  }

  ask(owner, want, o) {
    owner.want = want;
    this.quiet(owner.set(want, this.options(o)));
  }

  exec(op) {
    switch (op.op) {
      case 'view': {
        const board = this.pick(this.roots, op.n).board;
        if (!board) break;
        let items = [...board.want];
        for (const { e, n, m, item } of op.edits) {
          const i = items.length > 0 ? n % items.length : -1;
          if (e === 'add') {
            if (items.length < this.cfg.items) items.splice(m % (items.length + 1), 0, { ...item, id: 'e' + this.nextId++ });
          } else if (i < 0) continue;
          else if (e === 'remove') items.splice(i, 1);
          else if (e === 'move') items.splice(m % items.length, 0, items.splice(i, 1)[0]);
          else {
            // Two elements exchange what they are bound to.
            const j = m % items.length;
            const a = items[i];
            const b = items[j];
            if (i !== j && !a.own && !b.own) {
              items[i] = { ...a, slots: b.slots };
              items[j] = { ...b, slots: a.slots };
            }
          }
        }
        this.askItems(board, items, op.o);
        break;
      }
      case 'slot': {
        const owner = this.pick(this.list('board', 'item'), op.n);
        if (!owner) break;
        const change = (it, m, seed) => {
          const slots = Object.keys(SHAPES[it.shape]);
          const slot = slots[m % slots.length];
          const rng = new Rng(seed, 'edit');
          if (rng.chance(0.05)) return { ...it, shape: rng.int(SHAPES.length) };
          return { ...it, slots: { ...it.slots, [slot]: mutate(rng, it.slots[slot], SHAPES[it.shape][slot], this.cfg) } };
        };
        if (owner.kind === 'item') {
          let it = owner.want;
          for (const { m, seed } of op.edits) it = change(it, m, seed);
          this.ask(owner, Object.freeze({ ...it, slots: this.saneSlots(it.slots, this.used(owner), owner.at) }), op.o);
        } else {
          const items = [...owner.want];
          for (const { m, seed } of op.edits) {
            const i = items.length > 0 ? m % items.length : -1;
            if (i >= 0 && !items[i].own) items[i] = change(items[i], Math.floor(m / 2), seed);
          }
          this.askItems(owner, items, op.o);
        }
        break;
      }
      case 'hold': {
        const owner = this.pick(this.list('holder'), op.n);
        if (!owner) break;
        let spec = owner.want;
        for (const { seed } of op.edits) spec = mutate(new Rng(seed, 'edit'), spec, owner.sort, this.cfg);
        this.ask(owner, this.sane(spec, this.used(owner), owner.at.id), op.o);
        break;
      }
      case 'sig':
        this.sigs[op.s].value = op.v;
        break;
      case 'again': {
        // The same once more: functions made by the rendering are new ones.
        const owner = this.pick(this.list('board', 'item', 'holder'), op.n);
        if (!owner) break;
        const { want } = owner;
        this.ask(owner, Array.isArray(want) ? Object.freeze([...want]) : want && { ...want }, op.o);
        break;
      }
      case 'abort':
        this.controllers[op.n]?.abort();
        this.controllers[op.n] = undefined;
        break;
      case 'event':
        this.event(op);
        break;
      case 'fail':
        if (this.armed.length < 2) this.armed.push({ kind: op.kind, uid: op.any ? null : this.pick(this.list(op.kind), op.n)?.uid ?? null });
        break;
    }
  }

  saneSlots(slots, used, by) {
    return Object.fromEntries(Object.entries(slots).map(([slot, spec]) => [slot, this.sane(spec, used, by)]));
  }

  askItems(board, items, o) {
    const used = this.used(board);
    // What stays is kept where it is; what is new gives way.
    this.ask(board, Object.freeze(items.map((it) => (this.itemOf(it, board.root) ? it : Object.freeze({ ...it, slots: this.saneSlots(it.slots, used, it.id) })))), o);
  }

  event(op) {
    const roots = this.roots.map((r) => [...r.el.querySelectorAll('[data-id]')]);
    const el = op.dead ? this.pick(this.dead, op.n)?.el : this.pick(roots.flat(), op.n);
    if (!el) return;
    const id = el.getAttribute('data-id');
    const want = [];
    const open = []; // those that may be called or not
    if (!op.dead) {
      for (const owner of this.owners) {
        for (const l of owner.labels.values()) {
          if (l.id !== id || SHAPES[l.shape][l.slot] !== 'lis' || EVENT[l.slot] !== op.type) continue;
          const capture = l.spec.o.startsWith('cap');
          const entry = `${l.label} ${id} ${op.child ? (capture ? 1 : 3) : 2}`;
          if (l.spec.o === 'once') {
            this.sim.probe('once ' + l.once);
            if (l.once !== 'fresh') open.push(l.once === 'open' ? { entry, l } : null);
            if (l.once === 'fresh') {
              l.once = 'fired';
              want.push(entry);
            }
          } else if (this.signalOf.get(l.label)?.aborted) this.sim.probe('aborted');
          else want.push(entry);
        }
      }
    }
    this.eventCalls = [];
    this.acts = op.dead ? null : op.acts;
    const { window } = this.sim.env;
    const target = op.child ? el.querySelector('i') : el;
    // What listeners do must not change what is expected of this event.
    target.dispatchEvent(new window.Event(op.type, { bubbles: true, cancelable: true }));
    for (const o of open) {
      if (o === null || !this.eventCalls.includes(o.entry)) continue;
      o.l.once = 'fired';
      want.push(o.entry);
    }
    const got = this.eventCalls.sort().join(', ');
    this.eventCalls = null;
    this.acts = null;
    this.sim.probe(op.dead ? 'event on removed' : 'event');
    if (want.length > 1) this.sim.probe('several listeners');
    if (got !== want.sort().join(', ')) this.fail(op.dead ? 'listener-dead' : 'listener', `${op.type} on ${id} called [${got}] instead of [${want.join(', ')}]`);
  }

  quiet(handle) {
    this.pending++;
    handle.finished
      .catch((error) => {
        if (!this.isBoom(error)) this.fail('threw', `an update was rejected: ${(error?.cause ?? error)?.stack ?? error}`);
        this.rejections++;
      })
      .finally(() => {
        if (--this.pending === 0) this.asked.clear();
      });
    return handle;
  }

  isBoom(error) {
    for (let e = error; e; e = e.cause) if (e instanceof Boom) return true;
    return false;
  }

  onHostError(error) {
    if (this.isBoom(error)) {
      this.rejections++;
      return;
    }
    this.fail('threw', `unexpected exception: ${error?.stack ?? error}`);
  }

  // ---- checks ---------------------------------------------------------------------------

  check() {
    this.epoch++;
    const d = new Digest();
    // elements
    const places = new Map();
    for (const root of this.roots) {
      d.add(root.el.innerHTML);
      const want = [];
      if (root.board?.state === 'mounted') {
        for (const it of root.board.committed.value) {
          const item = this.itemOf(it, root);
          if (it.own && !item) {
            this.fail('view', `${it.id} is not mounted`);
            continue;
          }
          want.push(`${it.id}/${['div', 'p', 'b'][item ? item.committed.value.shape : it.shape]}`);
        }
      }
      const els = [...root.el.querySelectorAll('[data-id]')];
      const got = els.map((el) => this.elKey(el));
      if (got.join() !== want.join()) this.fail('view', `root ${root.i} has ${got.join()} instead of ${want.join()}`);
      for (const el of els) places.set(el.getAttribute('data-id'), el);
    }
    for (const [id, el] of this.places ?? []) if (places.get(id) !== el && this.dead.length < 20) this.dead.push({ el });
    this.places = places;
    // references
    const holders = this.holders();
    this.refs.forEach((ref, n) => {
      const list = holders.get('r' + n) ?? [];
      d.add(n + this.show(ref.current));
      if (list.length === 0) {
        if (ref.current !== null) this.fail(ref.current?.isConnected ? 'ref' : 'ref-dead', `r${n} is ${this.show(ref.current)} although nothing is bound to it`);
      } else if (list.length === 1) {
        // Unless another one claimed it in the meantime.
        if (this.claims.get('r' + n) !== list[0].id) return;
        const el = places.get(list[0].l.id);
        if (ref.current !== el) this.fail('ref', `r${n} is ${this.show(ref.current)} instead of ${this.show(el)}, bound by ${list[0].id}`);
      } else this.sim.probe('ref bound twice');
    });
    // callbacks
    for (const [key, c] of this.calls) {
      if (c.calls !== c.want) this.fail('cb', `the element callback ${key} was called ${c.calls} times instead of ${c.want}`);
      if (c.cleans !== c.wantCleans) this.fail('cb', `the cleanup of the element callback ${key} was called ${c.cleans} times instead of ${c.wantCleans}`);
    }
    this.stateDigests.add(d.toString());
  }

  settled() {
    if (this.rejections > 0) return;
    for (const owner of this.owners) {
      const want = owner.kind === 'signal' ? this.sigs[owner.n].value : owner.want;
      if (JSON.stringify(owner.committed.value) !== JSON.stringify(want)) this.fail('stale', `at rest ${owner.uid} does not show its last state`);
    }
  }

  onIdle(phase) {
    if (phase === 0) {
      this.settled();
      this.armed = [];
      return true;
    }
    if (phase === 1) {
      for (const root of this.roots) root.root.unmount();
      return true;
    }
    for (const owner of this.owners) this.fail('leak', `${owner.uid} is still mounted`);
    for (const key of this.fresh.keys()) this.fail('cb', `the element callback at ${key} is never cleaned up`);
    return false;
  }
}
