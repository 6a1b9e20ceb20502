// State changes that do not last: transient dispatches, and states that are given anew
// by every rendering (passthrough). A few components that stay mounted, each with a log
// of the dispatches its state has gone through; any number of dispatches in flight.
const PRIOS = ['user-blocking', 'background']; // 'user-visible' is kept for the last rendering
const TOUCH = -1; // leaves the state as it is
const KINDS = ['plain', 'plain', 'given', 'optimistic'];

export default class Transient {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.stateDigests = new Set();
    this.leaves = [];
    this.inflight = new Set();
    this.n = 0;
  }

  setup() {
    const { core } = this.sim.lib;
    const S = this;
    const runtime = new core.Runtime(new core.DOMAdapter(this.sim.document));
    const reducer = (state, id) => (id === TOUCH ? state : { base: state.base, ids: [...state.ids, id] });
    this.Leaf = core.createComponent(function Leaf({ leaf, given }) {
      const [state, dispatch] = this.useReducer(reducer, () => ({ base: given, ids: [] }), leaf.kind === 'plain' ? undefined : { passthrough: true });
      leaf.dispatch = dispatch;
      leaf.state = state;
      leaf.force = (options) => this.forceUpdate(options);
      S.rendered(leaf, given, state);
      this.useEffect(() => {
        S.committed(leaf, state);
      });
      return core.html`<i>${state.ids.join()}</i>`;
    });
    const { Leaf } = this;
    this.App = core.createComponent(function App({ leaves, given }) {
      return core.html`<p><${leaves.map((leaf) => Leaf({ leaf, given }).withKey(leaf.id))}></p>`;
    });
    this.roots = [];
    let id = 0;
    for (let r = 0; r < this.cfg.roots; r++) {
      const el = this.sim.document.createElement('main');
      this.sim.document.body.appendChild(el);
      const leaves = [];
      for (let i = 0; i < this.cfg.leaves; i++) {
        leaves.push({ id: id++, kind: KINDS[(i + this.cfg.kinds) % KINDS.length], acts: [], done: new Set(), seen: new Set(), shown: null, touches: 0, renders: 0, el: null });
      }
      const root = { el, root: new core.DOMRoot(el, runtime), leaves, given: 0 };
      this.roots.push(root);
      this.leaves.push(...leaves);
      this.render(root, { flushSync: true });
    }
  }

  render(root, options) {
    this.track(root.root.render(this.App({ leaves: root.leaves, given: root.given }), options));
  }

  track(handle) {
    const h = { lanes: handle.lanes };
    this.inflight.add(h);
    handle.finished.then(
      () => this.inflight.delete(h),
      (error) => {
        this.inflight.delete(h);
        this.sim.fail('hosterror', `an update failed with ${error?.stack ?? error}`);
      },
    );
    return handle;
  }

  options(rng) {
    const o = {};
    const how = rng.weighted({ none: 2, prio: 3, trans: 3, sync: 1.5, delay: 1, mix: 1 });
    if (how === 'prio' || (how === 'mix' && rng.chance(0.5))) o.priority = PRIOS[rng.int(2)];
    if (how === 'trans' || how === 'mix') o.transition = rng.int(2);
    if (how === 'sync' || (how === 'mix' && rng.chance(0.3))) o.flushSync = true;
    if (how === 'delay') o.delay = rng.pick([50, 500]);
    return o;
  }

  gen(rng) {
    const op = rng.weighted({ act: 6, render: 1.5, force: 1 });
    switch (op) {
      case 'act': {
        const list = [];
        for (let i = 1 + rng.int(3); i > 0; i--) list.push({ l: rng.int(16), t: rng.chance(0.5) ? 1 : 0, e: rng.weighted({ 0: 6, 1: 1, 2: 1 }), q: rng.chance(0.1) ? 1 : 0, o: this.options(rng) });
        return { op, list };
      }
      case 'render':
        return { op, r: rng.int(2), g: rng.chance(0.7) ? 1 : 0, o: this.options(rng) };
      case 'force':
        return { op, l: rng.int(16), o: this.options(rng) };
    }
  }

  exec(op) {
    switch (op.op) {
      case 'act':
        for (const a of op.list) this.act(this.leaves[a.l % this.leaves.length], a);
        break;
      case 'render': {
        const root = this.roots[op.r % this.roots.length];
        if (op.g) root.given++;
        this.render(root, { ...op.o });
        break;
      }
      case 'force': {
        const leaf = this.leaves[op.l % this.leaves.length];
        if (leaf.force) this.track(leaf.force({ ...op.o }));
        break;
      }
    }
  }

  act(leaf, { t, e, q, o }) {
    if (!leaf.dispatch) return;
    if (q && leaf.kind === 'plain') return this.touch(leaf, e, o);
    // A state given by every rendering has dispatches of one sort only.
    const transient = leaf.kind === 'optimistic' || (leaf.kind === 'plain' && t === 1);
    const act = { id: ++this.n, transient, lanes: 0, done: false };
    const options = transient ? { ...o, transient } : { ...o };
    // What counts as no change is told by the dispatch.
    const same = Number(e) === 1;
    let asked = 0;
    if (Number(e) > 0) {
      options.areStatesEqual = (next, prev) => {
        asked++;
        if (prev !== leaf.state || next.base !== prev.base || next.ids.join() !== [...prev.ids, act.id].join()) {
          this.sim.fail('noop', `states compared are [${next.ids}] and [${prev.ids}], the state was [${leaf.state.ids}]`);
        }
        return same;
      };
    }
    const idle = this.atRest(leaf);
    const handle = leaf.dispatch(act.id, options);
    this.sim.probe(`equal-${e}-${asked}`);
    if (asked > 1 || (idle && Number(e) > 0 && asked === 0)) this.sim.fail('noop', `the states were compared ${asked} times`);
    if ((handle.id === -1) !== (same && asked > 0)) this.sim.fail('noop', `the handle of a dispatch has id ${handle.id}, the states ${same && asked > 0 ? 'were' : 'were not'} equal`);
    if (handle.id === -1) return;
    leaf.acts.push(act);
    this.track(handle);
    act.lanes = handle.lanes;
    handle.finished.then(() => {
      act.done = true;
      this.sim.probe(transient ? 'transient-done' : 'lasting-done');
      if (!leaf.seen.has(act.id)) this.sim.fail('transient', `dispatch ${act.id}${transient ? ' (transient)' : ''} finished but was never shown`);
      else if (!transient && leaf.kind === 'plain' && !leaf.shown.includes(act.id)) this.sim.fail('transient', `dispatch ${act.id} finished but is not shown`);
    });
  }

  atRest(leaf) {
    return leaf.touches === 0 && leaf.acts.every((a) => a.done && !a.transient);
  }

  /** A dispatch that leaves the state as it is. */
  touch(leaf, e, o) {
    const options = { ...o };
    if (Number(e) > 0) options.areStatesEqual = () => Number(e) === 1;
    const idle = this.atRest(leaf);
    const { renders } = leaf;
    const handle = leaf.dispatch(TOUCH, options);
    this.sim.probe(`touch-${e}-${handle.id === -1 ? 'dropped' : 'kept'}`);
    if (handle.id === -1 ? Number(e) === 2 : idle && Number(e) !== 2) this.sim.fail('noop', `a dispatch that leaves the state as it is got id ${handle.id} (mode ${e})`);
    if (handle.id === -1) return;
    leaf.touches++;
    this.track(handle).finished.then(() => {
      leaf.touches--;
      if (leaf.renders === renders) this.sim.fail('noop', `leaf ${leaf.id} was not rendered for a dispatch that was not dropped`);
    });
  }

  rendered(leaf, given, state) {
    leaf.renders++;
    let lanes = 0;
    for (const h of this.inflight) lanes |= h.lanes;
    let at = -1;
    for (const id of state.ids) {
      const i = leaf.acts.findIndex((a) => a.id === id);
      if (i <= at) this.sim.fail('transient', `the state is made of dispatches [${state.ids}], dispatched were [${leaf.acts.map((a) => a.id)}]`);
      at = i;
      const act = leaf.acts[i];
      // At most what is in flight is being rendered.
      if (act?.transient && (act.lanes & lanes) !== act.lanes) this.sim.fail('transient', `dispatch ${id} (transient, lanes ${act.lanes}) is in a rendering of at most the lanes ${lanes}`);
      if (act?.transient && act.done) this.sim.probe('transient-again');
    }
    for (const act of leaf.acts) {
      if (act.done && !act.transient && leaf.kind === 'plain' && !state.ids.includes(act.id)) this.sim.fail('transient', `a rendering has lost dispatch ${act.id}`);
      if (act.done && act.transient && !state.ids.includes(act.id)) this.sim.probe('transient-gone');
    }
    if (leaf.kind === 'plain' ? state.base !== 0 : state.ids.length === 0 && state.base !== given) {
      this.sim.fail('transient', `a ${leaf.kind} state began with ${state.base}, given was ${given}`);
    }
    if (leaf.kind !== 'plain') this.sim.probe('given-' + (state.ids.length > 0 ? 'changed' : 'as-is'));
  }

  committed(leaf, state) {
    leaf.shown = state.ids;
    for (const id of state.ids) leaf.seen.add(id);
  }

  check() {
    for (const root of this.roots) {
      const shown = [...root.el.querySelectorAll('i')].map((el) => el.textContent);
      root.leaves.forEach((leaf, i) => {
        if (leaf.shown !== null && shown[i] !== leaf.shown.join()) this.sim.fail('dom', `leaf ${leaf.id} shows ${shown[i]}, committed was ${leaf.shown}`);
      });
      this.sim.sem.add(shown.join('|'));
    }
    this.stateDigests.add(this.leaves.map((l) => `${l.shown?.length}/${l.acts.filter((a) => !a.done).length}`).join());
  }

  onIdle(phase) {
    if (phase === 0) {
      if (this.inflight.size > 0) this.sim.fail('stuck', `${this.inflight.size} updates never finished`);
      // A rendering that none of the transient dispatches belongs to.
      for (const leaf of this.leaves) this.track(leaf.force({ priority: 'user-visible' }));
      return true;
    }
    for (const leaf of this.leaves) {
      const want = leaf.kind === 'plain' ? leaf.acts.filter((a) => !a.transient).map((a) => a.id) : [];
      if (leaf.shown.join() !== want.join()) {
        this.sim.fail('transient', `leaf ${leaf.id} (${leaf.kind}) shows [${leaf.shown}] in the end, of [${leaf.acts.map((a) => a.id + (a.transient ? '(transient)' : ''))}]`);
      }
    }
    return false;
  }

  onHostError(error) {
    this.sim.fail('hosterror', `error reached the host: ${error?.stack ?? error}`);
  }
}
