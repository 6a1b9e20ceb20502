// Workload presets: what a run of each kind is made of. Every knob is derived from
// the seed, so (preset, seed) alone fixes a run.
import { Rng } from './rng.mjs';
import { genSpec } from './scenarios/derivable.mjs';
import { genRoutes } from './scenarios/pure.mjs';
import { genTemplates } from './scenarios/templates.mjs';
import { genGraph } from './scenarios/signals.mjs';

const cache = new Map();
export async function load(name) {
  let s = cache.get(name);
  if (s === undefined) {
    const mod = await import(`./scenarios/${name}.mjs`);
    cache.set(name, (s = mod.default ?? mod.Tree));
  }
  return s;
}

function host(rng) {
  return {
    prod: rng.chance(0.3) ? 1 : 0,
    postTask: rng.chance(0.4) ? 1 : 0,
    idle: rng.chance(0.5) ? 1 : 0,
    hidden: rng.chance(0.15) ? 1 : 0,
    moveBefore: rng.chance(0.3) ? 1 : 0,
    loading: rng.chance(0.15) ? 1 : 0,
    spy: rng.chance(0.35) ? 1 : 0,
    opWeight: rng.pick([1, 3, 3, 8]),
    frameWeight: rng.pick([0.3, 2, 2]),
    stall: rng.pick([0.05, 0.25, 2]),
  };
}

const tree = (over) => (rng) => ({
  scenario: 'tree',
  cfg: {
    ...host(rng),
    ops: 6 + rng.int(22),
    roots: 1 + rng.int(2),
    runtimes: 1,
    depth: 1 + rng.int(3),
    size: rng.pick([4, 6, 9]),
    context: 1,
    handlers: 1,
    ...(typeof over === 'function' ? over(rng) : over),
  },
});

const hostOnly = (scenario, over) => (rng) => ({ scenario, cfg: { ...host(rng), ops: 6 + rng.int(22), ...over(rng) } });

const observers = (kinds, over) => hostOnly('observers', (rng) => ({ kinds, roots: 1 + rng.int(2), items: 2 + rng.int(5), opWeight: rng.pick([1, 3, 8]), ...over }));

export const PRESETS = {
  derivable: (rng) => ({
    scenario: 'derivable',
    cfg: { prod: rng.int(2), ops: 5 + rng.int(25), faults: rng.int(2), strictReads: 1, grow: 0, root: genSpec(rng, 3, true) },
  }),
  signals: (rng) => ({
    scenario: 'signals',
    cfg: { prod: rng.int(2), ops: 6 + rng.int(30), atoms: 1 + rng.int(3), accessors: rng.int(2), store: rng.int(2), init: rng.int(9), graph: genGraph(rng) },
  }),
  observers: observers(['sig']),
  extstore: observers(['ext']),
  deferred: observers(['def'], { roots: 1 }),
  transitions: observers(['tra', 'tra', 'tra', 'def']),
  events2: observers(['eev'], { faults: 1 }),
  handles: observers(['imp', 'imp', 'imp', 'eev']),
  handlesFaults: observers(['imp', 'eev'], { faults: 1 }),
  routerMem: hostOnly('router', (rng) => ({ kind: 'memory', roots: 1 + rng.int(2), adapters: 1 + rng.int(2), custom0: rng.chance(0.6), opWeight: rng.pick([1, 3, 8]) })),
  routerNav: hostOnly('router', (rng) => ({ kind: rng.pick(['browser', 'hash']), roots: 1 + rng.int(2), adapters: 1 + (rng.chance(0.2) ? 1 : 0), custom0: rng.chance(0.6), opWeight: rng.pick([1, 3, 8]) })),
  routerFaults: hostOnly('router', (rng) => ({ kind: rng.pick(['memory', 'browser', 'hash']), roots: 1 + rng.int(2), adapters: 1, faults: 1, custom0: rng.chance(0.6), opWeight: rng.pick([1, 3, 8]) })),
  pure: hostOnly('pure', (rng) => ({ kinds: rng.pick([['route'], ['tpl'], ['tpl'], ['route', 'tpl']]), tables: [genRoutes(rng), genRoutes(rng)], faults: rng.int(2), opWeight: rng.pick([1, 3, 8]) })),
  bindings: hostOnly('bindings', (rng) => ({ roots: 1 + rng.int(2), items: 1 + rng.int(5), shapes: rng.pick([[0], [1], [2], [3], [0, 1, 2, 3]]), opWeight: rng.pick([1, 3, 8]), faults: rng.int(2) })),
  slots: hostOnly('slots', (rng) => ({ roots: 1 + rng.chance(0.25), items: 1 + rng.int(4), ops: 8 + rng.int(30), wKey: rng.int(3), wList: rng.pick([0, 1.5, 4]), wHold: rng.pick([0.5, 2, 4]), wSig: rng.pick([0, 0.5]), opWeight: rng.pick([1, 3, 8]), faults: rng.chance(0.3) ? 1 : 0 })),
  templates: hostOnly('templates', (rng) => ({ templates: genTemplates(rng), bad: rng.int(2), roots: 1 + rng.int(2), ops: 6 + rng.int(14), opWeight: rng.pick([1, 3, 8]) })),
  middleware: hostOnly('middleware', (rng) => ({ mws: rng.int(4), keep: rng.int(2), opWeight: rng.pick([1, 3, 8]) })),
  transient: hostOnly('transient', (rng) => ({ roots: 1 + rng.int(2), leaves: 1 + rng.int(4), kinds: rng.int(4), opWeight: rng.pick([1, 3, 8]) })),
  adapter: hostOnly('adapter', (rng) => ({ adapters: 1 + rng.int(2), faults: rng.int(2), prod: rng.int(2), opWeight: rng.pick([1, 3, 8]) })),
  base: tree({}),
  portal: tree({ portals: 1, wPortal: 2 }),
  faults: tree({ faults: 1, portals: 1 }),
  misuse: tree((rng) => ({ faults: 1, misuse: 1, ids: rng.pick([0, 1, 2]), runtimes: 1 + rng.int(2), roots: 2 })),
  lists: tree((rng) => ({ wList: 7, listMax: 7, weirdKeys: 1, size: 10, handlers: 0, opWeight: rng.pick([1, 3]) })),
  mixed: tree({ mixed: 1 }),
  rdisp: tree({ renderDispatch: 1 }),
  mw: tree((rng) => ({ mw: 1 + rng.int(4), mwOps: 1, faults: rng.chance(0.3) ? 1 : 0, runtimes: 1 + rng.int(2), roots: 2 })),
  // root values not wrapped in a component of the harness
  bare: tree((rng) => ({ bare: 1, wComp: rng.pick([1, 3]) })),
  // small trees with many state updates of all kinds
  states: tree((rng) => ({
    depth: 1 + rng.int(2), size: rng.pick([2, 3, 4]), wComp: 8, ops: 10 + rng.int(25), wCompAct: 12, wRootAct: 1.5, unmounts: 0.15,
    wActs: { log: 5, noop: 1.2, view: 1, small: 3, force: 0.8 }, opWeight: rng.pick([1, 3, 8, 8]), handlers: rng.int(2),
  })),
  // mostly calls of render and unmount, in bursts
  roots: tree((rng) => ({
    wRootAct: 6, wCompAct: 3, unmounts: rng.pick([1, 3, 5]), pMulti: 0.7, roots: 1 + rng.int(2), size: 4, opWeight: rng.pick([3, 8]),
  })),
  // everything in flight at once
  prios: tree((rng) => ({
    size: 4, depth: 1 + rng.int(2), roots: 2, wPrio: 5, wTrans: 2, wSync: rng.pick([0.5, 1.5, 3]), pMulti: 0.6, opWeight: rng.pick([4, 8, 15]),
    handlers: rng.int(2), wEvent: 2,
  })),
  handlers: tree((rng) => ({
    wHandler: 8, wRootAct: 6, roots: 1 + rng.int(3), size: rng.pick([3, 5]), depth: 1 + rng.int(2), opWeight: rng.pick([1, 3, 8]), runtimes: 1 + rng.int(2),
  })),
  events: tree((rng) => ({ shapes: [8, 10, 10, 0, 9], wEvent: 8, depth: 1 + rng.int(2), size: 6, wElem: 8, pDead: 0.1 })),
  refs: tree((rng) => ({ shapes: [8, 10, 10, 8, 0], wElem: 8, depth: 1 + rng.int(2), size: rng.pick([4, 7]), portals: rng.int(2) })),
  context: tree((rng) => ({ pProvide: 0.6, depth: 2 + rng.int(3), size: 5, wComp: 7, roots: 1 + rng.int(2) })),
  iso: tree((rng) => ({ iso: 1, roots: 2 + rng.int(2), faults: rng.int(2), handlers: 1, ops: 8 + rng.int(20), size: 4, mw: rng.int(2) })),
};

export function presetCfg(name, seed) {
  const rng = new Rng(seed, 'preset ' + name);
  const make = PRESETS[name];
  if (!make) throw new Error('no preset ' + name);
  return make(rng);
}
