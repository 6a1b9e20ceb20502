// Which property is decided by which workloads and which kinds of violation.
//
// mixes: the workload presets, with their share of the runs and cfg overrides.
// classes: the kinds of violation that contradict the property itself.
// contrast: 'faults' - the violation must need an injected fault (the same
//   operations without the faults, under many schedules, do not show it);
//   'worlds' - it must need two roots (the operations of each root alone do not).
// twin: 'mw' - the same schedule with and without the middleware must have the
//   same semantic history.
// hang: a run that never ends counts as a violation of the property.

const EFFECTS = ['effect-pair', 'effect-missed', 'effect-extra', 'effect-order', 'effect-dom', 'effect-uncommitted', 'effect-dead'];
const DOM = ['dom', 'portal', 'zombie', 'props', 'comment'];

export const CHECKS = {
  C01: {
    mixes: [{ p: 'base', w: 3 }, { p: 'portal', w: 1 }, { p: 'lists', w: 2 }, { p: 'mixed', w: 1 }, { p: 'rdisp', w: 1 }, { p: 'bare', w: 1 }, { p: 'templates', w: 1 }],
    classes: [...DOM, 'reject-cause', 'hosterror', 'bound', 'threw'],
    runs: 13500,
    hang: 1,
  },
  C02: {
    mixes: [{ p: 'base', w: 3 }, { p: 'faults', w: 2 }, { p: 'mixed', w: 2 }, { p: 'rdisp', w: 1 }, { p: 'base', w: 2, o: { hidden: 1 } }, { p: 'middleware', w: 1 }],
    classes: ['stuck', 'livelock', 'reject-lost', 'step'],
    runs: 15000,
    hang: 1,
  },
  C03: {
    mixes: [{ p: 'states', w: 4 }, { p: 'base', w: 1 }, { p: 'mixed', w: 3 }, { p: 'rdisp', w: 1 }],
    classes: ['fold'],
    runs: 15000,
  },
  C04: {
    mixes: [{ p: 'base', w: 3 }, { p: 'portal', w: 1 }, { p: 'states', w: 2 }, { p: 'faults', w: 1 }, { p: 'lists', w: 1 }],
    classes: ['early', 'torn', 'visible', 'effect-dom'],
    runs: 12000,
  },
  C05: {
    mixes: [{ p: 'roots', w: 3 }, { p: 'bare', w: 1, o: { unmounts: 3 } }, { p: 'base', w: 1 }],
    classes: ['root-order', 'foreign', 'rootstate', 'rootdom', 'rootlast'],
    runs: 15000,
  },
  C06: {
    mixes: [{ p: 'lists', w: 1 }],
    classes: ['identity', 'dom', 'hookid', 'reject-cause'],
    runs: 8000,
    hang: 1,
  },
  C07: {
    mixes: [{ p: 'base', w: 3 }, { p: 'portal', w: 1 }, { p: 'lists', w: 1 }, { p: 'faults', w: 1 }, { p: 'rdisp', w: 1 }],
    classes: EFFECTS,
    runs: 12000,
  },
  C08: {
    mixes: [{ p: 'faults', w: 3 }, { p: 'faults', w: 1, o: { runtimes: 2, roots: 2 } }],
    classes: [...DOM, ...EFFECTS, 'early', 'identity', 'ref', 'cb', 'cb-uncommitted', 'listener', 'ctx', 'memo', 'fold', 'visible', 'reject-cause',
      'reject-scope', 'reject-lost', 'stuck', 'dirty', 'hosterror', 'foreign', 'leak', 'id', 'hookid', 'handler', 'force', 'cause', 'noop'],
    contrast: 'faults',
    runs: 15000,
  },
  C09: {
    mixes: [{ p: 'prios', w: 3 }, { p: 'base', w: 1 }],
    classes: ['order', 'merged', 'sync', 'default-priority', 'ungranted'],
    runs: 15000,
  },
  C10: {
    mixes: [{ p: 'handlers', w: 3 }, { p: 'handlers', w: 1, o: { faults: 1 } }],
    classes: ['handler'],
    runs: 15000,
  },
  C11: {
    mixes: [{ p: 'observers', w: 4 }, { p: 'observers', w: 1, o: { faults: 1 } }],
    classes: ['stale', 'view', 'extra', 'dead', 'local', 'leak', 'threw'],
    runs: 30000,
  },
  C12: {
    mixes: [{ p: 'signals', w: 1 }],
    classes: ['value', 'args', 'reeval', 'notified', 'unnotified', 'threw'],
    runs: 40000,
    hang: 1,
    real: ['src/addons/signal/** of /repo (debug and production builds)'],
    stub: ['none: signals are driven directly; computations, subscribers and writers are simulated'],
    assumptions: ['Runs are sampled, not enumerated.', 'Subscribers do not throw.', 'Computations are functions of their arguments.'],
  },
  C13: {
    mixes: [{ p: 'derivable', w: 1 }],
    classes: ['value', 'identity', 'mutated', 'notified', 'unnotified', 'handle', 'scope', 'revoked', 'threw'],
    runs: 40000,
    hang: 1,
    real: ['src/addons/signal/** and src/compare.ts of /repo (debug and production builds)'],
    stub: ['none: the store is driven directly; the other parties (subscribers, draft callbacks, holders of old handles) are simulated'],
    assumptions: ['Runs are sampled, not enumerated.', 'The findings listed as known are kept out of the workload.'],
  },
  C14: {
    mixes: [{ p: 'base', w: 2 }, { p: 'portal', w: 2 }, { p: 'lists', w: 1 }, { p: 'roots', w: 1 }],
    classes: ['leak', 'zombie', 'foreign', 'render-dead', 'effect-dead', 'listener-dead', 'ref-dead', 'cb-dead', 'effect-left'],
    runs: 12000,
  },
  C15: {
    mixes: [{ p: 'extstore', w: 4 }, { p: 'extstore', w: 1, o: { faults: 1 } }],
    classes: ['stale', 'view', 'ledger', 'dead', 'leak', 'threw'],
    runs: 30000,
  },
  C16: {
    mixes: [{ p: 'events', w: 3 }, { p: 'events', w: 1, o: { faults: 1 } }, { p: 'slots', w: 3 }],
    classes: ['listener', 'listener-dead', 'passive'],
    runs: 20000,
  },
  C17: {
    mixes: [{ p: 'refs', w: 3 }, { p: 'refs', w: 1, o: { faults: 1 } }, { p: 'slots', w: 4 }],
    classes: ['ref', 'ref-dead', 'cb', 'cb-dead', 'cb-uncommitted'],
    runs: 25000,
  },
  C18: {
    mixes: [{ p: 'deferred', w: 2 }, { p: 'transitions', w: 3 }, { p: 'transitions', w: 1, o: { faults: 1 } }],
    classes: ['deferred', 'torn', 'pending', 'transition', 'blocked', 'stale', 'view', 'threw'],
    runs: 30000,
  },
  C19: {
    mixes: [{ p: 'context', w: 3 }, { p: 'context', w: 1, o: { runtimes: 2, roots: 2 } }],
    classes: ['ctx'],
    runs: 15000,
  },
  C20: {
    mixes: [{ p: 'adapter', w: 1 }],
    classes: ['hosterror', 'priority', 'sync', 'request', 'twice', 'facility', 'late', 'outcome', 'frame', 'lost'],
    runs: 20000,
    hang: 1,
    real: ['src/dom/** host adapter of /repo (debug and production builds)'],
  },
  C21: {
    mixes: [{ p: 'routerMem', w: 2 }, { p: 'routerNav', w: 2 }, { p: 'routerFaults', w: 1 }],
    classes: ['scene', 'url', 'finished', 'listener', 'threw'],
    runs: 30000,
  },
  C22: {
    mixes: [{ p: 'mw', w: 2 }, { p: 'middleware', w: 1 }],
    classes: ['mw', 'mw-differs'],
    twin: 'mw',
    runs: 8000,
  },
  C23: {
    mixes: [{ p: 'bindings', w: 5 }, { p: 'templates', w: 1 }],
    classes: ['bound', 'dom', 'foreign', 'element', 'stale', 'threw', 'leak', 'dead', 'view'],
    runs: 20000,
  },
  C24: {
    mixes: [{ p: 'base', w: 2 }, { p: 'base', w: 2, o: { runtimes: 2, roots: 2 } }, { p: 'faults', w: 1 }, { p: 'rdisp', w: 1 },
      { p: 'base', w: 0.5, o: { runtimes: 2, roots: 3, ids: 150 } }, { p: 'misuse', w: 1.5 }],
    classes: ['id', 'hookid', 'memo', 'misuse', 'reject-lost'],
    runs: 15000,
  },
  C25: {
    mixes: [{ p: 'portal', w: 1, o: { wPortal: 4 } }],
    classes: ['portal', 'portal-leak', 'dom', 'foreign'],
    contrast: 'portals',
    contrastClasses: ['dom', 'foreign'],
    runs: 12000,
  },
  C26: {
    mixes: [{ p: 'iso', w: 2 }, { p: 'iso', w: 2, o: { runtimes: 2 } }],
    classes: [...DOM, ...EFFECTS, 'early', 'identity', 'ref', 'cb', 'ctx', 'id', 'memo', 'fold', 'visible', 'reject-cause', 'reject-scope', 'stuck',
      'hosterror', 'foreign', 'leak', 'hookid', 'handler', 'mw', 'sync'],
    contrast: 'worlds',
    runs: 12000,
  },
  C27: {
    mixes: [{ p: 'base', w: 2 }, { p: 'states', w: 2 }, { p: 'rdisp', w: 1 }, { p: 'mixed', w: 1 }, { p: 'transient', w: 0.6 }],
    classes: ['cause', 'render-dead', 'noop', 'force', 'visible', 'props'],
    runs: 15000,
  },
  C28: {
    mixes: [{ p: 'events2', w: 2 }, { p: 'handles', w: 3 }, { p: 'handlesFaults', w: 2 }],
    classes: ['event', 'handle', 'leak', 'threw'],
    runs: 30000,
  },
  C29: {
    mixes: [{ p: 'transient', w: 1 }],
    classes: ['transient', 'noop', 'stuck', 'hosterror', 'dom'],
    runs: 15000,
  },
  C90: {
    mixes: [{ p: 'pure', w: 4 }, { p: 'templates', w: 1, o: { bad: 1 } }],
    classes: ['match', 'template', 'replaced', 'shown', 'threw', 'leak', 'malformed', 'stuck'],
    runs: 15000,
  },
};

// Several checks at once, for use while changing things: node check.mjs ALL-tree.
function group(ids, runs) {
  const mixes = new Map();
  for (const id of ids) for (const m of CHECKS[id].mixes) mixes.set(JSON.stringify([m.p, m.o]), { ...m, w: m.w / CHECKS[id].mixes.reduce((a, x) => a + x.w, 0) });
  return { mixes: [...mixes.values()], classes: [...new Set(ids.flatMap((id) => CHECKS[id].classes))], runs, hang: 1 };
}
export const GROUPS = {
  'ALL-tree': group(['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C10', 'C14', 'C16', 'C17', 'C19', 'C24', 'C25', 'C27'], 9000),
  'ALL-obs': group(['C11', 'C15', 'C18', 'C28', 'C23'], 8000),
  'ALL-sig': group(['C12', 'C13'], 12000),
  'ALL-misc': group(['C20', 'C21', 'C90'], 9000),
};
