// One jsdom window per worker (its nodes are the only thing that outlives a run,
// and every run uses fresh containers); a fresh evaluation of the library per run.
import { createRequire } from 'node:module';
import vm from 'node:vm';
import { SHADOWED } from './build.mjs';

let shared;

export function initEnv(texts) {
  const { JSDOM, VirtualConsole } = createRequire('/opt/dom/node_modules/')('jsdom');
  const virtualConsole = new VirtualConsole(); // silent
  const dom = new JSDOM('<!doctype html><html><head></head><body></body></html>', {
    url: 'http://sim.local/',
    pretendToBeVisual: false,
    virtualConsole,
  });
  const { window } = dom;
  if (typeof window.Element.prototype.setHTMLUnsafe !== 'function') {
    window.Element.prototype.setHTMLUnsafe = function (html) {
      this.innerHTML = html;
    };
  }
  const state = { readyState: 'complete', errorSink: null };
  Object.defineProperty(window.document, 'readyState', { configurable: true, get: () => state.readyState });
  // Exceptions thrown by event listeners are reported on the window.
  window.addEventListener('error', (event) => {
    state.errorSink?.(event.error);
  });
  // So are promises that are rejected and handled by no one.
  process.on('unhandledRejection', (error) => {
    state.errorSink?.(error);
  });
  const insertBefore = window.Element.prototype.insertBefore;
  // moveBefore() of real browsers: like insertBefore() for connected nodes, but it
  // throws for nodes that are not in the same tree, and never inserts detached ones.
  function moveBefore(node, child) {
    if (arguments.length < 2) throw new TypeError('moveBefore requires 2 arguments');
    if (node.getRootNode() !== this.getRootNode()) {
      throw new window.DOMException('The node to move is not in the same tree.', 'HierarchyRequestError');
    }
    insertBefore.call(this, node, child);
  }
  shared = {
    window,
    document: window.document,
    state,
    moveBefore,
    scripts: texts.map((t, i) => new vm.Script(t, { filename: `barebind-${i === 0 ? 'debug' : 'prod'}.js` })),
  };
  // Script objects compiled once; each evaluation creates fresh module state.
  shared.factories = shared.scripts.map((s) => s.runInThisContext());
  return shared;
}

export function getEnv() {
  return shared;
}

function makeMath(rng) {
  const math = Object.create(Math);
  math.random = () => rng.next();
  return math;
}

/** Evaluates the library against the given host globals; returns its namespaces. */
export function instantiate(sim, hostGlobals, rng) {
  const { window, document, moveBefore, factories, state } = shared;
  const { cfg } = sim;
  if (cfg.moveBefore) window.Element.prototype.moveBefore = moveBefore;
  else delete window.Element.prototype.moveBefore;
  state.readyState = cfg.loading ? 'loading' : 'complete';
  state.errorSink = (error) => sim.hostError(error);

  // Also on the real jsdom window, for code that goes through document.defaultView.
  for (const key in hostGlobals) {
    if (key === 'Date' || key === 'performance') continue;
    try {
      window[key] = hostGlobals[key];
    } catch {}
  }

  const own = {
    ...hostGlobals,
    document,
    console: {
      log: () => {},
      info: () => {},
      debug: () => {},
      warn: (...a) => sim.note('warn ' + String(a[0]).slice(0, 40)),
      error: (...a) => sim.note('error ' + String(a[0]).slice(0, 40)),
      group: () => {},
      groupCollapsed: () => {},
      groupEnd: () => {},
    },
    crypto: {
      getRandomValues(array) {
        for (let i = 0; i < array.length; i++) array[i] = Math.floor(rng.next() * 256);
        return array;
      },
      randomUUID: () => 'sim-' + Math.floor(rng.next() * 1e9).toString(36),
    },
    Math: makeMath(rng),
    location: sim.location ?? window.location,
    navigation: sim.navigation,
    setImmediate: undefined,
    clearImmediate: undefined,
    process: undefined,
    Buffer: undefined,
    fetch: sim.fetch,
    BroadcastChannel: undefined,
    Worker: undefined,
    MessagePort: undefined,
    IntersectionObserver: sim.IntersectionObserver,
    ResizeObserver: sim.ResizeObserver,
  };
  const win = new Proxy(own, {
    get(target, key) {
      if (key in target) return target[key];
      if (key === 'event') return window.event;
      if (typeof key === 'string' && key in window) {
        const value = window[key];
        return value;
      }
      return globalThis[key];
    },
    has(target, key) {
      return key in target || key in window || key in globalThis;
    },
  });
  own.window = win;
  own.self = win;
  own.globalThis = win;
  const args = SHADOWED.map((name) => win[name]);
  return { lib: factories[cfg.prod ? 1 : 0](...args), win };
}
