// Navigation kept in sync: roots that show where a navigation adapter is. Navigations
// overlap, their handlers finish in any order or fail, pages are mounted, re-rendered, given
// another adapter and unmounted meanwhile. The browser's Navigation and Location are stubs.
import { Digest } from '../rng.mjs';

const URLS = ['/a', '/b', '/a?q=1', '/b/c', '/', '/h?x=1#y'];
const BAD = '/bad';

class Boom extends Error {}

const show = (v) => (v !== null && typeof v === 'object' ? 'n' + v.n : String(v));

/** The Navigation API of one window, with same-document navigations only. */
class Nav {
  constructor(S, hash) {
    this.S = S;
    this.listeners = new Map();
    const url = hash ? '/page#/a' : '/a';
    this.entries = [{ url, state: undefined }];
    this.index = 0;
    this.ongoing = null;
    this.pendingTraversals = 0;
    const nav = this;
    this.location = {
      get href() {
        return 'http://sim.local' + nav.entry.url;
      },
      get pathname() {
        return new URL(this.href).pathname;
      },
      get search() {
        return new URL(this.href).search;
      },
      get hash() {
        return new URL(this.href).hash;
      },
    };
  }
  get entry() {
    return this.entries[this.index];
  }
  get currentEntry() {
    const { url, state } = this.entry;
    return { url: 'http://sim.local' + url, getState: () => structuredClone(state) };
  }
  addEventListener(type, fn) {
    let set = this.listeners.get(type);
    if (!set) this.listeners.set(type, (set = new Set()));
    set.add(fn);
  }
  removeEventListener(type, fn) {
    this.listeners.get(type)?.delete(fn);
  }
  count() {
    return this.listeners.get('navigate')?.size ?? 0;
  }
  navigate(to, { state, history = 'auto' } = {}) {
    const target = new URL(to, this.location.href);
    const url = target.pathname + target.search + target.hash;
    const type = history === 'push' || history === 'replace' ? history : url === this.entry.url ? 'replace' : 'push';
    return this.run(url, structuredClone(state), type, () => {
      if (type === 'push') {
        this.entries.splice(this.index + 1, Infinity, { url, state: structuredClone(state) });
        this.index++;
      } else this.entries[this.index] = { url, state: structuredClone(state) };
    });
  }
  /** Goes back or forth: in a later task. */
  traverse(delta, started) {
    this.pendingTraversals++;
    this.S.sim.host.setTimeout(() => {
      this.pendingTraversals--;
      const index = this.index + delta;
      const entry = this.entries[index];
      if (!entry || delta === 0) return;
      started();
      const { finished } = this.run(entry.url, entry.state, 'traverse', () => {
        this.index = index;
      });
      finished.catch((error) => {
        if (error.message !== 'AbortError') this.S.broken = true;
      });
    }, 0);
  }
  /** A navigation that leaves the document as it is: a download, or elsewhere. */
  other(kind) {
    this.dispatch({
      canIntercept: kind !== 'cross',
      downloadRequest: kind === 'download' ? 'file' : null,
      hashChange: false,
      destination: { url: kind === 'cross' ? 'http://other.local/x' : 'http://sim.local/x', sameDocument: false, getState: () => undefined },
      navigationType: 'push',
      signal: { aborted: false },
      scroll() {},
      intercept() {
        throw new Error('this must not be intercepted');
      },
    });
  }
  dispatch(event) {
    for (const fn of [...(this.listeners.get('navigate') ?? [])]) {
      try {
        fn(event);
      } catch (error) {
        this.S.sim.hostError(error);
      }
    }
  }
  run(url, state, navigationType, commit) {
    const signal = { aborted: false };
    const handlers = [];
    let intercepted = false;
    const from = new URL(this.location.href);
    const to = new URL(url, from);
    const event = {
      canIntercept: true,
      downloadRequest: null,
      formData: null,
      hashChange: to.pathname === from.pathname && to.search === from.search && to.hash !== from.hash,
      destination: { url: to.href, sameDocument: true, getState: () => structuredClone(state) },
      navigationType,
      signal,
      scroll() {},
      intercept(options = {}) {
        intercepted = true;
        if (options.handler) handlers.push(options.handler);
      },
    };
    const { ongoing } = this;
    let resolve;
    let reject;
    const finished = new Promise((a, b) => ([resolve, reject] = [a, b]));
    if (ongoing) {
      ongoing.signal.aborted = true;
      ongoing.reject(new Boom('AbortError'));
      this.ongoing = null;
    }
    this.dispatch(event);
    commit();
    if (!intercepted) {
      resolve();
      return { committed: Promise.resolve(), finished };
    }
    const mine = (this.ongoing = { signal, reject });
    const over = (settle) => (value) => {
      if (this.ongoing === mine) this.ongoing = null;
      if (!signal.aborted) settle(value);
    };
    Promise.all(handlers.map((h) => h())).then(over(() => resolve()), over(reject));
    return { committed: Promise.resolve(), finished };
  }
}

export default class RouterScenario {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.stateDigests = new Set();
    this.serial = 0;
    this.gates = [];
    this.mode = 'plain';
    this.navs = [];
    this.broken = false;
    this.fireAt = [];
    this.failedUnmounts = [];
  }

  fail(cls, msg) {
    this.sim.fail(cls, msg);
  }

  setup() {
    const { sim, cfg } = this;
    const { core, router } = sim.lib;
    const S = this;
    this.runtime = new core.Runtime(new core.DOMAdapter(sim.document));
    this.places = Array.from({ length: cfg.adapters }, (_, i) => {
      const place = { i, kind: cfg.kind, listening: 0, url: '/a', state: undefined, nav: null, latest: 0 };
      if (cfg.kind === 'memory') {
        place.state = i === 0 ? null : { n: 's' + i };
        place.adapter = new router.InMemoryAdapter('/a', place.state);
      } else {
        place.nav = new Nav(this, cfg.kind === 'hash');
        const options = { location: place.nav.location, navigation: place.nav };
        place.adapter = cfg.kind === 'hash' ? new router.HashAdapter(options) : new router.BrowserAdapter(options);
      }
      const listen = place.adapter.listen.bind(place.adapter);
      place.adapter.listen = (listener) => {
        place.listening++;
        const stop = listen(listener);
        let live = true;
        return () => {
          if (!live) this.fail('listener', 'a listener is given up twice');
          live = false;
          place.listening--;
          stop();
        };
      };
      return place;
    });
    const Child = core.createComponent(function Child({ n }) {
      const { scene } = this.inject(router.NavigationContext);
      return core.html`<i>${n}${scene.url}|${show(scene.state)}</i>`;
    });
    this.App = core.createComponent(function App({ page, v, at, life }) {
      const place = S.places[at];
      const { scene, adapter } = this.use(router.SyncNavigation(place.adapter, page.custom ? S.intercept(life, at) : undefined));
      if (adapter !== place.adapter) S.fail('scene', 'the context has another adapter');
      S.fire('render');
      this.useEffect(() => {
        life.at = at;
        return () => {
          life.at = null;
        };
      }, [at]);
      this.useEffect(() => {
        S.fire('effect');
      });
      if (scene.url === BAD) {
        sim.fault('page throws');
        throw new Boom('page');
      }
      return core.html`<main><b>${scene.url}|${show(scene.state)}</b><${Child({ n: v })}></main>`;
    });
    this.pages = Array.from({ length: cfg.roots }, (_, i) => {
      const el = sim.document.createElement('div');
      sim.document.body.appendChild(el);
      return { i, el, root: null, place: 0, custom: false, v: 0, life: null, moved: 0, pending: 0 };
    });
    this.mount(this.pages[0], cfg.custom0);
  }

  /** The interceptor an application would write. */
  intercept(life, at) {
    const intercept = this.makeIntercept(life, at);
    return (scene, setScene) => {
      const rec = this.navs.find((n) => n.serial === this.current);
      const options = intercept(scene, setScene);
      if (!options || !rec) return options;
      rec.waiting++;
      return {
        handler: () => {
          rec.waiting--;
          return options.handler();
        },
      };
    };
  }

  makeIntercept(life, at) {
    return (scene, setScene) => {
      const { mode } = this;
      const serial = this.current;
      const place = this.places[at];
      const stale = () => place.latest !== serial || life.at !== at;
      switch (mode) {
        case 'default':
        case 'plain':
          return undefined;
        case 'quick':
          return { handler: () => setScene(scene, { flushSync: true }).finished };
        case 'transition':
          return { handler: () => setScene(scene, { transition: this.runtime.nextTransition() }).finished };
        case 'redirect':
          return {
            handler: async () => {
              // (the other page would still be shown what was redirected)
              if (place.listening > 1) return setScene(scene, {}).finished;
              this.sim.probe('redirected');
              this.go({ place: at, url: '/b', s: 2, mode: 'plain' });
            },
          };
        case 'throw':
          return {
            handler: () => {
              this.sim.fault('handler throws');
              throw new Boom('handler');
            },
          };
        case 'first':
          // shows it at once, and then waits for something else
          return {
            handler: async () => {
              await setScene(scene, {}).finished;
              await this.gate(serial);
            },
          };
        case 'load':
          // waits for what the page needs
          return {
            handler: async () => {
              await this.gate(serial);
              if (!stale()) await setScene(scene, {}).finished;
            },
          };
        case 'fail':
          return {
            handler: async () => {
              await this.gate(serial);
              this.sim.fault('handler fails');
              throw new Boom('handler');
            },
          };
      }
    };
  }

  gate(serial) {
    const rec = this.navs.find((n) => n.serial === serial);
    if (rec) rec.waiting++;
    return new Promise((resolve) =>
      this.gates.push(() => {
        if (rec) rec.waiting--;
        resolve();
      }),
    );
  }

  mount(page, custom) {
    if (page.root) return;
    const { core } = this.sim.lib;
    page.custom = custom;
    page.life = { at: null };
    page.root = new core.DOMRoot(page.el, this.runtime);
    this.quiet(page.root.render(this.App({ page, v: page.v, at: page.place, life: page.life })));
  }

  quiet(handle) {
    handle?.finished?.catch((error) => {
      if (!this.isBoom(error)) this.fail('threw', `an update was rejected: ${error?.stack ?? error}`);
      this.broken = true;
    });
    return handle;
  }

  isBoom(error) {
    for (let e = error; e; e = e.cause) if (e instanceof Boom) return true;
    return false;
  }

  onHostError(error) {
    if (!this.isBoom(error)) this.fail('threw', `unexpected exception: ${error?.stack ?? error}`);
    else if (error.message !== 'AbortError') this.broken = true;
  }

  fire(at) {
    const i = this.fireAt.findIndex((f) => f.at === at);
    if (i < 0 || this.firing) return;
    const [f] = this.fireAt.splice(i, 1);
    this.sim.fault('navigation in ' + at);
    this.firing = true;
    this.go(f.nav);
    this.firing = false;
  }

  gen(rng) {
    const { cfg } = this;
    const nav = () => ({
      place: rng.int(cfg.adapters),
      url: rng.pick(cfg.faults && rng.chance(0.12) ? [BAD] : URLS),
      history: rng.pick([undefined, undefined, 'push', 'replace']),
      s: rng.int(4),
      mode: rng.weighted({ plain: 4, quick: 1.5, transition: 1, first: 2, load: 3, redirect: 1.5, throw: cfg.faults ? 1 : 0, fail: cfg.faults ? 1.5 : 0 }),
    });
    const op = rng.weighted({ nav: 8, gate: 5, mount: 2.5, unmount: 1, again: 2.5, swap: cfg.adapters > 1 ? 1.5 : 0, back: cfg.kind === 'memory' ? 0 : 2, other: cfg.kind === 'memory' ? 0 : 0.5, arm: 1.5 });
    switch (op) {
      case 'nav':
        return { op, ...nav() };
      case 'gate':
        return { op, n: rng.int(8) };
      case 'mount':
        return { op, n: rng.int(3), custom: rng.chance(0.6) };
      case 'unmount':
        return { op, n: rng.int(3) };
      case 'again':
        return { op, n: rng.int(3) };
      case 'swap':
        return { op, n: rng.int(3), place: rng.int(cfg.adapters) };
      case 'back':
        return { op, place: rng.int(cfg.adapters), delta: rng.pick([-1, -1, -2, 1]), mode: nav().mode };
      case 'other':
        return { op, place: rng.int(cfg.adapters), kind: rng.pick(['cross', 'download']) };
      case 'arm':
        return { op, at: rng.pick(['render', 'effect']), nav: nav() };
    }
  }

  go({ place: p, url, history, s, mode }) {
    const place = this.places[p % this.places.length];
    const serial = ++this.serial;
    const state = s === 0 ? undefined : s === 1 ? serial : { n: serial };
    const rec = { serial, place, url, state, done: false, pages: [], waiting: 0 };
    this.current = serial;
    this.mode = mode;
    place.latest = serial;
    rec.pages = this.pages.filter((page) => page.root && page.pending === 0 && page.life.at === place.i && page.place === place.i).map((page) => [page, page.root]);
    const options = {};
    if (state !== undefined) options.state = state;
    if (history !== undefined) options.history = history;
    this.navs.push(rec);
    if (this.unfinished().length > 1) this.sim.probe('overlapping navigations');
    if (place.kind === 'memory') {
      place.url = url;
      place.state = state;
    }
    place.adapter.navigate(url, options).then(
      () => this.finished(rec),
      (error) => {
        rec.done = true;
        if (!this.isBoom(error)) this.fail('threw', `navigate rejects: ${error?.stack ?? error}`);
        else if (error.message !== 'AbortError') this.broken = true;
        else if (place.latest === serial) this.fail('finished', 'the latest navigation is reported aborted');
      },
    );
  }

  unfinished() {
    return this.navs.filter((n) => !n.done);
  }

  finished(rec) {
    rec.done = true;
    if (rec.waiting > 0) this.fail('finished', `the navigation to ${rec.url} is finished while handlers of it are running`);
    // Every page that was there shows it by now, or something newer.
    if (this.broken || rec.place.latest !== rec.serial) return;
    for (const [page, root] of rec.pages) {
      if (page.root !== root || page.place !== rec.place.i || page.moved >= rec.serial) continue;
      const want = this.text(rec.place);
      const got = page.el.querySelector('b')?.textContent;
      if (got !== want) this.fail('finished', `a navigation to ${want} is finished while page ${page.i} shows ${got}`);
      else this.sim.probe('finished and visible');
    }
  }

  exec(op) {
    const { sim } = this;
    const page = op.n !== undefined ? this.pages[op.n % this.pages.length] : null;
    switch (op.op) {
      case 'nav':
        this.go(op);
        break;
      case 'gate': {
        if (this.gates.length === 0) break;
        const i = op.n % this.gates.length;
        if (i > 0) sim.probe('handlers finish out of order');
        this.gates.splice(i, 1)[0]();
        break;
      }
      case 'mount':
        this.mount(page, op.custom);
        break;
      case 'unmount':
        this.unmount(page);
        break;
      case 'again':
      case 'swap': {
        if (!page.root) break;
        page.v++;
        if (op.op === 'swap' && op.place !== page.place) {
          page.place = op.place;
          page.moved = this.serial;
        }
        page.pending++;
        const over = () => page.pending--;
        this.quiet(page.root.render(this.App({ page, v: page.v, at: page.place, life: page.life }))).finished.then(over, over);
        break;
      }
      case 'back': {
        const { nav } = this.places[op.place];
        this.mode = op.mode;
        nav.traverse(op.delta, () => {
          this.current = this.places[op.place].latest = ++this.serial;
        });
        break;
      }
      case 'other':
        this.places[op.place].nav.other(op.kind);
        break;
      case 'arm':
        if (this.fireAt.length < 3) this.fireAt.push({ at: op.at, nav: op.nav });
        break;
    }
  }

  unmount(page) {
    if (!page.root) return;
    const { root } = page;
    const handle = this.quiet(root.unmount());
    handle.finished.catch(() => this.failedUnmounts.push(root));
    page.root = null;
    page.el = page.el.cloneNode(false);
    this.sim.document.body.appendChild(page.el);
  }

  /** What is to be shown for a place. */
  text(place) {
    if (place.kind === 'memory') return `${place.url}|${show(place.state)}`;
    const { url, state } = place.nav.entry;
    const u = new URL(url, 'http://sim.local');
    return `${place.kind === 'hash' ? u.hash.slice(1) : u.pathname + u.search + u.hash}|${show(state)}`;
  }

  check() {
    const { sim } = this;
    const atRest = sim.host.candidates().length === 0 && this.gates.length === 0;
    if (atRest && !this.broken) this.settled();
    const d = new Digest();
    for (const page of this.pages) d.add(page.el.textContent);
    for (const place of this.places) d.add(place.adapter.getCurrentURL());
    d.add(String(this.gates.length));
    this.stateDigests.add(d.toString());
  }

  settled() {
    for (const n of this.unfinished()) this.fail('finished', `everything is at rest, but the navigation to ${n.url} is not reported finished`);
    for (const place of this.places) {
      const want = this.text(place);
      const got = `${place.adapter.getCurrentURL()}|${show(place.adapter.getCurrentState())}`;
      if (got !== want) this.fail('url', `the adapter is at ${got} instead of ${want}`);
      const pages = this.pages.filter((page) => page.root && page.place === place.i);
      if (place.listening !== pages.length) this.fail('listener', `${place.listening} listeners for ${pages.length} pages`);
      if (place.nav && place.nav.count() !== place.listening) this.fail('listener', `${place.nav.count()} event listeners for ${place.listening} pages`);
      for (const page of pages) {
        const shown = page.el.querySelector('b')?.textContent;
        if (shown !== want) this.fail('scene', `page ${page.i} shows ${shown} instead of ${want}`);
        const child = page.el.querySelector('i')?.textContent;
        if (child !== page.v + want) this.fail('scene', `the component in page ${page.i} has ${child} instead of ${page.v + want}`);
      }
    }
  }

  onIdle(phase) {
    if (phase === 0) {
      this.fireAt = [];
      for (const g of this.gates.splice(0)) g();
      return true;
    }
    if (phase === 1) {
      if (this.gates.length > 0) {
        this.idleAgain = true;
        for (const g of this.gates.splice(0)) g();
        return true;
      }
      // After all that failed, one navigation that does not.
      this.broken = false;
      for (const root of this.failedUnmounts.splice(0)) this.quiet(root.unmount()).finished.catch(() => this.failedUnmounts.push(root));
      for (const page of this.pages) {
        if (page.root) this.quiet(page.root.render(this.App({ page, v: ++page.v, at: page.place, life: page.life })));
      }
      for (const place of this.places) this.go({ place: place.i, url: '/b', s: 2, mode: 'plain' });
      return true;
    }
    if (phase === 2) {
      for (const g of this.gates.splice(0)) g();
      return true;
    }
    if (phase === 3) {
      if (!this.broken) this.settled();
      for (const page of this.pages) this.unmount(page);
      return true;
    }
    if (this.failedUnmounts.length > 0 && phase < 8) {
      // (rejected along with something else of the same batch)
      for (const root of this.failedUnmounts.splice(0)) {
        this.quiet(root.unmount()).finished.catch(() => this.failedUnmounts.push(root));
      }
      return true;
    }
    for (const place of this.places) {
      if (place.listening !== 0) this.fail('listener', `${place.listening} listeners are left`);
      if (place.nav && place.nav.count() !== 0) this.fail('listener', `${place.nav.count()} event listeners are left`);
    }
    return false;
  }
}
