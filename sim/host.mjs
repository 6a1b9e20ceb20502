// The simulated browser host: one clock, one pool of pending host tasks, and a
// chooser that decides which pending task (or which user operation) runs next.
//
// Legal orders only: timers among themselves run by due time, messages are FIFO,
// tasks of the prioritised scheduler run most-urgent-first and FIFO within a
// priority, a frame runs all callbacks registered before it. Across these
// sources any order is legal in a browser (task queues are unordered with
// respect to each other) and is decided by the chooser. The clock never runs
// backwards, and a timer never fires before it is due, but it may be late.

/** Lets every pending microtask run (the microtask queue itself is the real one). */
export function drain() {
  return new Promise((resolve) => setImmediate(resolve));
}

const FRAME = 16;
const PRIORITIES = ['user-blocking', 'user-visible', 'background'];

export class Host {
  constructor(sim) {
    this.sim = sim;
    const { cfg } = sim;
    this.now = 1000;
    this.seq = 0;
    this.timers = [];
    this.messages = [];
    this.frames = [];
    this.idles = [];
    this.post = [];
    this.stats = { timer: 0, message: 0, frame: 0, idle: 0, post: 0, rejected: 0, late: 0, fallback: 0 };
    this.cfg = cfg;
  }

  // ---- APIs given to the code under test -------------------------------------------------

  setTimeout = (fn, delay = 0, ...args) => {
    const id = ++this.seq;
    delay = Math.max(0, Number(delay) || 0);
    this.timers.push({ id, due: this.now + delay, fn: () => fn(...args), delay });
    return id;
  };
  clearTimeout = (id) => {
    const i = this.timers.findIndex((t) => t.id === id);
    if (i >= 0) this.timers.splice(i, 1);
  };
  setInterval = (fn, delay = 0, ...args) => {
    const id = ++this.seq;
    delay = Math.max(1, Number(delay) || 0);
    this.timers.push({ id, due: this.now + delay, fn: () => fn(...args), delay, interval: true });
    return id;
  };
  requestAnimationFrame = (fn) => {
    const id = ++this.seq;
    this.frames.push({ id, fn });
    return id;
  };
  cancelAnimationFrame = (id) => {
    const i = this.frames.findIndex((t) => t.id === id);
    if (i >= 0) this.frames.splice(i, 1);
    for (const f of this.running ?? []) if (f.id === id) f.cancelled = true;
  };
  requestIdleCallback = (fn) => {
    const id = ++this.seq;
    this.idles.push({ id, fn });
    return id;
  };
  cancelIdleCallback = (id) => {
    const i = this.idles.findIndex((t) => t.id === id);
    if (i >= 0) this.idles.splice(i, 1);
  };
  postTask = (fn, options = {}) => {
    return new Promise((resolve, reject) => {
      const delay = Math.max(0, Number(options.delay) || 0);
      const priority = options.priority ?? 'user-visible';
      if (!PRIORITIES.includes(priority)) {
        reject(new TypeError('bad priority ' + String(priority)));
        return;
      }
      if (options.signal?.aborted) {
        reject(options.signal.reason);
        return;
      }
      this.post.push({
        id: ++this.seq,
        due: this.now + delay,
        priority,
        fn: () => {
          try {
            resolve(fn());
          } catch (error) {
            reject(error);
          }
        },
      });
    });
  };

  makeGlobals() {
    const host = this;
    const globals = {
      setTimeout: this.setTimeout,
      clearTimeout: this.clearTimeout,
      setInterval: this.setInterval,
      clearInterval: this.clearTimeout,
      requestAnimationFrame: this.requestAnimationFrame,
      cancelAnimationFrame: this.cancelAnimationFrame,
      MessageChannel: class MessageChannel {
        constructor() {
          this.port1 = new Port(host);
          this.port2 = new Port(host);
          this.port1._other = this.port2;
          this.port2._other = this.port1;
        }
      },
      performance: {
        now: () => host.now,
        timeOrigin: 0,
        mark: (name) => host.sim.note('mark ' + name),
        measure: (name) => host.sim.note('measure ' + name),
      },
      Date: makeDate(host),
      requestIdleCallback: host.cfg.idle ? this.requestIdleCallback : undefined,
      cancelIdleCallback: host.cfg.idle ? this.cancelIdleCallback : undefined,
      scheduler: host.cfg.postTask
        ? { postTask: this.postTask, yield: () => this.postTask(() => {}, { priority: 'user-visible' }) }
        : undefined,
    };
    return globals;
  }

  // ---- what may run next -----------------------------------------------------------------

  /** Candidates in "natural" order (what an unloaded browser would do first). */
  candidates() {
    const out = [];
    if (this.messages.length > 0) {
      out.push({ kind: 'message', at: this.now, w: 4, task: this.messages[0] });
    }
    const post = this.nextPost();
    if (post) {
      out.push({ kind: 'post', at: Math.max(this.now, post.due), w: post.due > this.now ? 1 : 4, task: post });
    }
    const timer = this.nextTimer();
    if (timer) {
      out.push({
        kind: 'timer',
        at: Math.max(this.now, timer.due),
        w: timer.due - this.now > 20 ? this.cfg.stall ?? 0.25 : 3,
        task: timer,
      });
    }
    if (this.idles.length > 0) {
      out.push({ kind: 'idle', at: this.now + 1, w: 2, task: this.idles[0] });
    }
    if (this.frames.length > 0 && !this.cfg.hidden) {
      out.push({
        kind: 'frame',
        at: (Math.floor(this.now / FRAME) + 1) * FRAME,
        w: this.cfg.frameWeight ?? 2,
        task: null,
      });
    }
    out.sort((a, b) => a.at - b.at); // stable
    return out;
  }

  /** Are there callback requests (as opposed to commit frames/fallback timers) outstanding? */
  hasCallbackWork() {
    return (
      this.messages.length > 0 ||
      this.idles.length > 0 ||
      this.post.length > 0 ||
      this.timers.some((t) => t.delay < 100 && !t.interval)
    );
  }

  get idle() {
    return (
      this.messages.length === 0 &&
      this.timers.length === 0 &&
      this.idles.length === 0 &&
      this.post.length === 0 &&
      (this.frames.length === 0 || this.cfg.hidden)
    );
  }

  nextTimer() {
    let best;
    for (const t of this.timers) {
      if (best === undefined || t.due < best.due || (t.due === best.due && t.id < best.id)) best = t;
    }
    return best;
  }

  nextPost() {
    let due;
    let later;
    for (const t of this.post) {
      if (t.due <= this.now) {
        const r = PRIORITIES.indexOf(t.priority);
        if (due === undefined || r < due.r || (r === due.r && (t.due < due.t.due || (t.due === due.t.due && t.id < due.t.id)))) {
          due = { r, t };
        }
      } else if (later === undefined || t.due < later.due || (t.due === later.due && t.id < later.id)) {
        later = t;
      }
    }
    return due !== undefined ? due.t : later;
  }

  async run(cand) {
    const { kind, task } = cand;
    if (cand.at > this.now) this.now = cand.at;
    this.stats[kind]++;
    switch (kind) {
      case 'message':
        this.messages.shift();
        this.call(() => task.deliver());
        break;
      case 'post':
        this.post.splice(this.post.indexOf(task), 1);
        this.call(task.fn);
        break;
      case 'timer': {
        if (this.now > task.due) this.stats.late++;
        if (task.delay >= 100) this.stats.fallback++;
        if (task.interval) {
          task.due = this.now + task.delay;
        } else {
          this.timers.splice(this.timers.indexOf(task), 1);
        }
        this.call(task.fn);
        break;
      }
      case 'idle':
        this.idles.shift();
        this.call(() => task.fn({ didTimeout: false, timeRemaining: () => 10 }));
        break;
      case 'frame': {
        const frames = this.frames;
        this.frames = [];
        const time = this.now;
        // A callback cancelled by an earlier callback of the same frame does not run.
        this.running = frames;
        for (const f of frames) {
          if (f.cancelled) continue;
          this.call(() => f.fn(time));
          await drain(); // microtask checkpoint after each frame callback
        }
        this.running = null;
        break;
      }
    }
  }

  call(fn) {
    try {
      fn();
    } catch (error) {
      this.sim.hostError(error);
    }
  }
}

class Port {
  constructor(host) {
    this._host = host;
    this._handlers = [];
    this._onmessage = null;
  }
  get onmessage() {
    return this._onmessage;
  }
  set onmessage(fn) {
    this._onmessage = fn;
  }
  addEventListener(type, fn) {
    if (type === 'message') this._handlers.push(fn);
  }
  removeEventListener(type, fn) {
    this._handlers = this._handlers.filter((h) => h !== fn);
  }
  start() {}
  close() {
    this._closed = true;
  }
  postMessage(data) {
    const target = this._other;
    this._host.messages.push({
      deliver() {
        if (target._closed) return;
        const event = { type: 'message', data };
        if (typeof target._onmessage === 'function') target._onmessage.call(target, event);
        for (const h of target._handlers.slice()) {
          if (typeof h === 'function') h.call(target, event);
          else h.handleEvent(event);
        }
      },
    });
  }
}

function makeDate(host) {
  const RealDate = globalThis.Date;
  return class Date extends RealDate {
    constructor(...args) {
      if (args.length === 0) super(1700000000000 + host.now);
      else super(...args);
    }
    static now() {
      return 1700000000000 + host.now;
    }
  };
}
