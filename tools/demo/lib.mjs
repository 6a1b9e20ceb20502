// A page, the built library and a host adapter whose callbacks and commits the
// demonstration runs by hand.
import { createRequire } from 'node:module';
import { pathToFileURL } from 'node:url';
import path from 'node:path';

const { JSDOM, VirtualConsole } = createRequire('/opt/dom/node_modules/')('jsdom');
const dom = new JSDOM('<!doctype html><body></body>', { url: 'http://demo.local/', virtualConsole: new VirtualConsole() });
export const { window } = dom;
export const { document } = window;
window.Element.prototype.setHTMLUnsafe ??= function (html) {
  this.innerHTML = html;
};
const frames = new Map();
let frameId = 0;
globalThis.window = window;
globalThis.document = document;
for (const k of ['Element', 'Node', 'Text', 'Comment', 'CharacterData', 'Event', 'DocumentFragment', 'HTMLElement', 'MouseEvent', 'XMLSerializer']) globalThis[k] = window[k];
globalThis.requestAnimationFrame = window.requestAnimationFrame = (f) => (frames.set(++frameId, f), frameId);
globalThis.cancelAnimationFrame = window.cancelAnimationFrame = (id) => frames.delete(id);
export function runFrames() {
  const now = [...frames.values()];
  frames.clear();
  for (const f of now) f(0);
}

export const imp = (file) => import(pathToFileURL(path.join(process.cwd(), 'lib', file)).href);
export const lib = await imp('index.js');

export const micro = () => new Promise((r) => setImmediate(r));
export const sleep = (ms) => new Promise((r) => setTimeout(r, ms));

/** Callbacks and commits wait in queues until the demonstration runs them. */
export class ManualAdapter extends lib.DOMAdapter {
  callbacks = [];
  commits = [];
  priority = 'user-visible';
  constructor() {
    super(document);
  }
  getTaskPriority() {
    return this.priority;
  }
  requestCallback(callback, options) {
    return new Promise((resolve, reject) => {
      this.callbacks.push({ options, run: () => Promise.resolve().then(callback).then(resolve, reject) });
    });
  }
  requestCommit(callback) {
    return new Promise((resolve, reject) => {
      this.commits.push({ run: () => { try { callback(); resolve(); } catch (e) { reject(e); } } });
    });
  }
  async callback(i = 0) {
    const [c] = this.callbacks.splice(i, 1);
    c?.run();
    await micro();
  }
  async commit(i = 0) {
    const [c] = this.commits.splice(i, 1);
    c?.run();
    await micro();
  }
  async settle() {
    for (let i = 0; i < 200 && (this.callbacks.length || this.commits.length); i++) {
      if (this.callbacks.length) await this.callback();
      else await this.commit();
    }
  }
}

export function mountPoint() {
  const div = document.createElement('div');
  document.body.append(div);
  return div;
}
export function setup() {
  const adapter = new ManualAdapter();
  const runtime = new lib.Runtime(adapter);
  const container = mountPoint();
  const root = new lib.DOMRoot(container, runtime);
  return { adapter, runtime, container, root };
}
export const textOf = (node) => node.textContent.replace(/\s+/g, ' ').trim();
let bad = 0;
export function check(ok, what) {
  console.log((ok ? 'ok   ' : 'FAIL ') + what);
  if (!ok) bad = 1;
}
export function done() {
  process.exit(bad);
}
process.on('unhandledRejection', () => {});
