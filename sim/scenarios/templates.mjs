// Templates of any form: random markup in every mode with holes of every kind anywhere,
// used many times and with changing values, against what the markup says.
import { hash32 } from '../rng.mjs';

const TAGS = { html: ['div', 'span', 'b', 'section', 'hr', 'input'], svg: ['g', 'rect', 'a', 'path'], math: ['mrow', 'mstyle', 'mspace'] };
const VOID = new Set(['hr', 'input']);
const NS = { html: 'http://www.w3.org/1999/xhtml', svg: 'http://www.w3.org/2000/svg', math: 'http://www.w3.org/1998/Math/MathML' };
const NAMES = ['title', 'data-x', 'lang', 'viewBox', 'aria-label'];
const PRIOS = ['user-blocking', 'user-visible', 'background'];

// ---- what a run's templates are ------------------------------------------------------------

/**
 * A template is {m: mode, n: nodes, s: format seed}; a node is
 *   'word' | {x:1} text hole | {c:1} child hole | {cm:'..'} comment
 *   | {t: tag, a: [[kind, name, value?]..], n: nodes}
 * with attributes of kinds s(tatic) a(ttribute) p(roperty) l(ive) e(vent) r(eference) k (class).
 */
export function genTemplates(rng) {
  return Array.from({ length: 3 + rng.int(4) }, () => {
    const m = rng.weighted({ html: 6, svg: 2, math: 1, text: 1 });
    const n = m === 'text' ? genText(rng) : genNodes(rng, m, rng.int(4), true);
    return { m, n, s: rng.int(1e6) };
  });
}

function genText(rng) {
  return Array.from({ length: 1 + rng.int(4) }, (_, i) => (rng.chance(0.5) ? { x: 1 } : rng.pick(['', ' ']) + 'w' + i + rng.pick(['', ' '])));
}

function genNodes(rng, m, depth, root) {
  const out = [];
  const n = rng.int(root ? 5 : 4);
  for (let i = 0; i < n; i++) {
    const kind = rng.weighted({ word: 1.5, x: 2, c: 2.5, cm: 0.5, t: depth > 0 ? 5 : 1 });
    if (kind === 'word') out.push(rng.pick(['', ' ']) + 'w' + rng.int(10) + rng.pick(['', ' ']));
    else if (kind === 'x') out.push({ x: 1 });
    else if (kind === 'c') out.push({ c: 1 });
    else if (kind === 'cm') out.push({ cm: 'note' + rng.int(3) });
    else {
      const t = rng.pick(TAGS[m]);
      const a = [];
      const names = rng.shuffle(NAMES.slice());
      let ref = false;
      for (let k = rng.int(5); k > 0; k--) {
        const kind = rng.weighted({ s: 1.5, a: 2.5, p: 1, l: 0.7, e: 1, r: ref ? 0 : 0.7, k: 0.5 });
        if (kind === 'r') ref = true;
        if (kind === 'k' && a.some((x) => x[0] === 'k')) continue;
        if ((kind === 's' || kind === 'a') && names.length === 0) continue;
        if (kind === 's') a.push(['s', names.pop(), rng.pick(['', 'v1', 'v2', 'v3'])]);
        else if (kind === 'a') a.push(['a', names.pop()]);
        else if (kind === 'p' || kind === 'l') a.push([kind, 'prop' + 'ABCDE'[k]]);
        else if (kind === 'e') a.push(['e', 'ev' + 'ABCDE'[k]]);
        else a.push([kind, 'class']);
      }
      out.push({ t, a, n: VOID.has(t) || depth === 0 ? [] : genNodes(rng, m, depth - 1, false) });
    }
  }
  return out;
}

/** The kinds of the holes of a template, in order. */
function holesOf(nodes, out = []) {
  for (const node of nodes) {
    if (typeof node === 'string' || node.cm) continue;
    if (node.x) out.push('x');
    else if (node.c) out.push('c');
    else {
      for (const [kind] of node.a) if (kind !== 's') out.push(kind);
      holesOf(node.n, out);
    }
  }
  return out;
}

/** The strings of its literal, in one of the many ways to write it down. */
function stringsOf(tpl) {
  const strings = [''];
  let serial = 0;
  const pick = (list) => list[hash32(`${tpl.s}/${serial++}`) % list.length];
  const put = (s) => (strings[strings.length - 1] += s);
  const hole = () => strings.push('');
  const walk = (nodes) => {
    nodes.forEach((node, i) => {
      const near = (n) => n === undefined || (typeof n === 'object' && !n.x);
      // Lines may only be broken where that leaves no text.
      if (near(nodes[i - 1]) && near(node)) put(pick(['', '', '\n', '\n  ', '\n\n\t']));
      if (typeof node === 'string') put(node);
      else if (node.cm) put(`<!--${node.cm}-->`);
      else if (node.x) hole();
      else if (node.c) {
        const [a, b] = pick([['<', '>'], ['<', '>'], ['<', '/>'], ['<', ' />'], ['<!--', '-->'], ['<!-- ', ' -->']]);
        put(a);
        hole();
        put(b);
      } else {
        put('<' + node.t);
        for (const [kind, name, value] of node.a) {
          put(pick([' ', '\n ']));
          const n = ({ p: '.', l: '$', e: '@' }[kind] ?? '') + name;
          if (kind === 'r') hole();
          else if (kind === 's') put(value === '' ? pick([n, `${n}=""`]) : `${n}=${pick(['"v"', "'v'", 'v']).replace('v', value)}`);
          else {
            const q = pick(['', '', '"', "'"]);
            put(n + pick(['=', '=', ' = ']) + q);
            hole();
            put(q);
          }
        }
        put('>');
        if (!VOID.has(node.t)) {
          walk(node.n);
          put(`</${node.t}>`);
        }
      }
    });
  };
  walk(tpl.n);
  return strings;
}

/** Markup in which the holes are where none can be. */
const BAD = [
  ['<div ', '="v"></div>'],
  ['<div title="a ', '"></div>'],
  ['<div title="', '', '"></div>'],
  ['<b', '></b>'],
  ['<!-- x ', ' -->'],
  ['<i title=', ' title=', '></i>'],
  ['<i lang="x" lang=', '></i>'],
  ['<p>a', '</p><i x', '=1></i>'],
  ['<em @click=', ' @click=', '>', '</em>'],
];

// ---- the scenario ----------------------------------------------------------------------------

export default class Templates {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.stateDigests = new Set();
    this.holes = this.cfg.templates.map((t) => holesOf(t.n));
    this.serial = 0;
    this.commits = 0;
    this.checked = -1;
  }

  fail(cls, msg) {
    this.sim.fail(cls, msg);
  }

  setup() {
    const { core } = this.sim.lib;
    const S = this;
    const adapter = new core.DOMAdapter(this.sim.document);
    this.runtime = new core.Runtime(adapter);
    // Where malformed templates are tried: the same adapter, but batches of its own.
    this.runtime2 = new core.Runtime(adapter);
    this.slots = [0, 1, 2].map(() => null);
    this.badStrings = new Map();
    this.strings = this.cfg.templates.map((t) => {
      const strings = stringsOf(t);
      return Object.assign(strings, { raw: strings });
    });
    this.Shell = core.createComponent(function Shell({ root, snap, value }) {
      this.useEffect(() => {
        root.snap = snap;
        root.commits++;
        S.commits++;
      });
      return value;
    });
    this.Inner = core.createComponent(function Inner({ value }) {
      return value;
    });
    this.roots = Array.from({ length: this.cfg.roots ?? 1 }, () => {
      const el = this.sim.document.createElement('main');
      this.sim.document.body.appendChild(el);
      return { el, root: new core.DOMRoot(el, this.runtime), snap: null, asked: null, nodes: new Map(), commits: 0, checked: 0 };
    });
  }

  // A value of the view: {t, h: values of its holes, w: wrapped in a component}, null or a list.
  genView(rng, depth) {
    const t = rng.int(this.cfg.templates.length);
    return { t, w: rng.chance(0.15) ? 1 : 0, h: this.holes[t].map((k) => this.genValue(rng, k, depth)) };
  }
  genValue(rng, kind, depth) {
    switch (kind) {
      case 'x':
        return rng.pick([null, 'a', 'bb', 7, 'c']);
      case 'a':
        return rng.pick([null, 'a1', 'b2', 3, true, '']);
      case 'k':
        return rng.pick([null, 'k1', 'k1 k2', 'k3']);
      case 'c': {
        if (depth <= 0) return null;
        const c = rng.weighted({ null: 2, one: 5, list: 2 });
        if (c === 'null') return null;
        if (c === 'one') return this.genView(rng, depth - 1);
        return Array.from({ length: rng.int(4) }, () => (rng.chance(0.2) ? null : this.genView(rng, depth - 1)));
      }
      case 'e':
        return rng.pick([null, 'f', 'o', 'c']);
      case 'r':
        return rng.pick([null, 'r', 'f']);
    }
    return rng.int(5);
  }
  vary(rng, view, depth) {
    if (view === null) return rng.chance(0.3) && depth > 0 ? this.genView(rng, depth - 1) : null;
    if (Array.isArray(view)) return view.map((v) => this.vary(rng, v, depth));
    if (rng.chance(0.08)) return depth > 0 ? this.genView(rng, depth - 1) : null;
    return {
      ...view,
      h: view.h.map((v, i) => {
        const kind = this.holes[view.t][i];
        if (kind === 'c') return rng.chance(0.15) ? this.genValue(rng, kind, depth - 1) : this.vary(rng, v, depth - 1);
        return rng.chance(0.35) ? this.genValue(rng, kind, depth) : v;
      }),
    };
  }

  gen(rng) {
    if (this.cfg.bad && rng.chance(0.2)) return { op: 'bad', n: rng.int(3), k: rng.int(BAD.length), deep: rng.int(3), p: rng.int(PRIOS.length) };
    const r = rng.int(this.roots.length);
    const root = this.roots[r];
    const view = root.asked && rng.chance(0.75) ? this.vary(rng, root.asked, 3) : this.genView(rng, 2);
    return { op: 'render', r, view, p: rng.int(PRIOS.length), s: rng.chance(0.2) ? 1 : 0, list: rng.chance(0.15) ? 1 : 0 };
  }

  /** A root shows something, is given a malformed template, and then something else. */
  bad(op) {
    const { core } = this.sim.lib;
    const slot = (this.slots[op.n] ??= { el: this.sim.document.createElement('aside'), root: null, state: 'failed', text: '', n: 0 });
    if (slot.root === null) {
      this.sim.document.body.appendChild(slot.el);
      slot.root = new core.DOMRoot(slot.el, this.runtime2);
    }
    if (slot.state === 'failed') {
      slot.text = `good ${++slot.n}`;
      slot.state = 'waiting';
      slot.root.render(core.html`<p>${slot.text}</p>`, { flushSync: true }).finished.then(
        () => (slot.state = 'shown'),
        (error) => this.fail('threw', `a rendering failed after a malformed template: ${error?.message}`),
      );
    } else if (slot.state === 'shown') {
      // The same strings again (a component rendered once more), or others that read the same.
      let strings = this.badStrings.get(op.k);
      if (strings === undefined || op.p === 0) {
        strings = BAD[op.k].slice();
        strings.raw = strings;
        this.badStrings.set(op.k, strings);
      }
      const values = strings.slice(1).map((_, i) => 'v' + i);
      let value = core[['html', 'svg', 'math'][op.n]](strings, ...values);
      if (op.deep > 0) value = core.html`<p>bad<${op.deep > 1 ? this.Inner({ value }) : value}></p>`;
      slot.state = 'waiting';
      this.sim.fault('malformed-template');
      slot.root.render(value, { priority: PRIOS[op.p] }).finished.then(
        () => this.fail('malformed', `a template like ${BAD[op.k].join('${..}')} was accepted: ${slot.el.innerHTML}`),
        (error) => {
          slot.state = 'failed';
          if (!(error instanceof core.DOMAdapterError) && !(error?.cause instanceof core.DOMAdapterError)) {
            this.fail('malformed', `a malformed template was refused with ${error?.stack ?? error}`);
          }
        },
      );
    }
  }

  exec(op) {
    if (op.op === 'bad') {
      this.bad(op);
      return;
    }
    const root = this.roots[op.r % this.roots.length];
    root.asked = op.view;
    const snap = { n: ++this.serial, view: op.list ? [op.view, null, op.view] : op.view, calls: [], refs: new Map() };
    const value = this.build(snap.view, snap, '');
    const handle = root.root.render(this.Shell({ root, snap, value }), op.s ? { flushSync: true } : { priority: PRIOS[op.p] });
    handle.finished.catch((error) => this.fail('threw', `a rendering failed: ${error?.cause?.message ?? error?.message}`));
  }

  build(view, snap, path) {
    const { core } = this.sim.lib;
    if (view === null || view === undefined) return null;
    // The forms in which the same can be given.
    const form = hash32(`${snap.n}${path}`) % 8;
    if (Array.isArray(view)) {
      const list = view.map((v, i) => this.build(v, snap, `${path}[${i}]`));
      switch (form) {
        case 0:
          return new Map(list.map((v, i) => [i, v])).values();
        case 1:
          return (function* () {
            yield* list;
          })();
        case 2:
          return core.createFragment(list);
        case 3:
          return { *[Symbol.iterator]() { yield* list; } };
        case 4:
          return { [core.toElement]: () => core.createFragment(list) };
      }
      return list;
    }
    const tpl = this.cfg.templates[view.t];
    const kinds = this.holes[view.t];
    const here = `${path}/${view.w ? 'w' : ''}${view.t}`;
    const values = kinds.map((kind, i) => {
      const v = view.h[i];
      const at = `${here}.${i}`;
      switch (kind) {
        case 'c':
          return this.build(v, snap, at);
        case 'e': {
          if (v === null) return null;
          const fn = (event) => event.target === event.currentTarget && snap.calls.push(`${at}:${event.type}`);
          return v === 'f' ? fn : { handleEvent: fn, capture: v === 'c' };
        }
        case 'r': {
          if (v === null) return null;
          if (v === 'r') {
            const ref = new core.Ref(null);
            snap.refs.set(at, () => ref.current);
            return ref;
          }
          let current = null;
          snap.refs.set(at, () => current);
          return (el) => {
            current = el;
            return () => (current = null);
          };
        }
      }
      return v;
    });
    const value = tpl.m === 'text' ? core.text(this.strings[view.t], ...values) : core[tpl.m](this.strings[view.t], ...values);
    const element = view.w ? this.Inner({ value }) : value;
    return form === 0 ? { [core.toElement]: () => element } : element;
  }

  /** What a view looks like, as [name, attributes, children..] and texts. */
  expected(view, path, out) {
    if (view === null || view === undefined) return;
    if (Array.isArray(view)) {
      view.forEach((v, i) => this.expected(v, `${path}[${i}]`, out));
      return;
    }
    const tpl = this.cfg.templates[view.t];
    const here = `${path}/${view.w ? 'w' : ''}${view.t}`;
    let n = 0;
    let elements = 0;
    const walk = (nodes, to) => {
      for (const node of nodes) {
        if (typeof node === 'string') to.push(node);
        else if (node.cm) continue;
        else if (node.x) to.push(String(view.h[n++] ?? ''));
        else if (node.c) {
          const i = n++;
          this.expected(view.h[i], `${here}.${i}`, to);
        } else {
          const el = { tag: node.t, ns: NS[tpl.m], path: `${here}#${elements++}`, attrs: new Map(), props: [], events: [], ref: null, kids: [] };
          for (const [kind, name, value] of node.a) {
            if (kind === 's') {
              el.attrs.set(name, value);
              continue;
            }
            const i = n++;
            const v = view.h[i];
            const at = `${here}.${i}`;
            if (kind === 'a') {
              if (v !== null && v !== undefined) el.attrs.set(name, v === true ? '' : String(v));
            } else if (kind === 'k') el.cls = v ?? '';
            else if (kind === 'p' || kind === 'l') el.props.push([name, v]);
            else if (kind === 'e') el.events.push([name, v === null ? null : at]);
            else if (kind === 'r' && v !== null) el.ref = at;
          }
          walk(node.n, el.kids);
          to.push(el);
        }
      }
    };
    walk(tpl.n, out);
  }

  compare(root, parent, kids, where, seen, events) {
    const out = [];
    const els = [...parent.childNodes].filter((node) => node.nodeType === 1);
    // Text in order, with the elements between.
    const flat = (list) => list.map((k) => (typeof k === 'string' ? k : '|')).join('');
    for (const node of parent.childNodes) {
      if (node.nodeType === 3) out.push(node.data);
      else if (node.nodeType === 1) out.push({});
    }
    const want = flat(kids);
    const got = flat(out);
    if (got !== want) this.fail('dom', `${where}: children are ${JSON.stringify(got)}, expected ${JSON.stringify(want)} (| is an element)`);
    const wanted = kids.filter((k) => typeof k !== 'string');
    wanted.forEach((w, i) => {
      const el = els[i];
      if (el === undefined) return;
      const here = `${where}/${w.tag}`;
      if (el.localName !== w.tag || el.namespaceURI !== w.ns) this.fail('dom', `${here}: found <${el.localName}> in ${el.namespaceURI}`);
      const attrs = new Map(w.attrs);
      if (w.cls !== undefined) {
        const c = (el.getAttribute('class') ?? '').split(/\s+/).filter(Boolean).sort().join(' ');
        if (c !== w.cls.split(' ').filter(Boolean).sort().join(' ')) this.fail('bound', `${here}: class is ${c}, expected ${w.cls}`);
      }
      for (const name of el.getAttributeNames()) {
        if (name === 'class' && w.cls !== undefined) continue;
        let key = name;
        for (const k of attrs.keys()) if (k.toLowerCase() === name.toLowerCase()) key = k;
        if (!attrs.has(key)) this.fail('bound', `${here}: has attribute ${name}=${JSON.stringify(el.getAttribute(name))}`);
        else if (attrs.get(key) !== el.getAttribute(name)) this.fail('bound', `${here}: ${name} is ${JSON.stringify(el.getAttribute(name))}, expected ${JSON.stringify(attrs.get(key))}`);
        attrs.delete(key);
      }
      for (const name of attrs.keys()) this.fail('bound', `${here}: has no attribute ${name}`);
      for (const [name, v] of w.props) if (!Object.is(el[name], v)) this.fail('bound', `${here}: property ${name} is ${el[name]}, expected ${v}`);
      for (const [name, at] of w.events) events.push([el, name, at, here]);
      if (w.ref !== null) {
        const got = root.snap.refs.get(w.ref)();
        if (got !== el) this.fail('bound', `${here}: its reference is ${got === null ? 'null' : '<' + got.localName + '>'}`);
      }
      const prev = root.nodes.get(w.path);
      if (prev !== undefined && prev !== el) this.fail('identity', `${here}: was replaced by another element`);
      seen.set(w.path, el);
      this.compare(root, el, w.kids, here, seen, events);
    });
  }

  check() {
    for (const slot of this.slots) {
      if (slot === null || this.leaving || (slot.state === 'waiting' && slot.n === 0)) continue;
      if (slot.state !== 'waiting' && slot.el.textContent !== slot.text) {
        this.fail('malformed', `${JSON.stringify(slot.el.innerHTML)} is shown instead of ${slot.text}`);
      }
      if (slot.el.textContent.includes('bad')) this.fail('malformed', 'a malformed template is partly shown');
    }
    for (const root of this.roots) {
      if (root.leaving) continue;
      if (root.snap === null) {
        if (root.el.childNodes.length > 0) this.fail('dom', 'something is shown before it was committed');
        continue;
      }
      if (root.last === root.snap && this.checked === this.commits) continue;
      root.last = root.snap;
      const kids = [];
      this.expected(root.snap.view, '', kids);
      const seen = new Map();
      // What stayed was only followed from one commit to the next.
      if (root.commits !== root.checked + 1) root.nodes = new Map();
      root.checked = root.commits;
      const events = [];
      this.compare(root, root.el, kids, 'main', seen, events);
      root.nodes = seen;
      for (const [el, type, at, here] of events.slice(0, 8)) {
        root.snap.calls.length = 0;
        el.dispatchEvent(new this.sim.env.window.Event(type));
        const want = at === null ? '' : `${at}:${type}`;
        if (root.snap.calls.join() !== want) this.fail('bound', `${here}: ${type} called [${root.snap.calls}], expected [${want}]`);
      }
      this.stateDigests.add(hash32(root.el.innerHTML));
      this.sim.probe('templates-checked');
    }
    this.checked = this.commits;
  }

  onIdle(phase) {
    for (const slot of this.slots) {
      if (slot === null) continue;
      if (slot.state === 'waiting') this.fail('stuck', 'a malformed template left an update waiting');
      if (phase === 0) slot.root.unmount();
      else if (slot.el.childNodes.length > 0) this.fail('leak', `${slot.el.innerHTML} is left after unmounting`);
    }
    this.leaving = true;
    for (const root of this.roots) {
      if (phase === 0) {
        root.leaving = true;
        root.root.unmount();
      } else if (root.el.childNodes.length > 0) this.fail('leak', `${root.el.innerHTML} is left after unmounting`);
    }
    return phase === 0;
  }

  onHostError(error) {
    this.fail('hosterror', `error reached the host: ${error?.stack ?? error}`);
  }
}
