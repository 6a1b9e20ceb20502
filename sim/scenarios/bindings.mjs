// Elements whose attributes, class, style, properties, live properties and texts are bound
// to values that change, while the application and the user change the same elements.
// What every binding must leave behind is kept in a model that is updated at each commit.
import { Digest } from '../rng.mjs';

class Boom extends Error {}

const AT = ['render', 'effect', 'cleanup', 'micro'];

// slot kinds of each template
const SHAPES = [
  { title: 'attr', 'data-x': 'attr', class: 'class', style: 'style', foo: 'prop', value: 'live' },
  { class: 'class', style: 'style', 'aria-label': 'attr', t: 'text', t2: 'text', c: 'child' },
  { viewBox: 'attr', 'stroke-width': 'attr', class: 'class', bar: 'prop', style: 'style' },
  { checked: 'live', hidden: 'attr', class: 'class', title: 'attr', t: 'text' },
];
const STATIC = [{ type: 'text', name: 'n' }, { lang: 'en' }, { fill: 'red' }, { type: 'checkbox', value: 'v' }];
const FIXED = [{ value: '' }, {}, {}, { checked: false }];

const TOKENS = ['a', 'b', 'c', 'd', 'e'];
const FOREIGN_TOKENS = ['x', 'y', 'z', 'a-b', 'A'];
// name in a style map -> property and values
const STYLES = {
  color: ['color', ['red', 'blue', 'green']],
  backgroundColor: ['background-color', ['red', 'blue']],
  'z-index': ['z-index', ['1', '2', '3']],
  margin: ['margin', ['1px', '2px 3px']],
  paddingTop: ['padding-top', ['1px', '2px']],
  webkitTransform: ['-webkit-transform', ['rotate(1deg)', 'rotate(2deg)']],
  '--my-Prop': ['--my-Prop', ['1', 'b c']],
  cssFloat: null,
};
delete STYLES.cssFloat;
const FOREIGN_STYLES = { opacity: ['0.5', '1'], order: ['1', '2'], '--other': ['q', 'r'], 'padding-left': ['4px', '5px'] };

const isObj = (v) => v !== null && typeof v === 'object';

const text = (v) => (v === null || v === undefined ? '' : typeof v.toString === 'function' ? v.toString() : '');

/** class value -> token -> on */
function tokensOf(v) {
  const out = new Map();
  const entries = isObj(v) ? Object.entries(v) : [[text(v), true]];
  for (const [names, on] of entries) {
    for (const t of names.split(/[ \t\n]+/)) if (t !== '') out.set(t, on);
  }
  return out;
}

export default class Bindings {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.recs = new Set();
    this.armed = [];
    this.stateDigests = new Set();
    this.inFlight = 0;
    this.nextId = 1;
    this.rejections = 0;
    this.made = new WeakMap();
    this.objects = 0;
  }

  fail(cls, msg) {
    this.sim.fail(cls, msg);
  }

  // ---- set-up ---------------------------------------------------------------------------

  setup() {
    const { sim, cfg } = this;
    const { core, signal } = sim.lib;
    const S = this;
    const { html, svg, text } = core;
    const adapter = new core.DOMAdapter(sim.document);
    const requestCommit = adapter.requestCommit.bind(adapter);
    adapter.requestCommit = (callback) => {
      this.inFlight++;
      return requestCommit(() => {
        this.inFlight--;
        callback();
      });
    };
    this.runtime = new core.Runtime(adapter);
    this.atoms = [0, 1, 2].map(() => ({ atom: new signal.Atom({ k: 'undef' }) }));
    this.list = (items) => html`<ul><${items}></ul>`;
    this.shapes = [
      (r, v) => html`<li><input type="text" name="n" ${r} title=${v.title} data-x=${v['data-x']} class=${v.class} style=${v.style} .foo=${v.foo} $value=${v.value}></li>`,
      (r, v) => html`<li><div lang="en" class=${v.class} style=${v.style} ${r} aria-label=${v['aria-label']}><b>p ${v.t} q</b><b>${v.t2}</b><i><${v.c}></i></div></li>`,
      (r, v) => html`<li><${svg`<rect fill="red" viewBox=${v.viewBox} stroke-width=${v['stroke-width']} class=${v.class} .bar=${v.bar} style=${v.style} ${r}></rect>`}></li>`,
      (r, v) => html`<li><p><${text`t ${v.t}`}></p><input class=${v.class} type="checkbox" value="v" $checked=${v.checked} hidden=${v.hidden} title=${v.title} ${r}></li>`,
    ];
    this.App = core.createComponent(function App({ root }) {
      const [view, setView] = this.useState(() => root.view);
      root.setView = setView;
      return S.list(view.map((it) => S.Item({ it, root }).withKey(it.id)));
    });
    this.Item = core.createComponent(
      function Item(props) {
        return S.renderItem(this, props);
      },
      { arePropsEqual: (a, b) => a.it === b.it },
    );
    this.Val = core.createComponent(function Val({ rec, value }) {
      S.fire('throwVal', rec.id);
      return value;
    });
    this.Sig = core.createComponent(function Sig({ rec, slot, token, shape, n }) {
      const [, set] = this.useState(0);
      void set;
      const spec = this.use(S.atoms[n].atom);
      const value = S.make(spec, slotKind(shape, slot), rec);
      this.useEffect(() => {
        S.commitSlot(rec, shape, slot, token, value);
      });
      return value;
    });
    const slotKind = (shape, slot) => SHAPES[shape][slot];

    this.roots = [];
    for (let i = 0; i < cfg.roots; i++) {
      const el = sim.document.createElement('main');
      sim.document.body.appendChild(el);
      const root = { i, el, view: Object.freeze([]), root: new core.DOMRoot(el, this.runtime), setView: null };
      this.roots.push(root);
      this.quiet(root.root.render(this.App({ root })));
    }
    this.scratch = sim.document.createElement('div');
  }

  dispose() {}

  // ---- values ---------------------------------------------------------------------------

  genValue(rng, kind) {
    switch (kind) {
      case 'attr':
        return rng.pick([
          { k: 'str', v: 'v' + rng.int(4) },
          { k: 'str', v: '' },
          { k: 'num', v: rng.int(3) },
          { k: 'bool', v: true },
          { k: 'bool', v: false },
          { k: 'null' },
          { k: 'undef' },
          { k: 'obj', v: 'o' + rng.int(2) },
        ]);
      case 'text':
      case 'child':
        return rng.pick([{ k: 'str', v: 'v' + rng.int(4) }, { k: 'str', v: '' }, { k: 'num', v: rng.int(3) }, { k: 'null' }, { k: 'bool', v: false }, { k: 'obj', v: 'o' + rng.int(2) }, { k: 'nan' }]);
      case 'prop':
        return rng.pick([{ k: 'str', v: 'v' + rng.int(3) }, { k: 'num', v: rng.int(3) }, { k: 'null' }, { k: 'undef' }, { k: 'obj', v: 'o' + rng.int(2) }, { k: 'nan' }]);
      case 'live':
        return rng.pick([{ k: 'str', v: 'v' + rng.int(3) }, { k: 'str', v: '' }, { k: 'bool', v: rng.chance(0.5) }, { k: 'bool', v: true }]);
      case 'class': {
        const r = rng.int(10);
        if (r === 0) return { k: 'null' };
        if (r === 1) return { k: 'undef' };
        if (r < 5) {
          const ts = TOKENS.filter(() => rng.chance(0.4));
          return { k: 'str', v: rng.pick(['', ' ', '\n']) + ts.join(rng.pick([' ', '  ', '\n '])) };
        }
        // Every token in one entry only.
        const entries = [];
        for (const t of rng.shuffle([...TOKENS])) {
          const w = rng.int(4);
          if (w === 0) continue;
          if (w === 1 && entries.length > 0) entries.at(-1)[0] += rng.pick([' ', '  ']) + t;
          else entries.push([t, rng.chance(0.7)]);
        }
        return { k: 'map', v: entries };
      }
      case 'style': {
        const r = rng.int(10);
        if (r === 0) return { k: 'null' };
        if (r === 1) return { k: 'undef' };
        const entries = [];
        for (const key of rng.shuffle(Object.keys(STYLES))) {
          const w = rng.int(5);
          if (w < 2) continue;
          if (w === 2 && r > 4) entries.push([key, rng.pick([null, undefined])]);
          else entries.push([key, rng.pick(STYLES[key][1])]);
        }
        if (r <= 4) {
          // as text
          return { k: 'css', v: entries.map(([key, v]) => `${STYLES[key][0]}: ${v}${rng.chance(0.15) ? ' !important' : ''}`).join('; '), entries };
        }
        return { k: 'map', css: 1, v: entries.map(([key, v]) => [key, v === undefined ? 0 : v]), fresh: rng.chance(0.3) };
      }
    }
  }

  /** The value a description stands for; the same object for the same description unless it is to be fresh. */
  make(spec, kind, rec) {
    switch (spec.k) {
      case 'str':
      case 'num':
      case 'bool':
        return this.fit(spec.v, kind);
      case 'css':
        return kind === 'style' ? spec.v : 'v';
      case 'null':
        return this.fit(null, kind);
      case 'undef':
        return this.fit(undefined, kind);
      case 'nan':
        return NaN;
    }
    if (spec.k === 'map' && kind !== (spec.css ? 'style' : 'class')) return null;
    if (spec.k === 'obj' && (kind === 'style' || kind === 'class')) return null;
    const per = spec.fresh ? null : this.made.get(spec) ?? new Map();
    if (per) this.made.set(spec, per);
    const id = rec.id + kind;
    let value = per?.get(id);
    if (value === undefined) {
      if (spec.k === 'obj') {
        const s = spec.v + this.objects++;
        value = { toString: () => s };
      } else value = Object.fromEntries(spec.v.map(([key, v]) => [key, v === 0 ? undefined : v]));
      per?.set(id, value);
    }
    return value;
  }

  fit(v, kind) {
    if (kind === 'style' || kind === 'class') return typeof v === 'string' || v == null ? v : null;
    return kind === 'live' && v === undefined ? null : v;
  }

  // ---- components -----------------------------------------------------------------------

  renderItem(context, { it, root }) {
    const rec = context.useMemo(() => this.newRec(it, root), []);
    rec.renders++;
    if (rec.state === 'gone') this.fail('dead', `the unmounted component ${it.id} is rendered`);
    const [st, setSt] = context.useState(() => it.init);
    rec.setSt = setSt;
    this.fire('render', it.id);
    const shape = st.shape;
    const values = {};
    const now = { st, it, shape, slots: {} };
    for (const slot in SHAPES[shape]) {
      const { w, spec } = st.slots[`${shape}.${slot}`];
      const kind = SHAPES[shape][slot];
      if (w.startsWith('sig')) {
        const token = w;
        values[slot] = this.Sig({ rec, slot, token, shape, n: Number(w[3]) }).withKey(w);
        continue;
      }
      const value = this.make(spec, kind, rec);
      now.slots[slot] = { token: w, value };
      values[slot] = w === 'raw' ? value : this.Val({ rec, value }).withKey(w === 'val' ? undefined : w);
    }
    context.useEffect(() => {
      for (const slot in now.slots) this.commitSlot(rec, shape, slot, now.slots[slot].token, now.slots[slot].value);
      rec.committed = now;
      this.fire('effect', it.id);
    });
    context.useEffect(() => {
      rec.state = 'mounted';
      this.recs.add(rec);
      return () => {
        rec.state = 'gone';
        this.recs.delete(rec);
        this.fire('cleanup', it.id);
      };
    }, []);
    if (this.armed.some((a) => a.at === 'micro' && a.id === it.id)) queueMicrotask(() => this.fire('micro', it.id));
    this.fire('throw', it.id);
    return this.shapes[shape](rec.ref, values);
  }

  newRec(it, root) {
    const rec = { id: it.id, root, state: 'new', renders: 0, committed: null, el: null, model: null, want: it.init };
    rec.ref = (el) => {
      rec.el = el;
      return () => {
        if (rec.el === el) rec.el = null;
      };
    };
    return rec;
  }

  fire(at, id) {
    for (let i = 0; i < this.armed.length; i++) {
      const a = this.armed[i];
      if (a.at !== at || (a.id !== null && a.id !== id)) continue;
      this.armed.splice(i, 1);
      if (at === 'throw' || at === 'throwVal') {
        this.sim.fault(at === 'throw' ? 'component throws' : 'component in a binding throws');
        throw new Boom('render of ' + id);
      }
      this.sim.fault('foreign change in ' + at);
      // While a commit is going on only what no binding is concerned with.
      for (const w of a.writes) this.tamper(w, at === 'effect' || at === 'cleanup');
      return;
    }
  }

  // ---- the model ------------------------------------------------------------------------

  commitSlot(rec, shape, slot, token, value) {
    if (rec.model === null || rec.model.shape !== shape) {
      rec.model = {
        shape,
        el: rec.el,
        slots: {},
        attrs: new Map(Object.entries(STATIC[shape])),
        tokens: new Set(),
        style: this.sim.document.createElement('div').style,
        props: { ...FIXED[shape] },
        loose: new Set(),
      };
    }
    const { slots } = rec.model;
    const old = slots[slot];
    const kind = SHAPES[shape][slot];
    if (old === undefined) this.applyNew(rec, kind, slot, undefined, value);
    else if (old.token !== token) {
      this.sim.probe('binding replaced');
      this.applyNew(rec, kind, slot, undefined, value, old);
    } else if (kind === 'live') {
      // Inside of a component of its own there may be nothing to commit.
      if (token === 'raw' || !Object.is(old.value, value)) this.applyNew(rec, kind, slot, old.value, value);
      else if (this.liveDiffers(rec, slot, value)) rec.model.loose.add(slot);
    } else if (!Object.is(old.value, value)) this.applyNew(rec, kind, slot, old.value, value);
    slots[slot] = { token, value };
  }

  liveDiffers(rec, slot, value) {
    return rec.model.props[slot] !== this.liveValue(slot, value);
  }

  liveValue(slot, value) {
    return slot === 'checked' ? !!value : text(value).replace(/\n/g, '');
  }

  applyNew(rec, kind, slot, oldValue, value, replaced) {
    const { model } = rec;
    const before = replaced ? replaced.value : oldValue;
    switch (kind) {
      case 'attr':
        if (value === null || value === undefined || value === false) model.attrs.delete(slot);
        else model.attrs.set(slot, value === true ? '' : text(value));
        break;
      case 'class': {
        const was = tokensOf(before);
        const now = tokensOf(value);
        for (const [t, on] of was) {
          if (now.has(t)) continue;
          // It was bound to be absent, but somebody put it there.
          if (!on && model.tokens.has(t)) model.loose.add('class ' + t);
          else model.tokens.delete(t);
        }
        for (const [t, on] of now) {
          if (on) model.tokens.add(t);
          else model.tokens.delete(t);
        }
        break;
      }
      case 'style': {
        const was = this.declarations(before);
        const now = this.declarations(value);
        for (const name of was.keys()) if (!now.has(name)) model.style.removeProperty(name);
        for (const [name, [v, priority]] of now) model.style.setProperty(name, v, priority);
        break;
      }
      case 'prop':
        model.props[slot] = value;
        break;
      case 'live':
        model.props[slot] = this.liveValue(slot, value);
        model.loose.delete(slot);
        break;
      case 'text':
      case 'child':
        model.props[slot] = text(value);
        break;
    }
  }

  declarations(value) {
    const out = new Map();
    if (isObj(value)) {
      for (const [key, v] of Object.entries(value)) if (v !== null && v !== undefined) out.set(STYLES[key][0], [v, '']);
    } else {
      const { style } = this.scratch;
      style.cssText = text(value);
      for (const name of style) out.set(name, [style.getPropertyValue(name), style.getPropertyPriority(name)]);
    }
    return out;
  }

  /** The application or the user changes an element. */
  tamper(w, foreign) {
    const rec = this.pick(this.reachable(), w.n);
    if (rec === null) return;
    if (foreign && (!['attr', 'class', 'style'].includes(w.what) || TOKENS.includes(w.name) || (w.what === 'style' && !(w.name in FOREIGN_STYLES)))) return;
    const { el, model } = rec;
    const slots = Object.keys(SHAPES[model.shape]);
    switch (w.what) {
      case 'attr':
        if (w.v === null) {
          el.removeAttribute(w.name);
          model.attrs.delete(w.name);
        } else {
          el.setAttribute(w.name, w.v);
          model.attrs.set(w.name, w.v);
        }
        break;
      case 'boundAttr': {
        const name = this.pick(slots.filter((s) => SHAPES[model.shape][s] === 'attr'), w.m);
        if (w.v === null) {
          el.removeAttribute(name);
          model.attrs.delete(name);
        } else {
          el.setAttribute(name, w.v);
          model.attrs.set(name, w.v);
        }
        break;
      }
      case 'class':
        el.classList.toggle(w.name, w.on);
        model.loose.delete('class ' + w.name);
        if (w.on) model.tokens.add(w.name);
        else model.tokens.delete(w.name);
        break;
      case 'classes':
        el.setAttribute('class', w.names.join(' '));
        model.tokens = new Set(w.names);
        for (const l of [...model.loose]) if (l.startsWith('class ')) model.loose.delete(l);
        break;
      case 'style':
        if (!('style' in SHAPES[model.shape])) break;
        if (w.v === null) {
          el.style.removeProperty(w.name);
          model.style.removeProperty(w.name);
        } else {
          el.style.setProperty(w.name, w.v);
          model.style.setProperty(w.name, w.v);
        }
        break;
      case 'prop': {
        const name = model.shape === 0 ? 'foo' : model.shape === 2 ? 'bar' : null;
        if (name === null) break;
        el[name] = w.v;
        model.props[name] = w.v;
        break;
      }
      case 'type':
        // The user types, or ticks.
        if (model.shape === 0) model.props.value = el.value = String(w.v);
        else if (model.shape === 3) model.props.checked = el.checked = w.on;
        else break;
        model.loose.delete(model.shape === 0 ? 'value' : 'checked');
        if (w.on) el.dispatchEvent(new this.sim.env.window.Event('input', { bubbles: true }));
        break;
      case 'text': {
        const node = this.textNodes(rec)[this.pick(['t', 't2', 'c'].filter((s) => s in SHAPES[model.shape]), w.m)];
        if (!node) break;
        const slot = this.pick(['t', 't2', 'c'].filter((s) => s in SHAPES[model.shape]), w.m);
        node.data = w.v ?? '';
        model.props[slot] = w.v ?? '';
        break;
      }
    }
  }

  reachable() {
    return [...this.recs].filter((r) => r.el && r.model?.el === r.el);
  }

  textNodes(rec) {
    const { el } = rec;
    switch (rec.model.shape) {
      case 1: {
        const [b1, b2, i] = el.children;
        return { t: b1.childNodes[1], t2: b2.childNodes[0], c: [...i.childNodes].at(-1) };
      }
      case 3: {
        const p = el.previousElementSibling;
        return { t: [...p.childNodes].filter((n) => n.nodeType === 3)[1] };
      }
    }
    return {};
  }

  genTamper(rng) {
    const what = rng.weighted({ attr: 2, boundAttr: 2, class: 4, classes: 0.7, style: 3, prop: 1, type: 3, text: 1.5 });
    const w = { what, n: rng.int(20), m: rng.int(4), on: rng.chance(0.6), v: rng.pick([null, '', 'w' + rng.int(4)]) };
    switch (what) {
      case 'attr':
        w.name = rng.pick(['data-y', 'id', 'role', 'name', 'fill', 'lang']);
        break;
      case 'class':
        w.name = rng.pick(rng.chance(0.7) ? FOREIGN_TOKENS : TOKENS);
        break;
      case 'classes':
        w.names = [...FOREIGN_TOKENS, ...TOKENS].filter(() => rng.chance(0.3));
        break;
      case 'style': {
        if (rng.chance(0.7)) {
          w.name = rng.pick(Object.keys(FOREIGN_STYLES));
          w.v = rng.chance(0.25) ? null : rng.pick(FOREIGN_STYLES[w.name]);
        } else {
          const key = rng.pick(Object.keys(STYLES));
          w.name = STYLES[key][0];
          w.v = rng.chance(0.25) ? null : rng.pick(STYLES[key][1]);
        }
        break;
      }
      case 'prop':
        w.v = rng.pick([1, 'w', null]);
        break;
      case 'type':
        w.v = rng.pick(['', 'w1', 'v1', 'w2']);
        break;
    }
    return w;
  }

  // ---- operations -----------------------------------------------------------------------

  genSlots(rng) {
    const slots = {};
    SHAPES.forEach((shape, i) => {
      for (const slot in shape) slots[`${i}.${slot}`] = { w: this.genWrap(rng), spec: this.genValue(rng, shape[slot]) };
    });
    return slots;
  }

  genWrap(rng) {
    return rng.weighted({ raw: 10, val: 1, valA: 0.5, valB: 0.5, sig0: 0.3, sig1: 0.3, sig2: 0.3 });
  }

  gen(rng) {
    const { cfg } = this;
    const op = rng.weighted({ set: 8, view: 4, tamper: 6, arm: 3, sig: 1.5, force: 1, fail: cfg.faults ? 1.2 : 0 });
    const prio = () => rng.weighted({ none: 3, sync: 1.5, tr: 1, 'user-blocking': 1, 'user-visible': 1, background: 1.5 });
    const tampers = () => Array.from({ length: 1 + rng.int(3) }, () => this.genTamper(rng));
    switch (op) {
      case 'set': {
        const changes = [];
        for (let i = 1 + rng.int(3); i > 0; i--) {
          const shape = rng.int(SHAPES.length);
          const slot = rng.pick(Object.keys(SHAPES[shape]));
          changes.push({ m: rng.int(60), per: SHAPES.map((s) => Object.values(s).map((kind) => this.genValue(rng, kind))), w: rng.chance(0.2) ? this.genWrap(rng) : null, keep: rng.chance(0.1) });
          void slot;
        }
        return { op, n: rng.int(20), changes, shape: rng.chance(0.08) ? rng.int(SHAPES.length) : null, o: prio(), tampers: rng.chance(0.3) ? tampers() : [] };
      }
      case 'view':
        return { op, root: rng.int(3), edits: Array.from({ length: 1 + rng.int(2) }, () => ({ e: rng.weighted({ add: 3, remove: 1, move: 1.5 }), n: rng.int(20), m: rng.int(20), init: { shape: rng.pick(cfg.shapes), slots: this.genSlots(rng) } })), o: prio() };
      case 'tamper':
        return { op, writes: tampers(), micro: rng.chance(0.2) };
      case 'arm':
        return { op, at: rng.pick(AT), n: rng.int(20), any: rng.chance(0.4), writes: tampers() };
      case 'sig': {
        const n = rng.int(3);
        const kind = rng.pick(['attr', 'class', 'style', 'live']);
        return { op, n, spec: this.genValue(rng, kind) };
      }
      case 'force':
        return { op, n: rng.int(20), self: rng.chance(0.5), o: prio() };
      case 'fail':
        return { op, n: rng.int(20), val: rng.chance(0.4) };
    }
  }

  pick(list, n) {
    return list.length > 0 ? list[n % list.length] : null;
  }

  options(o) {
    return o === 'sync' ? { flushSync: true } : o === 'none' ? {} : o === 'tr' ? { transition: this.runtime.nextTransition() } : { priority: o };
  }

  ids() {
    return this.roots.flatMap((r) => r.view.map((it) => it.id));
  }

  exec(op) {
    switch (op.op) {
      case 'set': {
        const rec = this.pick([...this.recs], op.n);
        if (rec === null) break;
        const change = (st) => {
          const slots = { ...st.slots };
          for (const { m, per, w, keep } of op.changes) {
            const names = Object.keys(SHAPES[st.shape]);
            const i = m % names.length;
            const key = `${st.shape}.${names[i]}`;
            slots[key] = { w: w ?? slots[key].w, spec: keep ? slots[key].spec : per[st.shape][i] };
          }
          return Object.freeze({ shape: op.shape ?? st.shape, slots });
        };
        rec.want = change(rec.want);
        this.quiet(rec.setSt(change, this.options(op.o)));
        for (const w of op.tampers) this.tamper({ ...w, n: this.reachable().indexOf(rec) });
        break;
      }
      case 'view':
        this.execView(op);
        break;
      case 'tamper':
        if (op.micro) queueMicrotask(() => op.writes.forEach((w) => this.tamper(w)));
        else op.writes.forEach((w) => this.tamper(w));
        break;
      case 'arm':
        if (this.armed.length > 4) this.armed.shift();
        this.armed.push({ at: op.at, id: op.any ? null : this.pick(this.ids(), op.n), writes: op.writes });
        break;
      case 'sig':
        this.atoms[op.n].atom.value = op.spec;
        break;
      case 'force': {
        if (op.self) {
          // Rendered again as it is.
          const rec = this.pick([...this.recs], op.n);
          if (rec) this.quiet(rec.setSt((st) => Object.freeze({ ...st }), this.options(op.o)));
        } else {
          const root = this.pick(this.roots, op.n);
          if (root.setView) this.setView(root, root.view.map((it) => Object.freeze({ ...it })), op.o);
        }
        break;
      }
      case 'fail':
        if (!this.armed.some((a) => a.at.startsWith('throw'))) this.armed.push({ at: op.val ? 'throwVal' : 'throw', id: op.val ? null : this.pick(this.ids(), op.n) });
        break;
    }
  }

  setView(root, view, o) {
    root.view = Object.freeze(view);
    this.quiet(root.setView(root.view, this.options(o)));
  }

  execView({ root: n, edits, o }) {
    const root = this.pick(this.roots, n);
    if (!root.setView) return;
    const view = [...root.view];
    for (const { e, n, m, init } of edits) {
      const i = view.length > 0 ? n % view.length : -1;
      if (e === 'add') {
        if (view.length < this.cfg.items) view.splice(m % (view.length + 1), 0, Object.freeze({ id: 'i' + this.nextId++, init }));
      } else if (i < 0) continue;
      else if (e === 'remove') view.splice(i, 1);
      else view.splice(m % view.length, 0, view.splice(i, 1)[0]);
    }
    this.setView(root, view, o);
  }

  quiet(handle) {
    handle?.finished?.catch((error) => {
      if (!this.isBoom(error)) this.fail('threw', `an update was rejected: ${(error?.cause ?? error)?.stack ?? error}`);
      this.rejections++;
    });
    return handle;
  }

  isBoom(error) {
    for (let e = error; e; e = e.cause) if (e instanceof Boom) return true;
    return false;
  }

  onHostError(error) {
    if (this.isBoom(error)) {
      this.rejections++;
      return;
    }
    this.fail('threw', `unexpected exception: ${error?.stack ?? error}`);
  }

  // ---- checks ---------------------------------------------------------------------------

  check() {
    for (const rec of this.recs) {
      if (rec.model) this.checkElement(rec);
    }
    const d = new Digest();
    for (const root of this.roots) d.add(root.el.innerHTML);
    this.stateDigests.add(d.toString());
  }

  styleOf(style) {
    return [...style]
      .filter((name) => style.getPropertyValue(name) !== '')
      .map((name) => `${name}: ${style.getPropertyValue(name)}${style.getPropertyPriority(name) ? ' !' + style.getPropertyPriority(name) : ''}`)
      .sort()
      .join('; ');
  }

  checkElement(rec) {
    const { el, model, id } = rec;
    if (el === null) return this.fail('element', `the element of ${id} is not known`);
    const bound = SHAPES[model.shape];
    const names = new Set([...el.getAttributeNames(), ...model.attrs.keys()]);
    for (const name of names) {
      if (name === 'class' || name === 'style') continue;
      const got = el.getAttribute(name);
      const want = model.attrs.get(name) ?? null;
      if (got !== want) {
        if (name in bound) this.fail('bound', `attribute ${name} of ${id} is ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`);
        else this.fail('foreign', `attribute ${name} of ${id}, which is not bound, is ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`);
      }
    }
    for (const t of new Set([...el.classList, ...model.tokens])) {
      const got = el.classList.contains(t);
      if (model.loose.has('class ' + t)) {
        if (got) model.tokens.add(t);
        else model.tokens.delete(t);
        model.loose.delete('class ' + t);
        continue;
      }
      const want = model.tokens.has(t);
      if (got !== want) this.fail(TOKENS.includes(t) ? 'bound' : 'foreign', `class ${t} of ${id} is ${got ? 'present' : 'absent'}; the classes should be "${[...model.tokens].join(' ')}"`);
    }
    if ('style' in bound) {
      const got = this.styleOf(el.style);
      const want = this.styleOf(model.style);
      if (got !== want) this.fail('bound', `the style of ${id} is "${got}" instead of "${want}"`);
    }
    const nodes = this.textNodes(rec);
    for (const slot in bound) {
      const kind = bound[slot];
      if (kind === 'text' || kind === 'child') {
        const got = nodes[slot]?.data;
        if (got !== model.props[slot]) this.fail('bound', `text ${slot} of ${id} is ${JSON.stringify(got)} instead of ${JSON.stringify(model.props[slot])}`);
      } else if (kind === 'prop' || kind === 'live') {
        const got = el[slot];
        if (model.loose.has(slot)) {
          if (got === this.liveValue(slot, model.slots[slot].value)) model.props[slot] = got;
          model.loose.delete(slot);
        }
        if (!Object.is(got, model.props[slot])) this.fail('bound', `property ${slot} of ${id} is ${String(got)} instead of ${String(model.props[slot])}`);
      }
    }
  }

  settled() {
    if (this.rejections > 0) return;
    for (const root of this.roots) {
      for (const it of root.view) {
        const rec = [...this.recs].find((r) => r.id === it.id && r.root === root);
        if (!rec) this.fail('view', `${it.id} is not mounted`);
        else if (JSON.stringify(rec.committed.st) !== JSON.stringify(rec.want)) this.fail('stale', `at rest ${it.id} does not show its last state`);
        else {
          for (const slot in SHAPES[rec.committed.shape]) {
            const { w } = rec.committed.st.slots[`${rec.committed.shape}.${slot}`];
            if (!w.startsWith('sig')) continue;
            const spec = this.atoms[Number(w[3])].atom.value;
            const kind = SHAPES[rec.committed.shape][slot];
            if (spec.fresh || spec.k === 'obj' || spec.k === 'map') continue;
            if (!Object.is(this.make(spec, kind, rec), rec.model.slots[slot].value)) this.fail('stale', `at rest ${slot} of ${it.id} does not show the value of its signal`);
          }
        }
      }
    }
  }

  onIdle(phase) {
    if (phase === 0) {
      this.settled();
      this.armed = [];
      return true;
    }
    if (phase === 1) {
      for (const root of this.roots) root.root.unmount();
      return true;
    }
    for (const rec of this.recs) this.fail('leak', `${rec.id} is still mounted`);
    return false;
  }
}
