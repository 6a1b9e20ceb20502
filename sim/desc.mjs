// View descriptions: plain JSON trees from which components build real virtual
// elements, and from which the oracle computes the DOM that must result.
//
//   null                                  nothing bound
//   {k:'t', v}                            a primitive bound to a child position
//   {k:'e', i, v, x?, r?, e?, h:[...]}    template number i; h = its child positions
//   {k:'f', u?, it:[[key, desc], ...]}    list; u = without keys
//   {k:'c', ty, v, w, x?, cache?}         component of type ty with props v and view w
//   {k:'p', t, d}                         portal into the owner's target number t
//   {k:'g', s}                            a signal placed directly
//
// A view is {d: desc, pv?: provided context value}.

/** Static shapes, index = template number. Items: string = static text,
 *  ['tag', attrs, children], {x:1} text position, {c:n} child position n. */
export const SHAPES = [
  /* 0 */ [['div', { a: 1 }, [{ c: 0 }]]],
  /* 1 */ [['p', {}, [{ x: 1 }]], { c: 0 }, ['i', {}, ['x']]],
  /* 2 */ [{ c: 0 }, ['b', { u: 1 }, ['y']]],
  /* 3 */ [{ c: 0 }],
  /* 4 */ [],
  /* 5 */ [['ul', {}, [{ c: 0 }]], { c: 1 }],
  /* 6 */ ['hello'],
  /* 7 */ [['section', { a: 1 }, [{ c: 0 }, { c: 1 }]]],
  /* 8 */ [['em', { r: 1, e: 1, a: 1 }, ['z']]],
  /* 9 */ [['span', { k: 1 }, ['a', { x: 1 }, 'b', { c: 0 }]]],
  /* 10 */ [['div', { r: 1, e: 1 }, [{ c: 0 }]]],
  /* 11 */ [['svg', { u: 1 }, [['g', {}, [{ c: 0 }]]]]],
  /* 12 */ [['li', { u: 1 }, []]],
];
export const CHILD_HOLES = [1, 1, 1, 1, 0, 2, 0, 2, 0, 1, 1, 1, 0];
export const HAS_REF = [0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0];

/** The real templates. `b` gives the values of one template occurrence. */
export function makeTemplates(html) {
  return [
    (b) => html`<div title=${b.a}><${b.c[0]}></div>`,
    (b) => html`<p>${b.x}</p><${b.c[0]}><i>x</i>`,
    (b) => html`<${b.c[0]}><b title=${b.u}>y</b>`,
    (b) => html`<${b.c[0]}>`,
    () => html``,
    (b) => html`<ul><${b.c[0]}></ul><${b.c[1]}>`,
    () => html`hello`,
    (b) => html`<section title=${b.a}><${b.c[0]}><${b.c[1]}></section>`,
    (b) => html`<em ${b.r} @click=${b.e} title=${b.a}>z</em>`,
    (b) => html`<span class=${b.k}>a${b.x}b<${b.c[0]}></span>`,
    (b) => html`<div ${b.r} @click=${b.e}><${b.c[0]}></div>`,
    (b) => html`<svg title=${b.u}><g><${b.c[0]}></g></svg>`,
    (b) => html`<li title=${b.u}></li>`,
  ];
}

const KEY_OBJ = { key: 1 };
const KEY_SYM = Symbol('key');
export const KEYS = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 1, 2, Number.NaN, 0, null, true, KEY_OBJ, KEY_SYM, '', -0];

export function keyOf(i) {
  return KEYS[i];
}

/** Random view generator. */
export class Gen {
  constructor(rng, cfg) {
    this.rng = rng;
    this.cfg = cfg;
  }
  view(depth, budget = this.cfg.size ?? 6) {
    const st = { refs: new Set(), portals: new Set(), budget };
    const v = { d: this.desc(depth, st, 0, false) };
    if (this.cfg.context && this.rng.chance(this.cfg.pProvide ?? 0.35)) v.pv = this.rng.int(8);
    return v;
  }
  desc(depth, st, nest, inList) {
    const { rng, cfg } = this;
    st.budget--;
    if (st.budget <= 0 || nest > 5) {
      return rng.chance(0.3) ? null : this.leaf(st);
    }
    const kind = rng.weighted({
      n: cfg.wNull ?? 1,
      t: inList ? 0 : cfg.wText ?? 0.6,
      e: cfg.wElem ?? 4,
      f: nest < 4 ? cfg.wList ?? 2.5 : 0,
      c: depth > 0 ? cfg.wComp ?? 3.5 : 0,
      p: cfg.portals ? cfg.wPortal ?? 0.8 : 0,
      g: cfg.signals ? cfg.wSignal ?? 0.7 : 0,
    });
    switch (kind) {
      case 'n':
        return null;
      case 't':
        return { k: 't', v: 't' + rng.int(4) };
      case 'e':
        return this.elem(depth, st, nest);
      case 'f':
        return this.list(depth, st, nest);
      case 'c':
        return this.comp(depth);
      case 'g':
        return inList ? this.leaf(st) : { k: 'g', s: rng.int(cfg.nSignals ?? 3) };
      case 'p': {
        const free = [0, 1].filter((t) => !st.portals.has(t));
        if (free.length === 0) return this.leaf(st);
        const t = rng.pick(free);
        st.portals.add(t);
        return { k: 'p', t, d: this.desc(depth, st, nest + 1, false) };
      }
    }
    return null;
  }
  leaf(st) {
    return this.elemWith(this.rng.pick([4, 6, 8, 12, 12]), 0, st, 9);
  }
  elem(depth, st, nest) {
    return this.elemWith(this.cfg.shapes ? this.rng.pick(this.cfg.shapes) : this.rng.int(SHAPES.length), depth, st, nest);
  }
  elemWith(i, depth, st, nest) {
    const { rng } = this;
    const d = { k: 'e', i, v: rng.int(4) };
    if (HAS_REF[i]) {
      const options = [null, 'cb', 'cbn', 0, 1].filter((r) => r === null || r === 'cbn' || !st.refs.has(r));
      d.r = this.cfg.refs === false ? null : rng.pick(options);
      if (d.r !== null && d.r !== 'cbn') st.refs.add(d.r);
      d.e = this.cfg.listeners === false ? null : rng.pick([null, 'f', 'o', 'oc', 'op', 'fs', 'f']);
    }
    d.h = [];
    for (let n = 0; n < CHILD_HOLES[i]; n++) d.h.push(this.desc(depth, st, nest + 1, false));
    return d;
  }
  comp(depth) {
    const { rng, cfg } = this;
    const d = { k: 'c', ty: rng.int(3), v: rng.int(4), w: this.view(depth - 1, Math.max(2, (cfg.size ?? 6) - 2)) };
    if (rng.chance(0.25)) d.cache = 1;
    if (rng.chance(0.4)) d.x = 1 + rng.int(2);
    return d;
  }
  list(depth, st, nest) {
    const { rng, cfg } = this;
    const n = rng.int((cfg.listMax ?? 5) + 1);
    if (rng.chance(cfg.unkeyed ?? 0.2)) {
      const it = [];
      for (let i = 0; i < n; i++) it.push([-1, this.desc(depth, st, nest + 1, true)]);
      return { k: 'f', u: 1, it };
    }
    const keys = this.keys().slice(0, n);
    return { k: 'f', it: keys.map((k) => [k, this.item(depth, st, nest)]) };
  }
  keys() {
    const { rng, cfg } = this;
    if (cfg.weirdKeys && rng.chance(0.4)) {
      // 0 and -0 never together: they are one key to the library's maps.
      const pool = [0, 1, 2, 8, 9, 10, rng.chance(0.5) ? 11 : 17, 12, 13, 14, 15, 16];
      return rng.shuffle(pool);
    }
    return rng.shuffle([0, 1, 2, 3, 4, 5, 6, 7].slice(0, Math.max(3, (cfg.listMax ?? 5) + 1)));
  }
  item(depth, st, nest) {
    // Items that are cheap, multi-node, empty, nested lists or components.
    const { rng } = this;
    if (rng.chance(0.3)) return this.elemWith(12, 0, st, 9);
    return this.desc(depth, st, nest + 1, true);
  }
  /** A view derived from an existing one by small edits (most interesting updates are). */
  mutate(view, depth) {
    const { rng, cfg } = this;
    const copy = structuredClone(view ?? { d: null });
    const spots = [];
    const walk = (d, put) => {
      spots.push({ d, put });
      if (!d) return;
      if (d.k === 'e') d.h.forEach((c, i) => walk(c, (n) => (d.h[i] = n)));
      else if (d.k === 'f') d.it.forEach((it) => walk(it[1], (n) => (it[1] = n)));
      else if (d.k === 'p') walk(d.d, (n) => (d.d = n));
      else if (d.k === 'c' && d.w && rng.chance(0.3)) walk(d.w.d, (n) => (d.w.d = n));
    };
    walk(copy.d, (n) => (copy.d = n));
    const lists = spots.filter((s) => s.d && s.d.k === 'f');
    const edits = 1 + rng.int(3);
    for (let e = 0; e < edits; e++) {
      if (lists.length > 0 && rng.chance(0.6)) {
        this.mutateList(rng.pick(lists).d, depth);
        continue;
      }
      const s = rng.pick(spots);
      if (!s.d || rng.chance(0.25)) {
        const st = { refs: usedRefs(copy.d), portals: usedPortals(copy.d), budget: 3 };
        // refs/portals of the replaced part stay "used": never two holders of one ref.
        s.put(this.desc(depth, st, 3, true));
      } else if (s.d.k === 'e') {
        s.d.v = rng.int(4);
        if (s.d.e !== undefined && cfg.listeners !== false) s.d.e = rng.pick([null, 'f', 'o', 'oc', 'op', 'fs']);
      } else if (s.d.k === 'c') {
        s.d.v = rng.int(4);
      } else if (s.d.k === 't') {
        s.d.v = 't' + rng.int(4);
      } else if (s.d.k === 'p') {
        const other = 1 - s.d.t;
        if (!usedPortals(copy.d).has(other)) s.d.t = other;
      } else if (s.d.k === 'g') {
        s.d.s = rng.int(cfg.nSignals ?? 3);
      }
    }
    if (cfg.context && rng.chance(0.25)) {
      if (rng.chance(0.3)) delete copy.pv;
      else copy.pv = rng.int(8);
    }
    return copy;
  }
  mutateList(d, depth) {
    const { rng } = this;
    if (d.u) {
      if (rng.chance(0.5)) d.it.push([-1, this.elemWith(12, 0, { refs: new Set(), portals: new Set(), budget: 1 }, 9)]);
      else d.it.splice(rng.int(d.it.length + 1), 1);
      return;
    }
    switch (rng.int(6)) {
      case 0:
        d.it = rng.shuffle(d.it);
        break;
      case 1:
        d.it.reverse();
        break;
      case 2: // rotate
        if (d.it.length > 1) {
          if (rng.chance(0.5)) d.it.push(d.it.shift());
          else d.it.unshift(d.it.pop());
        }
        break;
      case 3: // remove some
        d.it = d.it.filter(() => rng.chance(0.7));
        break;
      default: {
        // insert fresh keys anywhere
        const used = new Set(d.it.map((x) => x[0]));
        const noZero = used.has(11) || used.has(17);
        for (const k of this.keys()) {
          if (used.has(k) || (noZero && (k === 11 || k === 17))) continue;
          if (d.it.length >= 9) break;
          const st = { refs: new Set([0, 1, 'cb']), portals: new Set([0, 1]), budget: 3 };
          d.it.splice(rng.int(d.it.length + 1), 0, [k, this.item(depth, st, 3)]);
          if (rng.chance(0.5)) break;
        }
        if (rng.chance(0.4)) d.it = rng.shuffle(d.it);
      }
    }
  }
}

function collect(d, out, pick) {
  if (!d) return out;
  pick(d, out);
  if (d.k === 'e') for (const c of d.h) collect(c, out, pick);
  else if (d.k === 'f') for (const it of d.it) collect(it[1], out, pick);
  else if (d.k === 'p') collect(d.d, out, pick);
  return out;
}
export function usedRefs(d) {
  return collect(d, new Set(), (x, o) => {
    if (x.r !== null && x.r !== undefined && x.r !== 'cbn') o.add(x.r);
  });
}
export function usedPortals(d) {
  return collect(d, new Set(), (x, o) => {
    if (x.k === 'p') o.add(x.t);
  });
}

/** Makes a view legal: one holder per ref, one portal per target, no repeated keys. */
export function tidy(view) {
  const refs = new Set();
  const portals = new Set();
  const walk = (d) => {
    if (!d) return;
    if (d.r !== null && d.r !== undefined && d.r !== 'cbn') {
      if (refs.has(d.r)) d.r = null;
      else refs.add(d.r);
    }
    if (d.k === 'e') d.h.forEach(walk);
    else if (d.k === 'f') {
      const seen = new Set();
      if (!d.u) {
        d.it = d.it.filter(([key]) => {
          const k = key === 17 ? 11 : key;
          return seen.has(k) ? false : seen.add(k);
        });
      }
      d.it.forEach((it) => walk(it[1]));
    } else if (d.k === 'p') {
      if (portals.has(d.t)) d.t = 1 - d.t;
      if (portals.has(d.t)) {
        delete d.d;
        delete d.t;
        d.k = 't';
        d.v = '';
        return;
      }
      portals.add(d.t);
      walk(d.d);
    } else if (d.k === 'c') tidy(d.w);
  };
  walk(view.d);
  return view;
}
