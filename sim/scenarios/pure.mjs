// Routes matched and templates composed while components are rendered, in any order, again
// and again, with renderings and matchers that fail half-way: what comes out must depend on
// nothing but the arguments.
import { Digest } from '../rng.mjs';

class Boom extends Error {}

// ---- routes -----------------------------------------------------------------------------

const COMPONENTS = ['a', 'b', 'c', '12', '-3', '007', 'NaN', '%20', 'x%2Fy', '', 'abc', 'aab', '0', '1e3'];
const REGEXPS = [/^a+/, /b/g, /(\d)(\d)?/, /^x(.*)y$/i, /z/];

function genMatcher(rng, depth) {
  const m = rng.weighted({ lit: 6, enc: 2, dec: 1.5, int: 2, kw: 1, re: 2, choice: depth > 0 ? 1.5 : 0, sel: depth > 0 ? 1.5 : 0, url: 0.7, boom: 0.7 });
  switch (m) {
    case 'lit':
    case 'kw':
      return { m, v: rng.pick(['a', 'b', 'c', '', 'abc', '12']) };
    case 're':
      return { m, n: rng.int(REGEXPS.length) };
    case 'choice':
      return { m, of: Array.from({ length: rng.int(4) }, () => genMatcher(rng, depth - 1)).map((x) => (x.m === 'lit' ? { ...x, m: 'kw' } : x)) };
    case 'sel': {
      const of = genMatcher(rng, depth - 1);
      return { m, of: of.m === 'lit' ? { ...of, m: 'kw' } : of, s: rng.pick(['box', 'str', 'none', 'null']) };
    }
    case 'boom':
      return { m, of: rng.pick(['enc', 'int']) };
  }
  return { m };
}

export function genRoutes(rng, depth = 2) {
  return Array.from({ length: (depth === 2 ? 2 : 0) + rng.int(depth === 2 ? 4 : 3) }, () => ({
    patterns: Array.from({ length: rng.weighted({ 0: 0.6, 1: 5, 2: 2.5, 3: 0.7 }) | 0 }, () => genMatcher(rng, 2)),
    resolver: rng.weighted({ value: 8, none: 1.5, undef: 0.8, again: 1, mutate: 1 }),
    children: depth > 0 && rng.chance(0.5) ? genRoutes(rng, depth - 1) : [],
  }));
}

function label(routes, prefix = 'r') {
  return routes.map((r, i) => ({ ...r, id: `${prefix}${i}`, children: label(r.children, `${prefix}${i}.`) }));
}

/** The meaning of a matcher. */
function meaning(spec, component, url) {
  switch (spec.m) {
    case 'enc':
      return component;
    case 'dec':
      return decodeURIComponent(component);
    case 'int':
      return /^(0|-?[1-9]\d*)$/.test(component) ? Number(component) : undefined;
    case 'kw':
      return component === spec.v ? component : undefined;
    case 're': {
      const { source, flags } = REGEXPS[spec.n];
      return component.match(new RegExp(source, flags)) ?? undefined;
    }
    case 'choice':
      for (const s of spec.of) {
        const v = meaning(s, component, url);
        if (v !== undefined) return v;
      }
      return undefined;
    case 'sel': {
      const v = meaning(spec.of, component, url);
      return v === undefined ? undefined : SELECT[spec.s](v);
    }
    case 'url':
      return `${component}@${url}`;
    case 'boom':
      return meaning({ m: spec.of }, component, url);
  }
}

const SELECT = { box: (v) => ({ v }), str: (v) => `<${v}>`, none: () => undefined, null: () => null };

/** The first route, depth first, that consumes the whole path. */
function find(routes, components, start, captures, url) {
  for (const r of routes) {
    const end = start + r.patterns.length;
    if (end > components.length) continue;
    const own = [];
    let ok = true;
    for (let i = start; ok && i < end; i++) {
      const p = r.patterns[i - start];
      if (p.m === 'lit') ok = components[i] === p.v;
      else {
        const v = meaning(p, components[i], url);
        if (v === undefined) ok = false;
        else own.push(v);
      }
    }
    if (!ok) continue;
    const all = [...captures, ...own];
    if (end === components.length) return { route: r, captures: all };
    const found = find(r.children, components, end, all, url);
    if (found) return found;
  }
  return null;
}

// ---- templates --------------------------------------------------------------------------

const site = (...strings) => strings;
// Few strings, so that different compositions are made of the same ones.
const TEXTS = [site('', ''), site('x', 'y'), site('x', 'y', 'x'), site('x', ''), site('y', 'x'), site('y'), site('', 'x')];
const LITERALS = ['x', 'y', ''];
const ATTRS = [site(' title="k"'), site(' title=', ''), site(' title=', ' lang=', ''), site(' lang=', ''), site('')];
const TEMPLATES = [
  { strings: site('<b>', '</b>'), holes: ['text'] },
  { strings: site('<b id="c"', '>', '</b><i>', '</i>'), holes: ['attr', 'text', 'text'] },
  { strings: site('<', '>', '</', '>'), holes: ['tag', 'text', 'same'] },
  { strings: site('<b>', '</b><', '>'), holes: ['text', 'child'] },
  { strings: site('<u>', '', '</u>'), holes: ['text', 'text'] },
  { strings: site('<s', '><q', '>', '</q></s>'), holes: ['attr', 'attr', 'text'] },
  { strings: site('<g', '><text>', '</text></g>'), holes: ['attr', 'text'], mode: 'svg' },
  { strings: site('<mi', '>', '</mi><mo>', '</mo>'), holes: ['attr', 'text', 'text'], mode: 'math' },
];

function genText(rng, depth) {
  if (depth === 0 || rng.chance(0.3)) return { v: 'v' + rng.int(4) };
  if (rng.chance(0.25)) return { lit: rng.pick(LITERALS) };
  const n = rng.int(TEXTS.length);
  return { p: n, of: Array.from({ length: TEXTS[n].length - 1 }, () => genText(rng, depth - 1)) };
}

function genTemplate(rng, depth) {
  if (rng.chance(0.08)) {
    // The same strings one after the other, but not in the same partials.
    const v = { v: 'v' + rng.int(4) };
    return { t: 4, of: rng.chance(0.5) ? [{ p: 1, of: [v] }, { lit: 'x' }] : [{ lit: 'x' }, { p: 4, of: [v] }] };
  }
  const n = rng.int(TEMPLATES.length);
  const of = [];
  for (const hole of TEMPLATES[n].holes) {
    switch (hole) {
      case 'text':
        of.push(genText(rng, 2));
        break;
      case 'attr': {
        const a = rng.int(ATTRS.length);
        of.push({ a, of: Array.from({ length: ATTRS[a].length - 1 }, () => ({ v: 'w' + rng.int(3) })) });
        break;
      }
      case 'tag':
        of.push({ lit: rng.pick(['em', 'strong']) });
        break;
      case 'same':
        of.push(of[0]);
        break;
      case 'child':
        of.push(depth > 0 && rng.chance(0.7) ? genTemplate(rng, depth - 1) : { v: null });
        break;
    }
  }
  return { t: n, of };
}

/** Changes the values, and sometimes a part, of a template. */
function vary(rng, node) {
  if ('v' in node) return node.v === null ? node : { v: node.v[0] + rng.int(4) };
  if ('lit' in node) return node;
  if ('t' in node && rng.chance(0.15)) return genTemplate(rng, 1);
  if ('p' in node && rng.chance(0.25)) return genText(rng, 2);
  const of = node.of.map((x) => vary(rng, x));
  if ('t' in node && TEMPLATES[node.t].holes[0] === 'tag') of[2] = of[0];
  return { ...node, of };
}

const splice = (strings, parts) => strings.reduce((s, x, i) => s + parts[i - 1] + x);

/** The markup a composition stands for. */
function markup(node) {
  if ('v' in node) return node.v === null ? '' : node.v;
  if ('lit' in node) return node.lit;
  if ('p' in node) return splice(TEXTS[node.p], node.of.map(markup));
  if ('a' in node) return splice(ATTRS[node.a], node.of.map((x) => `"${x.v}"`));
  const { strings, holes, mode } = TEMPLATES[node.t];
  // A child stands where its tag is.
  if (holes[1] === 'child') return `<b>${markup(node.of[0])}</b>${markup(node.of[1])}`;
  const out = splice(strings, node.of.map(markup));
  // In the markup it takes an element around it to get to the namespace.
  return mode ? `<${mode} data-around>${out}</${mode}>` : out;
}

const outline = (node) => ('v' in node ? (node.v === null ? 'null' : 'v') : 'lit' in node ? `'${node.lit}'` : `${'p' in node ? 'p' + node.p : 'a' in node ? 'a' + node.a : 't' + node.t}(${node.of.map((x) => ('t' in x ? 'v' : outline(x))).join()})`);

function canon(node) {
  let out = '';
  let text = '';
  for (const child of node.childNodes) {
    if (child.nodeType === 3) text += child.data;
    else if (child.nodeType === 1) {
      out += text;
      text = '';
      if (child.hasAttribute('data-around')) {
        out += canon(child);
        continue;
      }
      const attrs = child.getAttributeNames().sort().map((n) => ` ${n}="${child.getAttribute(n)}"`).join('');
      out += `<${/svg|Math/.exec(child.namespaceURI)?.[0] ?? ''}:${child.localName}${attrs}>${canon(child)}</>`;
    }
  }
  return out + text;
}

export default class Pure {
  constructor(sim) {
    this.sim = sim;
    this.cfg = sim.cfg;
    this.recs = new Set();
    this.armed = [];
    this.stateDigests = new Set();
    this.inFlight = 0;
    this.nextId = 1;
    this.rejections = 0;
    this.kept = [];
  }

  fail(cls, msg) {
    this.sim.fail(cls, msg);
  }

  setup() {
    const { sim, cfg } = this;
    const { core, router } = sim.lib;
    const S = this;
    const { html, Partial } = core;
    this.runtime = new core.Runtime(new core.DOMAdapter(sim.document));

    // The same call sites for the whole run.
    const call = (strings) => Object.assign([...strings], { raw: strings });
    this.texts = TEXTS.map(call);
    this.attrs = ATTRS.map(call);
    this.templates = TEMPLATES.map((t) => call(t.strings));
    this.Partial = Partial;

    this.matchers = (spec) => {
      switch (spec.m) {
        case 'lit':
          return spec.v;
        case 'enc':
          return router.encoded;
        case 'dec':
          return router.decoded;
        case 'int':
          return router.integer;
        case 'kw':
          return router.keyword(spec.v);
        case 're':
          return router.regexp(REGEXPS[spec.n]);
        case 'choice':
          return router.choice(...spec.of.map(this.matchers));
        case 'sel':
          return router.select(this.matchers(spec.of), SELECT[spec.s]);
        case 'url':
          return (component, url) => `${component}@${url}`;
        case 'boom': {
          const of = this.matchers({ m: spec.of });
          return (component, url) => {
            this.fire('matcher', null);
            return of(component, url);
          };
        }
      }
    };
    this.tables = cfg.tables.map((routes) => {
      const table = { routes: label(routes), router: null };
      const build = (rs) =>
        rs.map((r) => {
          const resolver = r.resolver === 'none' ? null : (captures, url) => this.resolve(table, r, captures, url);
          return router.route(r.patterns.map(this.matchers), resolver, build(r.children));
        });
      table.router = new router.Router(build(table.routes));
      return table;
    });

    this.list = (items) => html`<ul><${items}></ul>`;
    this.item = (ref, x) => html`<li ${ref}><${x}></li>`;
    this.line = (ref, x) => html`<li ${ref}>${x}</li>`;
    this.App = core.createComponent(function App() {
      const [view, setView] = this.useState(() => S.view);
      S.setView = setView;
      return S.list(view.map((it) => S.Item({ it }).withKey(it.id)));
    });
    this.Item = core.createComponent(
      function Item({ it }) {
        return S.renderItem(this, it);
      },
      { arePropsEqual: (a, b) => a.it === b.it },
    );
    this.view = Object.freeze([]);
    this.el = sim.document.createElement('main');
    sim.document.body.appendChild(this.el);
    this.root = new core.DOMRoot(this.el, this.runtime);
    this.quiet(this.root.render(this.App({})));
    this.scratch = sim.document.createElement('template');
  }

  dispose() {}

  // ---- the two functions ----------------------------------------------------------------

  resolve(table, r, captures, url) {
    this.given = { id: r.id, captures: captures.slice(), url };
    const given = this.given;
    if (r.resolver === 'again') {
      // Asks the same router for something else.
      const other = this.match(table, '/a/b');
      void other;
    }
    if (r.resolver === 'mutate') captures.push('more');
    else this.kept.push({ captures, copy: captures.slice() });
    if (this.kept.length > 40) this.kept.shift();
    return r.resolver === 'undef' ? undefined : { given };
  }

  /** Matches an URL and compares. */
  match(table, url) {
    const want = find(table.routes, (url[0] === '/' ? url.slice(1) : url).split('/'), 0, [], url);
    let depth = this.depth ?? 0;
    if (depth > 2) return 'deep';
    this.depth = depth + 1;
    this.given = null;
    let result;
    try {
      result = table.router.match(url);
    } finally {
      this.depth = depth;
    }
    const kind = want?.route.resolver;
    if (want === null || kind === 'none') {
      if (result !== undefined) this.fail('match', `${url} is matched by ${result.given?.id} instead of ${want === null ? 'nothing' : 'a route without resolver'}`);
      return 'none';
    }
    if (kind === 'undef') {
      if (result !== undefined) this.fail('match', `${url} is matched by ${result.given?.id} instead of ${want.route.id}`);
      if (this.given?.id !== want.route.id) this.fail('match', `${url} is matched by ${this.given?.id ?? 'nothing'} instead of ${want.route.id}`);
      return 'undef';
    }
    if (result?.given.id !== want.route.id) this.fail('match', `${url} is matched by ${result?.given.id ?? 'nothing'} instead of ${want.route.id}`);
    else {
      const got = this.show(result.given.captures);
      if (got !== this.show(want.captures)) this.fail('match', `${url} is matched by ${want.route.id} with ${got} instead of ${this.show(want.captures)}`);
      if (result.given.url !== url) this.fail('match', `the resolver for ${url} is given the URL ${result.given.url}`);
    }
    return want.route.id + this.show(want.captures);
  }

  show(captures) {
    return JSON.stringify(captures, (k, v) => (Object.is(v, -0) ? '-0' : v !== v ? 'NaN' : v));
  }

  compose(node) {
    const { Partial } = this;
    if ('v' in node) return node.v;
    if ('lit' in node) return Partial.literal(node.lit);
    const of = node.of.map((x) => this.compose(x));
    this.fire('compose', null);
    if ('p' in node) return Partial.parse(this.texts[node.p], ...of);
    if ('a' in node) return Partial.parse(this.attrs[node.a], ...of);
    return Partial[TEMPLATES[node.t].mode ?? 'html'](this.templates[node.t], ...of);
  }

  // ---- components -----------------------------------------------------------------------

  renderItem(context, it) {
    const rec = context.useMemo(() => {
      const rec = { id: it.id, el: null, committed: null, seen: null };
      rec.ref = (el) => {
        rec.el = el;
      };
      return rec;
    }, []);
    const now = { it, out: null };
    const [, again] = context.useState(0);
    rec.again = () => again((n) => n + 1);
    let body;
    if (it.kind === 'route') {
      now.out = it.urls.map((url) => this.match(this.tables[it.table % this.tables.length], url)).join(' ');
      body = this.line(rec.ref, now.out);
    } else body = this.item(rec.ref, this.compose(it.tpl));
    this.fire('throw', it.id);
    context.useEffect(() => {
      this.recs.add(rec);
      return () => this.recs.delete(rec);
    }, []);
    context.useEffect(() => {
      rec.committed = now;
      if (it.kind === 'route') return;
      const shape = outline(it.tpl);
      const first = rec.el.firstElementChild;
      if (rec.seen?.shape === shape && rec.seen.first !== first) this.fail('replaced', `the elements of ${rec.id} were made again although it is the same template, ${shape}`);
      rec.seen = { shape, first };
    });
    return body;
  }

  fire(at, id) {
    for (let i = 0; i < this.armed.length; i++) {
      const a = this.armed[i];
      if (a.at !== at || (a.id !== null && a.id !== id)) continue;
      if (a.skip-- > 0) continue;
      this.armed.splice(i, 1);
      this.sim.fault(`${at === 'throw' ? 'component' : at === 'matcher' ? 'matcher' : 'composition'} throws`);
      throw new Boom(at);
    }
  }

  // ---- operations -----------------------------------------------------------------------

  gen(rng) {
    const op = rng.weighted({ view: 6, direct: 3, again: 2, fail: this.cfg.faults ? 1.5 : 0 });
    switch (op) {
      case 'view':
        return {
          op,
          edits: Array.from({ length: 1 + rng.int(3) }, () => this.genEdit(rng)),
          o: rng.weighted({ none: 3, sync: 1.5, tr: 1, 'user-blocking': 1, background: 1.5 }),
        };
      case 'direct':
        return { op, table: rng.int(4), urls: this.genUrls(rng), tpl: genTemplate(rng, 1) };
      case 'again':
        return { op, n: rng.int(20) };
      case 'fail':
        return { op, at: rng.pick(['throw', 'matcher', 'matcher', 'compose']), n: rng.int(20), skip: rng.int(3) };
    }
  }

  genUrls(rng) {
    return Array.from({ length: 1 + rng.int(3) }, () => rng.pick(['/', '/', '']) + Array.from({ length: rng.weighted({ 0: 0.3, 1: 4, 2: 4, 3: 2, 4: 1 }) | 0 }, () => (rng.chance(0.6) ? rng.pick(['a', 'b', 'c', '12']) : rng.pick(COMPONENTS))).join('/'));
  }

  genEdit(rng) {
    return {
      e: rng.weighted({ add: 3, remove: 1, change: 5, move: 0.7 }), n: rng.int(20), m: rng.int(20), seed: rng.int(1 << 30),
      kind: rng.pick(this.cfg.kinds), table: rng.int(4), urls: this.genUrls(rng), tpl: genTemplate(rng, 2),
    };
  }

  exec(op) {
    switch (op.op) {
      case 'view': {
        const view = [...this.view];
        for (const { e, n, m, seed, kind, table, urls, tpl } of op.edits) {
          const i = view.length > 0 ? n % view.length : -1;
          if (e === 'add') {
            if (view.length < 6) view.splice(m % (view.length + 1), 0, Object.freeze({ id: `${kind}${this.nextId++}`, kind, table, urls, tpl }));
          } else if (i < 0) continue;
          else if (e === 'remove') view.splice(i, 1);
          else if (e === 'move') view.splice(m % view.length, 0, view.splice(i, 1)[0]);
          else view[i] = Object.freeze({ ...view[i], table, urls, tpl: vary(this.variation(seed), view[i].tpl) });
        }
        this.view = Object.freeze(view);
        const { o } = op;
        if (this.setView) this.quiet(this.setView(this.view, o === 'sync' ? { flushSync: true } : o === 'none' ? {} : o === 'tr' ? { transition: this.runtime.nextTransition() } : { priority: o }));
        break;
      }
      case 'direct':
        // From outside of any component.
        try {
          for (const url of op.urls) this.match(this.tables[op.table % this.tables.length], url);
          this.compose(op.tpl);
        } catch (error) {
          if (!(error instanceof Boom)) throw error;
        }
        break;
      case 'again': {
        const recs = [...this.recs];
        if (recs.length > 0) this.quiet(recs[op.n % recs.length].again());
        break;
      }
      case 'fail':
        if (this.armed.length < 2) this.armed.push({ at: op.at, id: op.at === 'throw' && this.view.length > 0 ? this.view[op.n % this.view.length].id : null, skip: op.skip });
        break;
    }
  }

  variation(seed) {
    let x = seed;
    const next = () => ((x = (Math.imul(x, 1103515245) + 12345) >>> 0) >>> 8) / 0x1000000;
    return { int: (n) => Math.floor(next() * n), chance: (p) => next() < p, pick: (xs) => xs[Math.floor(next() * xs.length)] };
  }

  quiet(handle) {
    handle?.finished?.catch((error) => {
      if (!this.isBoom(error)) this.fail('threw', `an update was rejected: ${(error?.cause ?? error)?.stack ?? error}`);
      this.rejections++;
    });
    return handle;
  }

  isBoom(error) {
    for (let e = error; e; e = e.cause) if (e instanceof Boom) return true;
    return false;
  }

  onHostError(error) {
    if (this.isBoom(error)) {
      this.rejections++;
      return;
    }
    this.fail('threw', `unexpected exception: ${error?.stack ?? error}`);
  }

  // ---- checks ---------------------------------------------------------------------------

  check() {
    for (const rec of this.recs) {
      const { committed, el } = rec;
      if (!committed || !el) continue;
      if (committed.it.kind === 'route') {
        if (el.textContent !== committed.out) this.fail('shown', `${rec.id} shows ${el.textContent} instead of ${committed.out}`);
        continue;
      }
      if (rec.checked === committed) continue;
      rec.checked = committed;
      const { tpl } = committed.it;
      this.scratch.innerHTML = markup(tpl);
      const want = canon(this.scratch.content);
      const got = canon(el);
      if (got !== want) this.fail('template', `${rec.id} is ${got} instead of ${want}, composed of ${JSON.stringify(tpl)}`);
    }
    for (const { captures, copy } of this.kept) {
      if (captures.length !== copy.length || captures.some((v, i) => !Object.is(v, copy[i]))) this.fail('match', `captures given to a resolver changed later from ${this.show(copy)} to ${this.show(captures)}`);
    }
    const d = new Digest();
    d.add(this.el.textContent);
    this.stateDigests.add(d.toString());
  }

  onIdle(phase) {
    if (phase === 0) {
      if (this.rejections === 0) {
        const got = [...this.el.querySelectorAll('li')].length;
        if (got !== this.view.length) this.fail('shown', `${got} of ${this.view.length} components are shown`);
        for (const rec of this.recs) {
          const it = this.view.find((x) => x.id === rec.id);
          if (rec.committed.it !== it) this.fail('shown', `at rest ${rec.id} does not show its last properties`);
        }
      }
      this.armed = [];
      return true;
    }
    if (phase === 1) {
      this.root.unmount();
      return true;
    }
    for (const rec of this.recs) this.fail('leak', `${rec.id} is still mounted`);
    return false;
  }
}
