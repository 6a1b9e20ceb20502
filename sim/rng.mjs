// Seeded PRNG streams and digests. Nothing in the simulator draws randomness from anywhere else.

export function hash32(str, seed = 0x811c9dc5) {
  let h = seed >>> 0;
  for (let i = 0; i < str.length; i++) {
    h ^= str.charCodeAt(i);
    h = Math.imul(h, 0x01000193);
  }
  h ^= h >>> 16;
  h = Math.imul(h, 0x85ebca6b);
  h ^= h >>> 13;
  return h >>> 0;
}

export class Rng {
  constructor(seed, stream = '') {
    this.s = hash32(String(stream), (Math.imul(seed | 0, 0x9e3779b1) ^ 0x5bd1e995) >>> 0) | 0;
  }
  next() {
    this.s = (this.s + 0x6d2b79f5) | 0;
    let t = Math.imul(this.s ^ (this.s >>> 15), 1 | this.s);
    t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  }
  int(n) {
    return n <= 1 ? 0 : Math.floor(this.next() * n);
  }
  chance(p) {
    return this.next() < p;
  }
  pick(xs) {
    return xs[this.int(xs.length)];
  }
  weighted(table) {
    let total = 0;
    for (const k in table) total += table[k];
    let x = this.next() * total;
    let last;
    for (const k in table) {
      if (table[k] <= 0) continue;
      last = k;
      x -= table[k];
      if (x < 0) return k;
    }
    return last;
  }
  shuffle(xs) {
    const a = xs.slice();
    for (let i = a.length - 1; i > 0; i--) {
      const j = this.int(i + 1);
      [a[i], a[j]] = [a[j], a[i]];
    }
    return a;
  }
}

export class Digest {
  constructor() {
    this.a = 0x811c9dc5;
    this.b = 0x1b873593;
    this.n = 0;
  }
  add(str) {
    this.a = hash32(str, this.a);
    this.b = hash32(str + '~', this.b ^ 0x2545f491);
    this.n++;
  }
  toString() {
    return this.a.toString(16).padStart(8, '0') + this.b.toString(16).padStart(8, '0') + '.' + this.n;
  }
}
