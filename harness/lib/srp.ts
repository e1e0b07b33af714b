// The server's side of the password check (SRP, 2048 bits), on its own arithmetic.
import { createHash, pbkdf2Sync, randomBytes } from "node:crypto";
import { rng } from "./graph.ts";

const PRIME = "C71CAEB9C6B1C9048E6C522F70F13F73980D40238E3E21C14934D037563D930F48198A0AA7C14058229493D22530F4DBFA336F6E0AC925139543AED44CCE7C3720FD51F69458705AC68CD4FE6B6B13ABDC9746512969328454F18FAF8C595F642477FE96BB2A941D5BCD1D4AC8CC49880708FA9B378E3C4F3A9060BEE67CF9A4A4A695811051907E162753B56B0F6B410DBA74D8A84B2A14B3144E0EF1284754FD17ED950D5965B4B9DD46582DB1178D169C6BC465B0D6FF9CA3928FEF5B9AE4E418FC15E83EBEA0F87FA9FF5EED70050DED2849F47BF959D956850CE929851F0D8115F635B105EE2E4E15D04B2454BF6F4FADF034B10403119CD8E3B92FCC5B";
const N = BigInt("0x" + PRIME);
const be = (x: bigint, n = 256) => Buffer.from(x.toString(16).padStart(n * 2, "0"), "hex");
const num = (b: Uint8Array) => BigInt("0x" + Buffer.from(b).toString("hex"));
const H = (...b: Uint8Array[]) => createHash("sha256").update(Buffer.concat(b)).digest();
export function pow(b: bigint, e: bigint, m = N) { let r = 1n; b %= m; while (e) { if (e & 1n) r = r * b % m; b = b * b % m; e >>= 1n; } return r; }
const kdf = new Map<string, bigint>();

export class PasswordServer {
  r;
  n = 0;
  now: { id: bigint; g: bigint; v: bigint; b: bigint; B: bigint; salt1: Buffer; salt2: Buffer } | null = null;
  // few salts, so that deriving is done once per password and salt
  constructor(seed: number) { this.r = rng(seed); }
  fresh(password: string): any {
    const which = this.r.int(4), g = [3n, 4n, 5n, 7n][which];
    const salt1 = H(Buffer.from(`salt1 ${which}`)).subarray(0, [8, 32, 16, 40][which] > 32 ? 32 : [8, 32, 16, 40][which]), salt2 = H(Buffer.from(`salt2 ${which}`)).subarray(0, 16);
    const key = `${which}:${password}`;
    let v = kdf.get(key);
    if (!v) {
      const SH = (d: Uint8Array, s: Uint8Array) => H(s, d, s);
      const ph1 = SH(SH(Buffer.from(password, "utf8"), salt1), salt2);
      const x = num(SH(pbkdf2Sync(ph1, salt1, 100_000, 64, "sha512"), salt2));
      kdf.set(key, v = pow(g, x));
    }
    const k = num(H(be(N), be(g)));
    let b = num(randomBytes(32)), gb = pow(g, b), B = (k * v + gb) % N;
    // now and then a short one
    if (this.r.int(3) === 0) for (let i = 0; i < 5000 && B >> 2040n; i++) { b++; gb = gb * g % N; B = (k * v + gb) % N; }
    this.now = { id: BigInt(++this.n), g, v, b, B, salt1, salt2 };
    let bytes = be(B);
    if (this.r.int(2)) while (bytes[0] === 0) bytes = bytes.subarray(1);
    return {
      _: "account.password", has_password: true, srp_B: new Uint8Array(bytes), srp_id: this.now.id, secure_random: new Uint8Array(8),
      current_algo: { _: "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow", salt1: new Uint8Array(salt1), salt2: new Uint8Array(salt2), g: Number(g), p: new Uint8Array(be(N)) },
      new_algo: { _: "passwordKdfAlgoUnknown" }, new_secure_algo: { _: "securePasswordKdfAlgoUnknown" },
    };
  }
  verify(p: any): boolean {
    const s = this.now;
    if (!s || p._ !== "inputCheckPasswordSRP" || p.srp_id !== s.id || p.A.length !== 256) return false;
    const A = num(p.A);
    if (A % N === 0n) return false;
    const u = num(H(be(A), be(s.B)));
    const K = H(be(pow(A * pow(s.v, u) % N, s.b)));
    const hp = H(be(N)), hg = H(be(s.g));
    const M = H(Buffer.from(hp.map((x, i) => x ^ hg[i])), H(s.salt1), H(s.salt2), be(A), be(s.B), K);
    return M.equals(Buffer.from(p.M1));
  }
}
