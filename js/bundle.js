"use strict";
// Bundles the JS library's sources with the stand-in packages: node bundle.js SRC_DIR OUT
const path = require("path");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const [src, out] = process.argv.slice(2);
const s = (f) => path.join(__dirname, "stubs", f);
const map = { "bn.js": s("bn.js"), borsh: s("borsh.js"), "@solana/web3.js": s("web3.js") };
esbuild.build({
  stdin: { contents: `export * from "./index"; export { default as BN } from "bn.js"; export * as web3 from "@solana/web3.js"; export * as raw from "./raw_instructions";`, resolveDir: src, loader: "ts" },
  bundle: true, platform: "node", format: "cjs", outfile: out, logLevel: "error",
  plugins: [{ name: "stubs", setup(b) { b.onResolve({ filter: /^(bn\.js|borsh|@solana\/web3\.js)$/ }, (a) => ({ path: map[a.path] })); } }],
}).catch((e) => { process.exit(1); });
