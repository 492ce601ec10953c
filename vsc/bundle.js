"use strict";
// Compiles the extension from /repo's working tree. Everything that is not the extension's own
// code (the editor, the client library, the file system, processes) is left to be provided by
// the world that a run takes place in.
const vm = require("node:vm");
const path = require("node:path");
const fs = require("node:fs");

const TOOLS = "/opt/veriftools/node/node_modules";
const SRC = path.join(process.env.MC_REPO || "/repo", "editors/code/src");
const OUTSIDE = ["vscode", "vscode-languageclient", "vscode-languageclient/node", "p-queue", "which", "fs-extra", "adm-zip"];

function bundle() {
	const esbuild = require(path.join(TOOLS, "esbuild"));
	const result = esbuild.buildSync({
		stdin: {
			contents: `
				export * as extension from "./extension";
				export * as workspace from "./workspace";
			`,
			resolveDir: SRC,
			loader: "ts",
		},
		tsconfig: path.join(SRC, "../tsconfig.json"),
		bundle: true,
		write: false,
		platform: "node",
		format: "cjs",
		target: "node20",
		external: OUTSIDE,
		logLevel: "silent",
		charset: "utf8",
	});
	return result.outputFiles[0].text;
}

function packageJson() {
	return JSON.parse(fs.readFileSync(path.join(SRC, "../package.json"), "utf8"));
}

const PARAMS = ["module", "exports", "require", "__dirname", "__filename", "process", "console", "setTimeout", "clearTimeout", "setInterval", "clearInterval"];

/** A function that loads a fresh instance of the extension into a world */
function loader(code) {
	const script = new vm.Script(`(function (${PARAMS.join(", ")}) {${code}\n})`, { filename: "extension.js" });
	const make = script.runInThisContext();
	return (world) => {
		const module = { exports: {} };
		make(
			module,
			module.exports,
			(name) => world.require(name),
			world.extensionRoot + "/dist",
			world.extensionRoot + "/dist/extension.js",
			world.process,
			world.console,
			(f, ms, ...args) => world.timeout(f, ms, args),
			() => {},
			() => world.lacks("setInterval"),
			() => {},
		);
		return module.exports;
	};
}

module.exports = { bundle, loader, packageJson };
