#!/usr/bin/env node
"use strict";
// main.js ID [quick|thorough] | main.js ID --replay FILE
const fs = require("node:fs");
const path = require("node:path");
const { Worker, isMainThread, parentPort, workerData } = require("node:worker_threads");
const { HarnessError, Coverage, next, runOnce } = require("./explore");
const { bundle, loader, packageJson } = require("./bundle");

const CHECKS = [...require("./lifecycle").checks, ...require("./folders").checks, ...require("./sync").checks];
const VERIF = process.env.VERIF_DIR || path.dirname(__dirname);
const MAX_VIOLATIONS = 50;
const HANG_MS = 60_000;
const TRACE = 250;

// Rejected promises of the code under test end in the editor's log
process.on("unhandledRejection", (error) => {
	if (error instanceof HarnessError) {
		console.error(error.message);
		process.exit(2);
	}
});

function environment(code) {
	const pkg = packageJson();
	const declared = { ...pkg.contributes.configuration.properties };
	for (const [key, value] of Object.entries(pkg.contributes.configurationDefaults ?? {})) declared[key] = { default: value };
	declared["editor.tabSize"] = { default: 4 };
	declared["editor.insertSpaces"] = { default: true };
	declared["editor.indentSize"] = { default: "tabSize" };
	return { load: loader(code), declared, pkg };
}

function knownFindings(id) {
	const out = [];
	let text = "";
	try {
		text = fs.readFileSync(path.join(VERIF, "known-findings.txt"), "utf8");
	} catch {}
	for (const line of text.split("\n")) {
		const m = /^KNOWN-FINDING: property=(\S+) key=("(?:[^"\\]|\\.)*")\s*(.*)$/.exec(line);
		if (m && m[1] === id) out.push({ key: JSON.parse(m[2]), what: m[3] });
	}
	return out;
}

async function worker() {
	const { id, tier, index, count, code, shared } = workerData;
	const check = CHECKS.find((c) => c.id === id);
	const env = environment(code);
	const beat = new Int32Array(shared, index * 4 * (TRACE + 4), TRACE + 4);
	const coverage = new Coverage();
	const violations = [];
	const samples = [];
	let n = -1;
	try {
		for (const case_ of check.cases(tier)) {
			n += 1;
			if (n % count !== index || violations.length >= MAX_VIOLATIONS) continue;
			let prefix = [];
			let runs = 0;
			while (prefix) {
				beat[1] = n;
				beat[2] = Math.min(prefix.length, TRACE);
				for (let i = 0; i < Math.min(prefix.length, TRACE); i++) beat[3 + i] = prefix[i];
				Atomics.add(beat, 0, 1);
				const { trace, violation } = await runOnce({ run: (a, b, c, d) => check.run(a, b, c, d, env) }, case_, prefix, coverage);
				runs += 1;
				const choices = trace.map((t) => t[0]);
				if (samples.length < 3 && (runs & (runs - 1)) === 0) samples.push({ case: case_, choices });
				if (violation) {
					violations.push({ index: n, key: violation.key || JSON.stringify(case_), what: violation.what, case: case_, choices });
					break;
				}
				prefix = next(trace);
			}
		}
		beat[1] = -1;
		parentPort.postMessage({ coverage: { states: [...coverage.states], transitions: coverage.transitions, traces: coverage.traces, outcomes: coverage.outcomes }, violations, samples, cases: n + 1 });
	} catch (error) {
		beat[1] = -1;
		parentPort.postMessage({ error: `${error.stack ?? error}` });
	}
}

async function replay(check, file) {
	const { case: case_, choices } = JSON.parse(fs.readFileSync(file, "utf8"));
	const env = environment(bundle());
	const { violation } = await runOnce({ run: (a, b, c, d) => check.run(a, b, c, d, env) }, case_, choices, new Coverage());
	if (violation) {
		console.log(violation.what);
		console.log(`VIOLATION property=${check.id} replay=${file}`);
		process.exit(1);
	}
	console.log("the property holds on this case");
	process.exit(0);
}

async function main() {
	const [id, ...rest] = process.argv.slice(2);
	const check = CHECKS.find((c) => c.id === id);
	if (!check) {
		console.error(`usage: main.js ID [quick|thorough] | ID --replay FILE; ids: ${CHECKS.map((c) => c.id).join(" ")}`);
		process.exit(2);
	}
	if (rest[0] === "--replay") return replay(check, rest[1]);
	const tier = rest[0] === "thorough" || (rest.length === 0 && process.env.VERIF_TIER === "thorough") ? "thorough" : "quick";
	const start = Date.now();
	let code;
	try {
		code = bundle();
	} catch (error) {
		console.error(`${error.message}\n${id}: the extension does not build`);
		process.exit(2);
	}
	const replayDir = path.join(VERIF, "out/replay", id);
	fs.rmSync(replayDir, { recursive: true, force: true });
	fs.mkdirSync(replayDir, { recursive: true });

	const count = Math.min(8, require("node:os").availableParallelism());
	const shared = new SharedArrayBuffer(count * 4 * (TRACE + 4));
	const results = [];
	const hung = [];
	await Promise.all(
		Array.from({ length: count }, (_, index) => {
			const beat = new Int32Array(shared, index * 4 * (TRACE + 4), TRACE + 4);
			return new Promise((resolve) => {
				const w = new Worker(__filename, { workerData: { id, tier, index, count, code, shared }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
				let last = -1;
				let since = Date.now();
				const watch = setInterval(() => {
					const now = Atomics.load(beat, 0);
					if (now !== last || beat[1] < 0) {
						last = now;
						since = Date.now();
					} else if (Date.now() - since > HANG_MS) {
						hung.push({ index: beat[1], choices: [...beat.subarray(3, 3 + beat[2])] });
						clearInterval(watch);
						w.terminate();
						resolve();
					}
				}, 500);
				const done = (r) => {
					clearInterval(watch);
					results.push(r);
					resolve();
				};
				w.on("message", done);
				w.on("error", (error) => done({ error: `${error.stack ?? error}` }));
				w.on("exit", (c) => {
					if (c !== 0) {
						clearInterval(watch);
						resolve();
					}
				});
			});
		}),
	);
	const errors = results.filter((r) => r.error);
	const good = results.filter((r) => !r.error);
	let violations = good.flatMap((r) => r.violations);
	if (hung.length) {
		let n = 0;
		for (const case_ of check.cases(tier)) {
			for (const h of hung) if (h.index === n) violations.push({ index: n, key: JSON.stringify(case_), what: "does not terminate", case: case_, choices: h.choices });
			n += 1;
		}
	}
	if (errors.length && violations.length === 0) {
		console.error(errors[0].error);
		console.error(`${id}: error of the check`);
		process.exit(2);
	}
	if (good.length + errors.length + hung.length < count) {
		console.error(`${id}: a worker died: error of the check`);
		process.exit(2);
	}

	const known = knownFindings(id);
	const seen = new Set();
	let fresh = 0;
	violations.sort((a, b) => a.index - b.index);
	for (const v of violations) {
		if (known.some((k) => k.key === v.key)) {
			seen.add(v.key);
			continue;
		}
		fresh += 1;
		if (fresh <= 5) {
			const file = path.join(replayDir, `violation-${fresh}.json`);
			fs.writeFileSync(file, JSON.stringify({ property: id, ...v }, null, 2));
			console.log(`${id}: ${v.what}`);
			console.log(`  case: ${JSON.stringify(v.case)}`);
			console.log(`  key: ${JSON.stringify(v.key)}`);
			console.log(`VIOLATION property=${id} replay=${file}`);
		}
	}
	for (const k of known) {
		if (seen.has(k.key)) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
		else console.log(`note: listed finding not observed in this tier: ${k.what}`);
	}

	const states = new Set();
	const outcomes = {};
	let transitions = 0;
	let traces = 0;
	for (const { coverage } of good) {
		coverage.states.forEach((s) => states.add(s));
		transitions += coverage.transitions;
		traces += coverage.traces;
		for (const [k, v] of Object.entries(coverage.outcomes)) outcomes[k] = (outcomes[k] ?? 0) + v;
	}
	const wall = (Date.now() - start) / 1000;
	fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
	fs.writeFileSync(
		path.join(VERIF, "evidence", `${id}.json`),
		JSON.stringify(
			{
				property: id,
				tier,
				seed: Number(process.env.VERIF_SEED ?? 1),
				level: "model_checking",
				coverage: {
					states: states.size,
					transitions,
					traces_validated_against_impl: traces,
					bounds: check.bounds(tier),
					outcomes,
					samples: good.flatMap((r) => r.samples).slice(0, 12),
					exhaustive: violations.length === 0,
				},
				assumptions: check.assumptions,
				wall_s: wall,
				violations: fresh,
			},
			null,
			2,
		),
	);
	console.log(`${id} ${tier}: ${traces} executions, ${transitions} steps, ${states.size} states, outcomes ${JSON.stringify(outcomes)}, ${fresh} violations, ${wall.toFixed(1)} s`);
	if (fresh > 0) process.exit(1);
	if (traces === 0 || states.size === 0) {
		console.error(`${id}: nothing was explored: error of the check`);
		process.exit(2);
	}
	process.exit(0);
}

if (isMainThread) main();
else worker();
