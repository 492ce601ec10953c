"use strict";
// V03: the commands that initialize and format a workspace folder
const { Violation, HarnessError } = require("./explore");
const { World, Uri, nodePath } = require("./world");

const AIR = "/ext/bundled/bin/air";
const PATTERNS = ["^\\.vscode$", "^[.]?air[.]toml$"];

function build(spec, env) {
	const world = new World(env.declared);
	world.files.set(AIR, Buffer.from("x"));
	world.files.set("/w", "dir");
	for (const [i, f] of (spec.folders ?? [["/w/p", "p"]]).entries()) {
		world.folders ??= [];
		const folder = world.workspaceFolder(f[0], f[1]);
		folder.index = i;
		world.folders.push(folder);
		world.files.set(f[0], "dir");
	}
	for (const [path, content] of spec.files ?? []) world.files.set(path, content === "dir" ? "dir" : Buffer.from(content, "latin1"));
	for (const [layer, folder, key, value] of spec.settings ?? []) {
		const target = layer === "folder" ? (world.settings.folders[folder] ??= {}) : world.settings.layers[layer];
		target[key] = structuredClone(value);
	}
	for (const d of spec.documents ?? []) {
		world.addDocument(Uri.parse(d.uri), "r", { isDirty: d.dirty !== false, isClosed: d.closed === true });
	}
	return world;
}

const snapshot = (world) => new Map([...world.files].map(([p, f]) => [p, f === "dir" ? "dir" : f.toString("latin1")]));
const inside = (path, folder) => path.startsWith(folder === "/" ? "/" : folder + "/");

/** What .Rbuildignore has to contain after the initialization */
function expectedIgnore(before) {
	const lines = before.split("\n").map((l, i, all) => (l.endsWith("\r") && i + 1 < all.length ? l.slice(0, -1) : l));
	if (lines[0].startsWith("\xef\xbb\xbf")) lines[0] = lines[0].slice(3);
	return PATTERNS.filter((p) => !lines.includes(p));
}

function judgeIgnore(before, after, fail) {
	const missing = expectedIgnore(before);
	if (missing.length === 0) {
		if (after !== before) fail(`.Rbuildignore had everything, but ${JSON.stringify(before)} became ${JSON.stringify(after)}`);
		return;
	}
	const show = `.Rbuildignore ${JSON.stringify(before)} became ${JSON.stringify(after)}`;
	if (!after.startsWith(before)) fail(`${show}: what was there changed`);
	let rest = after.slice(before.length);
	// A line that did not end is ended first
	const uniform = before.includes("\r\n") ? (/(^|[^\r])\n/.test(before) ? null : "\r\n") : "\n";
	const ends = uniform === null ? ["\r\n", "\n"] : [uniform];
	if (before !== "" && before !== "\xef\xbb\xbf" && !before.endsWith("\n")) {
		const end = ends.find((e) => rest.startsWith(e));
		if (!end) fail(`${show}: the last line is continued`);
		rest = rest.slice(end.length);
	}
	for (const pattern of missing) {
		const end = ends.find((e) => rest.startsWith(pattern + e));
		if (!end) fail(`${show}: lacks a line ${JSON.stringify(pattern)}`);
		rest = rest.slice(pattern.length + end.length);
	}
	if (rest !== "") fail(`${show}: there is more than asked for`);
}

async function run(spec, chooser, coverage, log, env) {
	const world = build(spec, env);
	const fail = (what) => {
		throw new Violation(`${what}\n  after: ${world.log.join("; ")}`);
	};
	const { activate } = env.load(world).extension;
	activate(world.context);
	world.outcomes.start = spec.serverFails;
	await world.settle();
	while (world.open.length) {
		world.complete(world.open[0], spec.serverFails ? world.open[0].outcomes.length - 1 : 0);
		await world.settle();
	}
	if (spec.serverFails && world.clients[0]?.phase !== "dead") throw new HarnessError("the server was to fail");
	Object.assign(world.outcomes, spec.outcomes ?? {});
	const before = snapshot(world);
	const settingsBefore = structuredClone({ layers: world.settings.layers, folders: world.settings.folders });
	let faults = 0;

	const invoke = async () => {
		const from = { messages: world.messages.length, spawned: world.spawned.length, updates: world.configUpdates.length };
		const result = { settled: false };
		world.commands.get(spec.command === "format" ? "air.workspaceFolderFormatting" : "air.workspaceFolderInitialization")().then(
			() => Object.assign(result, { settled: true, ok: true }),
			(error) => Object.assign(result, { settled: true, ok: false, error }),
		);
		await world.settle();
		for (let steps = 0; world.open.length; steps++) {
			if (steps > 300) fail("does not come to rest");
			const all = spec.calm ? world.open.slice(0, 1) : world.open;
			let alternatives = all.flatMap((op) => op.outcomes.map((o, i) => [op, i, o.label === "fails"]));
			// one fault per run
			if (faults > 0) alternatives = alternatives.filter((a) => !a[2]);
			if (spec.noFormat) alternatives = alternatives.filter((a) => a[0].label !== "information" || a[1] === a[0].outcomes.length - 1);
			const [op, i, fault] = alternatives[alternatives.length === 1 ? 0 : chooser.choose(alternatives.length)];
			if (fault) faults += 1;
			world.complete(op, i);
			coverage.transitions += 1;
			await world.settle();
		}
		if (!result.settled) fail("the command never completes");
		return { ...result, messages: world.messages.slice(from.messages), spawned: world.spawned.slice(from.spawned), updates: world.configUpdates.slice(from.updates) };
	};

	const rounds = spec.rounds ?? 1;
	const initialized = new Set();
	for (let round = 0; round < rounds; round++) {
		const filesBefore = snapshot(world);
		const dirtyBefore = world.documents.map((d) => d.isDirty);
		const saveCallsBefore = world.documents.map((d) => d.saveCalls ?? 0);
		const shownBefore = world.shown;
		const result = await invoke();
		const files = snapshot(world);
		const untouched = (why) => {
			for (const [p, f] of files) if (filesBefore.get(p) !== f) fail(`${why}, but ${p} was written`);
			if (result.updates.length) fail(`${why}, but settings were written`);
			if (result.spawned.length) fail(`${why}, but ${result.spawned[0].command} was run`);
			if (result.messages.some((m) => /success/i.test(m.message))) fail(`${why}, but success was announced`);
		};
		const unsaved = (why) => {
			if (world.documents.some((d, i) => (d.saveCalls ?? 0) !== saveCallsBefore[i])) fail(`${why}, but a document was saved`);
		};
		coverage.state([spec.command, round, [...files], result.messages, result.spawned.map((s) => s.result), faults]);

		// --- which folder
		let messages = [...result.messages];
		const folders = world.folders ?? [];
		let folder;
		if (folders.length === 0) {
			if (!messages.some((m) => m.kind === "error")) fail("no error message although no folder is open");
			untouched("no folder is open");
			unsaved("no folder is open");
			coverage.outcome("no folder");
			continue;
		}
		if (folders.length === 1) {
			folder = folders[0];
		} else {
			const pick = messages.shift();
			if (!pick || pick.kind !== "quick pick") fail("does not ask for the folder");
			if (pick.labels.length !== folders.length) fail(`offers ${pick.labels.length} folders of ${folders.length}`);
			for (const [i, f] of folders.entries()) if (!String(pick.labels[i]).includes(f.name)) fail(`offers ${pick.labels[i]} for ${f.name}`);
			if (pick.answer === null || pick.answer === undefined) {
				untouched("no folder was chosen");
				unsaved("no folder was chosen");
				if (messages.length) fail("goes on although no folder was chosen");
				coverage.outcome("no choice");
				continue;
			}
			folder = folders[pick.answer];
		}
		const root = folder.uri.path;
		if (spec.serverFails) {
			untouched("there is no server");
			unsaved("there is no server");
			coverage.outcome("no server");
			continue;
		}

		// --- saving
		const toSave = world.documents.map((d, i) => dirtyBefore[i] && !d.isClosed && !d.isUntitled && inside(d.uri.path, root));
		if (toSave.some((x) => x)) {
			const question = messages.shift();
			if (!question || question.labels.length === 0) fail("does not ask before it saves documents");
			if (question.options?.modal !== true) fail("the question about saving is not modal");
			const yes = question.answer !== null && question.answer !== undefined && question.labels[question.answer] === "Yes";
			if (!yes) {
				untouched("saving was declined");
				unsaved("saving was declined");
				if (messages.length) fail("goes on although saving was declined");
				coverage.outcome("declined");
				continue;
			}
			let refused = false;
			for (const [i, d] of world.documents.entries()) {
				const saved = (d.saveCalls ?? 0) - saveCallsBefore[i];
				if (toSave[i] && saved !== 1) fail(`${d.uri} below ${root} is saved ${saved} times`);
				if (!toSave[i] && saved !== 0) fail(`${d.uri} is saved, which is none of the documents of ${root} that have changes`);
				if (toSave[i] && d.isDirty) refused = true;
			}
			if (refused) {
				untouched("a document could not be saved");
				if (messages.length) fail("goes on although a document could not be saved");
				coverage.outcome("not saved");
				continue;
			}
		} else {
			if (world.documents.some((d, i) => (d.saveCalls ?? 0) !== saveCallsBefore[i])) fail("saves a document without need");
		}

		// --- initialization
		let format = spec.command === "format";
		if (spec.command === "init") {
			const at = (name) => nodePath.join(root, name);
			const had = (name) => filesBefore.has(at(name));
			// What was there stays
			for (const [p, f] of filesBefore) {
				if (p === at(".Rbuildignore")) continue;
				if (files.get(p) !== f) fail(`${p} was ${JSON.stringify(f)}, is ${JSON.stringify(files.get(p))}`);
			}
			const fresh = [...files.keys()].filter((p) => !filesBefore.has(p));
			const mayBeNew = [at("air.toml"), at(".vscode"), at(".vscode/extensions.json")];
			for (const p of fresh) if (!mayBeNew.includes(p)) fail(`creates ${p}`);
			if ((had("air.toml") || had(".air.toml")) && fresh.includes(at("air.toml"))) fail("creates another air.toml");
			if (fresh.includes(at("air.toml")) && files.get(at("air.toml")) !== "") fail(`air.toml is not empty: ${files.get(at("air.toml"))}`);
			if (fresh.includes(at(".vscode/extensions.json"))) {
				let parsed;
				try {
					parsed = JSON.parse(files.get(at(".vscode/extensions.json")));
				} catch {
					fail("extensions.json is not JSON");
				}
				if (JSON.stringify(parsed) !== JSON.stringify({ recommendations: ["Posit.air-vscode"] })) fail(`extensions.json is ${JSON.stringify(parsed)}`);
			}
			for (const u of result.updates) {
				if (u.target !== 3 || u.folder !== root) fail(`writes ${u.key} to ${JSON.stringify(u.target)} of ${u.folder}`);
			}
			const success = messages.find((m) => /success/i.test(m.message) && /initializ/i.test(m.message));
			if (faults > 0) {
				if (success) fail("announces success although something failed");
				if (result.ok && !result.messages.some((m) => m.kind === "error" || m.kind === "warning")) fail("a failure goes unnoticed");
				if (had(".Rbuildignore") && files.get(at(".Rbuildignore")) !== filesBefore.get(at(".Rbuildignore"))) judgeIgnore(filesBefore.get(at(".Rbuildignore")), files.get(at(".Rbuildignore")), fail);
				if (result.spawned.length) fail("formats although the initialization failed");
				coverage.outcome("failed");
				continue;
			}
			if (!result.ok) fail(`fails: ${result.error?.stack}`);
			if (!success) fail("does not announce success");
			if (!had("air.toml") && !had(".air.toml") && !files.has(at("air.toml"))) fail("creates no air.toml");
			if (!files.has(at(".vscode/extensions.json"))) fail("creates no extensions.json");
			if (had(".Rbuildignore")) judgeIgnore(filesBefore.get(at(".Rbuildignore")), files.get(at(".Rbuildignore")), fail);
			// Settings: those of the folder, with our keys set
			const expected = structuredClone(settingsBefore);
			const again = initialized.has(root);
			for (const r of initialized.add(root)) {
				const own = (expected.folders[r] ??= {});
				own["[r]"] = { ...(own["[r]"] ?? {}), "editor.formatOnSave": true, "editor.defaultFormatter": "Posit.air-vscode" };
				own["[quarto]"] = { ...(own["[quarto]"] ?? {}), "editor.formatOnSave": true, "editor.defaultFormatter": "quarto.quarto" };
			}
			const sorted = (x) => (x && typeof x === "object" ? Object.fromEntries(Object.keys(x).sort().filter((k) => x[k] !== undefined).map((k) => [k, sorted(x[k])])) : x);
			const got = JSON.stringify(sorted({ layers: world.settings.layers, folders: world.settings.folders }));
			const want = JSON.stringify(sorted(expected));
			if (got !== want) fail(`settings are ${got}, should be ${want}`);
			if (again) {
				for (const [p, f] of files) if (filesBefore.get(p) !== f) fail(`the second initialization writes ${p}`);
			}
			coverage.outcome("initialized");
			const i = messages.indexOf(success);
			messages = messages.slice(i + 1);
			format = success.answer !== null && success.answer !== undefined;
			if (format && success.labels.length !== 1) fail("offers more than to format");
			if (!format) {
				if (result.spawned.length) fail("formats without being asked to");
				if (messages.length) fail(`goes on: ${JSON.stringify(messages)}`);
				continue;
			}
		}

		// --- formatting
		if (faults === 0 && !result.ok) fail(`fails: ${result.error?.stack}`);
		if (result.spawned.length !== 1) fail(`runs ${result.spawned.length} commands`);
		const [{ command, args, options, result: code }] = result.spawned;
		if (command !== world.clients.at(-1).serverOptions.command) fail(`runs ${command}, not the executable of the server`);
		if (args[0] !== "format" || args.filter((a) => a === root).length !== 1 || args.some((a) => a !== "format" && a !== root && a !== "--no-color")) fail(`runs air with ${JSON.stringify(args)}, to format ${root}`);
		if (options.shell) fail("runs air through a shell");
		if (options.cwd !== undefined && String(options.cwd) !== root) fail(`runs air in ${options.cwd}`);
		if (spec.command === "format") {
			for (const [p, f] of files) if (filesBefore.get(p) !== f) fail(`formatting writes ${p}`);
			if (result.updates.length) fail("formatting writes settings");
		}
		const good = code === 0;
		const success = messages.find((m) => /success/i.test(m.message));
		if (good && !success) fail("does not announce success");
		if (!good) {
			if (success) fail(`announces success although the command ended with ${code}`);
			const question = messages[0];
			if (!question) fail(`says nothing although the command ended with ${code}`);
			const yes = question.answer !== null && question.answer !== undefined && question.labels[question.answer] === "Yes";
			if (yes !== world.shown > shownBefore) fail(`the logs are ${yes ? "not shown" : "shown without being asked for"}`);
			const lines = world.channels.flatMap((c) => c.lines).join("\n");
			const expected = code === "error" ? "ENOENT" : "err-text err-more";
			if (!lines.includes(expected)) fail(`the log lacks ${JSON.stringify(expected)}`);
		}
		coverage.outcome(`formatted: ${code}`);
	}
}

function* words(alphabet, max) {
	let level = [[]];
	for (let n = 0; n <= max; n++) {
		yield* level;
		level = level.flatMap((w) => alphabet.map((a) => [...w, a]));
	}
}

const V03 = {
	id: "V03",
	bounds: (tier) =>
		`folders: 0 to 3, with equal names; documents: all sets of up to ${tier === "quick" ? 2 : 3} out of 11, with every answer, every order of saving and every refusal; every result of the formatting process; all subsets of the files an initialization deals with, with every single failing read, write or change of settings, and twice in a row; .Rbuildignore: all texts of up to ${tier === "quick" ? 4 : 5} pieces out of 11; settings in every layer`,
	assumptions: ["The editor's file system, prompts and settings are stand-ins; looking up whether a file exists does not fail."],
	*cases(tier) {
		const two = [["/w/p", "p"], ["/w/q", "q"]];
		const layouts = [[], [["/w/p", "p"]], two, [["/w/a/R", "R"], ["/w/b/R", "R"]], [["/w/p", "p"], ["/w/p/sub", "sub"], ["/w/p", "p"]].slice(0, 2), [["/w/a/R", "R"], ["/w/p", "p"], ["/w/b/R", "R"]], [["/w/R", "same"], ["/w/S", "same"], ["/w/T", "same"]]];
		const untitled = { uri: "untitled:Untitled-1" };
		// Which folder, with and without a server
		for (const command of ["format", "init"]) {
			for (const folders of layouts) {
				for (const serverFails of [false, true]) {
					yield { command, folders, serverFails, calm: true };
					if (folders.length > 0) yield { command, folders, serverFails, calm: true, documents: folders.map((f) => ({ uri: `file://${f[0]}/x.R` })) };
				}
			}
		}
		// Documents
		const documents = [
			{ uri: "file:///w/p/x.R" },
			{ uri: "file:///w/p/R/deep/y.R" },
			{ uri: "file:///w/p/clean.R", dirty: false },
			{ uri: "file:///w/p/closed.R", closed: true },
			untitled,
			{ uri: "untitled:/w/p/new.R" },
			{ uri: "file:///w/q/z.R" },
			{ uri: "file:///w/p2/x.R" },
			{ uri: "file:///w/px.R" },
			{ uri: "file:///w/x.R" },
			{ uri: "file:///w/p/air.toml" },
		];
		const sets = [];
		const most = tier === "quick" ? 2 : 3;
		for (let i = 0; i < documents.length; i++) {
			sets.push([documents[i]]);
			for (let j = i + 1; j < documents.length; j++) {
				sets.push([documents[i], documents[j]]);
				if (most > 2) for (let k = j + 1; k < documents.length; k++) sets.push([documents[i], documents[j], documents[k]]);
			}
		}
		sets.push([documents[0], documents[1], documents[10]]);
		for (const set of sets) {
			yield { command: "format", documents: set, outcomes: { save: true } };
			if (set.length < 3) yield { command: "init", documents: set, outcomes: { save: true }, files: [["/w/p/.Rbuildignore", "x\n"]] };
			yield { command: "format", documents: set, folders: two, outcomes: { save: true } };
		}
		for (const set of sets.filter((s) => s.length === 1)) {
			yield { command: "format", documents: set, folders: [["/", "root"]], outcomes: { save: true } };
			yield { command: "format", documents: set, folders: [["/w/p/R", "R"]], outcomes: { save: true } };
		}
		// Files
		const existing = [
			["/w/p/air.toml", "[format]\n"],
			["/w/p/.air.toml", "[format]\n"],
			["/w/p/.vscode", "dir"],
			["/w/p/.vscode/extensions.json", "{}"],
			["/w/p/.vscode/settings.json", "{ }"],
			["/w/p/.Rbuildignore", "^x$\n"],
			["/w/p/DESCRIPTION", "Package: p\n"],
		];
		for (let mask = 0; mask < 1 << existing.length; mask++) {
			const files = existing.filter((_, i) => mask & (1 << i));
			if (files.some(([p]) => p.includes(".vscode/")) && !files.some(([p]) => p.endsWith(".vscode"))) continue;
			yield { command: "init", files, calm: true, rounds: 2, noFormat: mask % 8 !== 0 };
			yield { command: "init", files, calm: true, rounds: 2, folders: two, noFormat: true };
			yield { command: "init", files, calm: true, noFormat: true, outcomes: { write: true, read: true, mkdir: true, update: true } };
		}
		// Settings
		const values = [undefined, {}, { "editor.tabSize": 3 }, { "editor.formatOnSave": false, "editor.defaultFormatter": "x.y" }, { "editor.formatOnSave": true, a: { b: [1] } }];
		const layers = [["global"], ["workspace"], ["folder", "/w/p"], ["folder", "/w/q"]];
		for (const key of ["[r]", "[quarto]"]) {
			for (const [one, of1] of layers) {
				for (const [other, of2] of layers) {
					for (const v of values) {
						for (const w of values) {
							if (one === other && of1 === of2) continue;
							yield { command: "init", calm: true, rounds: 2, noFormat: true, folders: [["/w/p", "p"]], settings: [[one, of1, key, v], [other, of2, key, w], ["folder", "/w/p", "editor.tabSize", 5]] };
						}
					}
				}
			}
		}
		// .Rbuildignore
		const pieces = [...PATTERNS, "\n", "\r\n", "foo", "^\\.vscode", "^air[.]toml$", " ", "\r", "\xc3\xa9", "\xff"];
		for (const word of words(pieces, tier === "quick" ? 4 : 5)) {
			yield { command: "init", calm: true, files: [["/w/p/.Rbuildignore", word.join("")], ["/w/p/air.toml", ""], ["/w/p/.vscode", "dir"], ["/w/p/.vscode/extensions.json", "{}"]], rounds: word.length <= 3 ? 2 : 1, noFormat: true };
		}
		for (const word of words(pieces, 2)) {
			yield { command: "init", calm: true, files: [["/w/p/.Rbuildignore", "\xef\xbb\xbf" + word.join("")]], rounds: 2, noFormat: true };
		}
		for (const newline of ["\n", "\r\n"]) {
			for (let n = 0; n < (tier === "quick" ? 40 : 200); n++) {
				const lines = Array.from({ length: n }, (_, i) => `^line${i}$`);
				for (const where of [0, n >> 1, n]) {
					for (const p of PATTERNS) {
						const all = [...lines.slice(0, where), p, ...lines.slice(where)];
						yield { command: "init", calm: true, files: [["/w/p/.Rbuildignore", all.join(newline) + newline]], noFormat: true };
						yield { command: "init", calm: true, files: [["/w/p/.Rbuildignore", all.join(newline)]], noFormat: true };
					}
				}
			}
		}
	},
	run,
};

module.exports = { checks: [V03] };
