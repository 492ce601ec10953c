"use strict";
// V04: settings between editor and server, both ways
const { Violation, HarnessError } = require("./explore");
const { World, Uri, nodePath } = require("./world");

const AIR = "/ext/bundled/bin/air";
const DOCUMENTS = [
	["file:///w/p/a.R", "r"],
	["file:///w/p/b.R", "r"],
	["file:///w/p/d%C3%A9%20%23%25x.R", "r"],
	["file:///w/q/a.R", "r"],
	["file:///w/p/c.qmd", "quarto"],
	["untitled:Untitled-1", "r"],
];
const FORMATS = [
	{ indent_style: "space", indent_width: 2, line_width: 80 },
	{ indent_style: "space", indent_width: 8, line_width: 80 },
	{ indent_style: "tab", indent_width: 2, line_width: 80 },
	{ indent_style: "tab", indent_width: 6, line_width: 100 },
];

function build(spec, env) {
	const world = new World(env.declared);
	world.files.set(AIR, Buffer.from("x"));
	world.folders = [world.workspaceFolder("/w/p"), world.workspaceFolder("/w/q")];
	world.folders[1].index = 1;
	world.files.set("/w/p", "dir").set("/w/q", "dir");
	for (const [layer, folder, key, value] of spec.settings ?? []) {
		const target = layer === "folder" ? (world.settings.folders[folder] ??= {}) : world.settings.layers[layer];
		target[key] = structuredClone(value);
	}
	return world;
}

async function started(world, env, lazy) {
	const { activate } = env.load(world).extension;
	const api = activate(world.context);
	if (lazy) return api;
	await rest(world);
	return api;
}

async function rest(world) {
	await world.settle();
	while (world.open.length) {
		world.complete(world.open[0], 0);
		await world.settle();
	}
}

const make = (world) => (what) => {
	throw new Violation(`${what}\n  after: ${world.log.join("; ")}`);
};

// --- what the server is told when it starts ------------------------------------------------

async function initialization(spec, coverage, env) {
	const world = build(spec, env);
	const fail = make(world);
	await started(world, env);
	const client = world.clients[0];
	if (!client) throw new HarnessError("no client");
	for (const c of [client]) {
		const got = c.clientOptions.initializationOptions ?? {};
		for (const [name, key] of [["logLevel", "air.logLevel"], ["dependencyLogLevels", "air.dependencyLogLevels"]]) {
			// `null` and nothing mean the same to the server
			const want = world.settings.layers.global[key] ?? null;
			if ((got[name] ?? null) !== want) fail(`the server is told ${name} = ${JSON.stringify(got[name])}, the user's is ${JSON.stringify(want)}`);
		}
		const unknown = Object.keys(got).filter((k) => k !== "logLevel" && k !== "dependencyLogLevels");
		if (unknown.length) fail(`the server is told ${unknown}`);
		coverage.state(["initialization", got]);
		coverage.outcome("initialization");
	}
	coverage.transitions += 1;
}

// --- what the server asks for ----------------------------------------------------------------

async function pulled(spec, coverage, env) {
	const world = build(spec, env);
	const fail = make(world);
	await started(world, env);
	for (const i of spec.open) world.addDocument(Uri.parse(DOCUMENTS[i][0]), DOCUMENTS[i][1], {});
	const middleware = world.clients[0].clientOptions.middleware?.workspace?.configuration;
	// What the client library answers by itself: no language
	const plain = (item) => {
		const folder = item.scopeUri ? world.folderOf(Uri.parse(item.scopeUri))?.uri.path : undefined;
		const value = item.section ? world.settings.effective(item.section, folder) : {};
		return value === undefined ? null : value;
	};
	const next = async (params) => (spec.error ? new world.ResponseError(-32603, "no") : params.items.map(plain));
	const params = { items: spec.items.map(([section, i]) => ({ ...(section === null ? {} : { section }), ...(i === null ? {} : { scopeUri: DOCUMENTS[i][0] }) })) };
	const promise = middleware ? middleware(params, {}, next) : next(params);
	let got;
	Promise.resolve(promise).then((x) => (got = [x]));
	await rest(world);
	if (!got) fail("the question of the server is never answered");
	got = got[0];
	if (spec.error) {
		if (!(got instanceof world.ResponseError)) fail("an error of the client library is turned into settings");
		coverage.outcome("pull: error");
		return;
	}
	if (!Array.isArray(got) || got.length !== params.items.length) fail(`${params.items.length} questions, ${JSON.stringify(got)} for an answer`);
	for (const [n, item] of params.items.entries()) {
		const i = spec.items[n][1];
		let want;
		if (item.section && item.scopeUri && spec.open.includes(i)) {
			want = world.settings.effective(item.section, world.folderOf(Uri.parse(item.scopeUri))?.uri.path, DOCUMENTS[i][1]);
			coverage.outcome("pull: open document");
		} else {
			want = plain(item);
			coverage.outcome("pull: no open document");
		}
		if (JSON.stringify(got[n] ?? null) !== JSON.stringify(want ?? null)) fail(`${item.section} of ${item.scopeUri}: the server is told ${JSON.stringify(got[n])}, it is ${JSON.stringify(want)}`);
	}
	if (world.documents.length !== spec.open.length) fail("answering opens a document");
	coverage.transitions += params.items.length;
	coverage.state(["pull", spec.open, spec.items, got]);
}

// --- what the server pushes --------------------------------------------------------------------

/** Histories of notifications, switches of the active editor, and changes of the user's settings */
async function pushed(spec, chooser, coverage, env) {
	const world = build(spec, env);
	const fail = make(world);
	const api = await started(world, env);
	const documents = DOCUMENTS.map(([uri, language]) => world.addDocument(Uri.parse(uri), language, {}));
	// Each has an editor with options of its own
	const initial = (i) => ({ tabSize: 3 + i, insertSpaces: i % 2 === 0, indentSize: 3 + i, cursorStyle: 1, lineNumbers: 1 });
	const editors = documents.map((document, i) => ({ document, options: initial(i), selection: { active: { line: 0, character: 0 } } }));
	const expected = documents.map((_, i) => initial(i));
	let settings = new Map();
	let active = -1;
	const apply = () => {
		if (active < 0) return;
		const format = settings.get(active);
		if (!format) return;
		const spaces = format.indent_style === "space";
		const uri = documents[active].uri;
		const own = world.settings.effective("editor.tabSize", world.folderOf(uri)?.uri.path, "r");
		expected[active] = { ...expected[active], insertSpaces: spaces, indentSize: format.indent_width, tabSize: spaces ? format.indent_width : own ?? expected[active].tabSize };
	};
	const check = () => {
		for (const [i, e] of editors.entries()) {
			const sorted = (x) => JSON.stringify(Object.fromEntries(Object.entries(x).sort()));
			if (sorted(e.options) !== sorted(expected[i])) fail(`the editor of ${DOCUMENTS[i][0]} has ${sorted(e.options)}, should have ${sorted(expected[i])}`);
		}
		coverage.state(["push", expected, active]);
	};
	const notify = (files) => {
		const client = world.clients.at(-1);
		const handler = client.handlers.get("air/syncFileSettings");
		if (!handler) fail("nothing listens to the server's settings");
		world.log.push(`settings ${JSON.stringify(files)}`);
		settings = new Map(files.map(([i, f]) => [i, FORMATS[f]]));
		handler({ file_settings: files.map(([i, f]) => ({ url: DOCUMENTS[i][0], format: { ...FORMATS[f] } })) });
		apply();
	};
	const activate = (i) => {
		world.log.push(i < 0 ? "no editor" : `switch to ${DOCUMENTS[i][0]}`);
		active = i;
		world.editor = i < 0 ? undefined : editors[i];
		world.events.activeEditor.fire(world.editor);
		apply();
	};
	const events = [
		...spec.maps.map((m) => () => notify(m)),
		...spec.editors.map((i) => () => activate(i)),
		() => world.changeSetting("global", undefined, "editor.tabSize", world.settings.layers.global["editor.tabSize"] === 7 ? 5 : 7),
		() => world.changeSetting("global", undefined, "[r]", { "editor.tabSize": 11 }),
		...(spec.restart
			? [
					() => {
						world.log.push("restart");
						void world.commands.get("air.restart")();
					},
				]
			: []),
	];
	for (let depth = 0; depth < spec.depth; depth++) {
		events[chooser.choose(events.length)]();
		coverage.transitions += 1;
		await rest(world);
		check();
		coverage.outcome(settings.has(active) ? "push: configured" : "push: not configured");
	}
	void api;
}

async function run(spec, chooser, coverage, log, env) {
	switch (spec.kind) {
		case "initialization":
			return initialization(spec, coverage, env);
		case "pulled":
			return pulled(spec, coverage, env);
		case "pushed":
			return pushed(spec, chooser, coverage, env);
	}
	throw new HarnessError(spec.kind);
}

const V04 = {
	id: "V04",
	bounds: (tier) =>
		`start: every value of every setting in every layer; pull: up to ${tier === "quick" ? 2 : 3} questions about ${DOCUMENTS.length} documents, open or not, with the value in every layer, with and without a language; push: all histories of up to ${tier === "quick" ? 5 : 6} notifications, switches between editors, changes of settings and restarts`,
	assumptions: ["The editor and the client library are stand-ins; the editor resolves settings as documented: settings for a language come before any others."],
	*cases(tier) {
		// start
		const values = { "air.logLevel": [undefined, null, "error", "warning", "info", "debug", "trace"], "air.dependencyLogLevels": [undefined, null, "", "tower=debug"] };
		for (const global of values["air.logLevel"]) {
			for (const dependency of values["air.dependencyLogLevels"]) {
				for (const layer of [["workspace"], ["folder", "/w/p"]]) {
					for (const other of [undefined, "trace"]) {
						yield { kind: "initialization", settings: [["global", undefined, "air.logLevel", global], ["global", undefined, "air.dependencyLogLevels", dependency], [...layer, ...(layer.length < 2 ? [undefined] : []), "air.logLevel", other], [...layer, ...(layer.length < 2 ? [undefined] : []), "air.dependencyLogLevels", other]] };
					}
				}
			}
		}
		// pull
		const sections = ["editor.tabSize", "editor.indentSize", "editor.insertSpaces", "air.syncFileSettingsWithClient", "nothing.at.all", null];
		const layers = [["global", undefined], ["workspace", undefined], ["folder", "/w/p"], ["folder", "/w/q"]];
		const setups = [[]];
		for (const [layer, folder] of layers) {
			setups.push([[layer, folder, "editor.tabSize", 3]]);
			for (const language of ["r", "quarto"]) {
				setups.push([[layer, folder, `[${language}]`, { "editor.tabSize": 5, "editor.insertSpaces": false, "editor.indentSize": 6 }]]);
				for (const [other, of2] of layers) {
					setups.push([[layer, folder, `[${language}]`, { "editor.tabSize": 5, "editor.insertSpaces": false }], [other, of2, "editor.tabSize", 7], [other, of2, "editor.insertSpaces", true]]);
				}
			}
		}
		setups.push([["global", undefined, "[r]", { "editor.tabSize": 5 }], ["folder", "/w/p", "[r]", { "editor.tabSize": 6 }]]);
		const scopes = [null, ...DOCUMENTS.keys()];
		const opens = [[], DOCUMENTS.map((_, i) => i), [1, 3], [0, 4], [2, 5]];
		for (const settings of setups) {
			for (const open of opens) {
				for (const section of sections) {
					for (const scope of scopes) yield { kind: "pulled", settings, open, items: [[section, scope]] };
				}
				yield { kind: "pulled", settings, open, items: [["editor.tabSize", 0]], error: true };
				yield { kind: "pulled", settings, open, items: [] };
				// Several questions at once, as the server asks them
				for (const one of scopes) {
					for (const two of scopes) {
						const items = ["editor.insertSpaces", "editor.indentSize", "editor.tabSize"].flatMap((s) => [[s, one], [s, two]]);
						yield { kind: "pulled", settings, open, items };
						if (tier !== "quick") for (const three of scopes) for (const section of sections) yield { kind: "pulled", settings, open, items: [[section, one], ["editor.tabSize", two], [section, three]] };
					}
				}
			}
		}
		// push
		const depth = tier === "quick" ? 4 : 6;
		for (let d = 1; d <= depth; d++) {
			yield { kind: "pushed", depth: d, maps: [[], [[0, 0], [1, 2]], [[1, 3]], [[1, 1], [0, 2]]], editors: [0, 1, -1] };
		}
		for (let d = 1; d <= depth - 1; d++) {
			yield { kind: "pushed", depth: d, maps: [[[2, 0], [3, 1]], [[2, 3]], [[0, 1], [3, 2]]], editors: [0, 2, 3, 4], settings: [["folder", "/w/q", "editor.tabSize", 9]] };
			yield { kind: "pushed", depth: d, maps: [[[0, 0], [5, 1]], [[0, 2]]], editors: [0, 5], restart: true };
		}
		yield { kind: "pushed", depth: 3, maps: [[[0, 0], [1, 1], [2, 2], [3, 3]], [[3, 0], [2, 1], [1, 2], [0, 3]]], editors: [0, 1, 2, 3, 4, 5] };
	},
	run,
};

module.exports = { checks: [V04] };
