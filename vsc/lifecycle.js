"use strict";
// V01 (which executable is started), V02 (starting, stopping and restarting the server), V05 (the
// directory of the executable on the terminals' PATH)
const { Violation, HarnessError } = require("./explore");
const { World, Uri, nodePath } = require("./world");

const BUNDLED = (world) => `${world.extensionRoot}/bundled/bin/${world.process.platform === "win32" ? "air.exe" : "air"}`;
const ENVIRONMENT = (world) => `/usr/bin/${world.process.platform === "win32" ? "air.exe" : "air"}`;

/** The workspace folder that the server's settings come from */
function rootFolder(world) {
	const folders = world.folders ?? [];
	if (folders.length === 0) return { path: "/cwd", name: "cwd" };
	let best;
	for (const f of folders) {
		if (!world.exists(f.uri.path)) continue;
		if (!best || f.uri.path.length < best.uri.path.length) best = f;
	}
	best ??= folders[0];
	return { path: best.uri.path, name: best.name };
}

/** What the choice of the executable depends on, now */
function observe(world) {
	const folder = rootFolder(world).path;
	const inFolder = (world.folders ?? []).some((f) => f.uri.path === folder) ? folder : undefined;
	const setting = (key) => world.settings.effective(key, inFolder);
	const path = setting("air.executablePath");
	return {
		trusted: world.trusted,
		settings: [setting("air.executableStrategy") ?? "bundled", path && world.exists(path) ? path : null],
		bundled: world.exists(BUNDLED(world)) ? BUNDLED(world) : null,
		environment: world.environmentPath,
	};
}

/** What the documentation of the settings says is to be started; null: nothing */
function executableFor({ trusted, settings: [strategy, path], bundled, environment }) {
	if (!trusted) return bundled;
	switch (strategy) {
		case "bundled":
			return bundled ?? environment;
		case "environment":
			return environment ?? bundled;
		case "path":
			return path;
	}
	throw new HarnessError("strategy");
}

const executable = (world) => executableFor(observe(world));

/** What may be started by someone who looked at each thing at some moment */
function executables(moments) {
	const distinct = (key) => [...new Map(moments.map((m) => [JSON.stringify(m[key]), m[key]])).values()];
	const out = new Set();
	for (const trusted of distinct("trusted"))
		for (const settings of distinct("settings"))
			for (const bundled of distinct("bundled")) for (const environment of distinct("environment")) out.add(executableFor({ trusted, settings, bundled, environment }));
	return out;
}

function wantsPath(world) {
	const folder = rootFolder(world).path;
	const inFolder = (world.folders ?? []).some((f) => f.uri.path === folder) ? folder : undefined;
	return world.settings.effective("air.addExecutableToTerminalPath", inFolder) ?? true;
}

function makeWorld(spec, env) {
	const world = new World(env.declared);
	world.process.platform = spec.platform ?? "linux";
	for (const name of spec.folders ?? []) {
		world.folders ??= [];
		const folder = world.workspaceFolder(name);
		folder.index = world.folders.length;
		world.folders.push(folder);
		if (!(spec.gone ?? []).includes(name)) world.files.set(name, "dir");
	}
	world.files.set("/other/air", Buffer.from("x"));
	if (spec.bundled !== false) world.files.set(BUNDLED(world), Buffer.from("x"));
	world.environmentPath = spec.environment ? ENVIRONMENT(world) : null;
	world.trusted = spec.trusted !== false;
	for (const [layer, folder, key, value] of spec.settings ?? []) {
		const target = layer === "folder" ? (world.settings.folders[folder] ??= {}) : world.settings.layers[layer];
		target[key] = value;
	}
	Object.assign(world.outcomes, spec.outcomes ?? {});
	return world;
}

/**
 * spec: the world; events: what may happen (each up to its number of times, `budget` in all).
 * Monitors of all three properties run; those of `property` give the verdict.
 */
async function run(property, spec, chooser, coverage, log, env) {
	const world = makeWorld(spec, env);
	const fail = (id, what) => {
		if (id === property) throw new Violation(`${what}\n  after: ${world.log.join("; ")}`);
	};

	// --- monitors
	const commands = []; // {kind, promise, settled, ok, order, ...}
	let settledCount = 0;
	let moments = []; // what there was to see since the command began
	let allowedFolders = new Set();
	const note = () => {
		moments.push(observe(world));
		allowedFolders.add(rootFolder(world).path);
	};
	const live = () => world.clients.filter((c) => ["starting", "running", "stopping"].includes(c.phase));
	world.hooks.phase = () => {
		if (live().length > 1) fail("V02", `two servers at a time: ${live().map((c) => `client ${c.number} is ${c.phase}`).join(", ")}`);
	};
	world.hooks.client = (client) => {
		note();
		const { command, args } = client.serverOptions;
		coverage.outcome(`starts ${command === BUNDLED(world) ? "bundled" : command === world.environmentPath ? "environment" : "path"}`);
		const allowed = executables(moments);
		if (!allowed.has(command)) fail("V01", `starts ${JSON.stringify(command)}, should be ${JSON.stringify([...allowed])}`);
		if (JSON.stringify(args) !== JSON.stringify(["language-server"])) fail("V01", `starts the executable with ${JSON.stringify(args)}`);
	};

	// --- the extension
	const extension = env.load(world);
	const { activate, deactivate } = extension.extension;
	const api = activate(world.context);
	const ctx = api.__private.ctx;
	const lsp = ctx.lsp;
	const changes = [];
	lsp.onStateChange((c) => changes.push({ state: c.state, binaryPath: c.binaryPath, folder: c.workspaceFolder?.uri.path }));
	note();
	if (world.collection.persistent !== false) fail("V05", "the PATH contribution is kept across sessions");
	const issue = (kind, f) => {
		const entry = { kind, number: commands.length, settled: false, clientsBefore: world.clients.length };
		commands.push(entry);
		let promise;
		try {
			promise = Promise.resolve(f());
		} catch (e) {
			promise = Promise.reject(e);
		}
		promise.then(
			() => Object.assign(entry, { settled: true, ok: true, order: settledCount++ }),
			(error) => Object.assign(entry, { settled: true, ok: false, error, order: settledCount++ }),
		);
	};
	// `activate()` starts the server
	let deactivated = false;
	let judged = 0;

	let running = null; // the client that is up, for the monitors
	const client = () => {
		try {
			return lsp.getClient();
		} catch {
			return null;
		}
	};
	const binary = () => {
		try {
			return lsp.getBinaryPath();
		} catch {
			return null;
		}
	};

	const judge = (final) => {
		const c = client();
		const b = binary();
		// V02: what the rest of the extension sees
		if ((c === null) !== (b === null)) fail("V02", `there is ${c ? "a client" : "no client"} but ${b ? "an executable" : "no executable"}`);
		if (c && c.phase !== "running" && c.phase !== "stopping") fail("V02", `the client handed out is ${c.phase}`);
		if (c && b !== c.serverOptions.command) fail("V02", `the executable is said to be ${b}, but ${c.serverOptions.command} runs`);
		const settled = world.open.length === 0;
		// Events tell the state
		let state = "stopped";
		for (const change of changes) {
			if (change.state !== "started" && change.state !== "stopped") fail("V02", `state ${change.state}`);
			if (change.state === state) fail("V02", `announced ${state} twice in a row: ${JSON.stringify(changes)}`);
			state = change.state;
		}
		if ((state === "started") !== (c !== null)) fail("V02", `last announced ${state}, but there is ${c ? "a" : "no"} client`);
		if (c) {
			const last = changes[changes.length - 1];
			if (last && last.binaryPath !== b) fail("V02", `announced ${last.binaryPath}, runs ${b}`);
			if (last && !allowedFolders.has(last.folder)) fail("V02", `announced the folder ${last.folder}, should be ${[...allowedFolders]}`);
		}
		// A server that is up is known, unless a command is still at work
		const up = world.clients.filter((x) => x.phase === "running");
		if (settled) {
			if (up.length > 1) fail("V02", `${up.length} servers are left running`);
			if (up.length === 1 && up[0] !== c) fail("V02", "a server is running that nothing knows of");
			if (up.length === 0 && c) fail("V02", "the client handed out is not running");
		}
		// Commands complete in order, all of them
		const order = commands.filter((x) => x.settled).sort((x, y) => x.order - y.order);
		for (let i = 0; i < order.length; i++) {
			if (order[i].number !== i) fail("V02", `command ${order[i].number} (${order[i].kind}) completed before command ${i} (${commands[i].kind})`);
		}
		if (settled) {
			const stuck = commands.find((x) => !x.settled);
			if (stuck) fail("V02", `command ${stuck.number} (${stuck.kind}) never completes`);
		}
		if (world.channels.length > 1) fail("V02", `${world.channels.length} output channels`);
		// V05
		const contributed = world.collectionState.get("PATH");
		const others = [...world.collectionState.keys()].filter((k) => k !== "PATH");
		if (others.length) fail("V05", `changes the environment variable ${others}`);
		const wanted = c && wantsPath(world) ? nodePath.dirname(b) : null;
		if (wanted === null) {
			if (contributed) fail("V05", `PATH has ${JSON.stringify(contributed.value)} although ${c ? "the user does not want it" : "no server is up"}`);
		} else if (!contributed) {
			fail("V05", `PATH lacks ${wanted}`);
		} else {
			const { type, value, options } = contributed;
			if (type !== "prepend" || value !== wanted + nodePath.delimiter) fail("V05", `PATH: ${type} ${JSON.stringify(value)}, should be prepended ${wanted + nodePath.delimiter}`);
			if (options.applyAtShellIntegration !== true || options.applyAtProcessCreation === true) fail("V05", `PATH is changed with ${JSON.stringify(options)}`);
		}
		coverage.state([commands.map((x) => [x.kind, x.settled, x.ok]), c?.phase, b, contributed?.value, world.open.map((o) => o.label), state, world.clients.map((x) => x.phase)]);
	};

	// What has to be true when a command completes, at the moment it does
	const completed = () => {
		const done = commands.filter((x) => x.settled && !x.judged).sort((x, y) => x.order - y.order);
		// Only when nothing that came after it has moved on can we look at what one command did
		for (const [i, x] of done.entries()) {
			x.judged = true;
			const later = commands.slice(x.number + 1);
			const undisturbed = later.length === 0 || (i === done.length - 1 && later.every((y) => !y.settled) && live().every((y) => y.phase !== "starting" && y.phase !== "stopping") && world.open.length === 0);
			if (!undisturbed) continue;
			const c = client();
			if (x.kind === "stop" && c) fail("V02", "there is still a client after a stop");
			if (x.kind !== "stop" && x.ok && !c) fail("V02", `no client after a successful ${x.kind}`);
			if (x.kind === "restart" && x.ok && c && c.number < x.clientsBefore) fail("V02", "a restart kept the old server");
		}
	};

	// --- events
	const left = { ...spec.events };
	let budget = spec.budget;
	let changedSince = false; // the world, since the last start
	const available = () => {
		if (budget <= 0) return [];
		return Object.keys(left).filter((k) => {
			if (left[k] <= 0) return false;
			if (deactivated && k !== "setting") return false;
			return true;
		});
	};
	const happen = (kind) => {
		left[kind] -= 1;
		budget -= 1;
		world.log.push(kind);
		switch (kind) {
			case "restart":
				changedSince = false;
				issue("restart", () => world.commands.get("air.restart")());
				break;
			case "start":
				issue("start", () => lsp.start());
				break;
			case "stop":
				issue("stop", () => lsp.stop());
				break;
			case "deactivate":
				deactivated = true;
				issue("deactivate", () => deactivate());
				commands.pop(); // the editor does not wait for it
				break;
			case "setting": {
				const [layer, folder, key, values] = spec.setting;
				const target = layer === "folder" ? world.settings.folders[folder] ?? {} : world.settings.layers[layer];
				world.changeSetting(layer, folder, key, values[(values.findIndex((v) => v === target[key]) + 1) % values.length]);
				note();
				break;
			}
			case "unrelated":
				world.changeSetting("global", undefined, "editor.tabSize", 7);
				break;
			case "world":
				changedSince = true;
				for (const [k, v] of Object.entries(spec.world)) {
					if (k === "bundled") v ? world.files.set(BUNDLED(world), Buffer.from("x")) : world.files.delete(BUNDLED(world));
					else if (k === "environment") world.environmentPath = v ? ENVIRONMENT(world) : null;
					else if (k === "trusted") world.trusted = v;
					else if (k === "folders") {
						world.folders = v.map((p) => world.workspaceFolder(p));
						v.forEach((p) => world.files.set(p, "dir"));
					} else if (k === "settings") {
						for (const [layer, folder, key, value] of v) world.changeSetting(layer, folder, key, value);
					} else throw new HarnessError(`world ${k}`);
				}
				note();
				break;
			default:
				throw new HarnessError(kind);
		}
	};

	await world.settle();
	judge();
	for (let steps = 0; ; steps++) {
		if (steps > 200) {
			fail("V02", "does not come to rest");
			break;
		}
		completed();
		// With `calm`, the world only changes, and commands are only given, at rest
		const events = spec.calm && world.open.length > 0 ? [] : available();
		const ops = spec.calm ? world.open.slice(0, 1) : world.open;
		const alternatives = [...ops.flatMap((op) => op.outcomes.map((_, i) => () => world.complete(op, i))), ...events.map((e) => () => happen(e))];
		if (alternatives.length === 0) break;
		if (world.open.length === 0) {
			// at rest: what was allowed before is no longer
			moments = [];
			allowedFolders = new Set([changes.at(-1)?.folder].filter((x) => x !== undefined));
			note();
		}
		alternatives[alternatives.length === 1 ? 0 : chooser.choose(alternatives.length)]();
		coverage.transitions += 1;
		await world.settle();
		judge();
	}
	// V01: when nothing may be started, nothing is; when something may, it is
	if (property === "V01" && spec.calm && !changedSince) {
		const possible = executable(world) !== null;
		const started = client() !== null;
		if (possible !== started) fail("V01", `${started ? "a" : "no"} server is up, although the settings name ${possible ? "an" : "no"} executable`);
		coverage.outcome(started ? "a server" : "no server");
		for (const name of world.whichCalls) {
			if (name !== nodePath.basename(BUNDLED(world))) fail("V01", `looks for ${name} on the PATH`);
		}
	}
	coverage.outcome(client() ? "ends started" : "ends stopped");
}

// --- cases -------------------------------------------------------------------------------

const KEY = "air.addExecutableToTerminalPath";

const V01 = {
	id: "V01",
	bounds: (tier) =>
		`all worlds of trust x strategy (unset, bundled, environment, path) x path setting (unset, empty, an executable, a missing one, the PATH's) x bundled executable present x executable on the PATH x ${tier === "quick" ? 3 : 6} layouts of folders x the layer that holds the settings x platform, and a restart after every change to another such world; a restart at every moment of a start while the world changes`,
	assumptions: ["The editor, the client library, the PATH lookup and the file system are stand-ins."],
	*cases(tier) {
		const strategies = [undefined, "bundled", "environment", "path"];
		const paths = [undefined, "", "/other/air", "/missing/air"];
		const layouts = [{ folders: [] }, { folders: ["/w/a"] }, { folders: ["/w/a/b", "/w/a", "/w/c"] }, { folders: ["/w/a", "/w"], gone: ["/w"] }, { folders: ["/w/c", "/w/a"], gone: ["/w/c"] }, { folders: ["/w/a", "/w/b"], gone: ["/w/a", "/w/b"] }];
		const worlds = [];
		for (const trusted of [true, false])
			for (const strategy of strategies)
				for (const path of strategy === "path" ? paths : [undefined, "/other/air"])
					for (const bundled of [true, false]) for (const environment of [true, false]) worlds.push({ trusted, strategy, path, bundled, environment });
		const settings = (w, layer, folder) => [
			[layer, folder, "air.executableStrategy", w.strategy],
			[layer, folder, "air.executablePath", w.path],
		];
		const base = { budget: 1, events: { restart: 1 }, calm: true };
		for (const [l, layout] of layouts.entries()) {
			const layers = [["global"], ["workspace"], ...layout.folders.map((f) => ["folder", f])];
			for (const [layer, folder] of layers) {
				for (const platform of l === 1 ? ["linux", "win32", "darwin"] : ["linux"]) {
					for (const w of worlds) yield { ...base, ...layout, platform, trusted: w.trusted, bundled: w.bundled, environment: w.environment, settings: settings(w, layer, folder) };
				}
			}
			// One layer overrides another
			for (const low of strategies.slice(1)) {
				for (const high of strategies.slice(1)) {
					for (const folder of layout.folders) {
						yield { ...base, ...layout, environment: true, settings: [["global", undefined, "air.executableStrategy", low], ["global", undefined, "air.executablePath", "/other/air"], ["folder", folder, "air.executableStrategy", high]] };
					}
				}
			}
		}
		// The world changes, then a restart
		for (const one of worlds) {
			for (const two of worlds) {
				yield {
					budget: 2,
					events: { world: 1, restart: 1 },
					calm: true,
					folders: ["/w/a"],
					trusted: one.trusted,
					bundled: one.bundled,
					environment: one.environment,
					settings: settings(one, "folder", "/w/a"),
					world: { trusted: two.trusted, bundled: two.bundled, environment: two.environment, settings: settings(two, "folder", "/w/a") },
				};
			}
		}
		// At every moment
		const some = worlds.filter((_, i) => (tier === "quick" ? i % 5 === 0 : true));
		for (const one of some) {
			for (const two of some) {
				yield {
					budget: tier === "quick" ? 2 : 3,
					events: { world: 1, restart: tier === "quick" ? 1 : 2 },
					folders: ["/w/a", "/w"],
					trusted: one.trusted,
					bundled: one.bundled,
					environment: one.environment,
					settings: settings(one, "global"),
					world: { trusted: two.trusted, bundled: two.bundled, environment: two.environment, settings: settings(two, "global") },
				};
			}
		}
	},
};

const V02 = {
	id: "V02",
	bounds: (tier) => `all interleavings of up to ${tier === "quick" ? 3 : 5} commands (start, stop, restart, deactivation) with every completion of the operations they are made of, successful or failed, under ${4} worlds`,
	assumptions: ["The client library is a stand-in that refuses what the real one refuses: starting twice, stopping while it starts.", "A server that does not stop in time counts as gone, as in the client library."],
	*cases(tier) {
		const n = tier === "quick" ? 3 : 5;
		const fails = { start: true, stop: true };
		for (let budget = 0; budget <= n; budget++) {
			for (const world of [{ folders: ["/w/a"] }, { bundled: false, environment: true, folders: [] }, { bundled: false }]) {
				for (const deactivate of [0, 1]) {
					for (const outcomes of budget === n ? [{}] : budget === n - 1 ? [{ start: true }, { stop: true }] : [{}, { start: true }, { stop: true }, fails]) {
						yield { ...world, budget, events: { restart: budget, start: budget, stop: budget, deactivate }, outcomes };
					}
				}
			}
		}
		// A layout of folders makes a start a longer business
		for (const budget of tier === "quick" ? [1, 2] : [1, 2, 3]) yield { folders: ["/w/a/b", "/w/a", "/w"], environment: true, bundled: false, budget, events: { restart: 3, stop: 3, start: 3 }, outcomes: fails };
		// Executables come and go in between
		for (const budget of [2, 3]) yield { folders: ["/w/a"], environment: false, bundled: true, budget, events: { restart: 3, stop: 1, world: 1 }, world: { bundled: false }, outcomes: fails };
	},
};

const V05 = {
	id: "V05",
	bounds: (tier) => `all interleavings of up to ${tier === "quick" ? 3 : 4} events (restarts, stops, changes of the setting and of other settings) with every completion of starting and stopping, successful or failed, for every layer that can hold the setting, with one and with several folders`,
	assumptions: ["The editor applies the environment variable collection as documented."],
	*cases(tier) {
		const n = tier === "quick" ? 3 : 4;
		const layouts = [{ folders: [] }, { folders: ["/w/a"] }, { folders: ["/w/a", "/w"] }];
		const most = (layout) => (layout.folders.length === 1 ? n : n - 1);
		for (const layout of layouts) {
			const layers = [["global"], ["workspace"], ...layout.folders.map((f) => ["folder", f])];
			for (const [layer, folder] of layers) {
				for (const initial of [undefined, true, false]) {
					for (let budget = 1; budget <= most(layout); budget++) {
						yield {
							...layout,
							environment: true,
							budget,
							outcomes: budget >= n ? {} : budget === n - 1 ? { start: true } : { start: true, stop: true },
							settings: [[layer, folder, KEY, initial]],
							setting: [layer, folder, KEY, [undefined, true, false]],
							events: { restart: 2, stop: 2, start: 1, setting: 3, unrelated: 1 },
						};
					}
				}
			}
			// Another executable after the restart
			yield {
				...layout,
				environment: true,
				bundled: true,
				budget: 3,
				settings: [],
				setting: ["global", undefined, KEY, [undefined, false]],
				events: { restart: 2, setting: 1, world: 1 },
				world: { bundled: false },
			};
			for (const folder of layout.folders)
				yield {
					...layout,
					environment: true,
					bundled: true,
					budget: 3,
					settings: [["global", undefined, KEY, false], ["folder", folder, KEY, true]],
					setting: ["global", undefined, KEY, [undefined, false]],
					events: { restart: 2, setting: 1, world: 1 },
					world: { settings: [["folder", folder, "air.executableStrategy", "environment"]] },
				};
		}
	},
};

for (const check of [V01, V02, V05]) {
	check.run = (spec, chooser, coverage, log, env) => run(check.id, spec, chooser, coverage, log, env);
}

module.exports = { checks: [V01, V02, V05], rootFolder };
