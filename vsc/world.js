"use strict";
// The world the extension runs in: stand-ins for the editor, the client library, the file system
// and processes. Everything asynchronous is an operation that stays open until the exploration
// decides to complete it, with one of its outcomes.
const nodePath = require("node:path").posix;
const nodeUrl = require("node:url");
const { EventEmitter: NodeEvents } = require("node:events");
const { HarnessError } = require("./explore");

// --- Uri ---------------------------------------------------------------------------------

function encode(text, slashes) {
	let out = "";
	for (const byte of Buffer.from(text, "utf8")) {
		const c = String.fromCharCode(byte);
		if (/[A-Za-z0-9\-._~]/.test(c) || (slashes && c === "/")) out += c;
		else out += "%" + byte.toString(16).toUpperCase().padStart(2, "0");
	}
	return out;
}

class Uri {
	constructor(scheme, authority, path, query, fragment) {
		this.scheme = scheme;
		this.authority = authority;
		this.path = path;
		this.query = query;
		this.fragment = fragment;
	}
	get fsPath() {
		if (this.authority && this.path.length > 1 && this.scheme === "file") return `//${this.authority}${this.path}`;
		return this.path;
	}
	static parse(value) {
		const m = /^(([^:/?#]+?):)?(\/\/([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?/.exec(value);
		const d = (s) => {
			try {
				return decodeURIComponent(s ?? "");
			} catch {
				return s;
			}
		};
		const scheme = m[2] || "file";
		let path = d(m[5]);
		if ((scheme === "file" || scheme === "http" || scheme === "https") && path[0] !== "/") path = "/" + path;
		return new Uri(scheme, d(m[4]), path, d(m[7]), d(m[9]));
	}
	static file(path) {
		if (path[0] !== "/") path = "/" + path;
		return new Uri("file", "", path, "", "");
	}
	static from(c) {
		return new Uri(c.scheme, c.authority ?? "", c.path ?? "", c.query ?? "", c.fragment ?? "");
	}
	static joinPath(uri, ...parts) {
		return uri.with({ path: nodePath.join(uri.path, ...parts) });
	}
	static isUri(x) {
		return x instanceof Uri;
	}
	with(c) {
		return new Uri(c.scheme ?? this.scheme, c.authority ?? this.authority, c.path ?? this.path, c.query ?? this.query, c.fragment ?? this.fragment);
	}
	toString(skipEncoding) {
		const e = skipEncoding ? (s) => s : (s) => encode(s, true);
		let out = this.scheme + ":";
		if (this.authority || this.scheme === "file") out += "//";
		out += e(this.authority) + e(this.path);
		if (this.query) out += "?" + e(this.query);
		if (this.fragment) out += "#" + e(this.fragment);
		return out;
	}
	toJSON() {
		return { $mid: 1, scheme: this.scheme, path: this.path };
	}
}

class Disposable {
	constructor(f) {
		this.f = f;
	}
	static from(...all) {
		return new Disposable(() => all.forEach((d) => d.dispose()));
	}
	dispose() {
		const f = this.f;
		this.f = undefined;
		f?.();
	}
}

class EventEmitter {
	constructor() {
		this.listeners = [];
		this.event = (listener, self, disposables) => {
			const entry = { listener, self };
			this.listeners.push(entry);
			const disposable = new Disposable(() => {
				const i = this.listeners.indexOf(entry);
				if (i >= 0) this.listeners.splice(i, 1);
			});
			if (Array.isArray(disposables)) disposables.push(disposable);
			return disposable;
		};
	}
	fire(data) {
		for (const { listener, self } of [...this.listeners]) {
			try {
				const r = listener.call(self, data);
				if (r && typeof r.catch === "function") r.catch(() => {});
			} catch (e) {
				if (e instanceof HarnessError) throw e;
				EventEmitter.lastError = e;
			}
		}
	}
	dispose() {
		this.listeners = [];
	}
}

class FileSystemError extends Error {
	constructor(message, code) {
		super(String(message ?? code));
		this.code = code ?? "Unknown";
		this.name = `${this.code} (FileSystemError)`;
	}
	static FileNotFound(m) {
		return new FileSystemError(m, "FileNotFound");
	}
	static NoPermissions(m) {
		return new FileSystemError(m, "NoPermissions");
	}
	static FileExists(m) {
		return new FileSystemError(m, "FileExists");
	}
	static FileNotADirectory(m) {
		return new FileSystemError(m, "FileNotADirectory");
	}
	static FileIsADirectory(m) {
		return new FileSystemError(m, "FileIsADirectory");
	}
	static Unavailable(m) {
		return new FileSystemError(m, "Unavailable");
	}
}

const enumOf = (...names) => Object.fromEntries(names.flatMap((n, i) => [[n, i], [i, n]]));

// --- configuration -----------------------------------------------------------------------

const LAYERS = ["default", "global", "workspace", "folder"];

/** The user's settings: layers of `key -> value`; `[lang]` keys hold objects */
class Settings {
	constructor(declared) {
		this.layers = { default: {}, global: {}, workspace: {} };
		/** per workspace folder, by path */
		this.folders = {};
		for (const [key, schema] of Object.entries(declared)) {
			if ("default" in schema) this.layers.default[key] = schema.default;
		}
	}
	layer(name, folder) {
		if (name === "folder") return (folder && this.folders[folder]) || {};
		return this.layers[name];
	}
	/** The effective value of a key for a folder and a language */
	effective(key, folder, language) {
		let value;
		for (const name of LAYERS) {
			const layer = this.layer(name, folder);
			if (layer[key] !== undefined) {
				value = /^\[.*\]$/.test(key) && typeof value === "object" ? { ...value, ...layer[key] } : layer[key];
			}
		}
		if (language) {
			for (const name of LAYERS) {
				const own = this.layer(name, folder)[`[${language}]`];
				if (own && own[key] !== undefined) value = own[key];
			}
		}
		return value;
	}
	keys(folder) {
		return new Set(LAYERS.flatMap((name) => Object.keys(this.layer(name, folder))));
	}
}

// --- the world ---------------------------------------------------------------------------

class World {
	constructor(declared) {
		this.extensionRoot = "/ext";
		this.open = [];
		this.opCount = 0;
		this.log = [];
		this.trusted = true;
		/** [{uri, name, index}] */
		this.folders = undefined;
		this.declared = declared;
		this.settings = new Settings(declared);
		/** path -> Buffer | "dir" */
		this.files = new Map();
		this.documents = [];
		this.editor = undefined;
		this.environmentPath = null;
		this.clients = [];
		this.spawned = [];
		this.messages = [];
		this.configUpdates = [];
		this.channels = [];
		this.shown = 0;
		this.commands = new Map();
		this.registered = [];
		this.whichCalls = [];
		this.collectionState = new Map();
		this.contentProviders = new Map();
		this.zips = [];
		/** Which operations may fail, and how prompts may be answered: set by the check */
		this.outcomes = {};
		this.hooks = {};
		this.events = {
			configuration: new EventEmitter(),
			activeEditor: new EventEmitter(),
			visibleEditors: new EventEmitter(),
			changeDocument: new EventEmitter(),
			openDocument: new EventEmitter(),
			closeDocument: new EventEmitter(),
			saveDocument: new EventEmitter(),
			folders: new EventEmitter(),
			trust: new EventEmitter(),
		};
		this.process = {
			platform: "linux",
			env: {},
			cwd: () => "/cwd",
			arch: "x64",
			nextTick: process.nextTick,
			pid: 1,
			on() {},
		};
		const quiet = () => {};
		this.console = { log: quiet, error: quiet, warn: quiet, info: quiet, debug: quiet };
		this.modules = this.makeModules();
		this.context = this.makeContext();
	}

	lacks(what) {
		throw (this.missing = new HarnessError(`the stand-ins lack ${what}`));
	}

	/** A module whose missing members are noticed rather than undefined */
	strict(name, members) {
		const world = this;
		return new Proxy(members, {
			get(target, key) {
				if (typeof key === "symbol" || key in target || key === "then" || key === "default" || key === "__esModule") return target[key];
				return world.lacks(`${name}.${String(key)}`);
			},
		});
	}

	/** An operation that completes when, and how, the exploration says so */
	op(label, outcomes) {
		return new Promise((resolve, reject) => {
			this.open.push({ label, id: this.opCount++, outcomes, resolve, reject });
		});
	}

	complete(op, i) {
		this.open.splice(this.open.indexOf(op), 1);
		const outcome = op.outcomes[i];
		this.log.push(`${op.label}: ${outcome.label}`);
		try {
			const value = outcome.run ? outcome.run() : undefined;
			if (outcome.fails) op.reject(outcome.fails());
			else op.resolve(value);
		} catch (e) {
			op.reject(e);
		}
	}

	/** Runs everything that is ready */
	async settle() {
		for (let i = 0; i < 2; i++) await new Promise((r) => setImmediate(r));
		if (this.missing) throw this.missing;
	}

	timeout(f, ms, args) {
		this.op("timer", [{ label: "elapsed" }]).then(() => f(...args));
		return 1;
	}

	require(name) {
		if (name.startsWith("node:")) name = name.slice(5);
		if (name in this.modules) return this.modules[name];
		if (["path", "url", "util", "os", "events", "buffer", "assert", "string_decoder"].includes(name)) return name === "path" ? nodePath : require("node:" + name);
		return this.lacks(`the module ${name}`);
	}

	exists(path) {
		return this.files.has(path);
	}

	folderOf(scope) {
		if (scope === undefined || scope === null) return undefined;
		const uri = scope instanceof Uri ? scope : scope.uri;
		if (!uri) return undefined;
		let best;
		for (const folder of this.folders ?? []) {
			const root = folder.uri.path;
			if (uri.path === root || uri.path.startsWith(root === "/" ? "/" : root + "/")) {
				if (!best || root.length > best.uri.path.length) best = folder;
			}
		}
		return best;
	}

	getConfiguration(section, scope) {
		const settings = this.settings;
		// Without a resource, the editor falls back to the only folder there is
		let folder = this.folderOf(scope)?.uri.path;
		const language = scope && !(scope instanceof Uri) ? scope.languageId : undefined;
		if (!folder && scope === undefined && this.folders?.length === 1) folder = this.folders[0].uri.path;
		const full = (key) => (section ? `${section}.${key}` : key);
		const lookup = (key) => {
			const value = settings.effective(key, folder, language);
			if (value !== undefined) return value;
			// A section as an object
			const out = {};
			let any = false;
			for (const k of settings.keys(folder)) {
				if (k.startsWith(key + ".")) {
					any = true;
					let at = out;
					const parts = k.slice(key.length + 1).split(".");
					parts.slice(0, -1).forEach((p) => (at = at[p] ??= {}));
					at[parts.at(-1)] = settings.effective(k, folder, language);
				}
			}
			return any ? out : undefined;
		};
		const copy = (v) => (v !== null && typeof v === "object" ? structuredClone(v) : v);
		const world = this;
		return {
			get: (key, fallback) => {
				const value = lookup(full(key));
				return value === undefined ? fallback : copy(value);
			},
			has: (key) => lookup(full(key)) !== undefined,
			inspect: (key) => {
				key = full(key);
				const at = (name) => copy(settings.layer(name, folder)[key]);
				const own = (name) => copy(language ? settings.layer(name, folder)[`[${language}]`]?.[key] : undefined);
				return {
					key,
					defaultValue: at("default"),
					globalValue: at("global"),
					workspaceValue: at("workspace"),
					workspaceFolderValue: at("folder"),
					defaultLanguageValue: own("default"),
					globalLanguageValue: own("global"),
					workspaceLanguageValue: own("workspace"),
					workspaceFolderLanguageValue: own("folder"),
				};
			},
			update: (key, value, target) => {
				key = full(key);
				value = copy(value);
				const write = () => {
					world.configUpdates.push({ key, value, target, folder });
					let layer;
					if (target === 1 || target === true) layer = settings.layers.global;
					else if (target === 2 || target === false) layer = settings.layers.workspace;
					else if (folder) layer = settings.folders[folder] ??= {};
					else throw new Error("no folder to write settings of");
					if (value === undefined) delete layer[key];
					else layer[key] = value;
				};
				return world.op(`update ${key}`, world.outcomesOf("update", write));
			},
		};
	}

	outcomesOf(kind, run, fails = () => new Error(`${kind} fails`)) {
		const out = [{ label: "ok", run }];
		if (this.outcomes[kind]) out.push({ label: "fails", fails });
		return out;
	}

	prompt(kind, message, items, options) {
		const labels = items.map((i) => (typeof i === "string" ? i : i.title ?? i.label));
		const entry = { kind, message, labels, options };
		this.messages.push(entry);
		if (items.length === 0) return Promise.resolve(undefined);
		const outcomes = items.map((item, i) => ({
			label: `${labels[i]} (${i})`,
			run: () => {
				entry.answer = i;
				return item;
			},
		}));
		outcomes.push({
			label: "dismissed",
			run: () => {
				entry.answer = null;
				return undefined;
			},
		});
		return this.op(kind, outcomes);
	}

	makeContext() {
		const world = this;
		const collection = {
			persistent: true,
			prepend: (name, value, options) => {
				world.collectionState.set(name, { type: "prepend", value, options: options ?? { applyAtProcessCreation: true } });
			},
			append: (name, value, options) => {
				world.collectionState.set(name, { type: "append", value, options: options ?? { applyAtProcessCreation: true } });
			},
			replace: (name, value, options) => {
				world.collectionState.set(name, { type: "replace", value, options: options ?? { applyAtProcessCreation: true } });
			},
			delete: (name) => {
				world.collectionState.delete(name);
			},
			clear: () => {
				world.collectionState.clear();
			},
			get: (name) => world.collectionState.get(name),
			forEach: (f) => world.collectionState.forEach((v, k) => f(k, v)),
			getScoped: () => world.lacks("getScoped"),
		};
		this.collection = collection;
		return this.strict("context", {
			subscriptions: [],
			environmentVariableCollection: collection,
			extensionPath: this.extensionRoot,
			extensionUri: Uri.file(this.extensionRoot),
			extensionMode: 1,
			asAbsolutePath: (p) => nodePath.join(this.extensionRoot, p),
		});
	}

	makeModules() {
		const world = this;
		const on = (emitter) => (l, s, d) => emitter.event(l, s, d);
		const fileSystem = this.strict("workspace.fs", {
			stat: (uri) =>
				world.op(`stat ${uri.path}`, [
					{
						label: world.exists(uri.path) ? "exists" : "not found",
						run: () => {
							const f = world.files.get(uri.path);
							if (f === undefined) throw FileSystemError.FileNotFound(uri.path);
							return { type: f === "dir" ? 2 : 1, size: f.length, mtime: 0, ctime: 0 };
						},
					},
				]),
			readFile: (uri) =>
				world.op(
					`read ${uri.path}`,
					world.outcomesOf("read", () => {
						const f = world.files.get(uri.path);
						if (f === undefined) throw FileSystemError.FileNotFound(uri.path);
						if (f === "dir") throw FileSystemError.FileIsADirectory(uri.path);
						return new Uint8Array(f);
					}),
				),
			writeFile: (uri, content) =>
				world.op(
					`write ${uri.path}`,
					world.outcomesOf("write", () => {
						if (!(content instanceof Uint8Array)) throw new TypeError("content is not a Uint8Array");
						if (world.files.get(uri.path) === "dir") throw FileSystemError.FileIsADirectory(uri.path);
						// The editor creates the directories above a file
						const above = [];
						for (let p = nodePath.dirname(uri.path); !world.exists(p); p = nodePath.dirname(p)) above.push(p);
						above.forEach((p) => world.files.set(p, "dir"));
						world.files.set(uri.path, Buffer.from(content));
						world.hooks.write?.(uri.path);
					}),
				),
			createDirectory: (uri) =>
				world.op(
					`mkdir ${uri.path}`,
					world.outcomesOf("mkdir", () => {
						world.files.set(uri.path, "dir");
					}),
				),
			readDirectory: (uri) =>
				world.op(`list ${uri.path}`, [
					{
						label: "ok",
						run: () => [...world.files].filter(([p]) => nodePath.dirname(p) === uri.path && p !== uri.path).map(([p, f]) => [nodePath.basename(p), f === "dir" ? 2 : 1]),
					},
				]),
			delete: (uri) => world.op(`delete ${uri.path}`, [{ label: "ok", run: () => world.files.delete(uri.path) }]),
			isWritableFileSystem: () => true,
		});
		const show = (kind) => (message, ...rest) => {
			let options;
			if (rest.length && typeof rest[0] === "object" && rest[0] !== null && !("title" in rest[0])) options = rest.shift();
			return world.prompt(kind, message, rest, options);
		};
		const vscode = {
			Uri,
			Disposable,
			EventEmitter,
			FileSystemError,
			FileType: { Unknown: 0, File: 1, Directory: 2, SymbolicLink: 64 },
			ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 },
			ViewColumn: { Active: -1, Beside: -2, One: 1, Two: 2, Three: 3 },
			LogLevel: enumOf("Off", "Trace", "Debug", "Info", "Warning", "Error"),
			EndOfLine: { LF: 1, CRLF: 2 },
			QuickPickItemKind: { Separator: -1, Default: 0 },
			ProgressLocation: { SourceControl: 1, Window: 10, Notification: 15 },
			EnvironmentVariableMutatorType: { Replace: 1, Append: 2, Prepend: 3 },
			version: "1.90.0",
			env: this.strict("env", { appName: "model", language: "en", appRoot: "/code" }),
			extensions: this.strict("extensions", { getExtension: () => undefined, all: [] }),
			workspace: undefined,
			window: undefined,
			commands: this.strict("commands", {
				registerCommand: (name, f, self) => {
					if (world.commands.has(name)) throw new Error(`command '${name}' already exists`);
					world.commands.set(name, (...args) => f.apply(self, args));
					return new Disposable(() => world.commands.delete(name));
				},
				executeCommand: async (name, ...args) => {
					const f = world.commands.get(name);
					if (!f) throw new Error(`command '${name}' not found`);
					return f(...args);
				},
			}),
			CancellationTokenSource: class {
				constructor() {
					this.token = { isCancellationRequested: false, onCancellationRequested: () => new Disposable(() => {}) };
				}
				cancel() {}
				dispose() {}
			},
			Position: class {
				constructor(line, character) {
					this.line = line;
					this.character = character;
				}
			},
		};
		vscode.workspace = this.strict("workspace", {
			get isTrusted() {
				return world.trusted;
			},
			get workspaceFolders() {
				return world.folders;
			},
			get rootPath() {
				return world.folders?.[0]?.uri.fsPath;
			},
			get name() {
				return world.folders?.[0]?.name;
			},
			workspaceFile: undefined,
			get textDocuments() {
				return world.documents;
			},
			fs: fileSystem,
			getConfiguration: (section, scope) => world.getConfiguration(section, scope),
			getWorkspaceFolder: (uri) => world.folderOf(uri),
			asRelativePath: (x) => {
				const uri = typeof x === "string" ? Uri.file(x) : x;
				const folder = world.folderOf(uri);
				return folder ? nodePath.relative(folder.uri.path, uri.path) : uri.path;
			},
			onDidChangeConfiguration: on(this.events.configuration),
			onDidChangeTextDocument: on(this.events.changeDocument),
			onDidOpenTextDocument: on(this.events.openDocument),
			onDidCloseTextDocument: on(this.events.closeDocument),
			onDidSaveTextDocument: on(this.events.saveDocument),
			onDidChangeWorkspaceFolders: on(this.events.folders),
			onDidGrantWorkspaceTrust: on(this.events.trust),
			registerTextDocumentContentProvider: (scheme, provider) => {
				world.contentProviders.set(scheme, provider);
				return new Disposable(() => world.contentProviders.delete(scheme));
			},
			openTextDocument: (x) => {
				const uri = typeof x === "string" ? Uri.file(x) : x;
				return world.op(`open ${uri}`, [{ label: "ok", run: () => world.documents.find((d) => d.uri.toString() === uri.toString()) ?? world.addDocument(uri, "plaintext", {}) }]);
			},
			saveAll: () => world.lacks("saveAll"),
			save: (uri) => {
				const d = world.documents.find((d) => d.uri.toString() === uri.toString());
				return d ? d.save().then((ok) => (ok ? uri : undefined)) : Promise.resolve(undefined);
			},
		});
		vscode.window = this.strict("window", {
			createOutputChannel: (name) => {
				const channel = { name, lines: [], disposed: false };
				world.channels.push(channel);
				return {
					name,
					append: (t) => channel.lines.push(t),
					appendLine: (t) => channel.lines.push(t),
					replace: (t) => (channel.lines = [t]),
					clear: () => (channel.lines = []),
					show: () => {
						world.shown += 1;
					},
					hide: () => {},
					dispose: () => {
						channel.disposed = true;
					},
				};
			},
			get activeTextEditor() {
				return world.editor;
			},
			get visibleTextEditors() {
				return world.editor ? [world.editor] : [];
			},
			onDidChangeActiveTextEditor: on(this.events.activeEditor),
			onDidChangeVisibleTextEditors: on(this.events.visibleEditors),
			showInformationMessage: show("information"),
			showWarningMessage: show("warning"),
			showErrorMessage: show("error"),
			showQuickPick: async (items, options) => world.prompt("quick pick", options?.title ?? "", [...(await items)], options),
			showWorkspaceFolderPick: (options) => world.prompt("quick pick", "", [...(world.folders ?? [])].map((f) => ({ title: f.name, folder: f })), options).then((x) => x?.folder),
			showSaveDialog: (options) =>
				world.op("save dialog", [
					{ label: "chosen", run: () => Uri.file("/chosen.zip") },
					{ label: "dismissed", run: () => undefined },
				]),
			showTextDocument: (document) => world.op("show document", [{ label: "ok", run: () => ({ document }) }]),
			withProgress: (options, task) => task({ report() {} }, new vscode.CancellationTokenSource().token),
			setStatusBarMessage: () => new Disposable(() => {}),
		});

		class LanguageClient {
			constructor(id, name, serverOptions, clientOptions) {
				Object.assign(this, { id, name, serverOptions, clientOptions, handlers: new Map(), phase: "new" });
				this.number = world.clients.length;
				world.clients.push(this);
				world.hooks.client?.(this);
				this.code2ProtocolConverter = {
					asTextDocumentIdentifier: (d) => ({ uri: d.uri.toString() }),
					asPosition: (p) => ({ line: p.line, character: p.character }),
					asUri: (u) => u.toString(),
				};
				this.requests = [];
				this.outputChannel = clientOptions.outputChannel;
			}
			start() {
				if (this.phase !== "new") return Promise.reject(new Error(`start() of a client that is ${this.phase}`));
				this.phase = "starting";
				world.hooks.phase?.(this);
				const outcomes = [{ label: "ok", run: () => this.to("running") }];
				if (world.outcomes.start) outcomes.push({ label: "fails", run: () => this.to("dead"), fails: () => new Error("server does not start") });
				return world.op(`client ${this.number} start`, outcomes);
			}
			stop() {
				if (this.phase === "new" || this.phase === "dead" || this.phase === "stopped") return Promise.resolve();
				if (this.phase === "starting") return Promise.reject(new Error("Client is not running and can't be stopped. It's current state is: starting"));
				if (this.phase === "stopping") return this.stopped;
				this.phase = "stopping";
				world.hooks.phase?.(this);
				const outcomes = [{ label: "ok", run: () => this.to("stopped") }];
				if (world.outcomes.stop) outcomes.push({ label: "fails", run: () => this.to("dead"), fails: () => new Error("server does not stop in time") });
				return (this.stopped = world.op(`client ${this.number} stop`, outcomes));
			}
			dispose() {
				return this.stop();
			}
			to(phase) {
				this.phase = phase;
				world.hooks.phase?.(this);
			}
			isRunning() {
				return this.phase === "running";
			}
			needsStop() {
				return this.phase === "starting" || this.phase === "running";
			}
			get state() {
				return { new: 1, stopped: 1, dead: 1, stopping: 1, starting: 3, running: 2 }[this.phase];
			}
			onNotification(type, handler) {
				this.handlers.set(typeof type === "string" ? type : type.method, handler);
				return new Disposable(() => {});
			}
			onRequest(type, handler) {
				this.handlers.set(typeof type === "string" ? type : type.method, handler);
				return new Disposable(() => {});
			}
			onDidChangeState() {
				return new Disposable(() => {});
			}
			sendRequest(type, params) {
				const request = { method: typeof type === "string" ? type : type.method, params };
				this.requests.push(request);
				return world.op(`request ${request.method}`, world.outcomesOf("request", () => world.hooks.answer?.(this, request)));
			}
			sendNotification() {
				return Promise.resolve();
			}
			get diagnostics() {
				return undefined;
			}
		}
		class MessageType {
			constructor(method) {
				this.method = method;
			}
		}
		class ResponseError extends Error {
			constructor(code, message, data) {
				super(message);
				this.code = code;
				this.data = data;
			}
			toJson() {
				return { code: this.code, message: this.message };
			}
		}
		this.ResponseError = ResponseError;
		const languageClient = {
			LanguageClient,
			NotificationType: MessageType,
			NotificationType0: MessageType,
			RequestType: MessageType,
			RequestType0: MessageType,
			ResponseError,
			TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 },
			State: { Stopped: 1, Running: 2, Starting: 3 },
			RevealOutputChannelOn: { Info: 1, Warn: 2, Error: 3, Never: 4 },
			ErrorAction: { Continue: 1, Shutdown: 2 },
			CloseAction: { DoNotRestart: 1, Restart: 2 },
			ErrorCodes: { InternalError: -32603, InvalidRequest: -32600 },
			LSPErrorCodes: { RequestCancelled: -32800, ContentModified: -32801 },
		};

		// As in p-queue 7: jobs start at once while there is room, in order
		class PQueue {
			constructor(options = {}) {
				this.concurrency = options.concurrency ?? Infinity;
				this.paused = options.autoStart === false;
				this.waiting = [];
				this.pending = 0;
				this.idle = [];
			}
			get size() {
				return this.waiting.length;
			}
			get isPaused() {
				return this.paused;
			}
			add(job, options = {}) {
				return new Promise((resolve, reject) => {
					const priority = options.priority ?? 0;
					const entry = {
						priority,
						run: async () => {
							this.pending += 1;
							try {
								resolve(await job({}));
							} catch (e) {
								reject(e);
							} finally {
								this.pending -= 1;
								this.advance();
							}
						},
					};
					let at = this.waiting.length;
					while (at > 0 && this.waiting[at - 1].priority < priority) at -= 1;
					this.waiting.splice(at, 0, entry);
					this.advance();
				});
			}
			addAll(jobs) {
				return Promise.all(jobs.map((j) => this.add(j)));
			}
			advance() {
				while (!this.paused && this.waiting.length > 0 && this.pending < this.concurrency) void this.waiting.shift().run();
				if (this.pending === 0 && this.waiting.length === 0) this.idle.splice(0).forEach((r) => r());
			}
			start() {
				this.paused = false;
				this.advance();
				return this;
			}
			pause() {
				this.paused = true;
			}
			clear() {
				this.waiting = [];
			}
			onIdle() {
				return this.pending === 0 && this.waiting.length === 0 ? Promise.resolve() : new Promise((r) => this.idle.push(r));
			}
			onEmpty() {
				return this.waiting.length === 0 ? Promise.resolve() : this.onIdle();
			}
			on() {}
		}

		const notFound = (path) => Object.assign(new Error(`ENOENT: no such file or directory, '${path}'`), { code: "ENOENT" });
		const stats = (f) => ({ isDirectory: () => f === "dir", isFile: () => f !== "dir", size: f.length });
		const statSync = (path, options) => {
			if (!world.exists(path)) {
				if (options?.throwIfNoEntry === false) return undefined;
				throw notFound(path);
			}
			return stats(world.files.get(path));
		};
		const asyncStat = (path) => world.op(`fs stat ${path}`, [{ label: world.exists(path) ? "exists" : "not found", run: () => statSync(path) }]);
		const sync = {
			existsSync: (path) => world.exists(path),
			statSync,
			lstatSync: statSync,
			accessSync: (path) => void statSync(path),
			constants: { F_OK: 0, R_OK: 4, W_OK: 2, X_OK: 1 },
		};
		const promises = this.strict("fs.promises", { stat: asyncStat, lstat: asyncStat, access: (p) => asyncStat(p).then(() => undefined) });
		const fs = this.strict("fs", { ...sync, promises });
		const fsExtra = this.strict("fs-extra", {
			...sync,
			promises,
			stat: asyncStat,
			access: (p) => asyncStat(p).then(() => undefined),
			pathExists: (path) => world.op(`path exists ${path}`, [{ label: world.exists(path) ? "yes" : "no", run: () => world.exists(path) }]),
			pathExistsSync: (path) => world.exists(path),
			exists: (path) => world.op(`path exists ${path}`, [{ label: world.exists(path) ? "yes" : "no", run: () => world.exists(path) }]),
		});

		const which = (name, options = {}) => {
			world.whichCalls.push(name);
			return world.op(`which ${name}`, [
				{
					label: world.environmentPath ? "found" : "not found",
					run: () => {
						const found = world.environmentPath && nodePath.basename(world.environmentPath) === name ? world.environmentPath : null;
						if (found) return options.all ? [found] : found;
						if (options.nothrow) return null;
						throw Object.assign(new Error(`not found: ${name}`), { code: "ENOENT" });
					},
				},
			]);
		};
		which.sync = (name, options = {}) => {
			world.whichCalls.push(name);
			const found = world.environmentPath && nodePath.basename(world.environmentPath) === name ? world.environmentPath : null;
			if (found) return options.all ? [found] : found;
			if (options.nothrow) return null;
			throw new Error(`not found: ${name}`);
		};

		const spawn = (command, args, options) => {
			const child = new NodeEvents();
			const stream = () => Object.assign(new NodeEvents(), { setEncoding() {}, pipe() {}, destroy() {}, resume() {} });
			child.stdout = stream();
			child.stderr = stream();
			child.stdin = { end() {}, write() {}, on() {} };
			child.kill = () => true;
			child.pid = 7;
			const entry = { command, args: [...(args ?? [])], options: options ?? {}, child, at: world.log.length };
			world.spawned.push(entry);
			world.hooks.spawn?.(entry);
			const close = (code, signal) => () => {
				entry.result = code;
				child.stdout.emit("data", "out");
				child.stderr.emit("data", "err-text ");
				child.stderr.emit("data", "err-more");
				child.emit("exit", code, signal ?? null);
				child.emit("close", code, signal ?? null);
			};
			world.op(`run ${command}`, [
				{ label: "code 0", run: close(0) },
				{ label: "code 1", run: close(1) },
				{ label: "killed", run: close(null, "SIGKILL") },
				{
					label: "not started",
					run: () => {
						entry.result = "error";
						child.emit("error", Object.assign(new Error(`spawn ${command} ENOENT`), { code: "ENOENT" }));
						child.emit("close", -2, null);
					},
				},
			]).catch(() => {});
			return child;
		};

		class AdmZip {
			constructor() {
				this.entries = [];
				world.zips.push(this);
			}
			addFile(name, content) {
				this.entries.push([name, content.toString("utf8")]);
			}
			writeZip(path) {
				this.written = path;
			}
			writeZipPromise(path) {
				this.written = path;
				return Promise.resolve(true);
			}
		}

		const client = this.strict("vscode-languageclient", languageClient);
		return {
			vscode: this.strict("vscode", vscode),
			"vscode-languageclient/node": client,
			"vscode-languageclient": client,
			"p-queue": { __esModule: true, default: PQueue },
			which,
			fs,
			"fs/promises": promises,
			"fs-extra": fsExtra,
			child_process: this.strict("child_process", { spawn }),
			"adm-zip": AdmZip,
			process: this.process,
		};
	}

	addDocument(uri, languageId, flags) {
		const world = this;
		const document = {
			uri,
			fileName: uri.fsPath,
			languageId,
			isDirty: false,
			isClosed: false,
			isUntitled: uri.scheme === "untitled",
			version: 1,
			text: "",
			getText() {
				return this.text;
			},
			save() {
				document.saveCalls = (document.saveCalls ?? 0) + 1;
				return world.op(`save ${uri.path}`, [
					{
						label: "ok",
						run: () => {
							document.isDirty = false;
							return true;
						},
					},
					...(world.outcomes.save ? [{ label: "refused", run: () => false }] : []),
				]);
			},
			...flags,
		};
		this.documents.push(document);
		return document;
	}

	setEditor(document, options) {
		this.editor = document && { document, options, selection: { active: { line: 0, character: 0 } } };
		this.events.activeEditor.fire(this.editor);
	}

	changeSetting(layer, folder, key, value) {
		const target = layer === "folder" ? (this.settings.folders[folder] ??= {}) : this.settings.layers[layer];
		if (value === undefined) delete target[key];
		else target[key] = value;
		this.events.configuration.fire({
			affectsConfiguration: (section, scope) => key === section || key.startsWith(section + ".") || section.startsWith(key + "."),
		});
	}

	workspaceFolder(path, name) {
		return { uri: Uri.file(path), name: name ?? nodePath.basename(path), index: 0 };
	}
}

module.exports = { World, Uri, nodePath, nodeUrl };
