"use strict";
// Exhaustive exploration by re-execution: a run makes choices (what happens next, with which
// outcome); all sequences of choices are run, in depth-first order.

/** Something is missing in the stand-ins: no verdict */
class HarnessError extends Error {
	constructor(...args) {
		super(...args);
		HarnessError.first ??= this;
	}
}
/** The property does not hold */
class Violation extends Error {
	constructor(...args) {
		super(...args);
		Violation.first ??= this;
	}
}

class Chooser {
	constructor(prefix) {
		this.prefix = prefix;
		/** [chosen, number of alternatives] */
		this.trace = [];
	}
	choose(n) {
		if (n <= 0) throw new HarnessError("no alternatives");
		const i = this.trace.length;
		const chosen = i < this.prefix.length ? this.prefix[i] : 0;
		if (chosen >= n) throw new HarnessError("the run is not deterministic: fewer alternatives than before");
		this.trace.push([chosen, n]);
		return chosen;
	}
}

/** The next sequence of choices in depth-first order */
function next(trace) {
	for (let i = trace.length - 1; i >= 0; i--) {
		const [chosen, n] = trace[i];
		if (chosen + 1 < n) {
			return trace.slice(0, i).map((t) => t[0]).concat([chosen + 1]);
		}
	}
	return null;
}

function fnv(text) {
	let a = 0x811c9dc5, b = 0x1b873593;
	for (let i = 0; i < text.length; i++) {
		const c = text.charCodeAt(i);
		a = Math.imul(a ^ c, 0x01000193);
		b = Math.imul(b ^ c, 0x5bd1e995) ^ (b >>> 13);
	}
	return (a >>> 0) * 0x200000 + ((b >>> 0) & 0x1fffff);
}

/** What the runs of one worker cover */
class Coverage {
	constructor() {
		this.states = new Set();
		this.transitions = 0;
		this.traces = 0;
		this.outcomes = {};
	}
	state(s) {
		this.states.add(fnv(typeof s === "string" ? s : JSON.stringify(s)));
	}
	outcome(label) {
		this.outcomes[label] = (this.outcomes[label] ?? 0) + 1;
	}
}

/** Runs one case under one sequence of choices; gives the trace, and the violation if any */
async function runOnce(check, case_, prefix, coverage) {
	const chooser = new Chooser(prefix);
	coverage.traces += 1;
	let violation = null;
	let log = [];
	HarnessError.first = undefined;
	Violation.first = undefined;
	try {
		await check.run(case_, chooser, coverage, (line) => log.push(line));
	} catch (error) {
		if (!(error instanceof Violation)) throw error;
	}
	// The code under test may have caught what a monitor threw in the middle of it
	const error = Violation.first;
	if (error) {
		if (HarnessError.first) throw HarnessError.first;
		violation = { what: error.message, key: error.key ?? "" };
	}
	return { trace: chooser.trace, violation, log };
}

module.exports = { HarnessError, Violation, Chooser, Coverage, next, runOnce, fnv };
