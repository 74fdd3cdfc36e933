// Renders generated forms: elements become plain objects {tag, props, children}, and what a form needs of its surroundings
// is recorded.
"use strict"

globalThis.React = {
	Fragment: "fragment",
	createElement: (tag, props, ...children) => ({tag, props: props ?? {}, children}),
}

// surroundings of a component: texts are looked up by text(key)
function context(text, more) {
	return {
		$slots: {},
		$t: text,
		$fd: (time, format) => ({time, format}),
		$timeToLocal: (time) => time,
		$timeToUtc: (time) => time,
		$datePackerShortcuts: () => [],
		...more,
	}
}

// render lists the elements of a component.
function render(component, ctx) {
	const out = component.setup(ctx)(ctx)
	if (!Array.isArray(out)) {
		throw new Error(component.name + " renders no list")
	}
	return out
}

// walk visits an element and everything in it.
function walk(e, visit) {
	if (Array.isArray(e)) {
		e.forEach((x) => walk(x, visit))
	} else if (e && typeof e === "object" && "tag" in e) {
		visit(e)
		walk(e.children, visit)
	}
}

module.exports = {context, render, walk}
