// node forms.js FILE: says what the language tables, enums and forms of the units of FILE are, one JSON object
// {k, f: {name: text}} per line; prints one line {k, e: [errors], d} per unit, with
// d = {tables: {file: {table: {language: {key: text}}}}, enums: {file: {class: [[name, key]]}}, forms: {file: {component: [[prop, key, [keys]]]}}}.
"use strict"
const fs = require("fs")
const {Loader} = require("./load")
const {context, render} = require("./render")

function look(u) {
	const d = {tables: {}, enums: {}, forms: {}}, errs = []
	const loader = new Loader({u: u.f})
	loader.mods = libs
	for (const id of [...libs.keys()]) {
		if (!id.startsWith("lib:")) {
			libs.delete(id)
		}
	}
	for (const n of Object.keys(u.f).sort()) {
		try {
			if (n.endsWith(".lang.ts")) {
				d.tables[n] = {...loader.load("u", n)}
			} else if (n.endsWith(".enum.ts")) {
				const out = d.enums[n] = {}
				for (const [k, c] of Object.entries(loader.load("u", n))) {
					out[k] = c.values.map((v) => [v.name, v.toString()])
				}
			} else if (n.endsWith(".ui.tsx")) {
				const out = d.forms[n] = {}
				for (const [k, c] of Object.entries(loader.load("u", n))) {
					const keys = []
					const model = c.props.model ? {model: new c.props.model()} : {}
					const items = render(c, context((key) => {
						keys.push(key)
						return "text " + key
					}, model))
					out[k] = items.map((e) => {
						const label = String(e.props.label)
						return [String(e.props.prop), label.startsWith("text ") ? label.slice(5) : null]
					})
				}
			}
		} catch (e) {
			errs.push(n + ": " + e.message)
		}
	}
	return {k: u.k, e: errs, d}
}

const libs = new Map()
const rl = require("readline").createInterface({input: fs.createReadStream(process.argv[2]), crlfDelay: Infinity})
let out = []
const flush = () => {
	const b = Buffer.from(out.join(""))
	for (let i = 0; i < b.length;) {
		try {
			i += fs.writeSync(1, b, i)
		} catch (e) {
			if (e.code !== "EAGAIN") {
				throw e
			}
		}
	}
	out = []
}
rl.on("line", (l) => {
	if (l) {
		out.push(JSON.stringify(look(JSON.parse(l))) + "\n")
	}
	if (out.length >= 50) {
		flush()
	}
})
rl.on("close", () => {
	out.push('{"end":true}\n')
	flush()
})
