// Loads generated TypeScript and the stand-ins of the runtime libraries: transpiled, as CommonJS modules.
"use strict"
const fs = require("fs")
const path = require("path")
const vm = require("vm")
const ts = require("/opt/veriftools/node/node_modules/typescript")

const lib = path.join(__dirname, "lib")
const libs = {"hbuf_ts": "hbuf_ts.ts", "long": "long.ts", "decimal.js": "decimal.ts", "vue": "vue.ts", "element-plus": "element-plus.ts"}

function transpile(name, text) {
	const r = ts.transpileModule(text, {
		fileName: /\.tsx$/.test(name) ? "m.tsx" : "m.ts", reportDiagnostics: true,
		compilerOptions: {module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true, jsx: ts.JsxEmit.React},
	})
	if (r.diagnostics && r.diagnostics.length) {
		throw new Error(name + " does not parse: " + ts.flattenDiagnosticMessageText(r.diagnostics[0].messageText, " "))
	}
	return r.outputText
}

class Loader {
	constructor(units) {
		this.units = units // unit -> name -> text
		this.mods = new Map()
	}

	lib(name) {
		return this.run("lib:" + name, () => fs.readFileSync(path.join(lib, libs[name]), "utf8"), (n) => this.lib(n))
	}

	load(unit, file) {
		return this.run(unit + ":" + file, () => {
			const t = this.units[unit][file]
			if (t === undefined) {
				throw new Error("there is no file " + file)
			}
			return t
		}, (n) => {
			if (libs[n]) {
				return this.lib(n)
			}
			return this.load(unit, path.posix.normalize(path.posix.join(path.posix.dirname(file), n)) + ".ts")
		})
	}

	run(id, text, req) {
		let m = this.mods.get(id)
		if (m) {
			return m.exports
		}
		m = {exports: {}}
		this.mods.set(id, m)
		const f = vm.runInThisContext("(function(module, exports, require) {" + transpile(id, text()) + "\n})", {filename: id})
		f(m, m.exports, req)
		return m.exports
	}
}

module.exports = {Loader}
