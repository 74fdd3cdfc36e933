// node types.js FILE: type-checks the units of FILE, one JSON object {k, f: {name: text}} per line, against lib/, in
// groups, and prints one line {k, e: [errors]} per unit.
const ts = require('/opt/veriftools/node/node_modules/typescript')
const fs = require('fs')
const path = require('path')
const lib = path.join(__dirname, 'lib')
const size = Number(process.argv[3] || 400)
const options = {
	strict: true, noEmit: true, target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler,
	jsx: ts.JsxEmit.Preserve, lib: ['lib.es2022.d.ts'], types: [], skipLibCheck: true, esModuleInterop: true, isolatedModules: true,
}
const cache = new Map()
const known = {hbuf_ts: 'hbuf_ts.ts', long: 'long.ts', 'decimal.js': 'decimal.ts', vue: 'vue.ts', 'element-plus': 'element-plus.ts'}
const dirLib = path.dirname(ts.getDefaultLibFilePath(options))
function real(name) {
	if (!cache.has(name)) {
		const t = fs.existsSync(name) ? fs.readFileSync(name, 'utf8') : undefined
		cache.set(name, t === undefined ? undefined : ts.createSourceFile(name, t, options.target, true))
	}
	return cache.get(name)
}
function check(units) {
	const files = new Map()
	units.forEach((u, i) => {
		for (const n in u.f) {
			files.set('/u' + i + '/' + n, u.f[n])
		}
	})
	const host = {
		getSourceFile: (n) => files.has(n) ? ts.createSourceFile(n, files.get(n), options.target, true) : real(n),
		getDefaultLibFileName: () => ts.getDefaultLibFilePath(options),
		getDefaultLibLocation: () => dirLib,
		writeFile: () => {},
		getCurrentDirectory: () => '/',
		getCanonicalFileName: (n) => n,
		useCaseSensitiveFileNames: () => true,
		getNewLine: () => '\n',
		fileExists: (n) => files.has(n) || (n.startsWith(lib) && fs.existsSync(n)),
		readFile: (n) => files.get(n),
		directoryExists: () => true,
		getDirectories: () => [],
		resolveModuleNameLiterals: (ls, from) => ls.map((l) => {
			const m = l.text
			let f
			if (m.startsWith('./') || m.startsWith('../')) {
				const b = path.posix.join(path.posix.dirname(from), m)
				f = [b + '.ts', b + '.tsx'].find((n) => files.has(n))
			} else if (known[m]) {
				f = path.join(lib, known[m])
			}
			return {resolvedModule: f && {resolvedFileName: f, extension: path.extname(f), isExternalLibraryImport: false}}
		}),
	}
	const p = ts.createProgram([...files.keys(), ...Object.values(known).map((n) => path.join(lib, n))], options, host)
	const errs = units.map(() => [])
	const add = (d) => {
		const text = ts.flattenDiagnosticMessageText(d.messageText, ' ')
		if (!d.file) {
			console.log(JSON.stringify({fatal: text}))
			process.exit(0)
		}
		const at = ts.getLineAndCharacterOfPosition(d.file, d.start)
		const m = /^\/u(\d+)\/(.*)$/.exec(d.file.fileName)
		if (!m) {
			console.log(JSON.stringify({fatal: d.file.fileName + ':' + (at.line + 1) + ' ' + text}))
			process.exit(0)
		}
		const line = d.file.text.split('\n')[at.line]
		errs[m[1]].push(`${m[2]}:${at.line + 1}:${at.character + 1}: TS${d.code} ${text}: ${line.trim()}`)
	}
	p.getOptionsDiagnostics().forEach(add)
	p.getGlobalDiagnostics().forEach(add)
	for (const f of p.getSourceFiles()) {
		if (f.fileName.startsWith('/u') || f.fileName.startsWith(lib)) {
			const s = p.getSyntacticDiagnostics(f)
			s.forEach(add)
			if (s.length === 0) {
				p.getSemanticDiagnostics(f).forEach(add)
			}
		}
	}
	let out = ''
	units.forEach((u, i) => { out += JSON.stringify({k: u.k, e: errs[i].slice(0, 6)}) + '\n' })
	fs.writeSync(1, out)
}
let group = []
const rl = require('readline').createInterface({input: fs.createReadStream(process.argv[2]), crlfDelay: Infinity})
rl.on('line', (l) => {
	if (l) {
		group.push(JSON.parse(l))
	}
	if (group.length >= size) {
		check(group)
		group = []
	}
})
rl.on('close', () => {
	if (group.length) {
		check(group)
	}
	fs.writeSync(1, '{"end":true}\n')
})
