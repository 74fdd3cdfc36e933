// The driver of P22: node p22.js ts.json verdicts
"use strict"
const fs = require("fs")
const {Loader} = require("./load")
const {World, text, show} = require("./val")
const {say, flush} = require("./report")

const model = JSON.parse(fs.readFileSync(process.argv[2], "utf8"))
const loader = new Loader(model.Files)
const w = new World(model, loader)
const locale = {t: (path) => path}
const fields = {}
let n = 0, count = 0, last = "", bad = new Set()

// fill adds what is unset
function fill(t, v) {
	if (v === null) {
		return null
	}
	switch (t.Kind) {
	case 1:
		return v.map((x) => fill(World.elem(t), x))
	case 2:
		return {R: Object.fromEntries(Object.entries(v.R).map(([k, x]) => [k, fill(World.elem(t), x)]))}
	}
	if (t.Ref === "data") {
		const d = w.leastData(t.Name).D
		for (const f of w.data[t.Name].Fields) {
			if (Object.hasOwn(v.D, f.Name)) {
				d[f.Name] = fill(f.Type, v.D[f.Name])
			}
		}
		return {D: d}
	}
	return v
}

function judge(l) {
	const d = w.data[l.k]
	const f = fields[l.k + " " + l.f] ??= d.Fields.find((x) => x.Name === l.f)
	const [unit, file, cls] = w.where[l.k]
	const name = `verify${cls}_${f.Hump}`
	const validator = loader.load(unit, file.replace(/\.data\.ts$/, ".verify.ts"))[name]
	if (typeof validator !== "function") {
		throw new Error(`there is no ${name}`)
	}
	if (l.bad) {
		throw new Error("the Go code: " + l.bad)
	}
	const value = w.make(f.Type, fill(f.Type, l.v ?? null))
	const calls = []
	validator(locale)({}, value, (...a) => calls.push(a))
	if (calls.length !== 1 || calls[0].length > 1) {
		throw new Error(`${name} calls back ${calls.length} times`)
	}
	const e = calls[0][0]
	const got = e === undefined ? "accepts it" : "reports " + (e instanceof Error ? e.message : show(e))
	let want = ["accepts it"]
	if (!l.ok) {
		want = []
		for (const r of model.Verify[l.k].find((x) => x.Field === l.f).Rules) {
			if (r.Code === (l.c ?? 0) && r.Msg === l.m) {
				want.push("reports " + w.item(unit + "/" + r.File + ":" + r.Enum, r.Code).toString())
			}
		}
		if (!want.length) {
			throw new Error(`the Go code reports ${l.c} ${l.m}, no rule of the field`)
		}
	}
	if (!want.includes(got)) {
		throw new Error(`${name} ${got}, the Go code ${l.ok ? "accepts it" : "reports " + l.m}`)
	}
}

for (const line of fs.readFileSync(process.argv[3], "utf8").split("\n")) {
	if (!line) {
		continue
	}
	const l = JSON.parse(line)
	const g = w.data[l.k].Group
	if (bad.has(g)) {
		continue
	}
	n++
	count++
	say({s: l.k + "." + l.f + " " + text(l.v ?? null)})
	try {
		judge(l)
	} catch (e) {
		bad.add(g)
		say({v: g, t: `${l.k}.${l.f} = ${text(l.v ?? null)}: ${e && e.message !== undefined ? e.message : e}`})
	}
	if (n >= 500) {
		say({n: 2 * n, tr: n})
		n = 0
	}
	if (count % 20011 === 0) {
		say({smp: line})
	}
}
say({n: 2 * n, tr: n})
say({end: true})
flush()
