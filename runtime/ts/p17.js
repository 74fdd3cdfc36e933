// The driver of P17: node p17.js ts.json values others results
"use strict"
const fs = require("fs")
const readline = require("readline")
const {Loader} = require("./load")
const {World, text} = require("./val")
const {say, flush} = require("./report")

const model = JSON.parse(fs.readFileSync(process.argv[2], "utf8"))
const w = new World(model, new Loader(model.Files))
const bad = new Set()
let n = 0, last = "", out = []
const results = fs.openSync(process.argv[5], "w")

function put(l) {
	out.push(JSON.stringify(l) + "\n")
	if (out.length > 500) {
		fs.writeSync(results, out.join(""))
		out = []
	}
}

// full adds what is unset, as Go reads it
function full(t, v) {
	if (v === null) {
		return null
	}
	switch (t.Kind) {
	case 1:
		return v.map((x) => full(World.elem(t), x))
	case 2:
		return {R: Object.fromEntries(Object.entries(v.R).map(([k, x]) => [k, full(World.elem(t), x)]))}
	}
	if (t.Ref === "data") {
		const o = {}
		for (const f of w.data[t.Name].Fields) {
			o[f.Name] = Object.hasOwn(v.D, f.Name) ? full(f.Type, v.D[f.Name]) : zero(f.Type)
		}
		return {D: o}
	}
	return v
}

function zero(t) {
	if (World.optional(t)) {
		return null
	}
	switch (t.Kind) {
	case 1:
		return []
	case 2:
		return {R: {}}
	}
	switch (t.Ref) {
	case "enum":
		return {E: 0}
	case "data":
		return full(t, {D: {}})
	}
	return t.Name === "date" ? {T: -62135596800000} : w.def(t)
}

// alike: lists and maps without entries are the same as none, floats have 32 bits, keys that are numbers any spelling
function alike(t, v) {
	switch (t.Kind) {
	case 1:
		return v === null ? [] : v.map((x) => alike(World.elem(t), x))
	case 2: {
		const r = {}
		for (const k in v === null ? {} : v.R) {
			r[t.Key === "float" ? String(Math.fround(Number(k))) : t.Key === "double" ? String(Number(k)) : k] = alike(World.elem(t), v.R[k])
		}
		return {R: r}
	}
	}
	if (v === null) {
		return null
	}
	if (t.Ref === "data") {
		const o = {}
		for (const f of w.data[t.Name].Fields) {
			o[f.Name] = alike(f.Type, v.D[f.Name])
		}
		return {D: o}
	}
	if (t.Name === "decimal") {
		return {N: new w.Decimal(v.N).toString()}
	}
	return t.Name === "float" ? Math.fround(v) : v
}

function judge(l, others) {
	const t = {Kind: 0, Ref: "data", Name: l.k}
	if (l.e) {
		throw new Error("Go cannot write it: " + l.e)
	}
	const v = full(t, l.v), c = w.cls(l.k)
	const r = [], how = []
	let x
	const want = text(alike(t, v))
	const read = (who, j) => {
		try {
			x = c.fromJson(JSON.parse(j))
			const got = text(alike(t, w.read(l.k, x)))
			if (got !== want) {
				throw new Error(`TypeScript has ${got}, not ${want}`)
			}
		} catch (e) {
			throw new Error(`${who} writes ${j}: ${e && e.message !== undefined ? e.message : e}`)
		}
	}
	;(others.r ?? []).forEach((j, i) => {
		if (j !== l.j) {
			read(others.w[i], j)
		}
		r.push(j)
		how.push(others.w[i])
	})
	read("Go", l.j)
	r.push(JSON.stringify(x.toJson()))
	how.push("TypeScript, after reading " + l.j)
	r.push(JSON.stringify(w.fill(l.k, v).toJson()))
	how.push("TypeScript")
	return {k: l.k, r, w: how}
}

const others = fs.readFileSync(process.argv[4], "utf8").split("\n")
const lines = readline.createInterface({input: fs.createReadStream(process.argv[3]), crlfDelay: Infinity})
lines.on("line", (s) => {
	const l = JSON.parse(s), other = JSON.parse(others[n])
	if (other.k !== l.k) {
		throw new Error(other.k + " where " + l.k + " is expected")
	}
	const g = w.data[l.k].Group
	if (l.k !== last) {
		last = l.k
		say({s: l.k})
	}
	n++
	let o = {k: l.k}
	if (!w.endless(l.k) && !w.barren(l.k)) {
		try {
			o = judge(l, other)
		} catch (e) {
			if (!bad.has(l.k)) {
				bad.add(l.k)
				say({v: g, t: `${l.k} with ${text(l.v)}: ${e.message}`})
			}
		}
	}
	put(o)
	if (n % 1000 === 0) {
		say({n: 1000, tr: 1000})
	}
	if (n % 4999 === 0) {
		say({smp: s.slice(0, 400)})
	}
})
lines.on("close", () => {
	fs.writeSync(results, out.join(""))
	fs.closeSync(results)
	say({n: n % 1000, tr: n % 1000})
	say({end: true})
	flush()
})
