// Values of schema types and their TypeScript form. A model value is null, a boolean, a string, a number, {L: text} for
// 64 bit numbers, {N: text} for decimals, {T: ms} for dates, {E: number} for items, an array, {R: {key: value}} for maps
// or {D: {field: value}} for data.
"use strict"

class World {
	constructor(model, loader) {
		this.data = model.World.Data
		for (const k in this.data) {
			this.data[k].Fields ??= []
		}
		this.enums = model.World.Enums
		this.where = model.Where
		this.loader = loader
		this.Long = loader.lib("long").default
		this.Decimal = loader.lib("decimal.js").Decimal
		for (const k in this.data) {
			for (const f of this.data[k].Fields) {
				const h = [...f.Hump]
				f.Prop = h[0].toLowerCase() + h.slice(1).join("")
			}
		}
	}

	cls(key) {
		const [unit, file, name] = this.where[key]
		const c = this.loader.load(unit, file)[name]
		if (typeof c !== "function") {
			throw new Error(`${file} exports no class ${name}`)
		}
		return c
	}

	static elem(t) {
		return {Kind: 0, Name: t.Name, Ref: t.Ref, Null: t.Null}
	}

	static optional(t) {
		return t.Kind !== 0 ? t.Out : t.Null
	}

	// endless: a value of the type needs a value of the type
	endless(key, seen = []) {
		if (seen.includes(key)) {
			return true
		}
		return this.data[key].Fields.some((f) => f.Type.Kind === 0 && f.Type.Ref === "data" && !f.Type.Null && this.endless(f.Type.Name, [...seen, key]))
	}

	// barren: a value of the type needs an item of an enum that has none
	barren(key) {
		return this.data[key].Fields.some((f) => f.Type.Kind === 0 && !f.Type.Null && (
			f.Type.Ref === "enum" && this.enums[f.Type.Name].length === 0 || f.Type.Ref === "data" && this.barren(f.Type.Name)))
	}

	def(t) { // undefined: not determined
		if (World.optional(t)) {
			return null
		}
		switch (t.Kind) {
		case 1:
			return []
		case 2:
			return {R: {}}
		}
		switch (t.Ref) {
		case "enum":
			return this.enums[t.Name].includes(0) ? {E: 0} : undefined
		case "data":
			return this.defData(t.Name)
		}
		switch (t.Name) {
		case "int64":
		case "uint64":
			return {L: "0"}
		case "bool":
			return false
		case "string":
			return ""
		case "date":
			return {T: 0}
		case "decimal":
			return {N: "0"}
		}
		return 0
	}

	defData(key) {
		const o = {}
		for (const f of this.data[key].Fields) {
			o[f.Name] = this.def(f.Type)
		}
		return {D: o}
	}

	// any model value of a type, as small as there is
	least(t) {
		const d = this.def(t)
		return d === undefined ? {E: this.enums[t.Name][0]} : t.Kind === 0 && t.Ref === "data" && !t.Null ? this.leastData(t.Name) : d
	}

	leastData(key) {
		const o = {}
		for (const f of this.data[key].Fields) {
			o[f.Name] = this.least(f.Type)
		}
		return {D: o}
	}

	values(t, depth) { // never null
		switch (t.Kind) {
		case 1: {
			const es = this.values(World.elem(t), depth)
			const out = []
			if (es.length) {
				out.push([es[0]])
				if (t.Null) {
					out.push([null, es[0], null])
				}
				out.push(es.slice(), [], [es[es.length - 1], es[0]])
			} else {
				out.push([])
			}
			return out
		}
		case 2: {
			const es = this.values(World.elem(t), depth)
			const ks = this.keys(t)
			if (!es.length || !ks.length) {
				return [{R: {}}]
			}
			const all = {}
			ks.forEach((k, i) => all[k] = es[i % es.length])
			const out = [{R: {[ks[0]]: es[0]}}, {R: all}, {R: {}}]
			if (t.Null) {
				out.push({R: {[ks[0]]: null}})
			}
			return out
		}
		}
		switch (t.Ref) {
		case "enum":
			return this.enums[t.Name].map((n) => ({E: n})).reverse()
		case "data": {
			if (this.barren(t.Name) || this.endless(t.Name)) {
				return []
			}
			const out = []
			if (depth > 0) {
				const all = {}
				for (const f of this.data[t.Name].Fields) {
					const vs = this.values(f.Type, depth - 1)
					all[f.Name] = vs.length ? vs[0] : this.least(f.Type)
				}
				out.push({D: all})
			}
			out.push(this.leastData(t.Name))
			return out
		}
		}
		switch (t.Name) {
		case "int8":
			return [-128, 127, 0, 1]
		case "int16":
			return [-32768, 32767, 0]
		case "int32":
			return [-2147483648, 2147483647, 0]
		case "int64":
			return [{L: "-9223372036854775808"}, {L: "9223372036854775807"}, {L: "9007199254740993"}, {L: "0"}, {L: "-1"}]
		case "uint8":
			return [255, 0, 128]
		case "uint16":
			return [65535, 0]
		case "uint32":
			return [4294967295, 0]
		case "uint64":
			return [{L: "18446744073709551615"}, {L: "9007199254740993"}, {L: "0"}]
		case "bool":
			return [true, false]
		case "float":
			return [Math.fround(0.1), 0, 3.4028234663852886e38, -1.5]
		case "double":
			return [0.1, 0, 1.7976931348623157e308, -2.5, 5e-324]
		case "string":
			return ["a\"\\/\n\t", "", "中😀<&>\u2028\u0000", " "]
		case "date":
			return [{T: 1234567890123}, {T: 0}, {T: -1}]
		case "decimal":
			return [{N: "123456789012345678901234567890.123456789"}, {N: "0"}, {N: "-0.1"}, {N: "1000"}]
		}
		throw new Error("type " + t.Name)
	}

	keys(t) { // as text
		return this.values({Kind: 0, Name: t.Key, Ref: t.KeyRef}, 0).map((k) => {
			if (k !== null && typeof k === "object") {
				return String(k.L ?? k.N ?? k.T ?? k.E)
			}
			return String(k)
		})
	}

	make(t, v) {
		if (v === null) {
			return null
		}
		switch (t.Kind) {
		case 1:
			return v.map((x) => this.make(World.elem(t), x))
		case 2: {
			const r = {}
			for (const k in v.R) {
				r[k] = this.make(World.elem(t), v.R[k])
			}
			return r
		}
		}
		switch (t.Ref) {
		case "enum":
			return this.item(t.Name, v.E)
		case "data":
			return this.fill(t.Name, v)
		}
		switch (t.Name) {
		case "int64":
			return this.Long.fromString(v.L, false)
		case "uint64":
			return this.Long.fromString(v.L, true)
		case "date":
			return new Date(v.T)
		case "decimal":
			return new this.Decimal(v.N)
		}
		return v
	}

	item(key, n) {
		const c = this.cls(key)
		for (const k of Object.getOwnPropertyNames(c)) {
			if (c[k] instanceof c && c[k].value === n) {
				return c[k]
			}
		}
		throw new Error(`${key} has no item ${n}`)
	}

	fill(key, v) {
		const o = new (this.cls(key))()
		for (const f of this.data[key].Fields) {
			if (!Object.prototype.hasOwnProperty.call(o, f.Prop)) {
				throw new Bad(`there is no field ${f.Prop} for ${f.Name}`)
			}
			o[f.Prop] = this.make(f.Type, v.D[f.Name])
		}
		return o
	}

	// abs reads a value; a value that no value of the type may be is Bad.
	abs(t, v, at = "") {
		const bad = (w) => new Bad(`${at || "the value"} is ${show(v)}, ${w}`)
		if (v === null) {
			return null
		}
		if (v === undefined) {
			throw bad("not a value")
		}
		switch (t.Kind) {
		case 1:
			if (!Array.isArray(v)) {
				throw bad("no array")
			}
			return v.map((x, i) => this.abs(World.elem(t), x, `${at}[${i}]`))
		case 2: {
			if (typeof v !== "object" || Object.getPrototypeOf(v) !== Object.prototype) {
				throw bad("no record")
			}
			const r = {}
			for (const k of Object.keys(v)) {
				r[k] = this.abs(World.elem(t), v[k], `${at}[${k}]`)
			}
			return {R: r}
		}
		}
		switch (t.Ref) {
		case "enum":
			if (!(v instanceof this.cls(t.Name))) {
				throw bad("no item of " + t.Name)
			}
			return {E: v.value}
		case "data":
			return this.read(t.Name, v, at)
		}
		switch (t.Name) {
		case "int64":
		case "uint64":
			if (!(v instanceof this.Long)) {
				throw bad("no Long")
			}
			if (v.unsigned !== (t.Name === "uint64")) {
				throw bad("unsigned = " + v.unsigned)
			}
			return {L: v.toString()}
		case "bool":
			if (typeof v !== "boolean") {
				throw bad("no boolean")
			}
			return v
		case "string":
			if (typeof v !== "string") {
				throw bad("no string")
			}
			return v
		case "date":
			if (!(v instanceof Date)) {
				throw bad("no date")
			}
			return {T: v.getTime()}
		case "decimal":
			if (!(v instanceof this.Decimal)) {
				throw bad("no decimal")
			}
			return {N: v.toString()}
		}
		if (typeof v !== "number" || Number.isNaN(v)) {
			throw bad("no number")
		}
		return v
	}

	read(key, v, at = "") {
		if (Object.getPrototypeOf(v) !== this.cls(key).prototype) {
			throw new Bad(`${at || "the value"} is no ${key}`)
		}
		const o = {}
		for (const f of this.data[key].Fields) {
			if (!Object.prototype.hasOwnProperty.call(v, f.Prop)) {
				throw new Bad(`${at || "the value"} has no field ${f.Prop}`)
			}
			o[f.Name] = this.abs(f.Type, v[f.Prop], at + "." + f.Prop)
		}
		return {D: o}
	}
}

class Bad extends Error {
}

function show(v) {
	try {
		return v instanceof Object && v.constructor ? v.constructor.name + " " + JSON.stringify(v) : JSON.stringify(v) ?? String(v)
	} catch (e) {
		return String(v)
	}
}

// text of a model value: equal values have equal texts
function text(v) {
	if (v === null || typeof v !== "object") {
		return v === undefined ? "undefined" : Object.is(v, -0) ? "0" : JSON.stringify(v)
	}
	if (Array.isArray(v)) {
		return "[" + v.map(text).join(",") + "]"
	}
	return "{" + Object.keys(v).sort().map((k) => JSON.stringify(k) + ":" + text(v[k])).join(",") + "}"
}

// Mutable objects a value is made of.
function parts(w, v, out = new Set()) {
	if (v === null || typeof v !== "object" || v instanceof w.Long || v instanceof w.Decimal || out.has(v)) {
		return out
	}
	const p = Object.getPrototypeOf(v)
	if (v instanceof Date) {
		out.add(v)
		return out
	}
	if (p !== Object.prototype && !Array.isArray(v) && typeof v.toJson !== "function") {
		return out // an item
	}
	out.add(v)
	for (const k of Object.keys(v)) {
		parts(w, v[k], out)
	}
	return out
}

module.exports = {World, Bad, text, show, parts}
