// The driver of P16: node p16.js model.json tier shard shards
"use strict"
const fs = require("fs")
const {Loader} = require("./load")
const {World, text, show, parts} = require("./val")
const {say, flush} = require("./report")

const [, , modelFile, tier, shardText, shardsText] = process.argv
const shard = Number(shardText), shards = Number(shardsText), full = tier === "thorough"
const model = JSON.parse(fs.readFileSync(modelFile, "utf8"))
const w = new World(model, new Loader(model.Files))

function same(name, a, b) {
	const x = text(a), y = text(b)
	if (x !== y) {
		throw new Error(`${name}: ${y}, not ${x}`)
	}
}

function apart(name, a, b) {
	const p = parts(w, a)
	for (const x of parts(w, b)) {
		if (p.has(x)) {
			throw new Error(`${name} shares ${show(x)}`)
		}
	}
}

let at = 0
w.order = model.World.Order
for (const key of w.order) {
	if (at++ % shards !== shard) {
		continue
	}
	const d = w.data[key]
	if (w.endless(key) || w.barren(key)) {
		continue
	}
	let n = 0
	const seen = new Set()
	const run = (what, f) => {
		try {
			f()
			return true
		} catch (e) {
			say({v: d.Group, t: `${key}: ${what}: ${e && e.message !== undefined ? e.message : e}`})
			return false
		}
	}
	const check = (v) => {
		const id = v ? text(v) : "a new value"
		if (seen.has(id)) {
			return true
		}
		seen.add(id)
		say({s: d.Group + " " + id})
		return run(id, () => {
			const c = w.cls(key)
			const o = v ? w.fill(key, v) : new c()
			v ??= w.read(key, o)
			same("what was set", v, w.read(key, o))
			const j = o.toJson()
			n++
			const names = d.Fields.map((f) => f.Wire).sort()
			for (const m of Object.keys(j)) {
				if (!names.includes(m) && j[m] !== undefined) {
					throw new Error(`toJson writes a member ${m}`)
				}
			}
			for (const f of d.Fields) {
				if (v.D[f.Name] !== null && (j[f.Wire] === undefined || j[f.Wire] === null)) {
					throw new Error(`toJson writes ${show(j[f.Wire])} as ${f.Wire}`)
				}
			}
			same("the value after toJson", v, w.read(key, o))
			const t = JSON.stringify(j)
			const p = c.fromJson(JSON.parse(t))
			same("rebuilt from its JSON text " + t, v, w.read(key, p))
			const q = c.fromJson(o.toJson())
			same("rebuilt from its JSON form", v, w.read(key, q))
			apart("what is rebuilt from the JSON form", o, q)
			n += 2
			const k = o.clone()
			n++
			same("the clone", v, w.read(key, k))
			apart("the clone", o, k)
			same("the original after clone", v, w.read(key, o))
		})
	}
	const first = {}, least = w.leastData(key).D, vals = {}
	for (const f of d.Fields) {
		vals[f.Name] = w.values(f.Type, 2)
		if (World.optional(f.Type)) {
			vals[f.Name].push(null)
		}
		if (!vals[f.Name].length) {
			vals[f.Name].push(least[f.Name])
		}
		first[f.Name] = vals[f.Name][0]
	}
	let ok = check(null) && check({D: first}) && check({D: least})
	const fs2 = d.Fields
	for (let i = 0; ok && i < fs2.length; i++) {
		for (const a of vals[fs2[i].Name]) {
			ok = ok && check({D: {...first, [fs2[i].Name]: a}}) && check({D: {...least, [fs2[i].Name]: a}})
			for (let k = i + 1; ok && k < fs2.length && (full || fs2.length <= 2); k++) {
				for (const b of vals[fs2[k].Name]) {
					ok = ok && check({D: {...first, [fs2[i].Name]: a, [fs2[k].Name]: b}})
				}
			}
		}
	}
	// absent and null members
	const absent = (what, base, f, form) => run(what, () => {
		const c = w.cls(key)
		const j = JSON.parse(JSON.stringify(w.fill(key, {D: base}).toJson()))
		for (const x of f) {
			if (form === null) {
				j[x.Wire] = null
			} else {
				delete j[x.Wire]
			}
		}
		const r = w.read(key, c.fromJson(j)).D
		n++
		for (const x of fs2) {
			const e = f.includes(x) ? w.def(x.Type) : base[x.Name]
			if (e !== undefined && !text(e).includes("undefined")) {
				same(x.Name, e, r[x.Name])
			} else if (r[x.Name] === null) {
				throw new Error(`${x.Name} is null`)
			}
		}
	})
	for (const form of [null, undefined]) {
		ok = ok && absent(`all members ${form === null ? "null" : "absent"}`, first, fs2, form)
		for (const f of fs2) {
			ok = ok && absent(`${f.Wire} ${form === null ? "null" : "absent"}`, first, [f], form)
		}
	}
	// two values rebuilt from nothing are independent
	ok = ok && run("two empty values", () => {
		const c = w.cls(key)
		apart("a value rebuilt from nothing", c.fromJson({}), c.fromJson({}))
		apart("a new value", new c(), new c())
		n += 4
	})
	say({n, tr: seen.size + 1 + 2 * fs2.length, o: ok ? "kept" : "lost"})
	if (at % 97 === 0) {
		say({smp: d.Group + ": " + text({D: first})})
	}
}
say({end: true})
flush()
