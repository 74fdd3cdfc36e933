// The driver of P10: node p10.js model.json
"use strict"
const fs = require("fs")
const {Loader} = require("./load")
const {say, flush} = require("./report")

const model = JSON.parse(fs.readFileSync(process.argv[2], "utf8"))
const loader = new Loader(model.Files)
const norm = (s) => s.toLowerCase().replaceAll("_", "")

function throws(f) {
	try {
		return "gives " + f()
	} catch (e) {
		return ""
	}
}

function check(e, c) {
	if (!c) {
		return "there is no such class"
	}
	const got = c.values.map((x) => norm(x.name) + "=" + x.value)
	const want = e.Items.map((x) => norm(x.Name) + "=" + x.Value)
	if (got.join(" ") !== want.join(" ")) {
		return "the values are " + got.join(" ") + ", not " + want.join(" ")
	}
	const consts = Object.getOwnPropertyNames(c).filter((k) => c[k] instanceof c)
	if (consts.length !== c.values.length) {
		return "the constants are " + consts.join(" ")
	}
	for (const [i, x] of c.values.entries()) {
		say({n: 1})
		const k = consts.filter((k) => norm(k) === norm(e.Items[i].Name))
		if (k.length !== 1 || c[k[0]] !== x) {
			return "the item " + i + " of the values is not the constant " + e.Items[i].Name
		}
		if (typeof x.value !== "number" || c.valueOf(x.value) !== x) {
			return "valueOf(" + x.value + ") is another item than " + x.name
		}
		if (c.nameOf(x.name) !== x) {
			return "nameOf(" + x.name + ") is another item"
		}
		for (const v of [x.value + 1, x.value - 1, -x.value, NaN]) {
			const t = c.values.some((y) => y.value === v) ? "" : throws(() => c.valueOf(v))
			if (t) {
				return "valueOf(" + v + "), which is no item, " + t
			}
		}
		for (const s of [x.name + "x", x.name.slice(0, -1), x.name.slice(1), " " + x.name, x.name.toLowerCase(), x.name.toUpperCase(), "" + x.value, ""]) {
			const t = c.values.some((y) => y.name === s) ? "" : throws(() => c.nameOf(s))
			if (t) {
				return "nameOf(" + JSON.stringify(s) + "), which is no item, " + t
			}
		}
	}
	return ""
}

for (const e of model.Enums) {
	say({s: "ts " + e.Key})
	let t
	try {
		t = check(e, loader.load(e.Unit, "a.enum.ts")[e.Name])
	} catch (x) {
		t = String(x && x.stack || x)
	}
	if (t) {
		say({v: e.Group, t: "TypeScript " + e.Key + ": " + t})
	}
}
say({end: true})
flush()
