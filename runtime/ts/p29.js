// The driver of P29: node p29.js ts.json reads lines {k, j} and writes {j} or {e}, see drv/p29.
"use strict"
const fs = require("fs")
const readline = require("readline")
const {Loader} = require("./load")

const model = JSON.parse(fs.readFileSync(process.argv[2], "utf8"))
const loader = new Loader(model.Files)
const out = []
const lines = readline.createInterface({input: process.stdin, crlfDelay: Infinity})
lines.on("line", (s) => {
	const l = JSON.parse(s)
	try {
		const [dir, file, cls] = model.Where[l.k]
		out.push({j: JSON.stringify(loader.load(dir, file)[cls].fromJson(JSON.parse(l.j)).toJson())})
	} catch (e) {
		out.push({e: String(e && e.message !== undefined ? e.message : e)})
	}
})
lines.on("close", () => fs.writeFileSync(1, out.map((o) => JSON.stringify(o) + "\n").join("")))
