// The driver of P18: node p18.js model.json
"use strict"
const fs = require("fs")
const {Loader} = require("./load")
const {say, flush} = require("./report")

const model = JSON.parse(fs.readFileSync(process.argv[2], "utf8"))
const loader = new Loader(model.Files)

for (const s of model.Servers) {
	say({s: "ts " + s.Key})
	try {
		const mod = loader.load(s.Unit, s.File)
		let calls = []
		const c = new mod[s.Name + "Client"]({invoke: (server, sid, name, id) => {
			calls.push([server, name, String(id)])
			return Promise.resolve(null)
		}})
		const proto = Object.getPrototypeOf(c)
		for (const k of Object.getOwnPropertyNames(proto)) {
			if (k === "constructor" || Object.getOwnPropertyDescriptor(proto, k).get) {
				continue
			}
			calls = []
			c[k]({})
			say({n: 1})
			say({f: ["ts client", s.Key, k, calls.length === 1 ? calls[0][1] : calls.length + " requests", calls[0] && calls[0][2], calls[0] && calls[0][0]]})
		}
		let called = []
		const r = new mod[s.Name + "Router"](new Proxy({}, {get: (t, k) => () => {
			called.push(k)
			return Promise.resolve(null)
		}}))
		const inv = r.getInvoke()
		for (const p of Object.keys(inv)) {
			called = []
			inv[p].invoke({}, undefined)
			say({n: 1})
			say({f: ["ts router", s.Key, called.join(" "), p, "", r.getName()]})
		}
	} catch (e) {
		say({v: s.Key, t: "TypeScript: " + String(e && e.stack || e)})
	}
}
say({end: true})
flush()
