// The driver of P24: node p24.js model.json tier
"use strict"
const fs = require("fs")
const {Loader} = require("./load")
const {World, text, show} = require("./val")
const {context, render, walk} = require("./render")
const {say, flush} = require("./report")

const [, , modelFile, tier] = process.argv
const full = tier === "thorough"
const model = JSON.parse(fs.readFileSync(modelFile, "utf8"))
const loader = new Loader(model.Files)
const w = new World(model, loader)

const HOUR = 3600000
const toLocal = (t) => t === null || t === undefined ? t : new Date(new Date(t).getTime() + HOUR)
const toUtc = (t) => new Date(new Date(t).getTime() - HOUR)
const dates = ["date", "datetime", "dates", "year", "month"]
const ints = {int8: true, int16: true, int32: true, int64: true, uint8: false, uint16: false, uint32: false, uint64: false}

function same(what, a, b) {
	if (a !== b) {
		throw new Error(`${what} is ${show(b)}, not ${show(a)}`)
	}
}

function check(what, ok) {
	if (!ok) {
		throw new Error(what)
	}
}

// raw is the text of a value as it is in a field
function raw(v) {
	if (v === null || typeof v !== "object") {
		return v === undefined ? "undefined" : Object.is(v, -0) ? "0" : JSON.stringify(v) ?? String(v)
	}
	if (v instanceof Date) {
		return "date " + v.getTime()
	}
	if (v instanceof w.Long) {
		return `long ${v.unsigned} ${v}`
	}
	if (v instanceof w.Decimal) {
		return "decimal " + v
	}
	if (Array.isArray(v)) {
		return "[" + v.map(raw).join() + "]"
	}
	return (v.constructor ? v.constructor.name : "") + "{" + Object.keys(v).sort().map((k) => k + ":" + raw(v[k])).join() + "}"
}

const snap = (o) => Object.fromEntries(Object.keys(o).map((k) => [k, raw(o[k])]))

function sameFields(what, a, b, except) {
	for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
		if (k !== except && a[k] !== b[k]) {
			throw new Error(`${what} changes ${k} from ${a[k]} to ${b[k]}`)
		}
	}
}

const itemKey = (t, v) => {
	const name = w.where[t.Name][2]
	return name[0].toLowerCase() + name.slice(1) + "Lang." + model.Names[t.Name][String(v.value)]
}

// shown is the text that stands for a value; undefined: not determined
function shown(f, t, v) {
	if (v === null) {
		return ""
	}
	if (t.Kind !== 0) {
		return undefined
	}
	if (t.Ref === "enum") {
		return "text " + itemKey(t, v)
	}
	if (t.Ref === "data") {
		return undefined
	}
	switch (t.Name) {
	case "float":
	case "double":
	case "decimal":
		return v.toFixed(f.Digit)
	case "date":
		return {time: v, format: f.Format}
	}
	return String(v)
}

function sameText(what, f, t, v, got) {
	const e = shown(f, t, v)
	if (e === undefined) {
		return
	}
	if (v === null) {
		check(`${what} of nothing is ${show(got)}`, got === "" || got === null || got === undefined)
	} else if (typeof e === "string") {
		same(what, e, got)
	} else {
		check(`${what} is ${show(got)} for ${show(v)} in format ${f.Format}`, got && typeof got === "object" && got.time === e.time && got.format === e.format)
	}
}

// inputs of a text control: [text, the value it stands for (raw) or a test of what the field then is]
function inputs(f, t) {
	const out = []
	const no = (...texts) => texts.forEach((x) => out.push([x, (v) => v === null || typeof v === "string"]))
	if (World.optional(t)) {
		out.push(["", "null"])
	}
	if (t.Kind !== 0 || t.Ref === "data") {
		return []
	}
	const vals = w.values(t, 0).map((v) => w.make(t, v))
	if (t.Ref === "enum") {
		vals.forEach((v) => out.push([v.name, v]))
		return out
	}
	if (t.Name in ints) {
		const make = (x) => t.Name === "int64" ? w.Long.fromString(x, false) : t.Name === "uint64" ? w.Long.fromString(x, true) : Number(x)
		vals.forEach((v) => out.push([String(v), raw(v)]))
		for (const x of ["0", "5", "007", "+12"]) {
			out.push([x, raw(make(x.replace("+", "")))])
		}
		no("abc", "12abc", "a12", "1.5", "--1", "1-2", "0x10", "1 2")
		if (!ints[t.Name]) {
			no("-1")
		}
		return out
	}
	switch (t.Name) {
	case "float":
	case "double":
		vals.forEach((v) => out.push([v.toFixed(f.Digit), raw(parseFloat(v.toFixed(f.Digit)))]))
		out.push(["0", raw(0)], ["1.5", raw(1.5)], ["-0.25", raw(-0.25)], ["+3", raw(3)], ["1024", raw(1024)])
		no("abc", "12abc", "a1", "1.2.3", "--1", "1 2", "1,5")
		return out
	case "decimal":
		vals.forEach((v) => out.push([v.toFixed(f.Digit), raw(new w.Decimal(v.toFixed(f.Digit)))]))
		out.push(["0", raw(new w.Decimal("0"))], ["1.50", raw(new w.Decimal("1.5"))], ["-12345678901234567890.123", raw(new w.Decimal("-12345678901234567890.123"))])
		no("abc", "12abc", "a1", "1.2.3", "--1")
		return out
	case "bool":
		out.push(["true", raw(true)], ["false", raw(false)])
		return out
	case "string":
		vals.forEach((v) => out.push([v, raw(v === "" && World.optional(t) ? null : v)]))
		out.push(["null", raw("null")], ["0", raw("0")])
		return out
	case "date":
		for (const x of ["2020-02-03T04:05:06Z", "2020-02-03T04:05:06.789Z", "1969-12-31T23:59:59Z", "2020/02/03 04:05:06", "2020-02-03"]) {
			out.push([x, raw(new Date(x))])
		}
		no("abc", "2020-13-45")
		return out
	}
	return out
}

function endOfMonth(d) {
	return new Date(d.getFullYear(), d.getMonth() + 1, 0, 23, 59, 59, 999)
}

function endOfDay(d) {
	return new Date(d.getFullYear(), d.getMonth(), d.getDate(), 23, 59, 59, 999)
}

// picks are the events of a date picker and the values they stand for
function picks(f, t) {
	const a = () => new Date(2020, 0, 31, 10, 0, 0), b = () => new Date(2021, 1, 3, 0, 0, 0), c = () => new Date(1969, 11, 31, 23, 0, 0)
	const out = []
	if (World.optional(t)) {
		out.push([() => null, null])
	}
	const range = t.Kind === 1
	for (const [x, y] of [[a, b], [c, a], [b, b]]) {
		if (!range) {
			out.push(f.Form === "dates" ? [() => [x()], toUtc(x())] : [x, toUtc(x())])
		} else if (f.Form === "month") {
			out.push([() => [x(), y()], [toUtc(x()), toUtc(endOfMonth(y()))]])
		} else if (f.Form === "date") {
			out.push([() => [x(), y()], [toUtc(x()), toUtc(endOfDay(y()))]])
		} else {
			out.push([() => [x(), y()], [toUtc(x()), toUtc(y())]])
		}
	}
	if (range && (f.Form === "dates" || f.Form === "year")) {
		out.push([() => [a(), b(), c()], [toUtc(a()), toUtc(b()), toUtc(c())]], [() => [a()], [toUtc(a())]])
	}
	return out
}

const pickers = {
	datetime: ["datetime", "datetimerange"], month: ["month", "monthrange"], dates: ["dates", "dates"], year: ["year", "years"], date: ["date", "daterange"],
}

// kind tells which control a field has; undefined: not determined
function kind(f, t) {
	if (dates.includes(f.Form)) {
		return t.Name === "date" && t.Kind !== 2 ? "pick" : undefined
	}
	switch (f.Form) {
	case "menu":
	case "radio":
	case "radioButton":
		return t.Ref === "enum" && t.Kind === 0 ? f.Form : undefined
	case "switch":
		return t.Name === "bool" && t.Kind === 0 ? "switch" : undefined
	}
	if (f.Form !== "pass" && t.Kind === 1) {
		return "list"
	}
	return "text"
}

// one control below the item of a field
function control(item) {
	const l = item.children.filter((x) => x && typeof x === "object")
	check(`the item of ${item.props.prop} has ${l.length} controls`, l.length === 1)
	return l[0]
}

// sight checks what a form shows of a model
function sight(form, d, items, o) {
	const fs = form.fields.filter((f) => f.Form)
	same("the fields of the form", fs.map((f) => f.Prop).join(), items.map((x) => x.props.prop).join())
	fs.forEach((f, i) => {
		const t = f.Type, v = o[f.Prop], x = items[i], c = control(x)
		same("the item of " + f.Prop, "el-form-item", x.tag)
		same("the label of " + f.Prop, "text " + f.Label, x.props.label)
		same(`whether ${f.Prop} (${f.Form}) is only read`, f.OnlyRead, !!c.props.disabled)
		const opt = World.optional(t)
		const k = kind(f, t)
		if (k !== "radio" && k !== "radioButton" && k !== "switch" && k !== undefined) {
			same(`whether ${f.Prop} (${f.Form}) can be cleared`, opt, !!c.props.clearable)
		}
		switch (k) {
		case "pick":
			same("the control of " + f.Prop, "el-date-picker", c.tag)
			same("the kind of picker of " + f.Prop, pickers[f.Form][t.Kind], c.props.type)
			same("the date shown for " + f.Prop, raw(v === null ? null : t.Kind === 1 ? v.map(toLocal) : toLocal(v)), raw(c.props.modelValue ?? null))
			break
		case "menu":
		case "radio":
		case "radioButton": {
			const [tag, option] = {menu: ["el-select", "el-option"], radio: ["el-radio-group", "el-radio"], radioButton: ["el-radio-group", "el-radio-button"]}[k]
			same("the control of " + f.Prop, tag, c.tag)
			check(`${f.Prop} shows ${show(c.props["v-model"])}`, c.props["v-model"] === v)
			const all = w.enums[t.Name].map((n) => w.item(t.Name, n))
			const list = c.children.flat(9).filter((y) => y)
			same("the number of choices of " + f.Prop, all.length, list.length)
			list.forEach((y, j) => {
				same("a choice of " + f.Prop, option, y.tag)
				check(`choice ${j} of ${f.Prop} stands for ${show(y.props.value)}`, y.props.value === all[j])
				same(`choice ${j} of ${f.Prop}`, "text " + itemKey(t, all[j]), y.props.label)
			})
			break
		}
		case "switch":
			same("the control of " + f.Prop, "el-switch", c.tag)
			same("the switch of " + f.Prop, v ?? false, c.props.modelValue)
			break
		case "list":
			same("the control of " + f.Prop, "el-select", c.tag)
			check(`${f.Prop} shows ${show(c.props["v-model"])}`, c.props["v-model"] === v)
			check(`${f.Prop} is not for several values`, c.props.multiple === true)
			break
		case "text":
			same("the control of " + f.Prop, "el-input", c.tag)
			same(`whether ${f.Prop} is a password`, f.Form === "pass", c.props.type === "password")
			sameText("the text of " + f.Prop, f, t, v, c.props.modelValue)
		}
	})
}

// cells checks what a table shows of a row
function cells(form, items, o) {
	const fs = form.fields.filter((f) => f.Table)
	same("the columns of the table", fs.map((f) => f.Prop).join(), items.map((x) => x.props.prop).join())
	fs.forEach((f, i) => {
		const t = f.Type, v = o[f.Prop], x = items[i]
		same("the column of " + f.Prop, "el-table-column", x.tag)
		same("the title of " + f.Prop, "text " + f.Label, x.props.label)
		same("the width of " + f.Prop, f.Width, x.props["min-width"])
		const slots = x.children.filter((y) => y && typeof y === "object")
		check(`column ${f.Prop} has no cell`, slots.length === 1 && typeof slots[0].default === "function")
		const cell = slots[0].default({row: o, column: {}, $index: 0})
		switch (f.Table) {
		case "image": {
			const srcs = []
			const look = (e) => walk(e, (y) => {
				if ("src" in y.props) {
					srcs.push(y.props.src)
				}
				for (const s of y.children) {
					if (s && typeof s === "object" && !Array.isArray(s) && !("tag" in s)) {
						Object.values(s).forEach((z) => look(z()))
					}
				}
			})
			look(cell)
			check(`the picture of ${f.Prop} is ${show(srcs)}`, srcs.length > 0 && srcs.every((s) => s === v))
			break
		}
		case "switch":
			same("the cell of " + f.Prop, "el-switch", cell.tag)
			check(`the switch of ${f.Prop} shows ${show(cell.props["v-model"])}`, cell.props["v-model"] === v)
			check(`the switch of ${f.Prop} can be changed`, cell.props.disabled === true)
			break
		default:
			sameText("the cell of " + f.Prop, f, t, v, cell)
		}
	})
}

// verdict of the rules of an item, run as element-plus does
function verdict(rules, value) {
	for (const r of rules ?? []) {
		let e
		r.validator({}, value, (x) => e ??= x ?? null)
		if (e) {
			return e.message
		}
	}
	return null
}

function expected(f, value) {
	if (f.Type.Null && (value === null || value === "")) {
		return f.Rules[0].Null ? null : f.Rules[0].Text
	}
	for (const r of f.Rules) {
		if (r.Reg && !new RegExp(r.Reg).test(value ?? "")) {
			return r.Text
		}
		if (!r.Reg && !(/^[-+]?[0-9]+$/.test(String(value)) && value >= 3 && value <= 5)) {
			return r.Text
		}
	}
	return null
}

let n = 0
w.order = model.World.Order
for (const form of model.Forms) {
	const key = form.Key
	if (w.endless(key) || w.barren(key)) {
		continue
	}
	const group = form.Group
	const seen = new Set()
	const run = (what, f) => {
		say({s: group + " " + form.Hump + " " + what})
		try {
			f()
			seen.add(what)
			return true
		} catch (e) {
			say({v: group, t: `${form.Hump}: ${what}: ${e && e.message !== undefined ? e.message : e}`})
			return false
		}
	}
	const d = w.data[key]
	form.fields = (form.Fields ?? []).map((f) => ({...f, ...d.Fields.find((x) => x.Name === f.Name), Rules: f.Rules ?? []}))
	same("the fields", d.Fields.map((f) => f.Name).join(), form.fields.map((f) => f.Name).join())
	let mod = {}
	let ok = run("components", () => {
		if (model.Files[form.Unit][form.File] !== undefined) {
			mod = loader.load(form.Unit, form.File)
		}
		same("whether there is a form", form.Form, mod[form.Hump + "FormItems"] !== undefined)
		same("whether there is a table", form.Table, mod[form.Hump + "TableColumn"] !== undefined)
	})
	const items = (o, more) => render(mod[form.Hump + "FormItems"], context((k) => "text " + k, {$timeToLocal: toLocal, $timeToUtc: toUtc, model: o, ...more}))
	const columns = (more) => render(mod[form.Hump + "TableColumn"], context((k) => "text " + k, more))

	// every value of every field
	const first = {}, least = w.leastData(key).D, vals = {}
	for (const f of form.fields) {
		vals[f.Name] = w.values(f.Type, 1)
		if (World.optional(f.Type)) {
			vals[f.Name].push(null)
		}
		if (!vals[f.Name].length) {
			vals[f.Name].push(least[f.Name])
		}
		first[f.Name] = vals[f.Name][0]
	}
	const views = [first, least]
	let more = 0
	for (const f of form.fields) {
		more = Math.max(more, vals[f.Name].length)
	}
	for (let j = 1; j < more; j++) { // every value of every field, all fields at once and one alone
		const all = {}
		for (const f of form.fields) {
			all[f.Name] = vals[f.Name][Math.min(j, vals[f.Name].length - 1)]
		}
		views.push(all)
	}
	if (form.fields.length < 6) {
		for (const f of form.fields) {
			for (const v of vals[f.Name]) {
				views.push({...first, [f.Name]: v}, {...least, [f.Name]: v})
			}
		}
	}
	for (const v of views) {
		ok = ok && run("shows " + text({D: v}), () => {
			const o = w.fill(key, {D: v})
			const before = snap(o)
			if (form.Form) {
				const list = items(o)
				for (const f of form.fields) { // a switch shows nothing as false, and sets it
					if (f.Form === "switch" && before[f.Prop] === "null" && o[f.Prop] === false) {
						before[f.Prop] = "false"
					}
				}
				sameFields("showing", before, snap(o))
				sight(form, d, list, o)
				n++
			}
			if (form.Table) {
				const row = w.fill(key, {D: v})
				const filled = snap(row)
				cells(form, columns(), row)
				sameFields("showing in a table", filled, snap(row))
				n++
			}
			sameFields("showing", before, snap(o))
		})
	}

	// every input of every control
	if (form.Form) {
		const fs = form.fields.filter((f) => f.Form)
		fs.forEach((f, i) => {
			const t = f.Type, k = kind(f, t)
			let list = []
			switch (k) {
			case "text":
				list = inputs(f, t)
				break
			case "pick":
				list = picks(f, t).map(([e, v]) => [e, raw(v)])
				break
			case "switch":
				list = [[true, "true"], [false, "false"]]
			}
			for (const base of [first, least]) {
				for (const [e, want] of list) {
					const input = typeof e === "function" ? e() : e
					ok = ok && run(`${text({D: base})} gets ${raw(input)} for ${f.Prop} (${f.Form})`, () => {
						const o = w.fill(key, {D: base})
						const c = control(items(o)[i])
						const before = snap(o)
						check(`${f.Prop} takes no input`, typeof c.props["onUpdate:modelValue"] === "function")
						c.props["onUpdate:modelValue"](input)
						n++
						sameFields("input for " + f.Prop, before, snap(o), f.Prop)
						const v = o[f.Prop]
						if (typeof want === "function") {
							check(`${f.Prop} takes ${show(input)} as ${raw(v)}`, want(v))
						} else if (t.Ref === "enum" && want instanceof w.cls(t.Name)) {
							check(`${f.Prop} takes ${show(input)} as ${raw(v)}`, v === want)
						} else {
							same(`${f.Prop} after ${show(input)}`, want, raw(v))
							w.abs(t, v, f.Prop)
							const again = control(items(o)[i])
							if (k === "text") {
								sameText("the text of " + f.Prop, f, t, v, again.props.modelValue)
							}
						}
					})
				}
			}
		})
		// the rules of the fields
		fs.forEach((f, i) => {
			ok = ok && run("rules of " + f.Prop, () => {
				const x = items(w.fill(key, {D: first}))[i]
				if (!f.Rules.length) {
					check(`${f.Prop} has rules`, !x.props.rules)
					return
				}
				for (const v of f.Type.Name === "int32" ? [null, "", 2, 3, "4", 5, 6, "x"] : [null, "", "a", "b", "ab"]) {
					n++
					if (!f.Type.Null && v === null) {
						continue
					}
					same(`the verdict of ${f.Prop} on ${show(v)}`, expected(f, v), verdict(x.props.rules, v))
				}
			})
		})
	}

	// what is shown in which order
	if (form.fields.length <= 3 && (full || group.startsWith("order") || group.startsWith("which"))) {
		for (const [there, has, base] of [
			[form.Form, (f) => f.Form, (m) => items(w.fill(key, {D: first}), m)], [form.Table, (f) => f.Table, (m) => columns(m)]]) {
			if (!there) {
				continue
			}
			const own = form.fields.filter(has).map((f) => f.Prop)
			const names = [...own, "other"]
			const lists = [undefined, []]
			for (let size = 1; size <= 3; size++) {
				for (const l of lists.filter((x) => x && x.length === size - 1)) {
					names.forEach((x) => lists.push([...l, x]))
				}
			}
			const sets = [undefined]
			for (let m = 0; m < 1 << names.length; m++) {
				sets.push(names.filter((_, j) => m >> j & 1))
			}
			for (const position of lists) {
				for (const hide of sets) {
					for (const slots of sets.slice(1)) {
						if (slots.length > 1 && !full && slots.length < names.length) {
							continue
						}
						ok = ok && run(`position ${position} hide ${hide} slots ${slots}`, () => {
							const all = [...own, ...slots.filter((x) => !own.includes(x))]
							const want = []
							for (const x of position ?? []) {
								if (!want.includes(x) && all.includes(x)) {
									want.push(x)
								}
							}
							for (const x of all) {
								if (!want.includes(x) && !(hide ?? []).includes(x)) {
									want.push(x)
								}
							}
							const got = base({position, hide, $slots: Object.fromEntries(slots.map((x) => [x, () => ({tag: "slot", props: {prop: "slot " + x}, children: []})]))})
							n++
							same("the list", want.map((x) => slots.includes(x) ? "slot " + x : x).join(), got.map((x) => x.props.prop).join())
						})
					}
				}
			}
		}
	}
	say({n, tr: seen.size, o: ok ? "kept" : "lost"})
	n = 0
	if (seen.size % 31 === 0) {
		say({smp: group + ": " + [...seen][seen.size - 1]})
	}
}
say({end: true})
flush()
